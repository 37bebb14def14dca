----------------------------- MODULE TraceBulk -----------------------------
(* Archives of very many entries, parsed record by record: the walk through *)
(* the file is a behaviour, with one record for each step. Entry i (from 0) *)
(* has the name "e" and six decimal digits, and i % 4 bytes of content.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Json, IOUtils, ZipFormat, DosTime

Traces == ndJsonDeserialize(IOEnv.TRACES)
Enforced == ToSet(ndJsonDeserialize(IOEnv.ENFORCE)[1])

VARIABLES t, phase, i, off, cd, viol
vars == <<t, phase, i, off, cd, viol>>

Digit(k, d) == HexOfByte(48 + ((k \div d) % 10))
NameOf(k) == "65" \o Digit(k, 100000) \o Digit(k, 10000) \o Digit(k, 1000) \o Digit(k, 100) \o Digit(k, 10) \o Digit(k, 1)
ContentOf(k) ==
    LET b(j) == HexOfByte((k + 7 * j) % 256)
    IN CASE k % 4 = 0 -> "" [] k % 4 = 1 -> b(1) [] k % 4 = 2 -> b(1) \o b(2) [] OTHER -> b(1) \o b(2) \o b(3)

EntryAt(k) ==
    LET x == ContentOf(k)
    IN [nx |-> NameOf(k), size |-> U64Of(k % 4), cx |-> x, tx |-> "", dt |-> {DefaultTime},
        crc |-> {CrcOfHex(x)}, mode |-> 32768 + 420, dir |-> FALSE]

File == Traces[t].file
N == Traces[t].n

\* Offset of the local header of entry k: headers and descriptor are constant, contents take 6 bytes per four entries
ContentBefore(k) == 6 * (k \div 4) + (CASE k % 4 \in {0, 1} -> 0 [] k % 4 = 2 -> 1 [] OTHER -> 3)
LocalAt(k) == U64Of(k * (LhSize([nl |-> 7]) + DescriptorSize) + ContentBefore(k))

Init ==
    /\ t \in 1..Len(Traces)
    /\ phase = "start" /\ i = 0 /\ off = U64Zero /\ cd = U64Zero /\ viol = {}

Start ==
    /\ phase = "start"
    /\ phase' = IF N = 0 THEN "central" ELSE "local"
    /\ viol' = C("delivered", Traces[t].rd = "ok" /\ Traces[t].len = Traces[t].size)
               \cup C("announced", Traces[t].bsize = Traces[t].size)
    /\ UNCHANGED <<t, i, off, cd>>

Local ==
    /\ phase = "local"
    /\ LET e == EntryAt(i)
           data == Plus(off, LhSize([nl |-> 7]))
           dd == U64Add(data, e.size)
           next == Plus(dd, DescriptorSize)
       IN /\ viol' = LocalHeader(File, off, e) \cup Content(File, data, e) \cup Descriptor(File, dd, e)
                     \cup C("format", off = LocalAt(i))
          /\ off' = next
          /\ cd' = next
    /\ IF i + 1 = N THEN phase' = "central" /\ i' = 0 ELSE phase' = phase /\ i' = i + 1
    /\ UNCHANGED t

Central ==
    /\ phase = "central"
    /\ IF i = N
       THEN /\ phase' = "end" /\ UNCHANGED <<i, off, viol>>
       ELSE LET e == EntryAt(i) IN
            /\ viol' = CentralHeader(File, off, e, LocalAt(i))
            /\ off' = Plus(off, CdhSize([nl |-> 7]))
            /\ i' = i + 1 /\ phase' = phase
    /\ UNCHANGED <<t, cd>>

End ==
    /\ phase = "end"
    /\ viol' = EndRecords(File, U64Of(N), cd, off) \cup C("format", Plus(off, EndSize) = Traces[t].size)
    /\ phase' = "done"
    /\ UNCHANGED <<t, i, off, cd>>

Next == viol \cap Enforced = {} /\ (Start \/ Local \/ Central \/ End)
Spec == Init /\ [][Next]_vars

Accepted == viol \cap Enforced = {}
=============================================================================
