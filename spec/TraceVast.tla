----------------------------- MODULE TraceVast -----------------------------
(* Archives whose central directory has more than 4 GiB: so many entries    *)
(* with such long names that sizes and offsets within the directory need    *)
(* more than 32 bits, too. Entries are empty; entry i (from 0) has six      *)
(* decimal digits and then x's as its name. Records of some entries and the *)
(* end of the file are read, and have to be where the layout says.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Json, IOUtils, ZipFormat, DosTime

Traces == ndJsonDeserialize(IOEnv.TRACES)
Enforced == ToSet(ndJsonDeserialize(IOEnv.ENFORCE)[1])

VARIABLES t, k, viol
vars == <<t, k, viol>>

T == Traces[t]
Digit(i, d) == HexOfByte(48 + ((i \div d) % 10))
RECURSIVE Xs(_)
Xs(n) == IF n = 0 THEN "" ELSE LET h == Xs(n \div 2) IN IF n % 2 = 1 THEN h \o h \o "78" ELSE h \o h
NameOf(i) == Digit(i, 100000) \o Digit(i, 10000) \o Digit(i, 1000) \o Digit(i, 100) \o Digit(i, 10) \o Digit(i, 1) \o Xs(T.nl - 6)
EntryAt(i) == [nx |-> NameOf(i), size |-> U64Zero, cx |-> "", tx |-> "", dt |-> {DefaultTime}, crc |-> {CrcOfHex("")}, mode |-> 32768 + 420, dir |-> FALSE]

RECURSIVE Times(_, _)
Times(n, m) == IF m = 0 THEN U64Zero ELSE LET h == Times(n, m \div 2) d == U64Add(h, h) IN IF m % 2 = 1 THEN U64Add(d, U64Of(n)) ELSE d

Lh == LhSize([nl |-> T.nl])
Cdh == CdhSize([nl |-> T.nl])
LocalAt(i) == Times(Lh + DescriptorSize, i)
CdAt == LocalAt(T.n)
CentralAt(i) == U64Add(CdAt, Times(Cdh, i))
EndAt == CentralAt(T.n)

Init == t \in 1..Len(Traces) /\ k = 0 /\ viol = {}

Whole ==
    /\ k = 0
    /\ viol' = C("delivered", T.rd = "ok")
               \cup C("announced", T.bsize = T.size)
               \cup C("format", Plus(EndAt, EndSize) = T.size)
               \cup EndRecords(T.file, U64Of(T.n), CdAt, EndAt)
    /\ k' = 1 /\ UNCHANGED t

Entry ==
    /\ k \in 1..Len(T.picks)
    /\ LET i == T.picks[k]
           e == EntryAt(i)
       IN viol' = LocalHeader(T.file, LocalAt(i), e) \cup Descriptor(T.file, Plus(LocalAt(i), Lh), e)
                  \cup CentralHeader(T.file, CentralAt(i), e, LocalAt(i))
    /\ k' = k + 1 /\ UNCHANGED t

Next == viol \cap Enforced = {} /\ (Whole \/ Entry)
Spec == Init /\ [][Next]_vars

Accepted == viol \cap Enforced = {}
=============================================================================
