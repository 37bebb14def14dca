----------------------------- MODULE ZipFormat -----------------------------
(* The ZIP64 file format, as far as it concerns stored (uncompressed)       *)
(* entries with data descriptors, as a strict reader sees it: what has to   *)
(* be at which place of a file that holds given entries.                    *)
(*                                                                          *)
(* A file is a sequence of recorded pieces [o |-> offset, x |-> bytes],     *)
(* since files of more than 4 GiB are not recorded as a whole. Offsets and  *)
(* sizes are 64 bit values in limbs (U64), bytes are in hexadecimal (Hex).  *)
(*                                                                          *)
(* An entry, as expected, is a record with                                  *)
(*   nx      name                                                           *)
(*   size    declared size (limbs)                                          *)
(*   crc     set of possible checksums                                      *)
(*   cx      content; of long entries only the beginning and end, tx        *)
(*   dt      set of possible <<time, date>> pairs                           *)
(*   mode    unix mode, type and permissions                                *)
(*   dir     whether it is a directory                                      *)
(*                                                                          *)
(* Every operator below gives the set of complaints about a part of a file. *)
EXTENDS Integers, Sequences, FiniteSets, U64, Hex, Crc32, ZipLayout

\* Bytes [off, off + n), or "" if they were not recorded
BytesAt(file, off, n) ==
    LET has(p) == /\ U64Le(p.o, off)
                  /\ LET d == U64Sub(off, p.o)
                     IN U64Fits31(d) /\ U64ToInt(d) <= HexLen(p.x) - n
        C == {k \in 1..Len(file) : has(file[k])}
    IN IF C = {} THEN ""
       ELSE LET p == file[CHOOSE k \in C : TRUE]
            IN HexSub(p.x, U64ToInt(U64Sub(off, p.o)), n)

Plus(off, n) == U64Add(off, U64Of(n))

C(name, holds) == IF holds THEN {} ELSE {name}

NameLen(e) == HexLen(e.nx)

IsAscii(x) == \A k \in 0..(HexLen(x) - 1) : HexAt(x, k) < 128

\* Versions that include ZIP64, up to the last one in the specification
VersionOk(v) == v % 256 \in 45..63
\* That needed to extract has no upper byte
NeededOk(v) == v \in 45..63
Bit(v, b) == (v \div (2 ^ b)) % 2 = 1
\* Of the general purpose flags only 3 (data descriptor) and 11 (UTF-8) apply
FlagsOk(v, nx) ==
    /\ v \in {0, 8, 2048, 2056}
    /\ Bit(v, 11) \/ IsAscii(nx)

AllOnes32 == <<65535, 65535>>
Zero32 == <<0, 0>>

(* The ZIP64 extra field with both sizes and the offset. In front of the    *)
(* data the sizes may be left out (zero), they are in the descriptor.       *)
Zip64ExtraOk(x, size, offset, sizesLater) ==
    /\ HexLen(x) = Zip64ExtraSize
    /\ HexU16(x, 0) = 1 /\ HexU16(x, 2) = Zip64ExtraSize - 4
    /\ \A f \in {4, 12} : HexU64(x, f) = size \/ (sizesLater /\ HexU64(x, f) = U64Zero)
    /\ HexU64(x, 20) = offset

LocalHeader(file, off, e) ==
    LET nl == NameLen(e)
        r == BytesAt(file, off, LhSize([nl |-> nl]))
    IN IF r = "" \/ HexU32(r, 0) # <<1027, 19280>> THEN {"format"}      \* PK 3 4
       ELSE C("format", /\ NeededOk(HexU16(r, 4))
                        /\ FlagsOk(HexU16(r, 6), e.nx) /\ Bit(HexU16(r, 6), 3)
                        /\ HexU16(r, 8) = 0
                        /\ HexU32(r, 14) \in {Zero32} \cup e.crc
                        /\ HexU32(r, 18) = AllOnes32 /\ HexU32(r, 22) = AllOnes32
                        /\ HexU16(r, 26) = nl
                        /\ HexU16(r, 28) = Zip64ExtraSize)
            \cup C("names", HexSub(r, 30, nl) = e.nx)
            \cup C("times", <<HexU16(r, 10), HexU16(r, 12)>> \in e.dt)
            \cup C("format", Zip64ExtraOk(HexSub(r, 30 + nl, Zip64ExtraSize), e.size, off, TRUE))

\* The data, as far as they are recorded
Content(file, off, e) ==
    LET n == HexLen(e.cx)
        t == HexLen(e.tx)
    IN C("content", /\ n > 0 => BytesAt(file, off, n) = e.cx
                    /\ t > 0 => BytesAt(file, U64Sub(U64Add(off, e.size), U64Of(t)), t) = e.tx)

Descriptor(file, off, e) ==
    LET r == BytesAt(file, off, DescriptorSize)
    IN IF r = "" \/ HexU32(r, 0) # <<2055, 19280>> THEN {"format"}      \* PK 7 8
       ELSE C("checksums", HexU32(r, 4) \in e.crc)
            \cup C("format", HexU64(r, 8) = e.size /\ HexU64(r, 16) = e.size)

CentralHeader(file, off, e, lh) ==
    LET nl == NameLen(e)
        r == BytesAt(file, off, CdhSize([nl |-> nl]))
    IN IF r = "" \/ HexU32(r, 0) # <<513, 19280>> THEN {"format"}       \* PK 1 2
       ELSE C("format", /\ VersionOk(HexU16(r, 4)) /\ HexU16(r, 4) \div 256 = 3
                        /\ NeededOk(HexU16(r, 6))
                        /\ FlagsOk(HexU16(r, 8), e.nx)
                        /\ HexU16(r, 10) = 0
                        /\ HexU32(r, 20) = AllOnes32 /\ HexU32(r, 24) = AllOnes32
                        /\ HexU16(r, 28) = nl
                        /\ HexU16(r, 30) = Zip64ExtraSize
                        /\ HexU16(r, 32) = 0 /\ HexU16(r, 34) = 0
                        /\ HexU16(r, 36) = 0                           \* Nobody knows them to be text
                        /\ HexU32(r, 42) = AllOnes32)
            \cup C("names", HexSub(r, 46, nl) = e.nx)
            \cup C("times", <<HexU16(r, 12), HexU16(r, 14)>> \in e.dt)
            \cup C("checksums", HexU32(r, 16) \in e.crc)
            \cup C("attrs", /\ HexU16(r, 40) = e.mode
                            /\ HexU16(r, 38) \in (IF e.dir THEN {0, 16} ELSE {0}))
            \cup C("format", Zip64ExtraOk(HexSub(r, 46 + nl, Zip64ExtraSize), e.size, lh, FALSE))

\* Both stored copies of the time agree, whatever it is
TimesAgree(file, lh, cdh) ==
    LET l == BytesAt(file, Plus(lh, 10), 4)
        c == BytesAt(file, Plus(cdh, 12), 4)
    IN C("format", l = c)

\* The checksums in the descriptor and in the central header agree
ChecksumsAgree(file, dd, cdh) ==
    C("format", BytesAt(file, Plus(dd, 4), 4) = BytesAt(file, Plus(cdh, 16), 4))

EndRecords(file, n, cd, end) ==
    LET r == BytesAt(file, end, EndSize)
        cdsize == U64Sub(end, cd)
        num16 == IF U64Fits31(n) /\ U64ToInt(n) < 65535 THEN {U64ToInt(n), 65535} ELSE {65535}
        low32(v) == IF v[3] = 0 /\ v[4] = 0 /\ ~(v[1] = 65535 /\ v[2] = 65535)
                    THEN {<<v[2], v[1]>>, AllOnes32} ELSE {AllOnes32}
    IN IF r = "" THEN {"format"}
       ELSE C("format",
           \* ZIP64 end of central directory record
           /\ HexU32(r, 0) = <<1542, 19280>>                            \* PK 6 6
           /\ HexU64(r, 4) = U64Of(44)
           /\ VersionOk(HexU16(r, 12)) /\ NeededOk(HexU16(r, 14))
           /\ HexU32(r, 16) = Zero32 /\ HexU32(r, 20) = Zero32
           /\ HexU64(r, 24) = n /\ HexU64(r, 32) = n
           /\ HexU64(r, 40) = cdsize /\ HexU64(r, 48) = cd
           \* its locator
           /\ HexU32(r, 56) = <<1798, 19280>>                           \* PK 6 7
           /\ HexU32(r, 60) = Zero32 /\ HexU64(r, 64) = end /\ HexU32(r, 72) = <<0, 1>>
           \* end of central directory record
           /\ HexU32(r, 76) = <<1541, 19280>>                           \* PK 5 6
           /\ HexU16(r, 80) \in {0, 65535} /\ HexU16(r, 82) \in {0, 65535}
           /\ HexU16(r, 84) \in num16 /\ HexU16(r, 86) \in num16
           /\ HexU32(r, 88) \in low32(cdsize) /\ HexU32(r, 92) \in low32(cd)
           /\ HexU16(r, 96) = 0)

(* The whole file: entries one after another, then the central directory    *)
(* headers in the same order, then the end records, and then nothing.       *)
RECURSIVE Locals(_, _, _)
Locals(file, off, es) ==
    IF es = <<>> THEN [bad |-> {}, at |-> <<>>, next |-> off]
    ELSE LET e == Head(es)
             data == Plus(off, LhSize([nl |-> NameLen(e)]))
             dd == U64Add(data, e.size)
             rest == Locals(file, Plus(dd, DescriptorSize), Tail(es))
         IN [bad |-> LocalHeader(file, off, e) \cup Content(file, data, e) \cup Descriptor(file, dd, e) \cup rest.bad,
             at |-> <<[lh |-> off, dd |-> dd]>> \o rest.at,
             next |-> rest.next]

RECURSIVE Centrals(_, _, _, _)
Centrals(file, off, es, at) ==
    IF es = <<>> THEN [bad |-> {}, next |-> off]
    ELSE LET e == Head(es)
             rest == Centrals(file, Plus(off, CdhSize([nl |-> NameLen(e)])), Tail(es), Tail(at))
         IN [bad |-> CentralHeader(file, off, e, Head(at).lh)
                     \cup TimesAgree(file, Head(at).lh, off)
                     \cup ChecksumsAgree(file, Head(at).dd, off) \cup rest.bad,
             next |-> rest.next]

Complaints(file, size, es) ==
    LET ls == Locals(file, U64Zero, es)
        cs == Centrals(file, ls.next, es, ls.at)
    IN ls.bad \cup cs.bad
       \cup EndRecords(file, U64Of(Len(es)), ls.next, cs.next)
       \cup C("format", Plus(cs.next, EndSize) = size)
       \cup C("format", BytesAt(file, size, 1) = "")
=============================================================================
