------------------------------ MODULE ZipWide -------------------------------
(* Archives of any size, up to 2^64 - 1 bytes: what each of their bytes has *)
(* to be. The file is a sequence of parts - records, which ZipRender        *)
(* renders, and data. Data of small entries are listed; byte i of a large   *)
(* one is DataByte(seed, i), which the driver's sources compute likewise.   *)
(*                                                                          *)
(* Archives are as in Archives, where entries have in addition nx (name),   *)
(* sizel and actuall (sizes), seed.                                         *)
EXTENDS ZipRender, FiniteSets, TLC, SequencesExt, Archives, Crc32, DosTime

(* Depends on every bit of i, and differs for neighbours *)
DataByte(seed, i) ==
    ((i[1] % 256) * 167 + (i[1] \div 256) * 91 + (i[2] % 256) * 59 + (i[2] \div 256) * 13
     + (i[3] % 256) * 101 + (i[3] \div 256) * 37 + (i[4] % 256) * 83 + (i[4] \div 256) * 29 + (seed % 256) * 53) % 256

(* n bytes of the data of an entry from offset o; none when it has fewer *)
DataHex(e, o, n) ==
    IF "data" \in DOMAIN e
    THEN IF U64Le(U64Add(o, U64Of(n)), U64Of(HexLen(e.data))) THEN HexSub(e.data, U64ToInt(o), n) ELSE ""
    ELSE FoldLeft(LAMBDA h, k : h \o HexOfByte(DataByte(e.seed, U64Add(o, U64Of(k - 1)))), "", [k \in 1..n |-> k])

WideCrc(e) == IF e.gk = "none" THEN CrcOfHex(e.data) ELSE e.given
FileMode == 33188

Part(at, x, open) == [at |-> at, len |-> U64Of(HexLen(x)), x |-> x, open |-> open, e |-> 0]

WidePartsOf(A) ==
    LET es == A.entries
        n == Len(es)
        \* Offsets of the local headers, and of the central directory at the end
        lh[i \in 1..(n + 1)] ==
            IF i = 1 THEN U64Zero
            ELSE U64Add(lh[i - 1], U64Add(es[i - 1].sizel, U64Of(LhSize(es[i - 1]) + DescriptorSize)))
        cdh[i \in 1..(n + 1)] == IF i = 1 THEN lh[n + 1] ELSE U64Add(cdh[i - 1], U64Of(CdhSize(es[i - 1])))
        R(i) == [nx |-> es[i].nx, dt |-> DefaultTime, mode |-> FileMode, crc |-> WideCrc(es[i])]
        data(i) == U64Add(lh[i], U64Of(LhSize(es[i])))
        Of(i) == << Part(lh[i], RenderLocal(R(i), lh[i]), OpenLocal(es[i].nl)),
                    [at |-> data(i), len |-> es[i].sizel, x |-> "", open |-> {}, e |-> i],
                    Part(U64Add(data(i), es[i].sizel), RenderDescriptor64(WideCrc(es[i]), es[i].sizel), {}) >>
    IN [k \in 1..(3 * n) |-> Of((k + 2) \div 3)[((k - 1) % 3) + 1]]
       \o [i \in 1..n |-> Part(cdh[i], RenderCentral64(R(i), es[i].sizel, lh[i]), OpenCentral)]
       \o << Part(cdh[n + 1], RenderEnd64(n, cdh[1], cdh[n + 1]), OpenEnd) >>

WideParts == TLCEval([a \in 1..Len(Archs) |-> WidePartsOf(Archs[a])])

WideTotal(a) == LET p == Last(WideParts[a]) IN U64Add(p.at, p.len)

(* The part that position pos is in: the last one that begins there or      *)
(* before. It is one of lo .. hi.                                           *)
RECURSIVE AmongIn(_, _, _, _)
AmongIn(a, pos, lo, hi) ==
    IF lo = hi THEN lo
    ELSE LET mid == (lo + hi + 1) \div 2
         IN IF U64Le(WideParts[a][mid].at, pos) THEN AmongIn(a, pos, mid, hi) ELSE AmongIn(a, pos, lo, mid - 1)
Among(a, pos) == AmongIn(a, pos, 1, Len(WideParts[a]))

(* Are the bytes h those of part p from offset o? *)
PieceOk(a, p, o, h) ==
    IF p.e # 0 THEN h = DataHex(Archs[a].entries[p.e], o, HexLen(h))
    ELSE LET at == U64ToInt(o) IN
         \A i \in 0..(HexLen(h) - 1) : at + i \in p.open \/ HexSub(h, i, 1) = HexSub(p.x, at + i, 1)

RECURSIVE Pieces(_, _, _, _)
Pieces(a, k, o, h) ==
    \/ h = ""
    \/ /\ k <= Len(WideParts[a])
       /\ LET p == WideParts[a][k]
              left == U64Sub(p.len, o)
              m == IF U64Lt(left, U64Of(HexLen(h))) THEN U64ToInt(left) ELSE HexLen(h)
          IN PieceOk(a, p, o, HexSub(h, 0, m)) /\ Pieces(a, k + 1, U64Zero, HexSub(h, m, HexLen(h) - m))

(* Are the bytes h those of archive a from position pos? *)
WideBytes(a, pos, h) ==
    \/ h = ""
    \/ /\ U64Lt(pos, WideTotal(a))
       /\ LET k == Among(a, pos) IN Pieces(a, k, U64Sub(pos, WideParts[a][k].at), h)

(* The first entry (declared non-empty) of another length than declared *)
WideWrong == TLCEval([a \in 1..Len(Archs) |->
    LET W == {i \in 1..Len(Archs[a].entries) :
                Archs[a].entries[i].sizel # U64Zero /\ Archs[a].entries[i].sizel # Archs[a].entries[i].actuall}
    IN IF W = {} THEN 0 ELSE CHOOSE i \in W : \A j \in W : i <= j])
WideData(a, i) == WideParts[a][3 * i - 1].at
=============================================================================
