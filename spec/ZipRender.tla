----------------------------- MODULE ZipRender ------------------------------
(* The file, byte by byte: what is produced for given entries, as opposed   *)
(* to ZipFormat, which says what may be produced. Models that need actual   *)
(* files (ZipReader) take them from here, and RenderModel checks that the   *)
(* two agree.                                                               *)
(*                                                                          *)
(* An entry: nx (name), data (content), size (declared; the file has that   *)
(* many bytes of the content, or zeros after it), crc (stored checksum), dt *)
(* (<<time, date>>), mode.                                                  *)
EXTENDS Integers, Sequences, Hex, U64, ZipLayout

RECURSIVE Zeros(_)
Zeros(n) == IF n = 0 THEN "" ELSE "00" \o Zeros(n - 1)

Needed == 45                       \* version that includes ZIP64
Unix == 3
Ones16 == "ffff"
Ones32 == "ffffffff"
FlagsLocal == 8 + 2048             \* data descriptor, UTF-8
FlagsCentral == 2048

Zip64Extra(sizes, offset) ==
    HexOfU16(1) \o HexOfU16(Zip64ExtraSize - 4) \o HexOfU64(sizes) \o HexOfU64(sizes) \o HexOfU64(offset)

RenderLocal(e, offset) ==
    "504b0304" \o HexOfU16(Needed) \o HexOfU16(FlagsLocal) \o "0000"
    \o HexOfU16(e.dt[1]) \o HexOfU16(e.dt[2]) \o "00000000" \o Ones32 \o Ones32
    \o HexOfU16(HexLen(e.nx)) \o HexOfU16(Zip64ExtraSize) \o e.nx \o Zip64Extra(U64Zero, offset)

RenderData(e) ==
    LET n == HexLen(e.data) IN
    IF e.size <= n THEN HexSub(e.data, 0, e.size) ELSE e.data \o Zeros(e.size - n)

\* With sizes of 64 bits
RenderDescriptor64(crc, size) == "504b0708" \o HexOfU32(crc) \o HexOfU64(size) \o HexOfU64(size)
RenderDescriptor(e) == RenderDescriptor64(e.crc, U64Of(e.size))

RenderCentral64(e, size, offset) ==
    "504b0102" \o HexOfU16(Needed + 256 * Unix) \o HexOfU16(Needed) \o HexOfU16(FlagsCentral) \o "0000"
    \o HexOfU16(e.dt[1]) \o HexOfU16(e.dt[2]) \o HexOfU32(e.crc) \o Ones32 \o Ones32
    \o HexOfU16(HexLen(e.nx)) \o HexOfU16(Zip64ExtraSize) \o "0000" \o "0000" \o "0000"
    \o "0000" \o HexOfU16(e.mode) \o Ones32 \o e.nx \o Zip64Extra(size, offset)
RenderCentral(e, offset) == RenderCentral64(e, U64Of(e.size), offset)

RenderEnd64(n, cd, end) ==
    "504b0606" \o HexOfU64(U64Of(44)) \o HexOfU16(Needed + 256 * Unix) \o HexOfU16(Needed)
    \o "00000000" \o "00000000" \o HexOfU64(U64Of(n)) \o HexOfU64(U64Of(n))
    \o HexOfU64(U64Sub(end, cd)) \o HexOfU64(cd)
    \o "504b0607" \o "00000000" \o HexOfU64(end) \o HexOfU32(<<0, 1>>)
    \o "504b0506" \o "0000" \o "0000" \o Ones16 \o Ones16 \o Ones32 \o Ones32 \o "0000"

RenderEnd(n, cd, end) == RenderEnd64(n, U64Of(cd), U64Of(end))

(* Places within the records whose bytes may differ, as ZipFormat leaves    *)
(* them open: versions, flags, the checksum and the sizes in front of the   *)
(* data, fields that are superseded by ZIP64                                *)
OpenLocal(nl) == {4, 6, 7} \cup (14..17) \cup {30 + nl + o : o \in 4..19}
OpenCentral == {4, 6, 8, 9, 38}
OpenEnd == {12, 13, 14} \cup (80..95)

RECURSIVE Concat(_)
Concat(s) == IF s = <<>> THEN "" ELSE Head(s) \o Concat(Tail(s))

Render(es) ==
    LET n == Len(es)
        lay == LayoutOf([k \in 1..n |-> [nl |-> HexLen(es[k].nx), size |-> es[k].size]])
    IN Concat([k \in 1..n |-> RenderLocal(es[k], U64Of(lay.lh[k])) \o RenderData(es[k]) \o RenderDescriptor(es[k])])
       \o Concat([k \in 1..n |-> RenderCentral(es[k], U64Of(lay.lh[k]))])
       \o RenderEnd(n, lay.cd, lay.eocd)
=============================================================================
