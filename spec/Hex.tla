-------------------------------- MODULE Hex --------------------------------
(* Byte strings are carried through traces as lower case hexadecimal        *)
(* strings: TLC compares and slices TLA+ strings natively.                  *)
EXTENDS Integers, Sequences, TLC

HexDigits == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>

(* One digit -> 0 .. 15. An explicit record, which TLC evaluates only once *)
HexDigitVal == ("0" :> 0) @@ ("1" :> 1) @@ ("2" :> 2) @@ ("3" :> 3) @@ ("4" :> 4) @@ ("5" :> 5) @@ ("6" :> 6) @@ ("7" :> 7)
            @@ ("8" :> 8) @@ ("9" :> 9) @@ ("a" :> 10) @@ ("b" :> 11) @@ ("c" :> 12) @@ ("d" :> 13) @@ ("e" :> 14) @@ ("f" :> 15)

HexLen(s) == Len(s) \div 2

(* Bytes [from, from + n) of s, offsets counted from 0 *)
HexSub(s, from, n) == SubSeq(s, 2 * from + 1, 2 * (from + n))

(* Byte at offset i (from 0) *)
HexAt(s, i) == 16 * HexDigitVal[SubSeq(s, 2 * i + 1, 2 * i + 1)] + HexDigitVal[SubSeq(s, 2 * i + 2, 2 * i + 2)]

HexOfByte(b) == HexDigits[(b \div 16) + 1] \o HexDigits[(b % 16) + 1]

(* Little endian 16 bit value at offset i *)
HexU16(s, i) == HexAt(s, i) + 256 * HexAt(s, i + 1)

HexOfU16(v) == HexOfByte(v % 256) \o HexOfByte(v \div 256)

(* 32 bit values do not fit TLC's integers: pairs <<high, low>> of 16 bits  *)
HexU32(s, i) == <<HexU16(s, i + 2), HexU16(s, i)>>
HexOfU32(p) == HexOfU16(p[2]) \o HexOfU16(p[1])

(* 64 bit values are four 16 bit limbs, least significant first (see U64)   *)
HexU64(s, i) == <<HexU16(s, i), HexU16(s, i + 2), HexU16(s, i + 4), HexU16(s, i + 6)>>
HexOfU64(v) == HexOfU16(v[1]) \o HexOfU16(v[2]) \o HexOfU16(v[3]) \o HexOfU16(v[4])
=============================================================================
