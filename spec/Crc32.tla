------------------------------- MODULE Crc32 -------------------------------
(* CRC-32 (IEEE 802.3, reflected), on values represented as <<high, low>>   *)
(* 16 bit halves.                                                           *)
EXTENDS Integers, Sequences, Bitwise, SequencesExt, TLC, Hex

Xor32(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>

Shr1(c) == <<c[1] \div 2, (c[2] \div 2) + (IF c[1] % 2 = 1 THEN 32768 ELSE 0)>>
Shr8(c) == <<c[1] \div 256, (c[2] \div 256) + ((c[1] % 256) * 256)>>

CrcPoly == <<60856, 33568>>   \* 0xEDB88320

CrcStep(c) == IF c[2] % 2 = 1 THEN Xor32(Shr1(c), CrcPoly) ELSE Shr1(c)

CrcTable == [b \in 0..255 |->
    CrcStep(CrcStep(CrcStep(CrcStep(CrcStep(CrcStep(CrcStep(CrcStep(<<0, b>>))))))))]

CrcByte(c, b) == Xor32(CrcTable[(c[2] ^^ b) % 256], Shr8(c))

CrcInit == <<65535, 65535>>
CrcFinal(c) == <<65535 - c[1], 65535 - c[2]>>

(* CRC-32 of a byte string in hexadecimal *)
CrcOfHex(s) ==
    CrcFinal(FoldLeft(LAMBDA c, i : CrcByte(c, HexAt(s, i - 1)), CrcInit,
                      [i \in 1..HexLen(s) |-> i]))
=============================================================================
