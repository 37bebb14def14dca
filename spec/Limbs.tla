------------------------------- MODULE Limbs -------------------------------
(* Unsigned arithmetic on words of four limbs, least significant first.     *)
(* TLC's integers have 32 bits; the words of the implementation have 64.    *)
(* With Base = 65536 these are the 64 bit words (module U64); LimbsModel    *)
(* checks the operators exhaustively against plain integers for a small     *)
(* base.                                                                    *)
EXTENDS Integers, Sequences
CONSTANT Base

LZero == <<0, 0, 0, 0>>
LMax == <<Base - 1, Base - 1, Base - 1, Base - 1>>
LOf(n) == <<n % Base, n \div Base, 0, 0>>   \* of 0 <= n < Base^2

(* Five limb sum, the fifth is the carry *)
LAddC(a, b) ==
    LET s1 == a[1] + b[1]
        s2 == a[2] + b[2] + (s1 \div Base)
        s3 == a[3] + b[3] + (s2 \div Base)
        s4 == a[4] + b[4] + (s3 \div Base)
    IN <<s1 % Base, s2 % Base, s3 % Base, s4 % Base, s4 \div Base>>

LOverflows(a, b) == LAddC(a, b)[5] # 0
LAdd(a, b) == SubSeq(LAddC(a, b), 1, 4)      \* modulo Base^4

LLt(a, b) ==
    \/ a[4] < b[4]
    \/ a[4] = b[4] /\ a[3] < b[3]
    \/ a[4] = b[4] /\ a[3] = b[3] /\ a[2] < b[2]
    \/ a[4] = b[4] /\ a[3] = b[3] /\ a[2] = b[2] /\ a[1] < b[1]
LLe(a, b) == a = b \/ LLt(a, b)

(* a - b, for b <= a *)
LSub(a, b) ==
    LET d1 == a[1] - b[1]
        w1 == IF d1 < 0 THEN 1 ELSE 0
        d2 == a[2] - b[2] - w1
        w2 == IF d2 < 0 THEN 1 ELSE 0
        d3 == a[3] - b[3] - w2
        w3 == IF d3 < 0 THEN 1 ELSE 0
        d4 == a[4] - b[4] - w3
    IN <<d1 + w1 * Base, d2 + w2 * Base, d3 + w3 * Base, d4>>

(* a * m + d for small m and d (m <= 10, d < Base); the fifth limb is the overflow *)
LMulAddC(a, m, d) ==
    LET p1 == a[1] * m + d
        p2 == a[2] * m + (p1 \div Base)
        p3 == a[3] * m + (p2 \div Base)
        p4 == a[4] * m + (p3 \div Base)
    IN <<p1 % Base, p2 % Base, p3 % Base, p4 % Base, p4 \div Base>>

(* Where a seek ends: org is "start", "cur" or "end", the offset is given   *)
(* by its sign and magnitude. "before": in front of the file; "over": not   *)
(* representable.                                                           *)
LSeek(pos, size, org, neg, mag) ==
    LET base == CASE org = "start" -> LZero [] org = "cur" -> pos [] OTHER -> size
    IN IF neg THEN IF LLe(mag, base) THEN [r |-> "ok", pos |-> LSub(base, mag)] ELSE [r |-> "before", pos |-> pos]
       ELSE IF LOverflows(base, mag) THEN [r |-> "over", pos |-> pos]
       ELSE [r |-> "ok", pos |-> LAdd(base, mag)]
=============================================================================
