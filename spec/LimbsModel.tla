----------------------------- MODULE LimbsModel -----------------------------
(* Words of four limbs against plain integers, exhaustively: a seek from    *)
(* any position of files of any size, by any offset, in a world whose words *)
(* have B^4 values.                                                         *)
EXTENDS Integers, Sequences, TLC
CONSTANT B

M == INSTANCE Limbs WITH Base <- B

Top == B * B * B * B
Words == 0..(Top - 1)
ToLimbs(n) == <<n % B, (n \div B) % B, (n \div (B * B)) % B, n \div (B * B * B)>>
ToInt(l) == l[1] + B * l[2] + B * B * l[3] + B * B * B * l[4]

VARIABLES pos, size, last
vars == <<pos, size, last>>

Init == pos = 0 /\ size \in Words /\ last = [org |-> "start", off |-> 0, from |-> 0, r |-> "ok"]

(* As the implementation: signed offsets have half the range *)
Offsets(org) == IF org = "start" THEN Words ELSE (-(Top \div 2))..((Top \div 2) - 1)

Abs(x) == IF x < 0 THEN -x ELSE x

Seek(org, off) ==
    LET s == M!LSeek(ToLimbs(pos), ToLimbs(size), org, off < 0, ToLimbs(Abs(off)))
    IN /\ pos' = ToInt(s.pos)
       /\ last' = [org |-> org, off |-> off, from |-> pos, r |-> s.r]
       /\ size' = size

Next == \E org \in {"start", "cur", "end"} : \E off \in Offsets(org) : Seek(org, off)
Spec == Init /\ [][Next]_vars

(* The position is the mathematically right one, or unchanged if that is    *)
(* negative or too big                                                      *)
Exact ==
    LET base == CASE last.org = "start" -> 0 [] last.org = "cur" -> last.from [] OTHER -> size
        want == base + last.off
    IN IF want < 0 THEN last.r = "before" /\ pos = last.from
       ELSE IF want >= Top THEN last.r = "over" /\ pos = last.from
       ELSE last.r = "ok" /\ pos = want
(* The arithmetic itself *)
ArithmeticOk ==
    LET a == ToLimbs(pos) b == ToLimbs(size) IN
    /\ ToInt(a) = pos
    /\ ToInt(M!LAdd(a, b)) = (pos + size) % Top
    /\ M!LOverflows(a, b) <=> pos + size >= Top
    /\ M!LLt(a, b) <=> pos < size
    /\ M!LLe(a, b) <=> pos <= size
    /\ size <= pos => ToInt(M!LSub(a, b)) = pos - size
=============================================================================
