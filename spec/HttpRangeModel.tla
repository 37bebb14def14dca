--------------------------- MODULE HttpRangeModel ---------------------------
(* All header values "bytes=" + up to MaxLen symbols, for a file of 98      *)
(* bytes (the smallest one): what HttpRange permits is never nothing, is    *)
(* always inside the file, and is definite and right for the headers that   *)
(* have an evident meaning. Also gives the headers for replay.              *)
EXTENDS HttpRange, TLC, Json
CONSTANTS MaxLen, Emits

Size == 98
Symbols == {48, 55, 56, 57, Dash, Comma, 32}     \* 0 7 8 9 - , blank
VARIABLE x
Init == x = <<>>
Next == Len(x) < MaxLen /\ \E c \in Symbols : x' = Append(x, c)
Spec == Init /\ [][Next]_x

Hdr == Unit \o x
Res == Allowed(Hdr, U64Of(Size))

RECURSIVE HexOf(_)
HexOf(b) == IF b = <<>> THEN "" ELSE HexOfByte(b[1]) \o HexOf(Tail(b))

Inside == /\ Res # {}
          /\ \A o \in Res : o.st = "part" => U64Le(o.s, o.e) /\ U64ToInt(o.e) < Size

\* Numbers written in the usual way, without going through limbs
Plain(n) == IsNumber(n) /\ (Len(n) = 1 \/ n[1] # 48)
RECURSIVE Val(_)
Val(n) == IF n = <<>> THEN 0 ELSE 10 * Val(SubSeq(n, 1, Len(n) - 1)) + n[Len(n)] - 48
Right ==
    \A d \in 1..Len(x) :
        LET a == SubSeq(x, 1, d - 1)
            b == SubSeq(x, d + 1, Len(x))
            mn(p, q) == IF p < q THEN p ELSE q
        IN x[d] = Dash =>
            /\ Plain(a) /\ b = <<>> /\ Val(a) < Size => Res = {Part(U64Of(Val(a)), U64Of(Size - 1))}
            /\ Plain(a) /\ Plain(b) /\ Val(a) <= Val(b) /\ Val(a) < Size => Res = {Part(U64Of(Val(a)), U64Of(mn(Val(b), Size - 1)))}
            /\ a = <<>> /\ Plain(b) /\ Val(b) \in 1..Size => Res = {Part(U64Of(Size - Val(b)), U64Of(Size - 1))}
            /\ Plain(a) /\ (b = <<>> \/ (Plain(b) /\ Val(b) >= Val(a))) /\ Val(a) >= Size => Res = {Unsat}
NoNumbers == (\A i \in 1..Len(x) : ~IsDigit(x[i])) => Res = {Bad}
NoDashes == (\A i \in 1..Len(x) : x[i] # Dash) => Res = {Bad}

Emit == Emits => PrintT("BEHAVIOUR " \o ToJson([hdr |-> HexOf(Hdr)]))
=============================================================================
