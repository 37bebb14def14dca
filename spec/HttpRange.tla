----------------------------- MODULE HttpRange ------------------------------
(* What a response to a request with a given Range header may be, for a     *)
(* file of given size (RFC 9110, restricted to what the library promises).  *)
(*                                                                          *)
(* Headers are sequences of byte values, numbers are 64 bit limbs. Allowed  *)
(* is the set of permitted outcomes:                                        *)
(*   [st |-> "full"]                       200 without Content-Range        *)
(*   [st |-> "part", s |-> _, e |-> _]     bytes s..e (206, or 200 if that  *)
(*                                         is all of the file)              *)
(*   [st |-> "unsat"]                      416                              *)
(*   [st |-> "bad"]                        400                              *)
(* It has one element wherever the property is definite. Where the RFC and  *)
(* the library (which is stricter) differ, both outcomes are permitted.     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, U64, Hex

Dash == 45
Comma == 44
IsDigit(c) == c \in 48..57
IsBlank(c) == c \in {32, 9}

Full == [st |-> "full", s |-> U64Zero, e |-> U64Zero]
Part(a, b) == [st |-> "part", s |-> a, e |-> b]
Unsat == [st |-> "unsat", s |-> U64Zero, e |-> U64Zero]
Bad == [st |-> "bad", s |-> U64Zero, e |-> U64Zero]

RECURSIVE StripFront(_)
StripFront(x) == IF x # <<>> /\ IsBlank(x[1]) THEN StripFront(Tail(x)) ELSE x
RECURSIVE StripBack(_)
StripBack(x) == IF x # <<>> /\ IsBlank(x[Len(x)]) THEN StripBack(SubSeq(x, 1, Len(x) - 1)) ELSE x
Strip(x) == StripBack(StripFront(x))

\* Sequence of the parts of x between separators
SplitAt(x, sep) ==
    LET at == {i \in 1..Len(x) : x[i] = sep}
        cuts == SetToSortSeq(at, LAMBDA a, b : a < b)
        n == Len(cuts)
        from(i) == IF i = 1 THEN 1 ELSE cuts[i - 1] + 1
        to(i) == IF i = n + 1 THEN Len(x) ELSE cuts[i] - 1
    IN [i \in 1..(n + 1) |-> SubSeq(x, from(i), to(i))]

IsNumber(x) == x # <<>> /\ \A i \in 1..Len(x) : IsDigit(x[i])

\* Value of a number, at most 2^64 - 1, and whether it fits
Number(x) ==
    FoldLeft(LAMBDA r, c : LET m == U64MulAddC(r.v, 10, c - 48)
                           IN IF m[5] # 0 \/ ~r.fits THEN [v |-> U64Max, fits |-> FALSE]
                              ELSE [v |-> SubSeq(m, 1, 4), fits |-> TRUE],
             [v |-> U64Zero, fits |-> TRUE], x)
NumberIsPlain(x) == Number(x).fits /\ (Len(x) = 1 \/ x[1] # 48)

(* One range: k is "from" (a-b, a-) or "last" (-n), or "bad"; plain if it   *)
(* is written in the way that everybody accepts.                            *)
RangeSpec(x0) ==
    LET x == Strip(x0)
        dashes == {i \in 1..Len(x) : x[i] = Dash}
        d == CHOOSE i \in dashes : TRUE
        a == SubSeq(x, 1, d - 1)
        b == SubSeq(x, d + 1, Len(x))
        plain == x = x0 /\ (a = <<>> \/ NumberIsPlain(a)) /\ (b = <<>> \/ NumberIsPlain(b))
    IN IF Cardinality(dashes) # 1 THEN [k |-> "bad", plain |-> TRUE, a |-> U64Zero, b |-> U64Zero]
       ELSE IF a = <<>> /\ IsNumber(b)
            THEN [k |-> "last", plain |-> plain, a |-> Number(b).v, b |-> U64Zero]
       ELSE IF IsNumber(a) /\ (b = <<>> \/ IsNumber(b))
            THEN [k |-> "from", plain |-> plain, a |-> Number(a).v, b |-> IF b = <<>> THEN U64Max ELSE Number(b).v]
       ELSE [k |-> "bad", plain |-> TRUE, a |-> U64Zero, b |-> U64Zero]

Min64(x, y) == IF U64Le(x, y) THEN x ELSE y

\* The outcomes permitted for a single range
One(r, size) ==
    LET top == U64Sub(size, U64Of(1)) IN
    CASE r.k = "last" /\ r.a = U64Zero -> {Bad, Unsat}
      [] r.k = "last" /\ U64Lt(size, r.a) -> {Unsat, Part(U64Zero, top)}
      [] r.k = "last" -> {Part(U64Sub(size, r.a), top)}
      [] r.k = "from" /\ U64Lt(r.b, r.a) -> {Bad, Unsat}
      [] r.k = "from" /\ U64Le(size, r.a) -> {Unsat}
      [] r.k = "from" -> {Part(r.a, Min64(r.b, top))}
      [] OTHER -> {Bad}

Definite(r, size) == Cardinality(One(r, size)) = 1 /\ \A o \in One(r, size) : o.st = "part"
TheOne(r, size) == CHOOSE o \in One(r, size) : TRUE

Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
Unit == <<98, 121, 116, 101, 115, 61>>     \* "bytes="

Allowed(x0, size) ==
    LET x == Strip(x0)
        unit == SubSeq(x, 1, 6)
        hasUnit == Len(x) >= 6 /\ [i \in 1..6 |-> Lower(unit[i])] = Unit
        parts == SplitAt(SubSeq(x, 7, Len(x)), Comma)
        rs0 == [i \in 1..Len(parts) |-> RangeSpec(parts[i])]
        empty(i) == Strip(parts[i]) = <<>>
        given == SelectSeq([i \in 1..Len(parts) |-> i], LAMBDA i : ~empty(i))
        ranges == [i \in 1..Len(given) |-> rs0[given[i]]]
        plain == x = x0 /\ unit = Unit /\ Len(given) = Len(parts) /\ \A i \in 1..Len(ranges) : ranges[i].plain
        n == Len(ranges)
        orderly == \A i \in 1..n :
            /\ Definite(ranges[i], size)
            /\ i > 1 /\ Definite(ranges[i - 1], size) => U64Lt(TheOne(ranges[i - 1], size).e, TheOne(ranges[i], size).s)
        single == One(ranges[1], size)
        several == IF orderly THEN {TheOne(ranges[1], size)}
                   ELSE {Bad, Unsat} \cup UNION {One(ranges[i], size) : i \in {j \in 1..n : \A k \in 1..(j - 1) : ~Definite(ranges[k], size)}}
        strict == IF n = 1 THEN single ELSE several
    IN IF ~hasUnit \/ n = 0 \/ (\E i \in 1..n : ranges[i].k = "bad") THEN {Bad}
       ELSE IF plain THEN strict ELSE {Bad} \cup strict

(************************ Headers of the response ****************************)
\* "bytes s-e/size", as limbs, or none
ContentRangeIs(x, s, e, size) ==
    LET pre == SubSeq(x, 1, 6)
        rest == SubSeq(x, 7, Len(x))
        halves == SplitAt(rest, 47)
        ends == SplitAt(halves[1], Dash)
    IN /\ Len(x) > 6 /\ pre = <<98, 121, 116, 101, 115, 32>>
       /\ Len(halves) = 2 /\ Len(ends) = 2
       /\ \A y \in {halves[2], ends[1], ends[2]} : IsNumber(y) /\ NumberIsPlain(y)
       /\ Number(ends[1]).v = s /\ Number(ends[2]).v = e /\ Number(halves[2]).v = size
\* "bytes */size"
ContentRangeUnsat(x, size) ==
    /\ Len(x) > 8 /\ SubSeq(x, 1, 8) = <<98, 121, 116, 101, 115, 32, 42, 47>>
    /\ LET y == SubSeq(x, 9, Len(x)) IN IsNumber(y) /\ NumberIsPlain(y) /\ Number(y).v = size

BytesOf(hex) == [i \in 1..HexLen(hex) |-> HexAt(hex, i - 1)]

(* ev holds the request's header (if ev.has) and the response: status, and  *)
(* the values of Content-Length, Content-Range, Content-Type, Accept-Ranges *)
(* and the size announced by the body (sequences of at most one element)    *)
LengthIs(ev, n) ==
    /\ ev.bs = <<n>>
    /\ Len(ev.cl) <= 1
    /\ \A i \in 1..Len(ev.cl) : LET x == BytesOf(ev.cl[i]) IN IsNumber(x) /\ NumberIsPlain(x) /\ Number(x).v = n
NoContent(ev) == (ev.bs = <<>> /\ ev.cl = <<>>) \/ LengthIs(ev, U64Zero)
Described(ev) ==
    /\ ev.ct = <<"6170706c69636174696f6e2f7a6970">>     \* application/zip
    /\ ev.ar = <<"6279746573">>                         \* bytes

Matches(ev, o, size) ==
    CASE o.st = "full" -> ev.status = 200 /\ LengthIs(ev, size) /\ ev.cr = <<>> /\ Described(ev)
      [] o.st = "part" ->
            LET all == o.s = U64Zero /\ U64Add(o.e, U64Of(1)) = size IN
            /\ ev.status = IF all THEN 200 ELSE 206
            /\ LengthIs(ev, U64Add(U64Sub(o.e, o.s), U64Of(1)))
            /\ Len(ev.cr) = 1 /\ ContentRangeIs(BytesOf(ev.cr[1]), o.s, o.e, size)
            /\ Described(ev)
      [] o.st = "unsat" -> ev.status = 416 /\ NoContent(ev) /\ Len(ev.cr) = 1 /\ ContentRangeUnsat(BytesOf(ev.cr[1]), size)
      [] OTHER -> ev.status = 400 /\ NoContent(ev)

\* The permitted outcomes that the response is
Outcomes(ev, size) ==
    {o \in (IF ev.has THEN Allowed(BytesOf(ev.hdr), size) ELSE {Full}) : Matches(ev, o, size)}
=============================================================================
