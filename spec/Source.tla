------------------------------- MODULE Source -------------------------------
(* Data sources that come with the library: bytes in memory, files and the  *)
(* targets of links. What they hold is fixed; each opening of one is a      *)
(* reader with a position of its own, from 0 to 2^64 - 1.                   *)
(*                                                                          *)
(* ss: reader -> position (four limbs, see U64)                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, U64, Hex
CONSTANT Holding     \* names of the constraints in force
VARIABLE ss

Holds(name, yes) == IF name \in Holding /\ ~yes THEN {name} ELSE {}

\* Each of these is <<constraints violated, ss'>>. data: what the source holds.

DoOpen(ev, data) ==
    <<Holds("opens", ev.res = "ok") \cup Holds("size", ev.size = U64Of(HexLen(data))),
      (ev.h :> U64Zero) @@ ss>>

(* A read delivers what is at the position, and nothing only if there is    *)
(* nothing, or no room for it.                                              *)
DoRead(ev, data) ==
    LET p == ss[ev.h]
        len == HexLen(data)
        rest == IF U64Le(U64Of(len), p) THEN 0 ELSE len - U64ToInt(p)
    IN <<Holds("reads", ev.res = "ok" /\ HexLen(ev.hex) = ev.n /\ ev.n <= ev.cap /\ ev.n <= rest)
         \cup Holds("bytes", ev.n <= rest => ev.hex = (IF rest = 0 THEN "" ELSE HexSub(data, U64ToInt(p), ev.n)))
         \cup Holds("end", ev.n = 0 <=> (ev.cap = 0 \/ rest = 0)),
         [ss EXCEPT ![ev.h] = U64Add(@, U64Of(ev.n))]>>

(* A seek lands where it should, or is refused and changes nothing.         *)
DoSeek(ev, data) ==
    LET s == U64Seek(ss[ev.h], U64Of(HexLen(data)), ev.org, ev.neg, ev.mag) IN
    IF s.r = "ok"
    THEN <<Holds("lands", ev.res = "ok" /\ ev.pos = s.pos), [ss EXCEPT ![ev.h] = s.pos]>>
    ELSE <<Holds("refused", ev.res = "err" /\ ev.kind = "InvalidInput"), ss>>

DoClose(ev) == <<{}, [h \in (DOMAIN ss) \ {ev.h} |-> ss[h]]>>

SourceOutcome(ev, data) ==
    CASE ev.op = "open"  -> DoOpen(ev, data)
      [] ev.op = "read"  -> DoRead(ev, data)
      [] ev.op = "seek"  -> DoSeek(ev, data)
      [] ev.op = "close" -> DoClose(ev)
      [] OTHER -> <<{ev.op}, ss>>
=============================================================================
