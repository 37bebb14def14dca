----------------------------- MODULE TraceRange -----------------------------
(* Checks recorded answers to requests against HttpRange, and what bodies   *)
(* begin with against ZipWide. Every event is a request to a new response   *)
(* of an archive of any size, and some blocks of the body, of which the     *)
(* first and last bytes are known.                                          *)
EXTENDS HttpRange, ZipWide

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES t, l, viol
vars == <<t, l, viol>>

Init == t \in 1..Len(Traces) /\ l = 1 /\ viol = {}

(* The blocks are those of n bytes from position s *)
BodyIs(ev, a, s, n) ==
    LET b == ev.blocks
        to[i \in 0..Len(b)] == IF i = 0 THEN s ELSE U64Add(to[i - 1], U64Of(b[i].n))
        all == U64Sub(to[Len(b)], s)
    IN /\ ev.end \in {"", "end"}
       /\ U64Le(all, n)
       /\ ev.end = "end" => all = n
       /\ \A i \in 1..Len(b) : /\ b[i].n > 0
                               /\ WideBytes(a, to[i - 1], b[i].first)
                               /\ WideBytes(a, U64Sub(to[i], U64Of(HexLen(b[i].last))), b[i].last)

Body(ev, a, size, o) ==
    CASE o.st = "full" -> BodyIs(ev, a, U64Zero, size)
      [] o.st = "part" -> BodyIs(ev, a, o.s, U64Add(U64Sub(o.e, o.s), U64Of(1)))
      [] OTHER -> ev.blocks = <<>> /\ ev.end \in {"", "end"}

Next ==
    /\ viol = {}
    /\ l <= Len(Traces[t].ops)
    /\ l' = l + 1
    /\ t' = t
    /\ LET T == Traces[t]
           ev == T.ops[l]
           os == Outcomes(ev, T.size)
       IN viol' = IF ev.op # "respond" THEN {ev.op}
                  ELSE IF T.size # WideTotal(T.a) THEN {"size"}
                  ELSE IF os = {} THEN {"response"}
                  ELSE IF \A o \in os : ~Body(ev, T.a, T.size, o) THEN {"body"} ELSE {}

Spec == Init /\ [][Next]_vars
Accepted == viol = {}
=============================================================================
