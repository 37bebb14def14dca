------------------------------ MODULE TraceWeb ------------------------------
(* Checks recorded executions of HTTP responses against HttpServe.          *)
EXTENDS HttpServe

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES t, l, viol
vars == <<t, l, hs, ws, viol>>

Init ==
    /\ t \in 1..Len(Traces)
    /\ l = 1 /\ hs = <<>> /\ ws = <<>> /\ viol = {}

Event ==
    LET ev == Traces[t].ops[l]
    IN IF ev.op = "build" THEN ("a" :> Traces[t].a) @@ ev ELSE ev

Next ==
    /\ viol = {}
    /\ l <= Len(Traces[t].ops)
    /\ l' = l + 1
    /\ t' = t
    /\ LET o == WebOutcome(Event)
       IN viol' = o[1] /\ hs' = o[2] /\ ws' = o[3]

Spec == Init /\ [][Next]_vars
Accepted == viol = {}
=============================================================================
