---------------------------- MODULE TraceReader ----------------------------
(* Checks recorded executions of readers and streams against ZipStream:     *)
(* every trace is replayed as a sequence of ZipStream actions; a recorded   *)
(* call that the specification does not allow leaves a nonempty viol.       *)
EXTENDS ZipStream

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES t,        \* which trace
          l,        \* next event of it
          viol      \* constraints violated by the previous event
vars == <<t, l, hs, viol>>

Init ==
    /\ t \in 1..Len(Traces)
    /\ l = 1
    /\ hs = <<>>
    /\ viol = {}

Event ==
    LET ev == Traces[t].ops[l]
    IN IF ev.op = "build" THEN ("a" :> Traces[t].a) @@ ev ELSE ev

Next ==
    /\ viol = {}
    /\ l <= Len(Traces[t].ops)
    /\ l' = l + 1
    /\ t' = t
    /\ LET o == Outcome(Event)
       IN viol' = o[1] /\ hs' = o[2]

Spec == Init /\ [][Next]_vars

Accepted == viol = {}
=============================================================================
