---------------------------- MODULE TraceSource -----------------------------
(* Checks recorded uses of data sources against Source.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Enforced == ToSet(ndJsonDeserialize(IOEnv.ENFORCE)[1])

VARIABLES t, l, ss, viol
vars == <<t, l, ss, viol>>

INSTANCE Source WITH Holding <- Enforced

Init == t \in 1..Len(Traces) /\ l = 1 /\ ss = <<>> /\ viol = {}

Next ==
    /\ viol = {}
    /\ l <= Len(Traces[t].ops)
    /\ l' = l + 1
    /\ t' = t
    /\ LET o == SourceOutcome(Traces[t].ops[l], Traces[t].data)
       IN viol' = o[1] /\ ss' = o[2]

Spec == Init /\ [][Next]_vars
Accepted == viol = {}
=============================================================================
