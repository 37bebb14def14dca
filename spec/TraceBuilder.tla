---------------------------- MODULE TraceBuilder ----------------------------
(* Checks recorded histories of archive descriptions against Builder.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Enforced == ToSet(ndJsonDeserialize(IOEnv.ENFORCE)[1])
KnownFindings == ToSet(ndJsonDeserialize(IOEnv.ENFORCE)[2])

VARIABLES t, l, bs, viol
vars == <<t, l, bs, viol>>

(* An entry is identified by the trace and event that added it *)
Src(o) == Traces[o[1]].ops[o[2]]

INSTANCE Builder

Init == t \in 1..Len(Traces) /\ l = 1 /\ bs = <<>> /\ viol = {}

Next ==
    /\ viol = {}
    /\ l <= Len(Traces[t].ops)
    /\ l' = l + 1
    /\ t' = t
    /\ LET o == BuilderOutcome(Traces[t].ops[l], <<t, l>>)
       IN viol' = o[1] /\ bs' = o[2]

Spec == Init /\ [][Next]_vars

Accepted == viol = {}
=============================================================================
