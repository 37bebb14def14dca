------------------------------ MODULE TraceFs ------------------------------
(* Checks recorded histories of archives made from file systems against     *)
(* FsTree.                                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Enforced == ToSet(ndJsonDeserialize(IOEnv.ENFORCE)[1])
KnownFindings == ToSet(ndJsonDeserialize(IOEnv.ENFORCE)[2])

VARIABLES t, l, bs, fs, viol
vars == <<t, l, bs, fs, viol>>

(* Entries carry what was captured *)
Src(o) == o

INSTANCE FsTree

Init == t \in 1..Len(Traces) /\ l = 1 /\ bs = <<>> /\ fs = <<>> /\ viol = {}

Next ==
    /\ viol = {}
    /\ l <= Len(Traces[t].ops)
    /\ l' = l + 1
    /\ t' = t
    /\ LET ev == Traces[t].ops[l]
           o == FsOutcome(ev)
       IN viol' = o[1] /\ bs' = o[2] /\ fs' = FsAfter(ev)

Spec == Init /\ [][Next]_vars

Accepted == viol = {}
=============================================================================
