---------------------------- MODULE SourceModel -----------------------------
(* How a source in memory works: a slice and an index. Everything it does   *)
(* is handed to Source. All histories of up to MaxOps operations from a     *)
(* menu; each transition is written out (if Emits) as the history that      *)
(* leads to it, for replay into the real sources. Flaws plants defects.     *)
EXTENDS Source, Json

CONSTANTS Data, Caps, MaxOps, MaxReaders, Emits, Flaws

VARIABLES ix,      \* reader -> index
          last,    \* the last operation: it is part of the view, so that all pairs of operations are tried at all positions
          n, viol, log
svars == <<ss, ix, last, n, viol, log>>
View == <<ss, ix, last, viol>>

Flaw(f) == f \in Flaws
Len0 == HexLen(Data)
Near == {0, 1, 2, Len0, Len0 + 1} \cup (IF Len0 > 0 THEN {Len0 - 1} ELSE {})
Half == <<0, 0, 0, 32768>>     \* 2^63
Offsets ==      \* <<negative, magnitude>>
    {<<FALSE, U64Of(k)>> : k \in Near} \cup {<<TRUE, U64Of(k)>> : k \in Near \ {0}}
    \cup {<<TRUE, Half>>, <<FALSE, U64Sub(Half, U64Of(1))>>}
Starts == {<<FALSE, U64Of(k)>> : k \in Near} \cup {<<FALSE, U64Max>>, <<FALSE, U64Sub(U64Max, U64Of(1))>>, <<FALSE, Half>>, <<FALSE, <<0, 0, 1, 0>>>>}
Menu == {[op |-> "read", cap |-> c] : c \in Caps}
        \cup {[op |-> "seek", org |-> "start", neg |-> o[1], mag |-> o[2]] : o \in Starts}
        \cup {[op |-> "seek", org |-> g, neg |-> o[1], mag |-> o[2]] : g \in {"cur", "end"}, o \in Offsets}

Done(ev, newix) ==
    LET o == SourceOutcome(ev, Data) IN
    /\ viol' = o[1] /\ ss' = o[2] /\ ix' = newix /\ n' = n + 1

Open ==
    LET h == Cardinality(DOMAIN ix) + 1 IN
    /\ h <= MaxReaders
    /\ Done([op |-> "open", h |-> h, res |-> "ok", size |-> U64Of(Len0)],
            (h :> (IF Flaw("readers share a position") /\ h > 1 THEN ix[1] ELSE U64Zero)) @@ ix)
    /\ last' = [op |-> "open"] /\ log' = Append(log, [op |-> "open", h |-> h])

Least(a, b) == IF a < b THEN a ELSE b
Do(h, o) ==
    /\ IF o.op = "read"
       THEN LET p == ix[h]
                rest == IF U64Le(U64Of(Len0), p) THEN 0 ELSE Len0 - U64ToInt(p)
                k == Least(o.cap, rest)
            IN Done([op |-> "read", h |-> h, cap |-> o.cap, res |-> "ok", n |-> k, hex |-> HexSub(Data, IF k = 0 THEN 0 ELSE U64ToInt(p), k)],
                    [ix EXCEPT ![h] = U64Add(@, U64Of(IF Flaw("skips what did not fit") /\ o.cap > 0 THEN rest ELSE k))])
       ELSE LET size == IF Flaw("ends one early") /\ o.org = "end" THEN Len0 - 1 ELSE Len0
                from == IF Flaw("current means start") THEN U64Zero ELSE ix[h]
                s == U64Seek(from, U64Of(size), o.org, o.neg, o.mag)
                over == s.r = "over" /\ Flaw("wraps around")
                bad == s.r # "ok" /\ ~over
                to == IF over THEN U64Add(IF o.org = "cur" THEN from ELSE U64Of(size), o.mag)
                      ELSE IF bad /\ Flaw("refused seeks rewind") THEN U64Zero
                      ELSE IF s.r = "ok" THEN s.pos ELSE ix[h]
            IN Done([op |-> "seek", h |-> h, org |-> o.org, neg |-> o.neg, mag |-> o.mag,
                     res |-> IF bad THEN "err" ELSE "ok", kind |-> IF bad THEN "InvalidInput" ELSE "", pos |-> to],
                    [ix EXCEPT ![h] = to])
    /\ last' = [h |-> h] @@ o
    /\ log' = Append(log, [h |-> h] @@ o)

Init == ss = <<>> /\ ix = <<>> /\ last = [op |-> "none"] /\ n = 0 /\ viol = {} /\ log = <<>>
Next == n < MaxOps /\ viol = {} /\ (Open \/ \E h \in DOMAIN ix : \E o \in Menu : Do(h, o))
Spec == Init /\ [][Next]_svars

Permitted == viol = {}
Emit == ~Emits \/ PrintT("BEHAVIOUR " \o ToJson([data |-> Data, ops |-> log']))
=============================================================================
