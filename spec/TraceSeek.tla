----------------------------- MODULE TraceSeek -----------------------------
(* Seeks over the whole 64 bit range, and reads and copies in between, on   *)
(* archives of any size (up to 2^64 - 1), with sources that wait, fail, and *)
(* are shorter than declared. The state: where each reader stands, of which *)
(* archive, and where its present run of reads began.                       *)
EXTENDS ZipWide

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES t, l, hs, viol
vars == <<t, l, hs, viol>>

Init == t \in 1..Len(Traces) /\ l = 1 /\ hs = <<>> /\ viol = {}

C(name, holds) == IF name \in Enforce /\ ~holds THEN {name} ELSE {}
Empty == 1      \* the empty archive

At(a, pos) == [a |-> a, pos |-> pos, from |-> pos]
Set(h, s) == [x \in DOMAIN hs \cup {h} |-> IF x = h THEN s ELSE hs[x]]
Moved(ev, from) == Set(ev.h, [hs[ev.h] EXCEPT !.pos = ev.tl, !.from = from])
Asked(ev, r) == \E i \in 1..Len(ev.src) : ev.src[i].r = r

Build(ev) ==
    /\ viol' = C("position", ev.sizel = WideTotal(Traces[t].a) /\ ev.tl = U64Zero)
    /\ hs' = (ev.h :> At(Traces[t].a, U64Zero))

(* A refused seek leaves position and what is read next alone: w1 was read  *)
(* after it, w2 by a copy that did not see it.                              *)
Raw(ev) ==
    LET h == hs[ev.h]
        s == U64Seek(h.pos, WideTotal(h.a), ev.org, ev.neg, ev.mag)
    IN
    /\ viol' = C("position", IF s.r = "ok" THEN ev.res = "ok" /\ ev.pos = s.pos /\ ev.tl = s.pos
                             ELSE ev.tl = h.pos)
               \cup C("refused", s.r = "before" => ev.res = "err" /\ ev.kind = "InvalidInput")
               \cup C("undisturbed", ev.w1 = ev.w2 /\ ev.wl[1] = ev.wl[2])
    /\ hs' = Moved(ev, ev.tl)

Seek(ev) ==
    /\ viol' = C("position", ev.res = "ok" /\ ev.tl = ev.tol)
    /\ hs' = Moved(ev, ev.tl)

(* Reading sequentially, nothing but an error can follow the data of an     *)
(* entry that has less of them than declared                                *)
Mismatch(h, ev) ==
    LET w == WideWrong[h.a] IN
    w # 0 /\ U64Le(h.from, WideData(h.a, w)) =>
        LET E == Archs[h.a].entries[w]
            limit == U64Add(WideData(h.a, w), E.actuall)
        IN /\ U64Le(U64Add(h.pos, U64Of(ev.n)), limit)
           /\ h.pos = limit /\ ev.cap > 0 /\ ev.res # "pend" /\ ~Asked(ev, "e") =>
                ev.res = "err" /\ ev.err.k = "size" /\ ev.err.e = w /\ ev.err.x = E.sizel /\ ev.err.y = E.actuall

Read(ev) ==
    LET h == hs[ev.h]
        end == U64Le(WideTotal(h.a), h.pos)
    IN
    /\ viol' = C("eof", /\ ev.res \in {"ok", "err", "pend"}
                        /\ ev.res = "ok" /\ ev.cap > 0 => (ev.n = 0 <=> end)
                        /\ end => ev.res = "ok")
               \cup C("position", ev.tl = U64Add(h.pos, U64Of(ev.n)) /\ ev.n <= ev.cap /\ HexLen(ev.hex) = ev.n)
               \cup C("bytes", WideBytes(h.a, h.pos, ev.hex))
               \cup C("pending", ev.res = "pend" => ev.n = 0 /\ ev.woke /\ Asked(ev, "p"))
               \cup C("errshown", Asked(ev, "e") => ev.res = "err" /\ ev.err.k = "src")
               \cup C("errtrue", ev.res = "err" => /\ ev.n = 0
                                                    /\ \/ ev.err.k = "src" /\ Asked(ev, "e")
                                                       \/ ev.err.k = "size" /\ WideWrong[h.a] # 0)
               \cup C("size", Mismatch(h, ev))
    /\ hs' = Moved(ev, h.from)

(* A copy stands where the original does, which stays; what is taken over   *)
(* leaves the empty archive behind                                          *)
Clone(ev) ==
    /\ viol' = C("position", ev.tl = hs[ev.h].pos /\ ev.nl = hs[ev.h].pos)
    /\ hs' = Set(ev.nh, At(hs[ev.h].a, hs[ev.h].pos))
Take(ev) ==
    /\ viol' = C("position", ev.tl = U64Zero /\ ev.nl = hs[ev.h].pos)
    /\ hs' = [x \in DOMAIN hs \cup {ev.nh} |->
                IF x = ev.nh THEN At(hs[ev.h].a, hs[ev.h].pos) ELSE IF x = ev.h THEN At(Empty, U64Zero) ELSE hs[x]]
Drop(ev) == viol' = {} /\ hs' = [x \in DOMAIN hs \ {ev.h} |-> hs[x]]

Next ==
    /\ viol = {}
    /\ l <= Len(Traces[t].ops)
    /\ l' = l + 1
    /\ t' = t
    /\ LET ev == Traces[t].ops[l]
       IN CASE ev.op = "build" -> Build(ev)
            [] ev.op = "raw" -> Raw(ev)
            [] ev.op = "seek" -> Seek(ev)
            [] ev.op = "read" -> Read(ev)
            [] ev.op = "clone" -> Clone(ev)
            [] ev.op = "take" -> Take(ev)
            [] ev.op = "drop" -> Drop(ev)
            [] OTHER -> viol' = {ev.op} /\ hs' = hs

Spec == Init /\ [][Next]_vars
Accepted == viol = {}
=============================================================================
