----------------------------- MODULE ZipStream -----------------------------
(* What a user can observe of readers (and byte streams made of them) of    *)
(* produced archives: the abstract specification that recorded executions   *)
(* are checked against.                                                     *)
(*                                                                          *)
(* State: the live handles. Each has an archive, a position, the place      *)
(* where its present contiguous run of reads began and whether nothing has  *)
(* failed in it, the checksums it is known to know, and the data sources it *)
(* holds open.                                                              *)
(*                                                                          *)
(* Every operation is one action taking the arguments and the observed      *)
(* results; an operation is allowed iff no constraint named in Enforce is   *)
(* violated. Constraints are grouped by the property they belong to, and    *)
(* never prescribe how much a read delivers, when a source is asked for     *)
(* more, or how its answers are cut.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, ZipLayout, Hex, Crc32, Archives

VARIABLES hs          \* handle -> state

(*********************** Derived data of the archives ***********************)
Lay == TLCEval([a \in 1..Len(Archs) |-> LayoutOf(Archs[a].entries)])

(* Index of the first entry (declared non-empty) whose data does not have   *)
(* the declared length, or 0                                                *)
FirstWrong == TLCEval([a \in 1..Len(Archs) |->
    LET W == {i \in 1..Len(Archs[a].entries) :
                Archs[a].entries[i].size > 0 /\ Archs[a].entries[i].size # Archs[a].entries[i].actual}
    IN IF W = {} THEN 0 ELSE CHOOSE i \in W : \A j \in W : i <= j])

(* What sequential reading delivers of an archive with a wrong sized entry: *)
(* everything in front of its data, then the actual data.                   *)
WrongStream == TLCEval([a \in 1..Len(Archs) |->
    IF FirstWrong[a] = 0 THEN ""
    ELSE HexSub(Archs[a].ref, 0, Lay[a].data[FirstWrong[a]]) \o Archs[a].entries[FirstWrong[a]].data])

(* The true checksums, computed from the data; only if data are recorded.   *)
TrueCrc == TLCEval([a \in 1..Len(Archs) |-> [i \in 1..Len(Archs[a].entries) |->
    LET e == Archs[a].entries[i]
    IN IF "data" \in DOMAIN e THEN CrcOfHex(e.data) ELSE <<-1, -1>>]])

(* The checksum that has to be stored and reported *)
GoodCrc(a, i) ==
    LET e == Archs[a].entries[i]
    IN IF e.gk = "none" THEN TrueCrc[a][i] ELSE e.given

GivenSet(a) == {i \in 1..Len(Archs[a].entries) : Archs[a].entries[i].gk # "none"}

(* Intersection of half open intervals [x1, x2) and [y1, y2) is nonempty    *)
Meets(x1, x2, y1, y2) == x1 < y2 /\ y1 < x2 /\ x1 < x2 /\ y1 < y2

InData(a, i, x1, x2) == Meets(x1, x2, Lay[a].data[i], Lay[a].dd[i])
InDescriptor(a, i, x1, x2) == Meets(x1, x2, Lay[a].dd[i], Lay[a].dd[i] + DescriptorSize)
InCentral(a, i, x1, x2) ==
    Meets(x1, x2, Lay[a].cdh[i], Lay[a].cdh[i] + CdhSize(Archs[a].entries[i]))

(* Entries whose stored checksum has at least one byte in [x1, x2) *)
CrcFieldsIn(a, x1, x2) ==
    {i \in 1..Lay[a].n : \/ Meets(x1, x2, Lay[a].dd[i] + 4, Lay[a].dd[i] + 8)
                         \/ Meets(x1, x2, Lay[a].cdh[i] + 16, Lay[a].cdh[i] + 20)}

NewHandle(a, pos, known, exact) ==
    [a |-> a, pos |-> pos, from |-> pos, seq |-> (pos = 0), known |-> known,
     exact |-> exact, alive |-> {}, shown |-> TRUE, clean |-> TRUE]

(***************************** Constraints **********************************)
(* ev is a recorded read (or stream) call on a handle in state s.           *)
Named(name, holds) == IF name \in Enforce /\ ~holds THEN {name} ELSE {}

HasSrcErr(ev) == \E i \in 1..Len(ev.src) : ev.src[i].r = "e"
Asked(ev) == SelectSeq(ev.src, LAMBDA x : x.k \notin {"get", "drop"})

(* C03 *)
BytesOk(s, ev) ==
    LET A == Archs[s.a] IN
    ev.n > 0 =>
        /\ s.pos + ev.n <= A.size
        /\ ev.hex = HexSub(A.ref, s.pos, ev.n)
AdvanceOk(s, ev) == ev.tell = s.pos + ev.n /\ ev.n <= ev.cap /\ HexLen(ev.hex) = ev.n
EofOk(s, ev) ==
    LET A == Archs[s.a] IN
    /\ ev.op = "read" /\ ev.res = "ok" /\ ev.cap > 0 => (ev.n = 0 <=> s.pos >= A.size)
    /\ ev.op = "next" => /\ ev.res = "end" => s.pos >= A.size /\ ev.n = 0
                         /\ ev.res = "ok" => ev.n > 0
                         /\ s.pos >= A.size => ev.res = "end"

(* C04: a wait is caused by the source asked last, which took the waker of  *)
(* this very call                                                           *)
PendingOk(s, ev) ==
    ev.res = "pend" =>
        /\ ev.n = 0 /\ ev.tell = s.pos
        /\ Len(Asked(ev)) > 0 /\ Last(Asked(ev)).r = "p"
        /\ ev.woke

(* C05: failures are reported by the call in which they happen, and nothing *)
(* else is reported as a failure                                            *)
ErrShown(s, ev) ==
    HasSrcErr(ev) => ev.res = "err" /\ ev.err.k = "src"
ErrClean(s, ev) ==
    ev.res = "err" => ev.n = 0 /\ ev.tell = s.pos

(* Is there a reason for a mismatch error at this position? *)
SizeErrOk(s, ev) ==
    LET A == Archs[s.a] IN
    /\ ev.err.e \in 1..Lay[s.a].n
    /\ LET E == A.entries[ev.err.e]
           d == Lay[s.a].data[ev.err.e]
       IN /\ E.size > 0 /\ E.size # E.actual
          /\ ev.err.x = U64Of(E.size)
          /\ (s.from <= d => ev.err.y = U64Of(E.actual))
          /\ (s.from <= d => s.pos >= d + (IF E.size < E.actual THEN E.size ELSE E.actual))
          /\ (s.from <= d => s.pos <= d + E.actual)
CrcErrOk(s, ev) ==
    LET A == Archs[s.a] IN
    /\ ev.err.e \in 1..Lay[s.a].n
    /\ LET E == A.entries[ev.err.e]
           d == Lay[s.a].data[ev.err.e]
       IN /\ E.gk = "wrong"
          /\ ev.err.x = <<E.given[2], E.given[1], 0, 0>>
          /\ TrueCrc[s.a][ev.err.e] # <<-1, -1>> =>
                ev.err.y = <<TrueCrc[s.a][ev.err.e][2], TrueCrc[s.a][ev.err.e][1], 0, 0>>
          /\ E.size = E.actual => s.pos = d + E.size
ErrTrue(s, ev) ==
    ev.res = "err" =>
        CASE ev.err.k = "src"  -> HasSrcErr(ev)
          [] ev.err.k = "size" -> SizeErrOk(s, ev)
          [] ev.err.k = "crc"  -> CrcErrOk(s, ev)
          [] OTHER -> FALSE

(* C06: sequential reading from the start stops at the wrong sized entry *)
SizeOk(s, ev) ==
    LET w == FirstWrong[s.a]
        E == Archs[s.a].entries[w]
        limit == Lay[s.a].data[w] + E.actual
    IN s.seq /\ w # 0 =>
        /\ s.pos + ev.n <= limit
        /\ ev.n > 0 => ev.hex = HexSub(WrongStream[s.a], s.pos, ev.n)
        /\ s.pos = limit /\ ev.cap > 0 =>
            \/ ev.res = "pend"
            \/ ev.res = "err" /\ (HasSrcErr(ev) \/ ev.err.k = "size" \/ (ev.err.k = "crc" /\ E.gk = "wrong"))

(* C07 *)
CrcFieldsOk(s, ev) ==
    \A i \in CrcFieldsIn(s.a, s.pos, s.pos + ev.n) :
        \A f \in {Lay[s.a].dd[i] + 4, Lay[s.a].cdh[i] + 16} :
            LET good == HexOfU32(GoodCrc(s.a, i)) IN
            \A b \in 0..3 :
                s.pos <= f + b /\ f + b < s.pos + ev.n =>
                    HexSub(ev.hex, f + b - s.pos, 1) = HexSub(good, b, 1)
(* A wrong supplied value is noticed at the end of an entry read in full *)
WrongCrcOk(s, ev) ==
    \A i \in 1..Lay[s.a].n :
        LET E == Archs[s.a].entries[i] IN
        E.gk = "wrong" /\ E.size > 0 /\ E.size = E.actual /\ s.from <= Lay[s.a].data[i] /\ s.pos <= Lay[s.a].dd[i] =>
            /\ s.pos + ev.n <= Lay[s.a].dd[i]
            /\ s.pos = Lay[s.a].dd[i] /\ ev.cap > 0 => ev.res \in {"pend", "err"}

(* C08: which part of the file is this call about? *)
Window(s, ev) ==
    IF ev.n > 0 THEN <<s.pos, s.pos + ev.n>>
    ELSE LET e == IF ev.cap > Archs[s.a].size - s.pos THEN Archs[s.a].size ELSE s.pos + ev.cap
         IN <<s.pos, e>>
LazyOk(s, ev) ==
    LET w == Window(s, ev) IN
    \A x \in 1..Len(ev.src) :
        ev.src[x].k = "get" =>
            LET i == ev.src[x].e IN
            /\ Archs[s.a].entries[i].size > 0
            /\ \/ InData(s.a, i, w[1], w[2])
               \/ i \notin s.known /\ (InDescriptor(s.a, i, w[1], w[2]) \/ InCentral(s.a, i, w[1], w[2]))
SeekNotReadOk(s, ev) ==
    \A x \in 1..Len(ev.src) :
        ev.src[x].k = "read" /\ ev.src[x].n > 0 /\ ev.src[x].e \in s.known =>
            LET at == Lay[s.a].data[ev.src[x].e] + ev.src[x].off IN
            at >= s.pos /\ at + ev.src[x].n <= s.pos + ev.n

(* Reading on and on from the beginning of an entry or before it, it is     *)
(* opened once: by then its checksum is known                               *)
OnceOk(s, ev) ==
    s.clean =>
        \A x \in 1..Len(ev.src) :
            LET i == ev.src[x].e IN
            ev.src[x].k = "get" /\ s.from <= Lay[s.a].data[i] =>
                /\ s.pos <= Lay[s.a].data[i]
                /\ \A p \in s.alive : p[2] # i
                /\ \A y \in 1..(x - 1) : ~(ev.src[y].k = "get" /\ ev.src[y].e = i)

(* Sources held by the handle, after each of the events in turn *)
RECURSIVE AliveAfter(_, _)
AliveAfter(alive, src) ==
    IF src = <<>> THEN <<alive, TRUE>>
    ELSE LET x == Head(src)
             next == CASE x.k = "get"  -> alive \cup {<<x.s, x.e>>}
                       [] x.k = "drop" -> alive \ {<<x.s, x.e>>}
                       [] OTHER -> alive
             rest == AliveAfter(next, Tail(src))
         IN <<rest[1], rest[2] /\ Cardinality(next) <= 1>>
OneOk(s, ev) == AliveAfter(s.alive, ev.src)[2]
ClosedOk(s, ev) ==
    LET alive == AliveAfter(s.alive, ev.src)[1] IN
    /\ ev.res = "ok" /\ ev.n > 0 =>
          \A p \in alive : InData(s.a, p[2], s.pos + ev.n - 1, s.pos + ev.n)
    /\ ev.cap > 0 /\ ((ev.res = "ok" /\ ev.n = 0) \/ ev.res = "end") => alive = {}

(* Operations other than reading do not touch sources, except for closing   *)
IdleOk(ev) == \A x \in 1..Len(ev.src) : ev.src[x].k = "drop"

(* C12, but also everywhere: nobody else's position changes (of readers     *)
(* inside of HTTP responses it cannot be seen, which is recorded as -3)     *)
OthersOk(ev, new) ==
    \A x \in 1..Len(ev.all) :
        /\ ev.all[x][1] \in DOMAIN new
        /\ ev.all[x][2] = IF new[ev.all[x][1]].shown THEN new[ev.all[x][1]].pos ELSE -3
HandlesOk(ev, new) == DOMAIN new = {ev.all[x][1] : x \in 1..Len(ev.all)}

(******************************** Actions ***********************************)
(* Each is a pair: the constraints violated, and the new state.             *)

DoRead(ev) ==
    LET s == hs[ev.h]
        new == [s EXCEPT
            !.pos = s.pos + ev.n,
            !.known = s.known \cup CrcFieldsIn(s.a, s.pos, s.pos + ev.n),
            !.exact = FALSE,
            !.clean = s.clean /\ ev.res # "err" /\ ~HasSrcErr(ev),
            !.alive = AliveAfter(s.alive, ev.src)[1]]
        newhs == [hs EXCEPT ![ev.h] = new]
    IN <<Named("result", ev.res \in (IF ev.op = "next" THEN {"ok", "pend", "err", "end"} ELSE {"ok", "pend", "err"}))
         \cup Named("bytes", BytesOk(s, ev))
         \cup Named("advance", AdvanceOk(s, ev))
         \cup Named("eof", EofOk(s, ev))
         \cup Named("pending", PendingOk(s, ev))
         \cup Named("errshown", ErrShown(s, ev))
         \cup Named("errclean", ErrClean(s, ev))
         \cup Named("errtrue", ErrTrue(s, ev))
         \cup Named("size", SizeOk(s, ev))
         \cup Named("crcfields", CrcFieldsOk(s, ev))
         \cup Named("wrongcrc", WrongCrcOk(s, ev))
         \cup Named("lazy", LazyOk(s, ev))
         \cup Named("seeknotread", SeekNotReadOk(s, ev))
         \cup Named("one", OneOk(s, ev))
         \cup Named("opened once", OnceOk(s, ev))
         \cup Named("closed", ClosedOk(s, ev))
         \cup Named("others", OthersOk(ev, newhs)),
         newhs>>

DoSeek(ev) ==
    LET s == hs[ev.h]
        alive == AliveAfter(s.alive, ev.src)[1]
        newhs == [hs EXCEPT ![ev.h] = [s EXCEPT !.pos = ev.to, !.from = ev.to, !.seq = FALSE, !.clean = TRUE, !.alive = alive]]
    IN <<Named("result", ev.res = "ok")
         \cup Named("advance", ev.tell = ev.to)
         \cup Named("idle", IdleOk(ev))
         \cup Named("closed", alive = {})
         \cup Named("others", OthersOk(ev, newhs)),
         newhs>>

(* Copy: same archive, position and checksums, no open source *)
DoClone(ev) ==
    LET s == hs[ev.h]
        newhs == (ev.nh :> NewHandle(s.a, s.pos, s.known, s.exact)) @@ hs
    IN <<Named("idle", ev.src = <<>>)
         \cup Named("others", OthersOk(ev, newhs))
         \cup Named("handles", HandlesOk(ev, newhs)),
         newhs>>

(* Take over: the new handle is the old one, the old one becomes the empty  *)
(* archive at its start                                                     *)
DoTake(ev) ==
    LET s == hs[ev.h]
        alive == AliveAfter(s.alive, ev.src)[1]
        newhs == (ev.nh :> NewHandle(s.a, s.pos, s.known, s.exact))
                 @@ [hs EXCEPT ![ev.h] = NewHandle(1, 0, {}, TRUE)]
    IN <<Named("idle", IdleOk(ev))
         \cup Named("closed", alive = {})
         \cup Named("others", OthersOk(ev, newhs))
         \cup Named("handles", HandlesOk(ev, newhs)),
         newhs>>

DoDrop(ev) ==
    LET s == hs[ev.h]
        newhs == [k \in (DOMAIN hs) \ {ev.h} |-> hs[k]]
    IN <<Named("idle", IdleOk(ev))
         \cup Named("closed", AliveAfter(s.alive, ev.src)[1] = {})
         \cup Named("others", OthersOk(ev, newhs)),
         newhs>>

(* Turning a reader into a stream and back changes nothing *)
DoWrap(ev) ==
    <<Named("idle", ev.src = <<>>) \cup Named("others", OthersOk(ev, hs)), hs>>

DoSize(ev) ==
    <<Named("idle", ev.src = <<>>)
      \cup Named("size known", ev.size = Archs[hs[ev.h].a].size)
      \cup Named("others", OthersOk(ev, hs)),
      hs>>

DoCrcs(ev) ==
    LET s == hs[ev.h]
        listed == {ev.list[x][1] : x \in 1..Len(ev.list)}
        newhs == [hs EXCEPT ![ev.h].known = listed, ![ev.h].exact = TRUE]
    IN <<Named("idle", ev.src = <<>>)
         \cup Named("crcs known", s.known \subseteq listed)
         \cup Named("crcs exact", s.exact => listed = s.known)
         \cup Named("crcs once", Cardinality(listed) = Len(ev.list))
         \cup Named("crcs true", \A x \in 1..Len(ev.list) :
                LET i == ev.list[x][1] IN
                /\ i \in 1..Lay[s.a].n
                /\ <<ev.list[x][2], ev.list[x][3]>> = GoodCrc(s.a, i))
         \cup Named("others", OthersOk(ev, newhs)),
         newhs>>

DoBuild(ev) ==
    LET a == ev.a
        newhs == 1 :> NewHandle(a, 0, GivenSet(a), FALSE)
    IN <<Named("idle", ev.src = <<>>)
         \cup Named("reference", Archs[a].refres = "ok")
         \cup Named("size known", ev.bsize = ev.size /\ ev.size = Archs[a].size)
         \cup Named("others", OthersOk(ev, newhs)),
         newhs>>

(* No operation may end otherwise: a panic has no action *)
Outcome(ev) ==
    CASE ev.op \in {"read", "next"} -> DoRead(ev)
      [] ev.op = "seek"  -> DoSeek(ev)
      [] ev.op = "clone" -> DoClone(ev)
      [] ev.op = "take"  -> DoTake(ev)
      [] ev.op = "drop"  -> DoDrop(ev)
      [] ev.op \in {"stream", "unstream"} -> DoWrap(ev)
      [] ev.op = "size"  -> DoSize(ev)
      [] ev.op = "crcs"  -> DoCrcs(ev)
      [] ev.op = "build" -> DoBuild(ev)
      [] OTHER -> <<{ev.op}, hs>>
=============================================================================
