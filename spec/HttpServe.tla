----------------------------- MODULE HttpServe ------------------------------
(* Readers inside of HTTP responses: answering a request, the body, and the *)
(* channel through which the reader is handed back. Extends ZipStream: the  *)
(* reader inside a response goes on to be one of the handles hs, only that  *)
(* its position is not visible.                                             *)
(*                                                                          *)
(* ws: handle -> what became of it                                          *)
(*   mode   "adapter" (not answered yet), "body", "refused" (400 or 416),   *)
(*          "sent" (dropped, the reader is in the channel), "done" (it was  *)
(*          received)                                                       *)
(*   chan   whether there is somebody at the other end of a channel         *)
(*   left   bytes of the body that are still to come                        *)
(*   cut    whether the body ended, so that its last block may have been    *)
(*          cut                                                             *)
(*   start  positions at which the reader may stand if nothing was read     *)
(*   s      the reader's state when it was sent                             *)
EXTENDS ZipStream, HttpRange

VARIABLE ws

NoState == NewHandle(1, 0, {}, TRUE)
\* Each of these is <<constraints violated, hs', ws'>>

DoAdapt(ev) ==
    LET newhs == [hs EXCEPT ![ev.h].shown = FALSE]
        w == [mode |-> "adapter", chan |-> ev.chan, left |-> 0, cut |-> FALSE, start |-> {}, s |-> NoState]
    IN <<Named("idle", ev.src = <<>>) \cup Named("others", OthersOk(ev, newhs)) \cup Named("handles", HandlesOk(ev, newhs)),
         newhs, (ev.h :> w) @@ ws>>

DoRespond(ev) ==
    LET s == hs[ev.h]
        size == U64Of(Archs[s.a].size)
        os == Outcomes(ev, size)
        o == CHOOSE x \in os : TRUE
        alive == AliveAfter(s.alive, ev.src)[1]
        first == IF o.st = "part" THEN U64ToInt(o.s) ELSE 0
        count == IF o.st = "part" THEN U64ToInt(o.e) - first + 1 ELSE Archs[s.a].size
        newhs == IF os = {} THEN hs
                 ELSE IF o.st \in {"full", "part"}
                 THEN [hs EXCEPT ![ev.h] = [s EXCEPT !.pos = first, !.from = first, !.seq = FALSE, !.alive = alive]]
                 ELSE [hs EXCEPT ![ev.h].alive = alive]
        newws == IF os = {} THEN ws
                 ELSE IF o.st \in {"full", "part"}
                 THEN [ws EXCEPT ![ev.h].mode = "body", ![ev.h].left = count, ![ev.h].start = {s.pos, first}]
                 ELSE [ws EXCEPT ![ev.h].mode = "refused"]
    IN <<Named("response", os # {})
         \cup Named("idle", IdleOk(ev))
         \cup Named("closed", alive = {})
         \cup Named("others", OthersOk(ev, newhs)) \cup Named("handles", HandlesOk(ev, newhs)),
         newhs, newws>>

DoBody(ev0) ==
    LET s == hs[ev0.h]
        w == ws[ev0.h]
        ev == [ev0 EXCEPT !.tell = s.pos + ev0.n]
        new == [s EXCEPT
            !.pos = s.pos + ev.n,
            !.known = s.known \cup CrcFieldsIn(s.a, s.pos, s.pos + ev.n),
            !.exact = FALSE,
            !.alive = AliveAfter(s.alive, ev.src)[1]]
        newhs == [hs EXCEPT ![ev.h] = new]
        left == w.left - ev.n
    IN <<Named("result", ev.res \in {"ok", "pend", "err", "end"})
         \cup Named("announced", /\ ev.n <= w.left
                                 /\ ev.res = "end" <=> w.left = 0
                                 /\ ev.res = "ok" <=> ev.n > 0)
         \cup Named("idle", w.left = 0 => IdleOk(ev))
         \cup Named("bytes", BytesOk(s, ev))
         \cup Named("pending", PendingOk(s, ev))
         \cup Named("errshown", ErrShown(s, ev))
         \cup Named("errclean", ErrClean(s, ev))
         \cup Named("errtrue", ErrTrue(s, ev))
         \cup Named("crcfields", CrcFieldsOk(s, ev))
         \cup Named("one", OneOk(s, ev))
         \cup Named("others", OthersOk(ev, newhs)) \cup Named("handles", HandlesOk(ev, newhs)),
         newhs,
         [ws EXCEPT ![ev.h].left = left, ![ev.h].cut = (w.cut \/ (ev.n > 0 /\ left = 0)),
                    ![ev.h].start = IF ev.src = <<>> /\ ev.n = 0 THEN w.start ELSE {}]>>

DoWebDrop(ev) ==
    LET s == hs[ev.h]
        w == ws[ev.h]
        newhs == [k \in (DOMAIN hs) \ {ev.h} |-> hs[k]]
    IN <<Named("idle", IdleOk(ev))
         \cup Named("closed", AliveAfter(s.alive, ev.src)[1] = {})
         \cup Named("others", OthersOk(ev, newhs)) \cup Named("handles", HandlesOk(ev, newhs)),
         newhs,
         [ws EXCEPT ![ev.h] = IF w.mode = "done" THEN w ELSE [w EXCEPT !.mode = "sent", !.s = s]]>>

\* Positions at which a returned reader may stand
Stands(w, s) ==
    IF w.cut THEN s.pos..Archs[s.a].size
    ELSE {s.pos} \cup w.start

(* A look into the channel. The reader is in it once the response is gone,  *)
(* and may be in it earlier if it is not needed any more.                   *)
DoRecv(ev) ==
    LET w == ws[ev.h]
        s == IF w.mode = "sent" THEN w.s ELSE hs[ev.h]
        may == CASE w.mode = "adapter" -> {"empty"}
                 [] w.mode = "body" -> IF w.left = 0 THEN {"empty", "reader"} ELSE {"empty"}
                 [] w.mode = "refused" -> {"empty", "reader"}
                 [] w.mode = "sent" -> {"reader"}
                 [] OTHER -> {"closed"}
        newhs == IF ev.res = "reader"
                 THEN (ev.nh :> NewHandle(s.a, ev.pos, s.known, s.exact)) @@ hs
                 ELSE hs
    IN <<Named("handback", ev.res \in may)
         \cup Named("stands", ev.res = "reader" => ev.pos \in Stands(w, s))
         \cup Named("idle", ev.src = <<>>)
         \cup Named("others", OthersOk(ev, newhs)) \cup Named("handles", HandlesOk(ev, newhs)),
         newhs,
         IF ev.res = "reader" THEN [ws EXCEPT ![ev.h].mode = "done"] ELSE ws>>

DoHangup(ev) ==
    <<Named("idle", ev.src = <<>>) \cup Named("others", OthersOk(ev, hs)), hs, [ws EXCEPT ![ev.h].chan = FALSE]>>

WebOutcome(ev) ==
    CASE ev.op = "adapt"   -> DoAdapt(ev)
      [] ev.op = "respond" -> DoRespond(ev)
      [] ev.op = "bnext"   -> DoBody(ev)
      [] ev.op = "recv"    -> DoRecv(ev)
      [] ev.op = "hangup"  -> DoHangup(ev)
      [] ev.op = "drop" /\ ev.h \in DOMAIN ws /\ ev.h \in DOMAIN hs /\ ~hs[ev.h].shown -> DoWebDrop(ev)
      [] OTHER -> LET o == Outcome(ev) IN <<o[1], o[2], ws>>
=============================================================================
