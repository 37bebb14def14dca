----------------------------- MODULE ZipReader ------------------------------
(* How readers work: the archive as a sequence of chunks (local header,     *)
(* data, descriptor, ..., central headers, end records), a staging buffer   *)
(* for headers that do not fit the caller's buffer, bytes left to skip      *)
(* after a seek, an open data source, and checksums that become known on    *)
(* the way. One step is one iteration of the read loop, or one answer of a  *)
(* data source, which may be a wait, a failure or any number of bytes.      *)
(*                                                                          *)
(* What the caller gets to see of each call is handed to ZipStream, which   *)
(* says what is permitted: Permitted means that this way of working does    *)
(* what users may rely on, for all schedules of the configuration. The      *)
(* constant Flaws plants defects (all of them have been in the code, or     *)
(* easily could be), with which that must not hold: this shows that the     *)
(* constraints have teeth. Behaviours of this module are replayed into the  *)
(* real code, too (log).                                                    *)
(*                                                                          *)
(* With a non-empty Headers, readers are also turned into HTTP responses,   *)
(* whose bodies end after the announced number of bytes, and which hand     *)
(* the reader back through a channel when they are dropped.                 *)
EXTENDS HttpServe, Randomization

CONSTANTS
    Pick,        \* indices of the archives
    Caps,        \* sizes of the caller's buffers
    ReadSize,    \* size of the reader's own buffer, with which it skips
    Cuts,        \* sources deliver at most one of these numbers of bytes
    Waits,       \* whether sources may make the caller wait
    Failures,    \* number of failures of sources
    Seeks,       \* "none", "data", "edges", "all": where seeks may go
    AsStream,    \* calls are made to a byte stream made of the reader
    Copies,      \* number of handles there may be besides the first one
    Headers,     \* what may be asked for in requests: subset of {"none", "byte", "middle", "suffix", "rest", "all", "bad", "beyond"}
    MaxCalls,    \* number of operations, 0 for any
    Emits,       \* write behaviours
    Flaws

VARIABLES rd,    \* handle -> reader
          web,   \* handle -> the HTTP response it is in
          call,  \* the call being executed, [pc |-> "idle"] if none
          left,  \* [fail, calls, a]: what is left of Failures and MaxCalls; the archive
          viol,  \* constraints violated by the last operation
          log    \* operations, for replay
vars == <<rd, web, call, left, viol, log, hs, ws>>
View == <<rd, web, call, left, viol, hs, ws>>

Flaw(f) == f \in Flaws
Idle == [pc |-> "idle"]
NoPin == [k |-> "none", at |-> 0, hash |-> 0, seeking |-> FALSE]
Unknown == <<-1, -1>>

(******************************** Chunks ************************************)
First(a) == IF Lay[a].n = 0 THEN <<"END", 0>> ELSE <<"LH", 1>>
After(a, c) ==
    CASE c[1] = "LH" -> <<"ED", c[2]>>
      [] c[1] = "ED" -> <<"DD", c[2]>>
      [] c[1] = "DD" -> IF c[2] < Lay[a].n THEN <<"LH", c[2] + 1>> ELSE <<"CD", 1>>
      [] c[1] = "CD" -> IF c[2] < Lay[a].n THEN <<"CD", c[2] + 1>> ELSE <<"END", 0>>
      [] c[1] = "END" -> <<"FIN", 0>>

\* Lengths of the pieces that a header chunk is put together from
Pieces(a, c) ==
    LET nl == IF c[2] = 0 THEN 0 ELSE Archs[a].entries[c[2]].nl IN
    CASE c[1] = "LH" -> <<LocalFixedSize, nl, Zip64ExtraSize>>
      [] c[1] = "DD" -> <<DescriptorSize>>
      [] c[1] = "CD" -> <<CentralFixedSize, nl, Zip64ExtraSize>>
      [] c[1] = "END" -> <<56, 20, 22>>
ChunkSize(a, c) == IF c[1] = "ED" THEN Archs[a].entries[c[2]].size ELSE FoldLeft(LAMBDA s, x : s + x, 0, Pieces(a, c))
ChunkStart(a, c) ==
    CASE c[1] = "LH" -> Lay[a].lh[c[2]]
      [] c[1] = "DD" -> Lay[a].dd[c[2]]
      [] c[1] = "CD" -> Lay[a].cdh[c[2]]
      [] c[1] = "END" -> Lay[a].eocd
\* Bytes of a header chunk, with a given checksum in it
ChunkHex(a, c, crc) ==
    LET x == HexSub(Archs[a].ref, ChunkStart(a, c), ChunkSize(a, c))
        f == IF c[1] = "DD" THEN 4 ELSE 16
    IN IF c[1] \in {"DD", "CD"}
       THEN HexSub(x, 0, f) \o HexOfU32(crc) \o HexSub(x, f + 4, HexLen(x) - f - 4)
       ELSE x

\* Writes pieces of x either to the output or to the staging buffer
RECURSIVE PutPieces(_, _, _, _)
PutPieces(s, x, lens, cap) ==      \* s = [stag, skip, out]
    IF lens = <<>> THEN s
    ELSE LET n == Head(lens)
             p == HexSub(x, 0, n)
             room == cap - HexLen(s.out)
             next == IF s.stag = "" /\ s.skip >= n THEN [s EXCEPT !.skip = s.skip - n]
                     ELSE IF s.stag = "" /\ s.skip = 0 /\ room >= n THEN [s EXCEPT !.out = s.out \o p]
                     ELSE [s EXCEPT !.stag = s.stag \o p]
         IN PutPieces(next, HexSub(x, n, HexLen(x) - n), Tail(lens), cap)

(******************************* Positions **********************************)
\* Where a reader starts in order to get to a position: <<chunk, its offset>>
ChunkFor(a, pos) ==
    LET L == Lay[a]
        i == CHOOSE i \in 0..L.n : /\ (i > 0 => L.lh[i] <= pos)
                                   /\ (i < L.n => pos < L.lh[i + 1])
    IN IF pos >= L.eocd THEN <<<<"END", 0>>, L.eocd>>
       ELSE IF pos >= L.cd THEN <<<<"CD", 1>>, L.cd>>
       ELSE <<<<"LH", i>>, L.lh[i]>>

At(a, pos, crc, stag) ==
    LET c == ChunkFor(a, pos) IN
    [a |-> a, chunk |-> c[1], proc |-> 0, pos |-> pos, stag |-> stag, skip |-> pos - c[2], crc |-> crc, pin |-> NoPin]

GivenCrc(a) == [i \in 1..Lay[a].n |-> IF Archs[a].entries[i].gk = "none" THEN Unknown ELSE Archs[a].entries[i].given]
EmptyReader == At(1, 0, <<>>, "")

(* Known checksums, as ZipStream counts them, are updated by what is read;  *)
(* rd[h].crc are those the reader really knows.                             *)
AllPosIn(r, w) == [x \in 1..Cardinality(DOMAIN r) |->
    LET h == SetToSortSeq(DOMAIN r, <)[x] IN <<h, IF h \in DOMAIN w THEN -3 ELSE r[h].pos>>]
AllPos(r) == AllPosIn(r, web)

Dropped(h, r) == IF r.pin.k = "none" THEN <<>> ELSE <<[k |-> "drop", s |-> h, e |-> r.chunk[2], r |-> "ok", n |-> 0, off |-> 0]>>

Src(k, r, n, off) == [k |-> k, s |-> call.h, e |-> rd[call.h].chunk[2], r |-> r, n |-> n, off |-> off]

(******************************* Operations *********************************)
Count == left' = IF MaxCalls = 0 THEN left ELSE [left EXCEPT !.calls = @ - 1]
MayCall == call.pc = "idle" /\ viol = {} /\ (MaxCalls = 0 \/ left.calls > 0)

Log(op) == log' = IF Emits THEN Append(log, op) ELSE log

\* An operation that is over at once
DoWeb(ev, newrd, newweb, op) ==
    LET o == WebOutcome(ev @@ [all |-> AllPosIn(newrd, newweb)]) IN
    /\ Count
    /\ rd' = newrd /\ web' = newweb
    /\ viol' = o[1] /\ hs' = o[2] /\ ws' = o[3]
    /\ call' = Idle
    /\ Log(op)
Do(ev, newrd, op) == DoWeb(ev, newrd, web, op)

Init ==
    \E a \in Pick :
        /\ rd = (1 :> At(a, 0, GivenCrc(a), ""))
        /\ hs = (1 :> NewHandle(a, 0, GivenSet(a), FALSE))
        /\ web = <<>> /\ ws = <<>>
        /\ call = Idle /\ viol = {} /\ log = <<>>
        /\ left = [fail |-> Failures, calls |-> MaxCalls, a |-> a]

Edges(a) == {0, Archs[a].size, Lay[a].cd, Lay[a].eocd, Lay[a].eocd + 60}
            \cup UNION {{Lay[a].lh[i], Lay[a].lh[i] + 5, Lay[a].data[i], Lay[a].data[i] + 1, Lay[a].data[i] + 2, Lay[a].dd[i], Lay[a].dd[i] + 6,
                         Lay[a].cdh[i], Lay[a].cdh[i] + 17} : i \in 1..Lay[a].n}
Targets(a) == CASE Seeks = "none" -> {}
                [] Seeks = "edges" -> Edges(a)
                [] Seeks = "data" -> UNION {{Lay[a].lh[i], Lay[a].data[i] + 2, Lay[a].dd[i]} : i \in 1..Lay[a].n} \cup {Lay[a].cd}
                [] Seeks = "all" -> 0..(Archs[a].size + 1)

Seek(h) ==
    \E to \in (IF Emits /\ Seeks # "none" THEN RandomSubset(2, Targets(rd[h].a)) ELSE Targets(rd[h].a)) :
        LET r == rd[h]
            stag == IF Flaw("seek keeps staged bytes") THEN r.stag ELSE ""
            pin == IF Flaw("seek keeps the source") THEN r.pin ELSE NoPin
            new == [rd EXCEPT ![h] = [At(r.a, to, r.crc, stag) EXCEPT !.pin = pin]]
            src == IF pin = NoPin THEN Dropped(h, r) ELSE <<>>
        IN /\ to # r.pos \/ r.stag # "" \/ r.pin.k # "none"
           /\ Do([op |-> "seek", h |-> h, to |-> to, res |-> "ok", tell |-> to, src |-> src],
                 new, [op |-> "seek", h |-> h, to |-> to])

Clone(h, nh) ==
    LET r == rd[h]
        crc == IF Flaw("copy forgets checksums") THEN GivenCrc(r.a) ELSE r.crc
        pos == IF Flaw("copy starts over") THEN 0 ELSE r.pos
        new == (nh :> At(r.a, pos, crc, "")) @@ rd
    IN Do([op |-> "clone", h |-> h, nh |-> nh, src |-> <<>>],
          new, [op |-> "clone", h |-> h, nh |-> nh])

Take(h, nh) ==
    LET r == rd[h]
        moved == IF Flaw("taking over keeps the progress") THEN [r EXCEPT !.pin = NoPin] ELSE At(r.a, r.pos, r.crc, "")
        old == IF Flaw("taking over leaves the position") THEN [EmptyReader EXCEPT !.pos = r.pos] ELSE EmptyReader
        new == (nh :> moved) @@ [rd EXCEPT ![h] = old]
    IN Do([op |-> "take", h |-> h, nh |-> nh, src |-> Dropped(h, r)],
          new, [op |-> "take", h |-> h, nh |-> nh])

Drop(h) ==
    LET new == [k \in (DOMAIN rd) \ {h} |-> rd[k]]
    IN Do([op |-> "drop", h |-> h, src |-> Dropped(h, rd[h])], new, [op |-> "drop", h |-> h])

Listed(r) ==
    LET K == {i \in DOMAIN r.crc : r.crc[i] # Unknown}
        s == SetToSortSeq(K, <)
    IN [x \in 1..Len(s) |-> <<s[x], r.crc[s[x]][1], r.crc[s[x]][2]>>]
Crcs(h) ==
    Do([op |-> "crcs", h |-> h, list |-> Listed(rd[h]), src |-> <<>>], rd, [op |-> "crcs", h |-> h])

Read(h) ==
    \E cap \in Caps :
        /\ call' = [pc |-> "loop", h |-> h, cap |-> cap, out |-> "", src |-> <<>>, q |-> <<>>]
        /\ Count
        /\ UNCHANGED <<rd, web, viol, hs, ws, log>>

(***************************** Inside of a read *****************************)
Known(r, i) == r.crc[i] # Unknown
Size(r) == ChunkSize(r.a, r.chunk)
Entry(r) == Archs[r.a].entries[r.chunk[2]]

InBody(h) == h \in DOMAIN web
Streamed(h) == AsStream \/ InBody(h)

\* What the caller sees
Seen(c, res, pos, new, err) ==
    [op |-> IF InBody(c.h) THEN "bnext" ELSE IF AsStream THEN "next" ELSE "read", h |-> c.h, cap |-> IF Streamed(c.h) THEN 65536 ELSE c.cap,
     res |-> res, n |-> HexLen(c.out), hex |-> c.out, src |-> c.src,
     tell |-> IF InBody(c.h) THEN -3 ELSE pos, woke |-> res = "pend", all |-> AllPos(new), err |-> err]

\* What is let through of a block: no more than is left of the body
Through(h, out) ==
    IF InBody(h) /\ web[h].rem < HexLen(out) /\ ~Flaw("bodies are not cut") /\ ~(Flaw("bodies have no end") /\ web[h].rem = 0)
    THEN (IF Flaw("the last block is left out") THEN "" ELSE HexSub(out, 0, web[h].rem))
    ELSE out

(* The call is over. c: as it stands, r: the reader                         *)
Return(c, r, res, err) ==
    LET n == IF res = "ok" THEN HexLen(c.out) ELSE 0
        r2 == [r EXCEPT !.pos = r.pos + n]
        new == [rd EXCEPT ![c.h] = r2]
        seen == [c EXCEPT !.out = Through(c.h, @)]
        k == HexLen(seen.out)
        result == IF Streamed(c.h) /\ res = "ok" /\ seen.out = "" THEN "end" ELSE res
        o == WebOutcome(Seen(seen, result, r2.pos, new, err))
    IN /\ rd' = new
       /\ viol' = o[1] /\ hs' = o[2] /\ ws' = o[3]
       /\ web' = IF ~InBody(c.h) THEN web
                 ELSE [web EXCEPT ![c.h].rem = IF res = "ok" THEN @ - k ELSE @, ![c.h].failed = res = "err"]
       /\ call' = Idle
       /\ Log([op |-> "read", h |-> c.h, cap |-> c.cap, q |-> c.q, res |-> result, n |-> IF res = "ok" THEN k ELSE 0])
       /\ UNCHANGED left

Continue(c, r) ==
    /\ call' = c /\ rd' = [rd EXCEPT ![c.h] = r]
    /\ UNCHANGED <<left, web, viol, hs, ws, log>>

NoErr == [k |-> "none"]
SrcErr == [k |-> "src", e |-> 0]

\* The chunk is finished
Finish(r) == [r EXCEPT !.chunk = After(r.a, r.chunk), !.proc = 0]

PutHeader(c, r, crc) ==
    LET p == PutPieces([stag |-> r.stag, skip |-> r.skip, out |-> c.out], ChunkHex(r.a, r.chunk, crc), Pieces(r.a, r.chunk), c.cap)
    IN Continue([c EXCEPT !.out = p.out, !.pc = "loop"], Finish([r EXCEPT !.stag = p.stag, !.skip = p.skip]))

Loop ==
    /\ call.pc = "loop"
    /\ LET c == call
           r == rd[c.h]
           k == r.chunk[1]
           i == r.chunk[2]
           room == c.cap - HexLen(c.out)
       IN
       CASE room = 0 -> Return(c, r, "ok", NoErr)
         [] room > 0 /\ r.stag # "" ->
                LET all == HexLen(r.stag)
                    n == IF all - r.skip < room THEN all - r.skip ELSE room
                    m == IF n < 0 THEN 0 ELSE n
                    done == r.skip + room >= all
                IN Continue([c EXCEPT !.out = c.out \o HexSub(r.stag, r.skip, m)],
                            [r EXCEPT !.stag = IF done THEN "" ELSE r.stag, !.skip = IF done THEN 0 ELSE r.skip + room])
         [] room > 0 /\ r.stag = "" /\ k = "FIN" -> Return(c, r, "ok", NoErr)
         [] room > 0 /\ r.stag = "" /\ k # "FIN" /\ r.skip >= Size(r) ->
                Continue(c, [r EXCEPT !.skip = r.skip - Size(r), !.chunk = After(r.a, r.chunk)])
         [] room > 0 /\ r.stag = "" /\ k # "FIN" /\ r.skip < Size(r) ->
                CASE k \in {"LH", "END"} -> PutHeader(c, r, Unknown)
                  [] k = "ED" -> IF c.out # "" /\ ~Flaw("data are read in any call") THEN Return(c, r, "ok", NoErr)
                                 ELSE Continue([c EXCEPT !.pc = "source"], r)
                  [] k \in {"DD", "CD"} ->
                        IF Known(r, i) THEN PutHeader(c, r, r.crc[i])
                        ELSE IF Entry(r).size = 0 THEN PutHeader(c, [r EXCEPT !.crc[i] = <<0, 0>>], <<0, 0>>)
                        ELSE IF c.out # "" /\ ~Flaw("checksums are made in any call") THEN Return(c, r, "ok", NoErr)
                        ELSE Continue([c EXCEPT !.pc = "source"], r)

\* What to do with an open source
Purpose(r) ==
    IF r.chunk[1] # "ED" THEN "crc"
    ELSE IF r.skip = 0 THEN "data"
    ELSE IF Known(r, r.chunk[2]) /\ ~Flaw("known checksums are no reason to seek") THEN "seek"
    ELSE IF ~Known(r, r.chunk[2]) /\ Flaw("skips by seeking") THEN "seek"
    ELSE "skip"

Source ==
    /\ call.pc = "source"
    /\ LET r == rd[call.h] IN
       CASE r.pin.k = "none" ->
                Continue([call EXCEPT !.src = Append(@, Src("get", "ok", 0, 0))], [r EXCEPT !.pin.k = "future"])
         [] r.pin.k = "future" -> Continue([call EXCEPT !.pc = "open"], r)
         [] r.pin.k = "done" -> Return(call, r, "panic", NoErr)
         [] r.pin.k = "reader" -> Continue([call EXCEPT !.pc = Purpose(r)], r)

\* The caller has to wait, or the source failed: if something has been
\* delivered already, only the flawed get here
Wait(c, r) ==
    IF c.out = "" THEN Return(c, r, IF Flaw("waiting ends the stream") THEN "ok" ELSE "pend", NoErr) ELSE Return(c, r, "ok", NoErr)
Fail(c, r) == Return(c, r, "err", SrcErr)
MayFail == left.fail > 0
Failed(c, r) ==
    LET new == [rd EXCEPT ![c.h] = r]
        o == WebOutcome(Seen(c, "err", r.pos, new, SrcErr))
    IN /\ rd' = new
       /\ web' = IF InBody(c.h) THEN [web EXCEPT ![c.h].failed = TRUE] ELSE web
       /\ viol' = o[1] /\ hs' = o[2] /\ ws' = o[3]
       /\ call' = Idle
       /\ left' = [left EXCEPT !.fail = @ - 1]
       /\ Log([op |-> "read", h |-> c.h, cap |-> c.cap, q |-> c.q, res |-> "err", n |-> 0])

With(kind, res, n, off, q) == [call EXCEPT !.src = Append(@, Src(kind, res, n, off)), !.q = IF Emits THEN Append(@, q) ELSE @]

Open ==
    /\ call.pc = "open"
    /\ LET r == rd[call.h] IN
       \/ Continue([With("open", "ok", 0, 0, [k |-> "F"]) EXCEPT !.pc = "source"],
                   [r EXCEPT !.pin = [NoPin EXCEPT !.k = "reader"]])
       \/ Waits /\ Wait(With("open", "p", 0, 0, [k |-> "P"]), r)
       \/ /\ MayFail
          /\ LET c == With("open", "e", 0, 0, [k |-> "E"]) IN
             IF Flaw("failed opening is polled again")
             THEN Failed([c EXCEPT !.src = Append(@, Src("drop", "ok", 0, 0))], [r EXCEPT !.pin.k = "done"])
             ELSE Failed([c EXCEPT !.src = Append(@, Src("drop", "ok", 0, 0))], [r EXCEPT !.pin = NoPin])

\* Numbers of bytes that a source may deliver for a request of up to m
Answers(r, m) ==
    LET rest == Entry(r).actual - r.pin.at
        most == IF rest < m THEN rest ELSE m
    IN IF most <= 0 THEN {0} ELSE {IF k < most THEN k ELSE most : k \in Cuts}
Answer(n) == [k |-> "S", n |-> IF n = 0 THEN 1 ELSE n]

Hashed(r, n) == IF r.pin.hash = -1 THEN -1 ELSE r.pin.hash + n
Delivered(r, n) == [r EXCEPT !.pin.at = r.pin.at + n, !.pin.hash = Hashed(r, n)]
\* Checksum of what has been read of the source
CrcSoFar(r) == CrcOfHex(HexSub(Entry(r).data, 0, r.pin.hash))

\* Reading instead of seeking, since the checksum is going to be needed
Skip ==
    /\ call.pc = "skip"
    /\ LET r == rd[call.h]
           m == IF r.skip < ReadSize THEN r.skip ELSE ReadSize
       IN
       \/ \E n \in Answers(r, m) :
            LET d == [Delivered(r, n) EXCEPT !.proc = r.proc + n, !.skip = r.skip - n] IN
            Continue([With("read", "ok", n, r.pin.at, Answer(n)) EXCEPT !.pc = IF d.skip = 0 \/ n = 0 THEN "data" ELSE "skip"], d)
       \/ /\ Waits
          /\ LET back == r.pin.at IN     \* what of the skipping is forgotten by the flawed
             Wait(With("read", "p", 0, r.pin.at, [k |-> "P"]),
                  IF Flaw("waiting forgets what was skipped") THEN [r EXCEPT !.skip = r.skip + back, !.proc = 0] ELSE r)
       \/ /\ MayFail
          /\ Failed(With("read", "e", 0, r.pin.at, [k |-> "E"]), r)

SeekIn ==
    /\ call.pc = "seek"
    /\ LET r == rd[call.h] IN
       IF ~r.pin.seeking
       THEN \/ Continue([call EXCEPT !.src = Append(@, Src("sseek", "ok", 0, r.skip))],
                        [r EXCEPT !.pin.seeking = TRUE, !.pin.hash = -1])
            \/ MayFail /\ Failed(With("sseek", "e", 0, r.skip, [k |-> "X"]), [r EXCEPT !.pin.hash = -1])
       ELSE \/ Continue([With("pseek", "ok", 0, r.skip, [k |-> "F"]) EXCEPT !.pc = "data"],
                        [r EXCEPT !.pin.seeking = FALSE, !.pin.at = r.skip, !.proc = r.proc + r.skip, !.skip = 0])
            \/ Waits /\ Wait(With("pseek", "p", 0, r.skip, [k |-> "P"]), r)
            \/ /\ MayFail
               /\ Failed(With("pseek", "e", 0, r.skip, [k |-> "E"]),
                         [r EXCEPT !.pin.seeking = FALSE, !.pin.at = r.skip \div 2,
                                   !.skip = IF Flaw("failed seek is done") THEN 0 ELSE r.skip,
                                   !.proc = IF Flaw("failed seek is done") THEN r.proc + r.skip ELSE r.proc])

Closing(c) == [c EXCEPT !.src = Append(@, Src("drop", "ok", 0, 0))]

DataEnd(c, r) ==
    LET i == r.chunk[2]
        E == Entry(r)
        hashed == r.pin.hash # -1
        crc == CrcSoFar(r)
        wrong == hashed /\ Known(r, i) /\ r.crc[i] # crc /\ ~Flaw("checksums are not compared")
        r2 == IF hashed /\ ~Known(r, i) /\ ~Flaw("checksums of data read are forgotten") THEN [r EXCEPT !.crc[i] = crc] ELSE r
        r3 == IF wrong /\ Flaw("the wrong checksum is replaced") THEN [r EXCEPT !.crc[i] = crc] ELSE r
    IN IF wrong
       THEN Return(c, r3, "err", [k |-> "crc", e |-> i, x |-> <<r.crc[i][2], r.crc[i][1], 0, 0>>, y |-> <<crc[2], crc[1], 0, 0>>])
       ELSE IF r.proc = E.size \/ Flaw("sizes are not compared")
       THEN IF Flaw("the source stays open after its data")
            THEN Continue([c EXCEPT !.pc = "loop"], Finish(r2))
            ELSE Continue([Closing(c) EXCEPT !.pc = "loop"], Finish([r2 EXCEPT !.pin = NoPin]))
       ELSE Return(c, r2, "err", [k |-> "size", e |-> i, x |-> U64Of(E.size), y |-> U64Of(r.proc)])

DataIn ==
    /\ call.pc = "data"
    /\ LET r == rd[call.h]
           room == call.cap - HexLen(call.out)
       IN
       \/ \E n \in Answers(r, room) :
            LET c == With("read", "ok", n, r.pin.at, Answer(n))
                d == [Delivered(r, n) EXCEPT !.proc = r.proc + n]
            IN IF n = 0 THEN DataEnd(c, r)
               ELSE Continue([c EXCEPT !.out = c.out \o HexSub(Entry(r).data, r.pin.at, n), !.pc = "loop"], d)
       \/ Waits /\ Wait(With("read", "p", 0, r.pin.at, [k |-> "P"]), r)
       \/ MayFail /\ LET c == With("read", "e", 0, r.pin.at, [k |-> "E"]) IN
                     IF Flaw("a failed source is opened again")
                     THEN Failed(Closing(c), [r EXCEPT !.pin = NoPin])
                     ELSE Failed(c, r)

\* Reading all of the data for the checksum
CrcIn ==
    /\ call.pc = "crc"
    /\ LET r == rd[call.h] IN
       \/ \E n \in Answers(r, ReadSize) :
            LET c == With("read", "ok", n, r.pin.at, Answer(n))
                d == Delivered(r, n)
                crc == CrcSoFar(r)
            IN IF n > 0 THEN Continue(c, d)
               ELSE IF Flaw("the source stays open after its checksum")
               THEN PutHeader([c EXCEPT !.pc = "loop"], [r EXCEPT !.crc[r.chunk[2]] = crc], crc)
               ELSE PutHeader([Closing(c) EXCEPT !.pc = "loop"], [r EXCEPT !.crc[r.chunk[2]] = crc, !.pin = NoPin], crc)
       \/ Waits /\ Wait(With("read", "p", 0, r.pin.at, [k |-> "P"]), r)
       \/ MayFail /\ Failed(With("read", "e", 0, r.pin.at, [k |-> "E"]), r)

Inside == Loop \/ Source \/ Open \/ Skip \/ SeekIn \/ DataIn \/ CrcIn

(***************************** HTTP responses *******************************)
RECURSIVE Decimal(_)
Decimal(n) == (IF n < 10 THEN "" ELSE Decimal(n \div 10)) \o HexOfByte(48 + (n % 10))
BytesIs == "62797465733d"
HeaderFor(a, what) ==
    CASE what = "byte" -> BytesIs \o "302d30"
      [] what = "middle" -> BytesIs \o Decimal(Lay[a].data[1] + 1) \o "2d" \o Decimal(Lay[a].dd[1] + 5)
      [] what = "suffix" -> BytesIs \o "2d3330"
      [] what = "rest" -> BytesIs \o Decimal(Lay[a].dd[1] + 6) \o "2d"
      [] what = "all" -> BytesIs \o "302d"
      [] what = "beyond" -> BytesIs \o Decimal(Archs[a].size) \o "2d"
      [] OTHER -> "782d"
RangeFor(a, what) ==     \* first and last byte
    CASE what = "byte" -> <<0, 0>>
      [] what = "middle" -> <<Lay[a].data[1] + 1, Lay[a].dd[1] + 5>>
      [] what = "suffix" -> <<Archs[a].size - 30, Archs[a].size - 1>>
      [] what = "rest" -> <<Lay[a].dd[1] + 6, Archs[a].size - 1>>
      [] OTHER -> <<0, Archs[a].size - 1>>

NewHandles == {h \in 2..(Copies + 1) : h \notin DOMAIN rd /\ h \notin DOMAIN web}
Fresh(nh) == nh \in NewHandles /\ \A k \in NewHandles : nh <= k

Adapt(h) ==
    LET w == [k |-> "adapter", rem |-> 0, tx |-> TRUE, rx |-> TRUE, box |-> <<>>, failed |-> FALSE] IN
    DoWeb([op |-> "adapt", h |-> h, chan |-> TRUE, src |-> <<>>], rd, (h :> w) @@ web, [op |-> "adapt", h |-> h])

\* The reader inside is handed back
Sent(h, w) ==
    LET r == rd[h]
        back == IF Flaw("hand-back starts over") THEN At(r.a, 0, r.crc, "")
                ELSE IF Flaw("hand-back forgets checksums") THEN At(r.a, r.pos, GivenCrc(r.a), "")
                ELSE At(r.a, r.pos, r.crc, "")
    IN IF ~w.tx THEN w
       ELSE [w EXCEPT !.tx = FALSE, !.box = IF w.rx /\ ~Flaw("nothing is handed back") THEN <<back>> ELSE <<>>]

Respond(h) ==
    \E what \in Headers :
        LET r == rd[h]
            a == r.a
            size == Archs[a].size
            range == RangeFor(a, what)
            len == range[2] - range[1] + 1
            start == IF Flaw("responses start where the reader is") /\ what = "none" THEN r.pos
                     ELSE IF Flaw("responses start at the beginning") THEN 0 ELSE range[1]
            refused == what \in {"bad", "beyond"}
            req == [op |-> "respond", h |-> h, has |-> what # "none", hdr |-> IF what = "none" THEN "" ELSE HeaderFor(a, what)]
            log1 == IF what = "none" THEN [op |-> "respond", h |-> h] ELSE [op |-> "respond", h |-> h, hdr |-> HeaderFor(a, what)]
            full == [status |-> IF len = size THEN 200 ELSE 206, cl |-> <<Decimal(len)>>, bs |-> <<U64Of(len)>>,
                     cr |-> IF what = "none" THEN <<>>
                            ELSE <<"627974657320" \o Decimal(range[1]) \o "2d" \o Decimal(range[2]) \o "2f" \o Decimal(size)>>]
            short == [status |-> IF what = "bad" THEN 400 ELSE 416, cl |-> <<>>, bs |-> <<>>,
                      cr |-> IF what = "bad" THEN <<>> ELSE <<"6279746573202a2f" \o Decimal(size)>>]
            both == [ct |-> <<"6170706c69636174696f6e2f7a6970">>, ar |-> <<"6279746573">>]
            src == Dropped(h, r)
        IN /\ what \in {"middle", "rest"} => Lay[a].n > 0
           /\ IF refused
              THEN DoWeb(req @@ short @@ both @@ [src |-> src], [rd EXCEPT ![h].pin = NoPin],
                         [web EXCEPT ![h] = [Sent(h, @) EXCEPT !.k = "refused"]], log1)
              ELSE DoWeb(req @@ full @@ both @@ [src |-> src], [rd EXCEPT ![h] = At(a, start, r.crc, "")],
                         [web EXCEPT ![h].k = "body", ![h].rem = len], log1)

\* The body has ended
BodyEnd(h) ==
    DoWeb(Seen([h |-> h, cap |-> 1, out |-> "", src |-> <<>>, q |-> <<>>], "end", 0, rd, NoErr), rd, web,
          [op |-> "read", h |-> h, cap |-> 1, q |-> <<>>, res |-> "end", n |-> 0])

Receive(h, nh) ==
    LET w == web[h]
        got == w.box # <<>>
        res == IF got THEN "reader" ELSE IF w.tx THEN "empty" ELSE "closed"
        newrd == IF got THEN (nh :> w.box[1]) @@ rd ELSE rd
    IN DoWeb([op |-> "recv", h |-> h, nh |-> nh, res |-> res, pos |-> IF got THEN w.box[1].pos ELSE -3, src |-> <<>>],
             newrd, [web EXCEPT ![h].box = <<>>], [op |-> "recv", h |-> h, nh |-> nh])

HangUp(h) == DoWeb([op |-> "hangup", h |-> h, src |-> <<>>], rd, [web EXCEPT ![h].rx = FALSE, ![h].box = <<>>], [op |-> "hangup", h |-> h])

DropWeb(h) ==
    LET open == Flaw("sources stay open in the channel")
        new == [k \in (DOMAIN rd) \ {h} |-> rd[k]] IN
    DoWeb([op |-> "drop", h |-> h, src |-> IF open THEN <<>> ELSE Dropped(h, rd[h])], new,
          [web EXCEPT ![h] = [Sent(h, @) EXCEPT !.k = "dropped"]], [op |-> "drop", h |-> h])

WebOperation ==
    /\ MayCall /\ Headers # {}
    /\ \/ \E h \in (DOMAIN rd) \ DOMAIN web : Adapt(h)
       \/ \E h \in (DOMAIN rd) \cap DOMAIN web :
            \/ web[h].k = "adapter" /\ Respond(h)
            \/ /\ web[h].k = "body" /\ ~web[h].failed
               /\ IF web[h].rem = 0 /\ ~Flaw("bodies have no end") THEN BodyEnd(h) ELSE Read(h)
            \/ DropWeb(h)
       \/ \E h \in DOMAIN web : web[h].rx /\ ((\E nh \in NewHandles : Fresh(nh) /\ Receive(h, nh)) \/ HangUp(h))

(****************************************************************************)
Operation ==
    /\ MayCall
    /\ \E h \in (DOMAIN rd) \ DOMAIN web :
         \/ Read(h)
         \/ Seek(h)
         \/ \E nh \in NewHandles : Fresh(nh) /\ Headers = {} /\ (Clone(h, nh) \/ Take(h, nh))
         \/ h > 1 /\ Headers = {} /\ Drop(h)
         \/ Copies > 0 /\ Crcs(h)

Next == Operation \/ WebOperation \/ Inside
Spec == Init /\ [][Next]_vars

(******************************* Properties *********************************)
Permitted == viol = {}

(* Nothing is ever stuck: reading goes on until the end or an error that    *)
(* stays. If sources do not make the caller wait forever (and failures are  *)
(* finite in number), all of the archive is delivered.                      *)
Answered == (Open \/ Skip \/ SeekIn \/ DataIn \/ CrcIn) /\ call'.pc # "idle"
Fair == WF_vars(Operation) /\ WF_vars(Loop \/ Source) /\ SF_vars(Answered)
FairSpec == Spec /\ Fair
Delivers == <>(rd[1].pos = Archs[rd[1].a].size)

Behaviour == [entries |-> [i \in 1..Lay[left.a].n |->
                  LET e == Archs[left.a].entries[i] IN [nl |-> e.nl, size |-> e.size, gk |-> e.gk, actual |-> e.actual]],
              stream |-> AsStream, ops |-> log]
Over == left.calls = 0 \/ DOMAIN rd = {}
Emit == Emits /\ Over /\ call.pc = "idle" => PrintT("BEHAVIOUR " \o ToJson(Behaviour))
=============================================================================
