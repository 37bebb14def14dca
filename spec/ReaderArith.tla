---------------------------- MODULE ReaderArith ----------------------------
(* How a reader keeps its place, for sizes of any magnitude.                *)
(*                                                                          *)
(* ZipReader, which TLC explores, has entries of a few bytes. This module   *)
(* has only the arithmetic of the implementation - which part of the file   *)
(* is next, how much of it was processed, how much is to be skipped, and    *)
(* what waits in the staging buffer - but sizes, name lengths, offsets and  *)
(* capacities are arbitrary integers. Apalache proves for every number of   *)
(* entries up to three that Inv is inductive:                               *)
(*   apalache-mc check --cinit=CInit --init=Init    --inv=Inv --length=0    *)
(*   apalache-mc check --cinit=CInit --init=IndInit --inv=Inv --length=1    *)
(* so that Right holds in every reachable state: whatever is delivered      *)
(* comes from exactly the place of the file that the position says, after   *)
(* any sequence of seeks, reads, waits and short answers.                   *)
EXTENDS Integers

CONSTANT
    \* A planted flaw, which the invariant has to object to; "" for none
    \* @type: Str;
    Flaw

CInit == Flaw = ""
CInitStaged == Flaw = "what was skipped in the staging buffer is skipped again"
CInitOrder == Flaw = "parts overtake the staging buffer"
CInitWait == Flaw = "waiting forgets what was delivered"
CInitSearch == Flaw = "the search finds the next entry"
CInitSeek == Flaw = "a seek keeps what was processed"
CInitTail == Flaw = "the tail of the staging buffer is dropped"

VARIABLES
    \* @type: Int;
    n,
    \* @type: Int -> Int;
    size,
    \* @type: Int -> Int;
    nl,
    \* @type: Str;
    kind,
    \* @type: Int;
    entry,
    \* Part of the record of the current chunk that comes next; none of it is processed if it is 1
    \* @type: Int;
    part,
    \* @type: Int;
    processed,
    \* @type: Int;
    skip,
    \* Bytes in the staging buffer, and where in the file they are from
    \* @type: Int;
    staged,
    \* @type: Int;
    sfrom,
    \* The position that is reported
    \* @type: Int;
    pos,
    \* Within a read: room in the buffer, and bytes already in it
    \* @type: Bool;
    reading,
    \* @type: Int;
    room,
    \* @type: Int;
    w,
    \* What the last step delivered: where it is from, where it should be from, and how much
    \* @type: Int;
    from,
    \* @type: Int;
    want,
    \* @type: Int;
    len

vars == <<n, size, nl, kind, entry, part, processed, skip, staged, sfrom, pos, reading, room, w, from, want, len>>

Max == 3
Kinds == {"local", "data", "desc", "central", "end", "done"}

(***************************************************************************)
(* The layout                                                              *)
(***************************************************************************)
Whole(i) == 82 + nl[i] + size[i]
Record(i) == 74 + nl[i]
LocalAt(i) == (IF i > 1 THEN Whole(1) ELSE 0) + (IF i > 2 THEN Whole(2) ELSE 0) + (IF i > 3 THEN Whole(3) ELSE 0)
CdAt == LocalAt(n + 1)
CentralAt(i) == CdAt + (IF i > 1 THEN Record(1) ELSE 0) + (IF i > 2 THEN Record(2) ELSE 0) + (IF i > 3 THEN Record(3) ELSE 0)
EndAt == CentralAt(n + 1)
Total == EndAt + 98

\* Where a chunk starts
Start(k, i) ==
    IF k = "local" THEN LocalAt(i)
    ELSE IF k = "data" THEN LocalAt(i) + 58 + nl[i]
    ELSE IF k = "desc" THEN LocalAt(i) + 58 + nl[i] + size[i]
    ELSE IF k = "central" THEN CentralAt(i)
    ELSE IF k = "end" THEN EndAt
    ELSE Total

ChunkSize(k, i) ==
    IF k = "local" THEN 58 + nl[i]
    ELSE IF k = "data" THEN size[i]
    ELSE IF k = "desc" THEN 24
    ELSE IF k = "central" THEN 74 + nl[i]
    ELSE 98

\* The parts of a record: fixed fields, name, extra field - or the three records at the end
Parts(k) == IF k = "desc" THEN 1 ELSE 3
PartSize(k, i, p) ==
    IF k = "local" THEN (IF p = 1 THEN 30 ELSE IF p = 2 THEN nl[i] ELSE 28)
    ELSE IF k = "central" THEN (IF p = 1 THEN 46 ELSE IF p = 2 THEN nl[i] ELSE 28)
    ELSE IF k = "end" THEN (IF p = 1 THEN 56 ELSE IF p = 2 THEN 20 ELSE 22)
    ELSE 24
\* Bytes of the record before part p
Before(k, i, p) == (IF p > 1 THEN PartSize(k, i, 1) ELSE 0) + (IF p > 2 THEN PartSize(k, i, 2) ELSE 0) + (IF p > 3 THEN PartSize(k, i, 3) ELSE 0)

NextKind(k, i) ==
    IF k = "local" THEN "data"
    ELSE IF k = "data" THEN "desc"
    ELSE IF k = "desc" THEN (IF i < n THEN "local" ELSE "central")
    ELSE IF k = "central" THEN (IF i < n THEN "central" ELSE "end")
    ELSE "done"
NextEntry(k, i) ==
    IF k = "desc" THEN (IF i < n THEN i + 1 ELSE 1)
    ELSE IF k = "central" THEN (IF i < n THEN i + 1 ELSE 1)
    ELSE IF k = "end" THEN 1
    ELSE i

(***************************************************************************)
(* The implementation                                                      *)
(***************************************************************************)
SomeArchive ==
    /\ n \in 0..Max
    /\ size \in [1..Max -> Int] /\ nl \in [1..Max -> Int]
    /\ \A i \in 1..Max : size[i] >= 0 /\ nl[i] >= 0

Init ==
    /\ SomeArchive
    /\ kind = (IF n = 0 THEN "end" ELSE "local") /\ entry = 1 /\ part = 1
    /\ processed = 0 /\ skip = 0 /\ staged = 0 /\ sfrom = 0 /\ pos = 0
    /\ reading = FALSE /\ room = 0 /\ w = 0 /\ from = 0 /\ want = 0 /\ len = 0

Quiet == from' = from /\ want' = want /\ len' = 0
Same == UNCHANGED <<n, size, nl>>

\* Any offset; the search for the entry is taken for granted, its result is not
Seek ==
    /\ ~reading
    /\ \E o \in Int :
        /\ o >= 0
        /\ pos' = o
        /\ IF o >= EndAt THEN kind' = "end" /\ entry' = 1 /\ skip' = o - EndAt
           ELSE IF o >= CdAt THEN kind' = "central" /\ entry' = 1 /\ skip' = o - CdAt
           ELSE \E i \in 1..Max :
                    /\ i <= n /\ (LocalAt(i) <= o \/ Flaw = "the search finds the next entry") /\ o < LocalAt(i + 1)
                    /\ kind' = "local" /\ entry' = i /\ skip' = o - LocalAt(i)
    /\ part' = 1 /\ processed' = (IF Flaw = "a seek keeps what was processed" THEN processed ELSE 0) /\ staged' = 0 /\ sfrom' = 0
    /\ Quiet /\ Same /\ UNCHANGED <<reading, room, w>>

BeginRead ==
    /\ ~reading
    /\ \E c \in Int : c > 0 /\ room' = c
    /\ reading' = TRUE /\ w' = 0
    /\ Quiet /\ Same /\ UNCHANGED <<kind, entry, part, processed, skip, staged, sfrom, pos>>

\* The call returns what there is, or that it has to wait (w = 0); the latter before anything is delivered
EndRead ==
    /\ reading
    /\ part = 1
    /\ reading' = FALSE /\ room' = 0 /\ w' = 0
    /\ pos' = (IF Flaw = "waiting forgets what was delivered" THEN pos ELSE pos + w)
    /\ Quiet /\ Same /\ UNCHANGED <<kind, entry, part, processed, skip, staged, sfrom>>

Deliver(place, k) ==
    /\ from' = place /\ want' = pos + w /\ len' = k
    /\ w' = w + k /\ room' = room - k

FromStaging ==
    /\ reading /\ room > 0 /\ staged > 0 /\ part = 1
    /\ LET end == IF skip + room >= staged THEN (IF Flaw = "the tail of the staging buffer is dropped" THEN staged - 1 ELSE staged) ELSE skip + room
       IN /\ IF skip < staged THEN Deliver(sfrom + skip, end - skip) ELSE Quiet /\ UNCHANGED <<room, w>>
          /\ IF skip + room >= staged THEN staged' = 0 /\ skip' = (IF Flaw = "what was skipped in the staging buffer is skipped again" THEN skip ELSE 0) ELSE skip' = end /\ staged' = staged
    /\ Same /\ UNCHANGED <<kind, entry, part, processed, sfrom, pos, reading>>

SkipChunk ==
    /\ reading /\ room > 0 /\ staged = 0 /\ part = 1 /\ kind /= "done"
    /\ processed = 0
    /\ skip >= ChunkSize(kind, entry)
    /\ skip' = skip - ChunkSize(kind, entry)
    /\ kind' = NextKind(kind, entry) /\ entry' = NextEntry(kind, entry)
    /\ Quiet /\ Same /\ UNCHANGED <<part, processed, staged, sfrom, pos, reading, room, w>>

\* One part of a record: skipped, delivered, or put aside
Part ==
    /\ reading /\ kind \in {"local", "desc", "central", "end"}
    /\ IF part = 1 THEN room > 0 /\ staged = 0 /\ skip < ChunkSize(kind, entry) ELSE TRUE
    /\ LET k == PartSize(kind, entry, part)
           place == Start(kind, entry) + Before(kind, entry, part)
       IN IF staged = 0 /\ skip >= k
          THEN skip' = skip - k /\ Quiet /\ UNCHANGED <<staged, sfrom, room, w>>
          ELSE IF (staged = 0 \/ Flaw = "parts overtake the staging buffer") /\ skip = 0 /\ room >= k
          THEN Deliver(place, k) /\ UNCHANGED <<staged, sfrom, skip>>
          ELSE /\ staged' = staged + k
               /\ sfrom' = (IF staged = 0 THEN place ELSE sfrom)
               /\ Quiet /\ UNCHANGED <<skip, room, w>>
    /\ IF part < Parts(kind)
       THEN part' = part + 1 /\ processed' = processed + PartSize(kind, entry, part) /\ UNCHANGED <<kind, entry>>
       ELSE part' = 1 /\ processed' = 0 /\ kind' = NextKind(kind, entry) /\ entry' = NextEntry(kind, entry)
    /\ Same /\ UNCHANGED <<pos, reading>>

\* Data are skipped by reading some of them, or by a seek of the source
SkipData ==
    /\ reading /\ room > 0 /\ staged = 0 /\ part = 1 /\ kind = "data" /\ w = 0
    /\ skip > 0 /\ (processed > 0 \/ skip < size[entry])
    /\ \E m \in Int :
        /\ 0 < m /\ m <= skip
        /\ skip' = skip - m /\ processed' = processed + m
    /\ Quiet /\ Same /\ UNCHANGED <<kind, entry, part, staged, sfrom, pos, reading, room, w>>

Data ==
    /\ reading /\ room > 0 /\ staged = 0 /\ part = 1 /\ kind = "data" /\ skip = 0 /\ w = 0
    /\ IF processed = size[entry]
       THEN /\ kind' = NextKind(kind, entry) /\ entry' = NextEntry(kind, entry) /\ processed' = 0
            /\ Quiet /\ UNCHANGED <<room, w>>
       ELSE /\ \E k \in Int : 0 < k /\ k <= room /\ k <= size[entry] - processed
                              /\ Deliver(Start(kind, entry) + processed, k) /\ processed' = processed + k
            /\ UNCHANGED <<kind, entry>>
    /\ Same /\ UNCHANGED <<part, skip, staged, sfrom, pos, reading>>

Next == Seek \/ BeginRead \/ EndRead \/ FromStaging \/ SkipChunk \/ Part \/ SkipData \/ Data
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* The invariant                                                           *)
(***************************************************************************)
Types ==
    /\ n \in 0..Max
    /\ kind \in Kinds /\ part \in 1..3 /\ entry \in 1..Max
    /\ \A i \in 1..Max : size[i] >= 0 /\ nl[i] >= 0
    /\ processed >= 0 /\ skip >= 0 /\ staged >= 0 /\ pos >= 0 /\ w >= 0 /\ len >= 0 /\ room >= 0
    /\ kind \in {"local", "data", "desc", "central"} => entry <= n
    /\ kind \in {"end", "done"} => entry = 1
    /\ (n = 0) => kind \in {"end", "done"}
    /\ (~reading => w = 0 /\ part = 1 /\ room = 0)
    /\ (part > 1 => kind \in {"local", "central", "end"} /\ reading)

\* The next byte to deliver is where the position is
Place ==
    LET here == Start(kind, entry) + (IF kind = "data" THEN processed ELSE Before(kind, entry, part))
    IN /\ kind = "data" => processed + skip <= size[entry] \/ processed = 0
       /\ kind /= "data" => processed = (IF part = 1 THEN 0 ELSE Before(kind, entry, part))
       /\ IF staged = 0
          THEN pos + w = here + skip
          ELSE /\ sfrom + staged = here
               /\ skip < staged
               /\ pos + w = sfrom + skip
               /\ processed = 0 \/ part > 1
       \* Something of a record that was started is left of what to skip
       /\ part > 1 /\ staged = 0 => skip < ChunkSize(kind, entry) - Before(kind, entry, part) \/ skip = 0

Right == len > 0 => from = want /\ from >= 0 /\ from + len <= Total

Inv == Types /\ Place /\ Right

IndInit ==
    /\ SomeArchive
    /\ kind \in Kinds /\ entry \in 1..Max /\ part \in 1..3
    /\ processed \in Int /\ skip \in Int /\ staged \in Int /\ sfrom \in Int /\ pos \in Int
    /\ reading \in BOOLEAN /\ room \in Int /\ w \in Int /\ from \in Int /\ want \in Int /\ len \in Int
    /\ Inv
=============================================================================
