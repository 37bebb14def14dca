------------------------------ MODULE FsTree ------------------------------
(* Archive descriptions made from a file system: what is captured when a    *)
(* directory or a single object is added, and what the produced file holds  *)
(* when the objects have changed in the meantime.                           *)
(*                                                                          *)
(* State: the objects of a scratch part of the file system, and the live    *)
(* builders (of module Builder). A path is a sequence of names (as bytes,   *)
(* in hexadecimal); an object is a record with                              *)
(*   k      "dir", "file", "link" or "other" (socket, pipe)                 *)
(*   nm     its last name as text                                           *)
(*   m      mode, of which the low nine bits are permissions                *)
(*   d, s   modification time: day, second of day                           *)
(*   size   of files and links (limbs)                                      *)
(*   cx, tx content, resp. target (beginning and end, if long)              *)
(*   to     of links: the path the target denotes                           *)
(* Everything belongs to an ordinary user; operations are executed either   *)
(* as root, or as that user (field user of events), whom owner permissions  *)
(* can keep from listing or entering directories and opening files.         *)
(*                                                                          *)
(* The origin of an entry (o of Builder's entries) is the record of what    *)
(* was captured: nx, nl, size, cx, tx as in Builder, and the path.          *)
EXTENDS Builder

VARIABLES fs          \* path -> object

Below(r) == {p \in DOMAIN fs : Len(p) > Len(r) /\ SubSeq(p, 1, Len(r)) = r}

OwnerBit(o, b) == (o.m \div b) % 2 = 1
CanList(o, user) == user => OwnerBit(o, 256)
CanEnter(o, user) == user => OwnerBit(o, 64)
CanOpen(o, user) == user => OwnerBit(o, 256)

(* Where following links from a path leads, or <<>>. *)
RECURSIVE Follow(_, _)
Follow(p, steps) ==
    IF p \notin DOMAIN fs \/ steps = 0 THEN <<>>
    ELSE IF fs[p].k = "link" THEN Follow(fs[p].to, steps - 1)
    ELSE p

(* May this user open a path for reading? *)
MayOpen(p, user) ==
    LET q == Follow(p, 40) IN
    /\ q # <<>> /\ CanOpen(fs[q], user)
    /\ \A n \in 1..(Len(q) - 1) : SubSeq(q, 1, n) \in DOMAIN fs => CanEnter(fs[SubSeq(q, 1, n)], user)

(* Length of the longest path below r, when r is spelled with a given       *)
(* number of bytes                                                          *)
RECURSIVE SpelledFrom(_, _)
SpelledFrom(p, k) == IF k > Len(p) THEN 0 ELSE 1 + HexLen(p[k]) + SpelledFrom(p, k + 1)
TooFar(r, base) == \E p \in Below(r) : base + SpelledFrom(p, Len(r) + 1) > 4000

(****************************** Entry names *********************************)
Slash == "2f"

RECURSIVE TrimStart(_)
TrimStart(x) == IF HexLen(x) > 0 /\ HexSub(x, 0, 1) = Slash THEN TrimStart(HexSub(x, 1, HexLen(x) - 1)) ELSE x
RECURSIVE TrimEnd(_)
TrimEnd(x) == LET n == HexLen(x) IN IF n > 0 /\ HexSub(x, n - 1, 1) = Slash THEN TrimEnd(HexSub(x, 0, n - 1)) ELSE x

\* Prefix of all names: <<>> or <<given>>
PrefixOf(pre) == IF pre = <<>> THEN "" ELSE TrimEnd(TrimStart(pre[1])) \o Slash

RECURSIVE Relative(_, _)
Relative(p, k) ==
    fs[SubSeq(p, 1, k)].nm \o (IF k = Len(p) THEN "" ELSE Slash \o Relative(p, k + 1))

NameBelow(p, r, pre) ==
    PrefixOf(pre) \o Relative(p, Len(r) + 1) \o (IF fs[p].k = "dir" THEN Slash ELSE "")

NameGiven(nx, k) == TrimEnd(nx) \o (IF k = "dir" THEN Slash ELSE "")

(********************************* Capture **********************************)
(* The entry for an object, or rather for its metadata md; content is that  *)
(* of links.                                                                *)
Capture(name, p, md, x, conv) ==
    LET data == md.k \in {"file", "link"}
        o == [nx |-> name, nl |-> HexLen(name), size |-> IF data THEN md.size ELSE U64Zero,
              cx |-> IF md.k = "link" THEN x ELSE "", tx |-> "", path |-> p, k |-> md.k]
        e == NewEntry(o, conv)
    IN [e EXCEPT !.ty = IF md.k \in {"dir", "link"} THEN md.k ELSE "file",
                 !.pm = [k |-> "bits", b |-> md.m],
                 !.dt = SystemTime(e, [d |-> md.d, s |-> md.s], TRUE).dt]

(* All that is to be captured below r: <<name, path>> *)
Wanted(r, pre) ==
    {<<NameBelow(p, r, pre), p>> : p \in Below(r)}
    \cup (IF pre = <<>> THEN {} ELSE {<<PrefixOf(pre), r>>})

(* Directories whose content cannot be had *)
Barred(r, user) ==
    {p \in Below(r) \cup {r} : /\ fs[p].k = "dir"
                               /\ ~CanList(fs[p], user) \/ (~CanEnter(fs[p], user) /\ Below(p) # {})}

DoAddRec(ev) ==
    LET b == bs[ev.h]
        r == ev.root
        there == r \in DOMAIN fs
        isdir == there /\ fs[r].k = "dir"
        want == IF isdir THEN Wanted(r, ev.pre) ELSE {}
        names == {w[1] : w \in want}
        twice == {n \in names : Has(b.ents, n) \/ Cardinality({w \in want : w[1] = n}) > 1}
        long == {n \in names : HexLen(n) > 65535}
        EntryFor(n) == LET p == (CHOOSE w \in want : w[1] = n)[2]
                       IN Capture(n, p, fs[p], fs[p].cx, b.conv)
        old == Len(b.ents)
        added == IF Len(ev.nxs) < old THEN <<>> ELSE SubSeq(ev.nxs, old + 1, Len(ev.nxs))
        sound == /\ Len(ev.nxs) >= old
                 /\ \A k \in 1..old : ev.nxs[k] = Src(b.ents[k].o).nx
                 /\ \A k \in 1..Len(added) : added[k] \in names \ long
                 /\ Cardinality(ToSet(added)) = Len(added)
        new == IF ~sound THEN bs
               ELSE LET es == [k \in 1..Len(added) |-> EntryFor(added[k])]
                        sum == FoldLeft(LAMBDA t, e : U64Add(t, SubSeq(EntrySize(e.o), 1, 4)), b.alt, es)
                    IN [bs EXCEPT ![ev.h].ents = b.ents \o es, ![ev.h].alt = sum]
        all == IF ~isdir THEN <<>> ELSE SetToSeq({EntryFor(n) : n \in names})
        RECURSIVE AllFit(_, _)
        AllFit(total, es) == IF es = <<>> THEN TRUE
                             ELSE /\ Fits(total, Head(es).o)
                                  /\ AllFit(U64Add(total, SubSeq(EntrySize(Head(es).o), 1, 4)), Tail(es))
        big == ~AllFit(TotalOf(b.ents), all)
        barred == isdir /\ Barred(r, ev.user) # {}
        far == isdir /\ TooFar(r, ev.base)
        odd == \E w \in want : fs[w[2]].k = "other"
    IN <<Need("captured", sound /\ (ev.res = "ok" => Len(added) = Cardinality(names)))
         \cup Need("reported",
                CASE ev.res = "ok" -> isdir /\ twice = {} /\ long = {} /\ ~big /\ ~barred
                  [] ev.res = "notdir" -> there /\ ~isdir
                  [] ev.res = "io" -> ~there \/ barred \/ far \/ odd
                  [] ev.res = "long" -> ev.who \in long
                  [] ev.res = "dup" -> ev.who \in twice
                  [] ev.res = "big" -> big /\ ev.who \in names
                  [] OTHER -> FALSE)
         \cup Need("captured", ~isdir => added = <<>>)
         \cup Common(ev, new),
         new>>

(* A single object, with metadata md that were obtained earlier, by a given *)
(* name                                                                     *)
DoAddOne(ev) ==
    LET b == bs[ev.h]
        p == ev.p
        nolink == ev.md.k = "link" /\ ~(p \in DOMAIN fs /\ fs[p].k = "link")
        name == NameGiven(ev.nx, ev.md.k)
        x == IF ev.md.k = "link" /\ ~nolink THEN fs[p].cx ELSE ""
        md == IF ev.md.k = "link" /\ ~nolink THEN [ev.md EXCEPT !.size = fs[p].size] ELSE ev.md
        e == Capture(name, p, md, x, b.conv)
        long == e.o.nl > 65535
        dup == Has(b.ents, name)
        big == ~Fits(TotalOf(b.ents), e.o)
        old == Len(b.ents)
        kept == /\ Len(ev.nxs) >= old
                /\ \A k \in 1..old : ev.nxs[k] = Src(b.ents[k].o).nx
        new == IF ev.res # "ok" THEN bs
               ELSE [bs EXCEPT ![ev.h].ents = Append(b.ents, e),
                               ![ev.h].alt = U64Add(b.alt, SubSeq(EntrySize(e.o), 1, 4))]
    IN <<Need("captured", kept /\ (IF ev.res = "ok" THEN Len(ev.nxs) = old + 1 /\ ev.nxs[old + 1] = name
                                   ELSE Len(ev.nxs) = old))
         \cup Need("reported",
                CASE ev.res = "ok" -> ~(nolink \/ long \/ dup \/ big)
                  [] ev.res = "io" -> nolink \/ ev.md.k = "other"
                  [] ev.res = "long" -> long
                  [] ev.res = "dup" -> dup
                  [] ev.res = "big" -> big
                  [] OTHER -> FALSE)
         \cup Common(ev, new),
         new>>

(********************************* Reading **********************************)
(* What has become of the data of an entry *)
Data(e, user) ==
    LET o == e.o IN
    IF o.size = U64Zero \/ o.k # "file" THEN [s |-> "same", cx |-> o.cx, tx |-> o.tx]
    ELSE LET q == Follow(o.path, 40) IN
         IF q = <<>> \/ fs[q].k # "file" \/ ~MayOpen(o.path, user) THEN [s |-> "gone"]
         ELSE IF fs[q].size # o.size THEN [s |-> "resized", size |-> fs[q].size, cx |-> fs[q].cx]
         ELSE [s |-> "same", cx |-> fs[q].cx, tx |-> fs[q].tx]

ExpectedNow(e, user) ==
    LET d == Data(e, user) IN Expected([e EXCEPT !.o.cx = d.cx, !.o.tx = d.tx])

RECURSIVE DataStart(_, _)
DataStart(ents, k) ==     \* offset of the data of the k-th entry
    IF k = 1 THEN U64Of(LhSize([nl |-> ents[1].o.nl]))
    ELSE U64Add(U64Add(DataStart(ents, k - 1), ents[k - 1].o.size),
                U64Of(DescriptorSize + LhSize([nl |-> ents[k].o.nl])))

(* A file is produced and read to its end. If nothing has changed in a way  *)
(* that matters, it is a valid archive with exactly the expected content,   *)
(* and other readers find the same bytes at any position (rand); otherwise  *)
(* the first entry whose data are not right is reported, and nothing after  *)
(* its data is delivered.                                                   *)
DoBuildFs(ev) ==
    LET ents == bs[ev.h].ents
        bad == {k \in 1..Len(ents) : Data(ents[k], ev.user).s # "same"}
        first == CHOOSE k \in bad : \A j \in bad : k <= j
        d == Data(ents[first], ev.user)
        limit == U64Add(DataStart(ents, first), IF d.s = "resized" THEN d.size ELSE U64Zero)
        before == [k \in 1..(first - 1) |-> ExpectedNow(ents[k], ev.user)]
        new == [k \in (DOMAIN bs) \ {ev.h} |-> bs[k]]
    IN <<Need("announced", ev.size = TotalOf(ents))
         \cup (IF bad = {}
               THEN Need("delivered", ev.rd = "ok" /\ ev.len = ev.size)
                    \cup (IF ev.rd # "ok" THEN {}
                          ELSE Enforced \cap Complaints(ev.file, ev.size,
                                                        [k \in 1..Len(ents) |-> ExpectedNow(ents[k], ev.user)]))
                    \cup Need("anywhere", \A x \in 1..Len(ev.rand) :
                            LET p == ev.rand[x] IN
                            /\ p.r = "ok"
                            /\ IF U64Le(ev.size, p.o) THEN p.x = ""
                               ELSE p.x # "" /\ p.x = BytesAt(ev.file, p.o, HexLen(p.x)))
               ELSE Need("noticed",
                        /\ ev.rd = "err"
                        /\ d.s = "gone" => ev.err.k = "io"
                        /\ d.s = "resized" => /\ ev.err.k = "size" /\ ev.err.nx = ents[first].o.nx
                                              /\ ev.err.x = ents[first].o.size /\ ev.err.y = d.size
                        /\ U64Le(ev.len, limit))
                    \cup (IF U64Le(DataStart(ents, first), ev.len)
                          THEN Enforced \cap Locals(ev.file, U64Zero, before).bad ELSE {}))
         \cup Common(ev, new),
         new>>

DoFs(ev) == <<Common(ev, bs), bs>>
FsAfter(ev) ==
    IF ev.op # "fs" THEN fs
    ELSE [p \in {ev.objs[k].p : k \in 1..Len(ev.objs)} |->
            ev.objs[CHOOSE k \in 1..Len(ev.objs) : ev.objs[k].p = p]]

FsOutcome(ev) ==
    CASE ev.op = "addrec"  -> DoAddRec(ev)
      [] ev.op = "addone"  -> DoAddOne(ev)
      [] ev.op = "buildfs" -> DoBuildFs(ev)
      [] ev.op = "fs"      -> DoFs(ev)
      [] OTHER -> BuilderOutcome(ev, [nx |-> "", nl |-> 0, size |-> U64Zero])
=============================================================================
