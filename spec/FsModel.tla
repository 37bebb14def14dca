------------------------------ MODULE FsModel ------------------------------
(* How archive descriptions are made from a small file system, and how the  *)
(* files are read later: the file system may change between all of these    *)
(* steps. Every call and its results are handed to FsTree, which says what  *)
(* is permitted.                                                            *)
(*                                                                          *)
(* A history starts with any of the trees made of root, root/a, root/a/c,   *)
(* root/b, and a file and a directory outside; then objects are replaced or *)
(* removed, directories and single objects (with metadata obtained before)  *)
(* are added, and in the end the archive is read. All of them are explored, *)
(* within the bounds given, and written out for replay in the real code (if *)
(* Emits). Flaws plants defects, to which FsTree has to object.             *)
EXTENDS FsTree, ZipRender, Json

CONSTANTS
    Kinds,        \* what objects may be: subset of {"none", "dir", "f0", "f2", "f3", "F3", "out", "beside", "self", "gone", "away"}
    RootNames,     \* subset of {"none", "p", "slashes", "deep", "a"}
    MaxAdds,      \* number of additions
    MaxChanges,   \* number of changes after the tree has been made
    Singles,      \* are single objects added?
    Orders,       \* in which directories are listed: subset of {"up", "down"}
    Emits,
    Flaws

VARIABLES m,      \* the entries, as kept by the code
          slot,   \* <<>> or <<path, metadata, was it obtained by following links>>
          k,      \* number of <<additions, changes>>
          done,
          viol, log
mvars == <<fs, bs, m, slot, k, done, viol, log>>
View == <<fs, bs, m, slot, k, done, viol>>

TheSrc(o) == o
Flaw(f) == f \in Flaws

(****************************** File system *********************************)
P == [root |-> <<"726f6f74">>, a |-> <<"726f6f74", "61">>, b |-> <<"726f6f74", "62">>, c |-> <<"726f6f74", "61", "63">>,
      out |-> <<"6f7574">>, away |-> <<"61776179">>, g |-> <<"61776179", "67">>,
      nowhere |-> <<"6e6f">>]
Text == [root |-> "root", a |-> "root/a", b |-> "root/b", c |-> "root/a/c", out |-> "out", away |-> "away", g |-> "away/g"]

Day == 11323
Second == 45296
Obj(nm, kind, mode, size, x, to) ==
    [k |-> kind, nm |-> nm, m |-> mode + (CASE kind = "dir" -> 16384 [] kind = "file" -> 32768 [] OTHER -> 40960),
     d |-> Day, s |-> Second, size |-> U64Of(size), cx |-> x, tx |-> "", to |-> to]
FileOf(nm, x) == Obj(nm, "file", 416, HexLen(x), x, <<>>)          \* 0640
DirOf(nm) == Obj(nm, "dir", 488, 0, "", <<>>)                      \* 0750
LinkOf(nm, x, to) == Obj(nm, "link", 511, HexLen(x), x, to)

(* The object of a kind with a path, and how it is described to the driver. *)
(* up is the path to the scratch directory, as seen from the object's.      *)
HexUp(n) == IF n = 2 THEN "2e2e2f" ELSE "2e2e2f2e2e2f"
TextUp(n) == IF n = 2 THEN "../" ELSE "../../"
Make(w, kind) ==
    LET p == P[w]
        nm == p[Len(p)]
        up == HexUp(Len(p))
        tup == TextUp(Len(p))
        L(x, t, to, tto) == [o |-> LinkOf(nm, x, to), k |-> [Link |-> <<t, tto>>]]
        F(x) == [o |-> FileOf(nm, x), k |-> [Lit |-> x]]
    IN CASE kind = "dir" -> [o |-> DirOf(nm), k |-> "Dir"]
         [] kind = "f0" -> F("")
         [] kind = "f2" -> F("7878")
         [] kind = "f3" -> F("616263")
         [] kind = "F3" -> F("797a7a")
         [] kind = "out" -> L(up \o "6f7574", tup \o "out", P.out, "out")
         [] kind = "beside" -> IF w = "b" THEN L("61", "a", P.a, "root/a") ELSE L(up \o "726f6f742f62", tup \o "root/b", P.b, "root/b")
         [] kind = "self" -> L(nm, IF w = "a" THEN "a" ELSE IF w = "b" THEN "b" ELSE "c", p, Text[w])
         [] kind = "gone" -> L("6e6f", "no", SubSeq(p, 1, Len(p) - 1) \o P.nowhere, "no")
         [] OTHER -> L(up \o "61776179", tup \o "away", P.away, "away")

MkOp(w, kind) ==
    LET x == Make(w, kind) IN
    [Mk |-> [p |-> Text[w], k |-> x.k, mode |-> x.o.m % 512, time |-> <<Day * 86400 + Second, 0>>]]

Fixed == (P.root :> DirOf("726f6f74")) @@ (P.out :> FileOf("6f7574", "797a7a"))
         @@ (P.away :> DirOf("61776179")) @@ (P.g :> FileOf("67", "7878"))
FixedOps == <<MkOp("root", "dir"), MkOp("out", "F3"), MkOp("away", "dir"), MkOp("g", "f2")>>
Others == (P.out :> [Fixed[P.out] EXCEPT !.cx = "797a7a"]) @@ (P.g :> [Fixed[P.g] EXCEPT !.cx = "7878"]) @@ Fixed

With(tree, w, kind) ==     \* an object put in place of whatever is there, with all that is below
    LET p == P[w]
        keep == {q \in DOMAIN tree : ~(Len(q) >= Len(p) /\ SubSeq(q, 1, Len(p)) = p)}
        \* Directories stay what they are
        same == kind = "dir" /\ p \in DOMAIN tree /\ tree[p].k = "dir"
    IN IF same THEN tree
       ELSE IF kind = "none" THEN [q \in keep |-> tree[q]]
       ELSE (p :> Make(w, kind).o) @@ [q \in keep |-> tree[q]]

Trees == {t \in [{"a", "b", "c"} -> Kinds] : t["c"] = "none" \/ (t["a"] = "dir" /\ t["c"] # "dir")}
TreeOps(t) ==
    FixedOps \o (IF t["a"] = "none" THEN <<>> ELSE <<MkOp("a", t["a"])>>)
             \o (IF t["b"] = "none" THEN <<>> ELSE <<MkOp("b", t["b"])>>)
             \o (IF t["c"] = "none" THEN <<>> ELSE <<MkOp("c", t["c"])>>)

(*************************** How it is captured *****************************)
Converted(d, s) == LET f == Convert([k |-> "utc"], d, s) IN IF FieldsInRange(f) THEN Packed(f) ELSE DefaultTime

Entry(name, p, md, target) ==
    [o |-> [nx |-> name, nl |-> HexLen(name),
            size |-> CASE md.k = "file" -> md.size [] md.k = "link" -> U64Of(HexLen(target)) [] OTHER -> U64Zero,
            cx |-> IF md.k = "link" THEN target ELSE "", tx |-> "", path |-> p, k |-> md.k],
     dt |-> Converted(md.d, md.s),
     mode |-> IF md.k = "link" THEN 40960 + 511 ELSE (IF md.k = "dir" THEN 16384 ELSE 32768) + (md.m % 512)]

RECURSIVE SumOf(_)
SumOf(es) == IF es = <<>> THEN U64Of(EndSize)
             ELSE U64Add(SumOf(Tail(es)), SubSeq(EntrySize(Head(es).o), 1, 4))

\* Objects directly in a directory, in some order
ListOf(dir, order) ==
    LET s == {p \in DOMAIN fs : Len(p) = Len(dir) + 1 /\ SubSeq(p, 1, Len(dir)) = dir}
        number == [p \in s |-> HexAt(p[Len(p)], 0)]
    IN SetToSortSeq(s, LAMBDA x, y : IF order = "up" THEN number[x] < number[y] ELSE number[x] > number[y])

Meta(p) == LET q == IF Flaw("links are followed") /\ Follow(p, 5) # <<>> THEN Follow(p, 5) ELSE p
           IN [k |-> fs[q].k, m |-> fs[q].m, d |-> fs[q].d, s |-> fs[q].s,
               size |-> IF fs[q].k = "dir" THEN U64Zero ELSE fs[q].size]

(* The stack holds pairs of a directory and the prefix of names in it.      *)
(* Returns what is added, and the name at which the addition ended early.   *)
RECURSIVE Walk(_, _, _, _)
Walk(stack, had, acc, order) ==
    IF stack = <<>> THEN [es |-> acc, dup |-> <<>>]
    ELSE LET top == stack[Len(stack)]
             RECURSIVE Scan(_, _, _)
             Scan(todo, es, below) ==
                IF todo = <<>> THEN [es |-> es, below |-> below, dup |-> <<>>]
                ELSE LET p == Head(todo)
                         md == Meta(p)
                         name == top[2] \o p[Len(p)] \o (IF md.k = "dir" /\ ~Flaw("directories without slashes") THEN "2f" ELSE "")
                         taken == name \in had \/ \E x \in 1..Len(es) : es[x].o.nx = name
                         e == Entry(name, p, md, fs[p].cx)
                         dirs == IF md.k = "dir" /\ ~Flaw("nothing below") THEN Append(below, <<p, top[2] \o p[Len(p)] \o "2f">>) ELSE below
                     IN IF taken /\ Flaw("names are taken over") THEN Scan(Tail(todo), es, dirs)
                        ELSE IF taken THEN [es |-> es, below |-> <<>>, dup |-> <<name>>]
                        ELSE Scan(Tail(todo), Append(es, e), dirs)
             r == Scan(ListOf(top[1], order), acc, SubSeq(stack, 1, Len(stack) - 1))
         IN IF r.dup # <<>> THEN [es |-> r.es, dup |-> r.dup] ELSE Walk(r.below, had, r.es, order)

PrefixHex == [none |-> "", p |-> "70", slashes |-> "2f702f2f", deep |-> "702f712f", a |-> "61"]
PrefixText == [none |-> "", p |-> "p", slashes |-> "/p//", deep |-> "p/q/", a |-> "a"]
PrefixName == [none |-> "", p |-> "702f", slashes |-> "702f", deep |-> "702f712f", a |-> "612f"]

RecOp(w, pre) ==
    LET o == [h |-> 1, root |-> Text[w], spell |-> "{}/" \o Text[w], user |-> FALSE]
    IN [AddRec |-> IF pre = "none" THEN o ELSE o @@ [pre |-> PrefixText[pre]]]

Names(es) == [x \in 1..Len(es) |-> es[x].o.nx]
All(es) == <<<<1, SumOf(es), Len(es)>>>>

\* A call with its results, as seen by FsTree
Call(ev, newm, op) ==
    LET r == FsOutcome(ev @@ [all |-> IF newm = <<>> THEN <<>> ELSE All(newm[1]), h |-> 1]) IN
    /\ viol' = r[1] /\ bs' = r[2] /\ m' = newm
    /\ log' = Append(log, op)

AddRec(w, pre, order) ==
    LET r == P[w]
        es == m[1]
        had == {es[x].o.nx : x \in 1..Len(es)}
        ev == [op |-> "addrec", root |-> r, base |-> 30, user |-> FALSE, pre |-> IF pre = "none" THEN <<>> ELSE <<PrefixHex[pre]>>]
        W == Walk(<<<<r, IF Flaw("prefixes as given") THEN PrefixHex[pre] ELSE PrefixName[pre]>>>>, had, <<>>, order)
        name == PrefixName[pre]
        taken == \E x \in 1..Len(W.es) : W.es[x].o.nx = name
        root == IF pre = "none" \/ W.dup # <<>> THEN <<>>
                ELSE IF Flaw("the directory itself is left out") THEN <<>>
                ELSE <<Entry(name, r, Meta(r), "")>>
        dup == IF W.dup # <<>> THEN W.dup ELSE IF root # <<>> /\ (taken \/ name \in had) THEN <<name>> ELSE <<>>
        new == es \o W.es \o (IF dup # <<>> THEN <<>> ELSE root)
        target == IF Flaw("links may be the root") /\ r \in DOMAIN fs THEN Follow(r, 5) ELSE r
    IN /\ k[1] < MaxAdds /\ ~done /\ viol = {}
       /\ k' = [k EXCEPT ![1] = @ + 1]
       /\ IF r \notin DOMAIN fs THEN Call(ev @@ [res |-> "io", who |-> "", nxs |-> Names(es)], m, RecOp(w, pre))
          ELSE IF target = <<>> \/ (fs[target].k # "dir") THEN Call(ev @@ [res |-> "notdir", who |-> "", nxs |-> Names(es)], m, RecOp(w, pre))
          ELSE Call(ev @@ [res |-> IF dup = <<>> THEN "ok" ELSE "dup", who |-> IF dup = <<>> THEN "" ELSE dup[1],
                           nxs |-> Names(new)],
                    <<new>>, RecOp(w, pre))
       /\ UNCHANGED <<fs, slot, done>>

Remember(w, follow) ==
    LET p == P[w]
        q == IF follow THEN Follow(p, 5) ELSE p
    IN /\ Singles /\ slot = <<>> /\ ~done /\ viol = {} /\ k[1] < MaxAdds
       /\ q # <<>> /\ q \in DOMAIN fs
       /\ follow => fs[p].k = "link"
       /\ slot' = <<w, [k |-> fs[q].k, m |-> fs[q].m, d |-> fs[q].d, s |-> fs[q].s,
                        size |-> IF fs[q].k = "dir" THEN U64Zero ELSE fs[q].size]>>
       /\ log' = Append(log, [Md |-> [slot |-> 0, p |-> Text[w], follow |-> follow]])
       /\ UNCHANGED <<fs, bs, m, k, done, viol>>

AddOne(slashes) ==
    LET w == slot[1]
        md == slot[2]
        p == P[w]
        es == m[1]
        given == "6e" \o (IF slashes THEN "2f2f" ELSE "")
        name == "6e" \o (IF md.k = "dir" THEN "2f" ELSE "")
        ev == [op |-> "addone", p |-> p, nx |-> given, md |-> md]
        op == [AddOne |-> [h |-> 1, slot |-> 0, p |-> Text[w], name |-> IF slashes THEN "n//" ELSE "n"]]
        nolink == md.k = "link" /\ ~(p \in DOMAIN fs /\ fs[p].k = "link")
        used == IF Flaw("metadata are looked up again") /\ p \in DOMAIN fs THEN Meta(p) ELSE md
        new == Append(es, Entry(name, p, used, IF md.k = "link" /\ ~nolink THEN fs[p].cx ELSE ""))
    IN /\ slot # <<>> /\ k[1] < MaxAdds /\ ~done /\ viol = {}
       /\ k' = [k EXCEPT ![1] = @ + 1]
       /\ IF nolink THEN Call(ev @@ [res |-> "io", who |-> "", nxs |-> Names(es)], m, op)
          ELSE IF \E x \in 1..Len(es) : es[x].o.nx = name
               THEN Call(ev @@ [res |-> "dup", who |-> name, nxs |-> Names(es)], m, op)
          ELSE Call(ev @@ [res |-> "ok", who |-> "", nxs |-> Names(new)], <<new>>, op)
       /\ slot' = <<>>
       /\ UNCHANGED <<fs, done>>

Change(w, kind) ==
    LET p == P[w]
        new == With(fs, w, kind)
    IN /\ k[2] < MaxChanges /\ ~done /\ viol = {} /\ (m[1] # <<>> \/ slot # <<>>)
       /\ SubSeq(p, 1, Len(p) - 1) \in DOMAIN fs /\ fs[SubSeq(p, 1, Len(p) - 1)].k = "dir"
       /\ new # fs
       /\ fs' = new
       /\ k' = [k EXCEPT ![2] = @ + 1]
       /\ log' = Append(log, IF kind = "none" THEN [Rm |-> [p |-> Text[w]]] ELSE MkOp(w, kind))
       /\ UNCHANGED <<bs, m, slot, done, viol>>

(***************************** How it is read *******************************)
(* What comes out of the data of an entry: the content, or what is wrong *)
Out(e) ==
    IF e.o.size = U64Zero THEN [r |-> "ok", x |-> ""]
    ELSE IF e.o.k = "link" THEN
        (IF Flaw("targets are read late") /\ e.o.path \in DOMAIN fs /\ fs[e.o.path].k = "link" /\ fs[e.o.path].size = e.o.size
         THEN [r |-> "ok", x |-> fs[e.o.path].cx] ELSE [r |-> "ok", x |-> e.o.cx])
    ELSE LET q == Follow(e.o.path, 40) IN
         IF q = <<>> \/ fs[q].k # "file"
         THEN (IF Flaw("what is gone is empty") THEN [r |-> "ok", x |-> RenderData([data |-> "", size |-> e.o.size[1]])]
               ELSE [r |-> "io", x |-> ""])
         ELSE IF fs[q].size = e.o.size THEN [r |-> "ok", x |-> fs[q].cx]
         ELSE IF Flaw("longer files are cut") /\ U64Lt(e.o.size, fs[q].size) THEN [r |-> "ok", x |-> HexSub(fs[q].cx, 0, e.o.size[1])]
         ELSE IF Flaw("shorter files are filled") /\ U64Lt(fs[q].size, e.o.size)
              THEN [r |-> "ok", x |-> RenderData([data |-> fs[q].cx, size |-> e.o.size[1]])]
         ELSE [r |-> "size", x |-> fs[q].cx]

Stored(e, x) ==
    [nx |-> e.o.nx, data |-> x, size |-> e.o.size[1], crc |-> IF x = "" THEN <<0, 0>> ELSE CrcOfHex(x), dt |-> e.dt, mode |-> e.mode]

\* Where reading is continued after an early end
Rand(x) == <<[o |-> U64Zero, x |-> HexSub(x, 0, 4), r |-> "ok"], [o |-> U64Of(HexLen(x) - 22), x |-> HexSub(x, HexLen(x) - 22, 22), r |-> "ok"]>>

Build ==
    LET es == m[1]
        outs == [x \in 1..Len(es) |-> Out(es[x])]
        bad == {x \in 1..Len(es) : outs[x].r # "ok"}
        first == CHOOSE x \in bad : \A y \in bad : x <= y
        whole == Render([x \in 1..Len(es) |-> Stored(es[x], outs[x].x)])
        start == DataStart([x \in 1..Len(es) |-> [o |-> es[x].o]], first)[1]
        got == HexSub(Render([x \in 1..first |-> Stored(es[x], IF x < first THEN outs[x].x ELSE "")]), 0, start) \o outs[first].x
        file == IF bad = {} THEN whole ELSE got
        fine == bad = {} \/ Flaw("failures end the file")
        ev == [op |-> "buildfs", user |-> FALSE, size |-> SumOf(es), rd |-> IF fine THEN "ok" ELSE "err",
               len |-> U64Of(HexLen(file)), file |-> <<[o |-> U64Zero, x |-> file]>>, rand |-> IF bad = {} THEN Rand(file) ELSE <<>>,
               err |-> IF bad = {} THEN [k |-> "io"]
                       ELSE IF outs[first].r = "io" THEN [k |-> "io"]
                       ELSE [k |-> "size", nx |-> es[first].o.nx, x |-> es[first].o.size, y |-> U64Of(HexLen(outs[first].x))]]
    IN /\ ~done /\ viol = {} /\ es # <<>>
       /\ done' = TRUE
       /\ Call(ev, <<>>, [Build |-> [h |-> 1, caps |-> <<100>>, seed |-> Len(log)]])
       /\ UNCHANGED <<fs, slot, k>>

Init ==
    \E t \in Trees :
        /\ fs = LET T1 == With(Fixed, "a", t["a"])
                    T2 == With(T1, "b", t["b"])
                IN IF t["c"] = "none" THEN T2 ELSE With(T2, "c", t["c"])
        /\ log = TreeOps(t) \o <<[New |-> [h |-> 1]], [Conv |-> [h |-> 1, conv |-> "Utc"]]>>
        /\ bs = (1 :> [conv |-> [k |-> "utc"], ents |-> <<>>, alt |-> U64Of(EndSize)])
        /\ m = <<<<>>>> /\ slot = <<>> /\ k = <<0, 0>> /\ done = FALSE /\ viol = {}

Next ==
    \/ \E w \in {"root", "a", "b"}, pre \in RootNames, order \in Orders : AddRec(w, pre, order)
    \/ \E w \in {"a", "b"}, follow \in BOOLEAN : Remember(w, follow)
    \/ \E slashes \in BOOLEAN : AddOne(slashes)
    \/ \E w \in {"a", "b", "c"}, kind \in Kinds : Change(w, kind)
    \/ Build

Spec == Init /\ [][Next]_mvars

Permitted == viol = {}
\* What happens after the last addition or reading does not show
Emit == ~Emits \/ (k'[1] = k[1] /\ ~done') \/ PrintT("BEHAVIOUR " \o ToJson([fops |-> log']))
=============================================================================
