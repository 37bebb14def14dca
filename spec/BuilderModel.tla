---------------------------- MODULE BuilderModel ----------------------------
(* How archive descriptions are kept: a map of entries in the order of      *)
(* their addition, with optional times, and a running total of the size.    *)
(* Every call and its results are handed to Builder, which says what is     *)
(* permitted; files are the bytes of ZipRender. All histories of up to      *)
(* MaxOps operations from a menu are explored. Each transition is written   *)
(* out (if Emits) as the history that leads to it, for replay in the real   *)
(* code. Flaws plants defects, to which Builder has to object.              *)
EXTENDS Builder, ZipRender, Json

CONSTANTS
    Menus,       \* what may be done: subset of {"adds", "bigs", "times", "attrs", "crcs", "convs", "removals", "copies", "builds"}
    MaxOps,
    MaxEntries,
    MaxHandles,
    Emits,
    Flaws

VARIABLES m,     \* builder -> [conv, ents, total]
          n,     \* number of operations so far
          viol,  \* constraints violated by the last one
          log
mvars == <<bs, m, n, viol, log>>
View == <<bs, m, viol>>

TheSrc(o) == o
Flaw(f) == f \in Flaws
In(menu) == menu \in Menus

(******************************** The menu **********************************)
What(nx, nl, size, cx) == [nx |-> nx, nl |-> nl, size |-> size, cx |-> cx, tx |-> ""]
Plain == {What("61", 1, U64Of(3), "616263"), What("61", 1, U64Zero, ""), What("62", 1, U64Zero, ""),
          What("c3a92f", 3, U64Of(1), "78")}
\* Sizes with which the file has 2^64 - 1 bytes: alone, or together with an empty entry with a name of one byte
Largest == U64Sub(U64Max, U64Of(EndSize + EntryOverhead(1)))
Second == U64Sub(Largest, U64Of(EntryOverhead(1)))
Bigs == {What("61", 1, Largest, ""), What("62", 1, U64Add(Largest, U64Of(1)), ""), What("63", 1, Second, ""),
         What("64", 1, U64Max, ""), What("65", 1, U64Sub(U64Max, U64Of(80)), ""),
         What("4c", 65536, U64Zero, ""), What("4d", 65535, U64Zero, "")}
Adds == (IF In("adds") THEN Plain ELSE {What("61", 1, U64Of(3), "616263")}) \cup (IF In("bigs") THEN Bigs ELSE {})

Good == <<2000, 2, 29, 23, 59, 59>>
Latest == <<2107, 12, 31, 23, 59, 59>>
Early == <<1979, 12, 31, 23, 59, 58>>
Wrong == <<2000, 13, 1, 0, 0, 0>>
\* Days and seconds: in 2001; right at the start of 1980 in UTC; long before
SysTimes == {<<11323, 45296>>, <<3652, 0>>, <<-1, 5>>}
SetFields(w, f) == [what |-> w, f |-> f]
Times == {SetFields(w, f) : w \in {"fields", "fieldsd", "chrono", "chronod"}, f \in {Good, Latest, Early}}
         \cup {SetFields(w, Wrong) : w \in {"fields", "fieldsd"}}
         \cup {[what |-> w, d |-> t[1], s |-> t[2]] : w \in {"sys", "sysd"}, t \in SysTimes}
Attrs == {[what |-> w] : w \in {"file", "dir", "link"}}
         \cup {[what |-> "perm", bits |-> b] : b \in {0, 384, 4095}}
         \cup {[what |-> "permstd", bits |-> 33152]}
         \cup {[what |-> "ro", ro |-> b] : b \in BOOLEAN}
         \cup {[what |-> "meta", ty |-> t, bits |-> 416, d |-> 11323, s |-> 45296] : t \in {"file", "dir"}}
\* The right checksum of small entries
Crcs(e) == IF U64Fits31(e.o.size)
           THEN {[what |-> "crc", crc |-> IF e.o.cx = "" THEN <<0, 0>> ELSE CrcOfHex(e.o.cx), size |-> e.o.size]}
           ELSE {}
Sets(e) == (IF In("times") THEN Times ELSE {}) \cup (IF In("attrs") THEN Attrs ELSE {}) \cup (IF In("crcs") THEN Crcs(e) ELSE {})
        \cup (IF In("copies") THEN {SetFields("fields", Good), [what |-> "ro", ro |-> TRUE]} ELSE {})
Convs == {[k |-> "utc"], [k |-> "fixed", off |-> -3600]}
Removals == {"clear", "pop", "swap", "shift", "reverse"}

(***************************** How it is done *******************************)
All(mm) == [x \in 1..Cardinality(DOMAIN mm) |->
    LET h == SetToSortSeq(DOMAIN mm, <)[x] IN <<h, mm[h].total, Len(mm[h].ents)>>]

\* After a call: ev are its arguments and results, op is what is logged of it
Done(ev, o, newm, op) ==
    LET r == BuilderOutcome(ev @@ [all |-> All(newm)], o)
    IN /\ viol' = r[1] /\ bs' = r[2]
       /\ m' = newm
       /\ n' = n + 1
       /\ log' = Append(log, op)

Blank(src, conv) == [o |-> src, conv |-> conv, dt |-> <<>>, ty |-> "file", pm |-> [k |-> "rw"], crc |-> <<>>]

CodeAdd(b, src) ==
    LET extra == EntrySize(src)
        sum == U64Add(b.total, SubSeq(extra, 1, 4))
        over == extra[5] # 0 \/ U64Overflows(b.total, SubSeq(extra, 1, 4))
        there == \E k \in 1..Len(b.ents) : b.ents[k].o.nx = src.nx
        kept == IF Flaw("refused entries count") /\ ~over THEN [b EXCEPT !.total = sum] ELSE b
    IN IF src.nl > 65535 /\ ~Flaw("long names") THEN [res |-> "long", b |-> kept]
       ELSE IF there
            THEN IF Flaw("the last one wins")
                 THEN [res |-> "ok", b |-> [b EXCEPT !.ents = Append(SelectSeq(b.ents, LAMBDA e : e.o.nx # src.nx), Blank(src, b.conv)), !.total = sum]]
                 ELSE [res |-> "dup", b |-> kept]
       ELSE IF over /\ ~Flaw("no limit") THEN [res |-> "big", b |-> b]
       ELSE [res |-> "ok", b |-> [b EXCEPT !.ents = Append(b.ents, Blank(src, b.conv)), !.total = sum]]

Add(h, src) ==
    LET r == CodeAdd(m[h], src) IN
    /\ Len(m[h].ents) < MaxEntries
    /\ Done([op |-> "add", h |-> h, res |-> r.res, en |-> TRUE], src, [m EXCEPT ![h] = r.b],
            [op |-> "add", h |-> h, nx |-> src.nx, nl |-> src.nl, size |-> src.size, cx |-> src.cx])

DosNew(f) == IF FieldsInRange(f) THEN <<Packed(f)>> ELSE <<>>
\* A fallible setter, and one that sets the default instead
Try(e, dt) == IF dt = <<>> THEN [ok |-> FALSE, e |-> IF Flaw("refused times are lost") THEN [e EXCEPT !.dt = <<>>] ELSE e]
              ELSE [ok |-> TRUE, e |-> [e EXCEPT !.dt = dt]]
Put(e, dt) == [ok |-> TRUE, e |-> IF dt = <<>> /\ Flaw("old times stay") THEN e ELSE [e EXCEPT !.dt = dt]]
Converted(e, s) == IF e.conv.k = "none" THEN <<>> ELSE DosNew(Convert(e.conv, s.d, s.s))
Mask(b) == IF Flaw("no mask") THEN [k |-> "bits", b |-> b % 4096] ELSE [k |-> "bits", b |-> b % 512]

CodeSet(e, s) ==
    CASE s.what \in {"fields", "chrono"} -> Try(e, DosNew(s.f))
      [] s.what \in {"fieldsd", "chronod"} -> Put(e, DosNew(s.f))
      [] s.what = "sys" -> Try(e, Converted(e, s))
      [] s.what = "sysd" -> Put(e, Converted(e, s))
      [] s.what \in {"file", "dir", "link"} ->
            [ok |-> TRUE, e |-> [e EXCEPT !.ty = s.what,
                                          !.pm = IF Flaw("types reset permissions") THEN [k |-> "rw"] ELSE @]]
      [] s.what \in {"perm", "permstd"} -> [ok |-> TRUE, e |-> [e EXCEPT !.pm = Mask(s.bits)]]
      [] s.what = "ro" -> [ok |-> TRUE, e |-> [e EXCEPT !.pm = [k |-> IF s.ro THEN "ro" ELSE "rw"]]]
      [] s.what = "crc" -> [ok |-> TRUE, e |-> [e EXCEPT !.crc = s.crc]]
      [] s.what = "meta" -> LET t == Put(e, Converted(e, s)) IN
            [ok |-> TRUE, e |-> [t.e EXCEPT !.ty = s.ty, !.pm = Mask(s.bits)]]

Set(h, i, s) ==
    LET r == CodeSet(m[h].ents[i], s) IN
    Done(s @@ [op |-> "set", h |-> h, i |-> i, ok |-> r.ok], <<>>, [m EXCEPT ![h].ents[i] = r.e],
         [op |-> "set", h |-> h, i |-> i - 1, set |-> s])

SetConv(h, c) ==
    Done([op |-> "conv", h |-> h, conv |-> c], <<>>,
         [m EXCEPT ![h].conv = c, ![h].ents = IF Flaw("converters change entries") THEN [k \in 1..Len(@) |-> [@[k] EXCEPT !.conv = c]] ELSE @],
         [op |-> "conv", h |-> h, conv |-> c])

CloneTo(h, nh) ==
    Done([op |-> "clone", h |-> h, nh |-> nh], <<>>,
         (nh :> (IF Flaw("copies lose the converter") THEN [m[h] EXCEPT !.conv = NoConverter] ELSE m[h])) @@ m,
         [op |-> "clone", h |-> h, nh |-> nh])

Without(s, i) == [k \in 1..(Len(s) - 1) |-> IF k < i THEN s[k] ELSE s[k + 1]]
Keep(how, len) ==
    LET ids == [k \in 1..len |-> k] IN
    CASE how = "clear" -> <<>>
      [] how = "pop" -> SubSeq(ids, 1, len - 1)
      [] how = "swap" -> SubSeq([ids EXCEPT ![1] = len], 1, len - 1)
      [] how = "shift" -> Without(ids, 1)
      [] how = "reverse" -> [k \in 1..len |-> len + 1 - k]
TakeOut(h, how) ==
    LET keep == Keep(how, Len(m[h].ents)) IN
    /\ m[h].ents # <<>>
    /\ Done([op |-> "remove", h |-> h, keep |-> keep], <<>>,
            [m EXCEPT ![h].ents = [k \in 1..Len(keep) |-> m[h].ents[keep[k]]]],
            [op |-> "remove", h |-> h, how |-> how])

List(h) ==
    Done([op |-> "list", h |-> h, nxs |-> [k \in 1..Len(m[h].ents) |-> m[h].ents[k].o.nx]], <<>>, m, [op |-> "list", h |-> h])

\* Only files of small sizes are rendered
Small(b) == \A k \in 1..Len(b.ents) : b.ents[k].o.nl < 100 /\ U64Fits31(b.ents[k].o.size)
Stored(e) ==
    [nx |-> e.o.nx, data |-> e.o.cx, size |-> HexLen(e.o.cx),
     crc |-> IF e.crc # <<>> THEN e.crc ELSE IF e.o.cx = "" THEN <<0, 0>> ELSE CrcOfHex(e.o.cx),
     dt |-> IF e.dt = <<>> THEN (IF Flaw("no default time") THEN <<0, 0>> ELSE DefaultTime) ELSE e.dt[1],
     mode |-> TypeBits(e.ty) + (IF e.ty = "link" /\ Flaw("links have permissions") THEN PermBits("file", e.pm)
                               ELSE IF Flaw("no mask") /\ e.pm.k = "bits" /\ e.ty # "link" THEN e.pm.b
                               ELSE PermBits(e.ty, e.pm))]
Build(h) ==
    LET x == Render([k \in 1..Len(m[h].ents) |-> Stored(m[h].ents[k])]) IN
    /\ Small(m[h])
    /\ Done([op |-> "build", h |-> h, size |-> U64Of(HexLen(x)), len |-> U64Of(HexLen(x)), rd |-> "ok", whole |-> TRUE,
             file |-> <<[o |-> U64Zero, x |-> x]>>], <<>>,
            [k \in (DOMAIN m) \ {h} |-> m[k]],
            [op |-> "build", h |-> h])

Init == /\ m = (1 :> [conv |-> NoConverter, ents |-> <<>>, total |-> U64Of(EndSize)])
        /\ bs = (1 :> [conv |-> NoConverter, ents |-> <<>>, alt |-> U64Of(EndSize)])
        /\ n = 0 /\ viol = {} /\ log = <<>>

Next ==
    /\ n < MaxOps /\ viol = {}
    /\ \E h \in DOMAIN m :
        \/ \E s \in Adds : Add(h, s)
        \/ \E i \in 1..Len(m[h].ents) : \E s \in Sets(m[h].ents[i]) : Set(h, i, s)
        \/ In("convs") /\ \E c \in Convs : SetConv(h, c)
        \/ In("copies") /\ \E nh \in (1..MaxHandles) \ DOMAIN m : nh - 1 \in DOMAIN m /\ CloneTo(h, nh)
        \/ In("removals") /\ \E how \in Removals : TakeOut(h, how)
        \/ In("removals") /\ List(h)
        \/ In("builds") /\ Build(h)

Spec == Init /\ [][Next]_mvars

Permitted == viol = {}
Emit == ~Emits \/ PrintT("BEHAVIOUR " \o ToJson([ops |-> log']))
=============================================================================
