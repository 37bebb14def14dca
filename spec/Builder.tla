------------------------------ MODULE Builder ------------------------------
(* Archive descriptions: what a user observes of builders, from the first   *)
(* added entry to the bytes of the produced file.                           *)
(*                                                                          *)
(* State: the live builders; each has a time converter and a sequence of    *)
(* entries. An entry is a record with                                       *)
(*   o     identifies the call that added it (name, size, content: Src)     *)
(*   conv  time converter it got from its builder                           *)
(*   dt    set of times it may have (a singleton, except for nonexistent    *)
(*         days, of which it is not said whether they are valid)            *)
(*   ty    "file", "dir", "link"                                            *)
(*   pm    kind of permissions: "rw", "ro" or "bits" with bits b            *)
(*   crc   <<>> or the supplied checksum                                    *)
(* and alt is what the total size would be if removals of entries had not   *)
(* been noticed (a known finding), usually the same as the real one. With   *)
(* the finding, sizes announced may be alt, and additions may be refused    *)
(* for not fitting with it.                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, ZipFormat, DosTime

CONSTANTS Src(_),        \* call that added an entry -> its arguments
          Enforced,      \* names of the constraints in force
          KnownFindings  \* names of findings that are not to be reported as violations

VARIABLES bs             \* builder -> state

Need(name, holds) == IF name \in Enforced /\ ~holds THEN {name} ELSE {}

NoConverter == [k |-> "none"]

(******************************** Sizes *************************************)
EntrySize(src) == U64AddC(U64Of(EntryOverhead(src.nl)), src.size)    \* with carry

TotalOf(ents) ==
    FoldLeft(LAMBDA sum, e : U64Add(sum, SubSeq(EntrySize(Src(e.o)), 1, 4)), U64Of(EndSize), ents)

\* Does an archive still fit in 64 bits with another entry?
Fits(total, src) ==
    LET s == EntrySize(src) IN s[5] = 0 /\ ~U64Overflows(total, SubSeq(s, 1, 4))

Has(ents, nx) == \E k \in 1..Len(ents) : Src(ents[k].o).nx = nx

(****************************** Attributes **********************************)
TypeBits(ty) == CASE ty = "file" -> 32768 [] ty = "dir" -> 16384 [] OTHER -> 40960   \* 0100000, 040000, 0120000
PermBits(ty, pm) ==
    IF ty = "link" THEN 511                                     \* 0777
    ELSE CASE pm.k = "rw" -> IF ty = "dir" THEN 493 ELSE 420    \* 0755, 0644
           [] pm.k = "ro" -> IF ty = "dir" THEN 365 ELSE 292    \* 0555, 0444
           [] OTHER -> pm.b % 512
Mode(e) == TypeBits(e.ty) + PermBits(e.ty, e.pm)

(* What the produced file has to hold for an entry *)
Expected(e) ==
    LET s == Src(e.o) IN
    [nx |-> s.nx, size |-> s.size, cx |-> s.cx, tx |-> s.tx, dt |-> e.dt,
     mode |-> Mode(e), dir |-> e.ty = "dir",
     crc |-> IF e.crc # <<>> THEN {e.crc}
             ELSE IF s.size = U64Zero THEN {<<0, 0>>} ELSE {CrcOfHex(s.cx)}]

(******************************* Actions ************************************)
(* Each is a pair: the constraints violated, and the new state. ev holds    *)
(* the arguments and results of a call, and ev.all the sizes announced by   *)
(* all live builders afterwards.                                            *)

SizesOk(ev, new) ==
    /\ DOMAIN new = {ev.all[x][1] : x \in 1..Len(ev.all)}
    /\ \A x \in 1..Len(ev.all) :
         LET b == new[ev.all[x][1]] IN
         \/ ev.all[x][2] = TotalOf(b.ents)
         \/ /\ b.alt # TotalOf(b.ents) /\ ev.all[x][2] = b.alt
            /\ "stale size after removal" \in KnownFindings
            /\ PrintT("KNOWN: Builder::size() is not updated when entries are removed through get_entries_mut()")
CountsOk(ev, new) ==
    \A x \in 1..Len(ev.all) : ev.all[x][1] \in DOMAIN new => ev.all[x][3] = Len(new[ev.all[x][1]].ents)

Common(ev, new) == Need("announced", SizesOk(ev, new)) \cup Need("count", CountsOk(ev, new))

DoNew(ev) ==
    LET new == (ev.h :> [conv |-> NoConverter, ents |-> <<>>, alt |-> U64Of(EndSize)]) @@ bs
    IN <<Common(ev, new), new>>

DoConv(ev) ==
    LET new == [bs EXCEPT ![ev.h].conv = ev.conv]
    IN <<Common(ev, new), new>>

NewEntry(o, conv) == [o |-> o, conv |-> conv, dt |-> {DefaultTime}, ty |-> "file", pm |-> [k |-> "rw"], crc |-> <<>>]

(* An addition; o identifies this call *)
DoAdd(ev, o) ==
    LET b == bs[ev.h]
        src == Src(o)
        long == src.nl > 65535
        dup == Has(b.ents, src.nx)
        big == ~Fits(TotalOf(b.ents), src)
        new == IF ev.res # "ok" THEN bs
               ELSE [bs EXCEPT ![ev.h].ents = Append(b.ents, NewEntry(o, b.conv)),
                               ![ev.h].alt = U64Add(b.alt, SubSeq(EntrySize(src), 1, 4))]
        \* Refused because of entries that have been removed
        stale == /\ ev.res = "big" /\ ev.en /\ b.alt # TotalOf(b.ents) /\ ~Fits(b.alt, src) /\ ~big
                 /\ "stale size after removal" \in KnownFindings
                 /\ PrintT("KNOWN: Builder::size() is not updated when entries are removed through get_entries_mut()")
    IN <<Need("accept", stale \/ (ev.res = "ok" <=> ~(long \/ dup \/ big)))
         \cup Need("refuse", CASE ev.res = "ok" -> TRUE
                               [] ev.res = "long" -> long /\ ev.en
                               [] ev.res = "dup" -> dup /\ ev.en
                               [] ev.res = "big" -> (big /\ ev.en) \/ stale
                               [] OTHER -> FALSE)
         \cup Common(ev, new),
         new>>

(* Times: what the entry may have afterwards, and whether it is reported    *)
(* as set                                                                   *)
TimeAfter(old, f, orDefault, ok) ==
    IF FieldsInRange(f) /\ ~NoSuchDay(f) THEN [dt |-> {Packed(f)}, ok |-> {TRUE}]
    ELSE IF ~FieldsInRange(f) THEN [dt |-> IF orDefault THEN {DefaultTime} ELSE old, ok |-> {orDefault}]
    ELSE IF orDefault THEN [dt |-> {Packed(f), DefaultTime}, ok |-> {TRUE}]
    ELSE [dt |-> IF ok THEN {Packed(f)} ELSE old, ok |-> BOOLEAN]

SystemTime(e, ev, orDefault) ==
    IF e.conv.k = "none"
    THEN [dt |-> IF orDefault THEN {DefaultTime} ELSE e.dt, ok |-> {orDefault}]
    ELSE TimeAfter(e.dt, Convert(e.conv, ev.d, ev.s), orDefault, ev.ok)

WithTime(e, r) == [e |-> [e EXCEPT !.dt = r.dt], ok |-> r.ok]

SetResult(e, ev) ==
    CASE ev.what \in {"fields", "chrono"}   -> WithTime(e, TimeAfter(e.dt, ev.f, FALSE, ev.ok))
      [] ev.what \in {"fieldsd", "chronod"} -> WithTime(e, TimeAfter(e.dt, ev.f, TRUE, ev.ok))
      [] ev.what = "sys"  -> WithTime(e, SystemTime(e, ev, FALSE))
      [] ev.what = "sysd" -> WithTime(e, SystemTime(e, ev, TRUE))
      [] ev.what \in {"file", "dir", "link"} -> [e |-> [e EXCEPT !.ty = ev.what], ok |-> {TRUE}]
      [] ev.what \in {"perm", "permstd"} -> [e |-> [e EXCEPT !.pm = [k |-> "bits", b |-> ev.bits]], ok |-> {TRUE}]
      [] ev.what = "ro"   -> [e |-> [e EXCEPT !.pm = [k |-> IF ev.ro THEN "ro" ELSE "rw"]], ok |-> {TRUE}]
      [] ev.what = "crc"  -> [e |-> [e EXCEPT !.crc = ev.crc], ok |-> {TRUE}]
      [] ev.what = "meta" ->
            [e |-> [e EXCEPT !.ty = ev.ty, !.pm = [k |-> "bits", b |-> ev.bits], !.dt = SystemTime(e, ev, TRUE).dt], ok |-> {TRUE}]

DoSet(ev) ==
    LET b == bs[ev.h]
        r == SetResult(b.ents[ev.i], ev)
        new == [bs EXCEPT ![ev.h].ents[ev.i] = r.e]
    IN <<Need("time", ev.ok \in r.ok) \cup Common(ev, new), new>>

DoClone(ev) ==
    LET new == (ev.nh :> bs[ev.h]) @@ bs IN <<Common(ev, new), new>>

DoDrop(ev) ==
    LET new == [k \in (DOMAIN bs) \ {ev.h} |-> bs[k]] IN <<Common(ev, new), new>>

(* The names, in order, through get_entries() *)
DoList(ev) ==
    LET ents == bs[ev.h].ents IN
    <<Need("listed", /\ Len(ev.nxs) = Len(ents)
                     /\ \A k \in 1..Len(ents) : ev.nxs[k] = Src(ents[k].o).nx)
      \cup Common(ev, bs), bs>>

(* Removal of entries through get_entries_mut(): keep are the remaining     *)
(* ones, in their new order                                                 *)
DoRemove(ev) ==
    LET b == bs[ev.h]
        new == [bs EXCEPT ![ev.h].ents = [k \in 1..Len(ev.keep) |-> b.ents[ev.keep[k]]]]
    IN <<Common(ev, new), new>>

(* A file is produced. ev.file are the recorded pieces of what reading it   *)
(* delivers, ev.size is its announced size, ev.len how many bytes were      *)
(* delivered (if it was read from the start to the end)                     *)
DoBuild(ev) ==
    LET b == bs[ev.h]
        bad == Complaints(ev.file, ev.size, [k \in 1..Len(b.ents) |-> Expected(b.ents[k])])
        new == [k \in (DOMAIN bs) \ {ev.h} |-> bs[k]]
    IN <<Need("announced", ev.size = TotalOf(b.ents))
         \cup Need("delivered", ev.rd = "ok" /\ (ev.whole => ev.len = ev.size))
         \cup (Enforced \cap (IF ev.rd = "ok" THEN bad ELSE {}))
         \cup Common(ev, new),
         new>>

BuilderOutcome(ev, o) ==
    CASE ev.op = "new"    -> DoNew(ev)
      [] ev.op = "conv"   -> DoConv(ev)
      [] ev.op = "add"    -> DoAdd(ev, o)
      [] ev.op = "set"    -> DoSet(ev)
      [] ev.op = "clone"  -> DoClone(ev)
      [] ev.op = "drop"   -> DoDrop(ev)
      [] ev.op = "list"   -> DoList(ev)
      [] ev.op = "remove" -> DoRemove(ev)
      [] ev.op = "build"  -> DoBuild(ev)
      [] OTHER -> <<{ev.op}, bs>>
=============================================================================
