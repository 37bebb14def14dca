---------------------------- MODULE RenderModel -----------------------------
(* Agreement of ZipRender, ZipLayout and ZipFormat: all archives of up to   *)
(* MaxEntries entries with names and data from small sets. The rendered     *)
(* file has the size and the places that the layout says, the format has no *)
(* complaints about it, and it has some about every file in which a single  *)
(* byte differs, unless that byte is one of those which the format leaves   *)
(* open (Open).                                                             *)
EXTENDS ZipRender, TLC, FiniteSets, ZipFormat
CONSTANTS MaxEntries

VARIABLES es

Names == {"c3a9", "642f"}
Datas == {"", "504b0304"}
Looks == {[m |-> 33188, t |-> <<0, 33>>], [m |-> 16877, t |-> <<49021, 65439>>], [m |-> 41471, t |-> <<1, 34>>]}

Entry(nx, x, m, t) == [nx |-> nx, data |-> x, size |-> HexLen(x), mode |-> m, dt |-> t,
                       crc |-> IF x = "" THEN <<0, 0>> ELSE CrcOfHex(x)]

Init == es = <<>>
Next == /\ Len(es) < MaxEntries
        /\ \E nx \in Names, x \in Datas, k \in Looks : es' = Append(es, Entry(nx, x, k.m, k.t))
Spec == Init /\ [][Next]_es

Wanted == [k \in 1..Len(es) |->
    [nx |-> es[k].nx, size |-> U64Of(es[k].size), cx |-> es[k].data, tx |-> "", dt |-> {es[k].dt},
     mode |-> es[k].mode, dir |-> es[k].mode = 16877, crc |-> {es[k].crc}]]

Lays == LayoutOf([k \in 1..Len(es) |-> [nl |-> HexLen(es[k].nx), size |-> es[k].size]])
Says(x) == Complaints(<<[o |-> U64Zero, x |-> x]>>, U64Of(HexLen(x)), Wanted)

Agree == LET x == Render(es) IN HexLen(x) = Lays.total /\ Says(x) = {}

Open == UNION {{Lays.lh[k] + o : o \in OpenLocal(HexLen(es[k].nx))} \cup {Lays.cdh[k] + o : o \in OpenCentral} : k \in 1..Len(es)}
        \cup {Lays.eocd + o : o \in OpenEnd}

\* Of every byte the lowest, a middle and all bits are inverted
Flip(x, i, by) == HexSub(x, 0, i) \o HexOfByte(HexAt(x, i) ^^ by) \o HexSub(x, i + 1, HexLen(x) - i - 1)
Loose == LET x == Render(es) IN
         {i \in 0..(HexLen(x) - 1) : i \notin Open /\ \E by \in {1, 32, 255} : Says(Flip(x, i, by)) = {}}
Strict == \/ Loose = {}
          \/ PrintT(Loose) /\ FALSE
\* Nothing may be missing or be too much at the end
Complete == LET x == Render(es) IN
            /\ Says(HexSub(x, 0, HexLen(x) - 1)) # {}
            /\ Says(x \o "00") # {}
=============================================================================
