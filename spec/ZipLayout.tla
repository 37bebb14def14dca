----------------------------- MODULE ZipLayout -----------------------------
(* Where everything is in the produced file. Sizes of the records follow    *)
(* from the ZIP format with unconditional ZIP64 extensions:                 *)
(*   per entry: local header, data, data descriptor;                        *)
(*   then a central directory header per entry;                             *)
(*   then the ZIP64 end record, its locator and the end record.             *)
(* Entries are records with at least the fields nl (name length in bytes)   *)
(* and size (declared data size). Offsets are plain integers: archives of   *)
(* 2 GiB and more are handled by LayoutTotal64 only.                        *)
EXTENDS Integers, Sequences, U64

Zip64ExtraSize == 28
LocalFixedSize == 30
DescriptorSize == 24
CentralFixedSize == 46
EndSize == 56 + 20 + 22

LhSize(e) == LocalFixedSize + e.nl + Zip64ExtraSize
CdhSize(e) == CentralFixedSize + e.nl + Zip64ExtraSize

(* Bytes an entry adds to the file apart from its data *)
EntryOverhead(nl) == LocalFixedSize + CentralFixedSize + 2 * Zip64ExtraSize + DescriptorSize + 2 * nl

(* Record of sequences: offset of local header, data, descriptor and        *)
(* central header of each entry; offset of the central directory and of     *)
(* the end records; total size.                                             *)
LayoutOf(entries) ==
    LET n == Len(entries)
        lh[i \in 1..(n + 1)] ==
            IF i = 1 THEN 0
            ELSE lh[i - 1] + LhSize(entries[i - 1]) + entries[i - 1].size + DescriptorSize
        cdh[i \in 1..(n + 1)] ==
            IF i = 1 THEN lh[n + 1] ELSE cdh[i - 1] + CdhSize(entries[i - 1])
    IN [n    |-> n,
        lh   |-> [i \in 1..n |-> lh[i]],
        data |-> [i \in 1..n |-> lh[i] + LhSize(entries[i])],
        dd   |-> [i \in 1..n |-> lh[i] + LhSize(entries[i]) + entries[i].size],
        cdh  |-> [i \in 1..n |-> cdh[i]],
        cd   |-> lh[n + 1],
        eocd |-> cdh[n + 1],
        total |-> cdh[n + 1] + EndSize]
=============================================================================
