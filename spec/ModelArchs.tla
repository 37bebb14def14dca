----------------------------- MODULE ModelArchs -----------------------------
(* Writes the archives that the model of the reader reads (models/archs),   *)
(* in the format of Archives: rendered, not recorded. Run with              *)
(* python3 -m vlib.modelarchs; the models check that the result is current. *)
EXTENDS ZipRender, Crc32, TLC, Json, IOUtils

\* Numbers in a content, so that no two bytes of an archive look the same
Byte(i, k) == HexOfByte(((i * 37) + (k * 11) + 7) % 256)
RECURSIVE Data(_, _)
Data(i, n) == IF n = 0 THEN "" ELSE Data(i, n - 1) \o Byte(i, n)

WrongCrc(c) == Xor32(c, <<256, 64>>)

\* e = <<length of the name, declared size, actual size, supplied checksum>>
Entry(i, e) ==
    LET x == Data(i, e[3])
        crc == IF e[2] = 0 THEN <<0, 0>> ELSE CrcOfHex(x)
        given == IF e[4] = "wrong" THEN WrongCrc(crc) ELSE crc
    IN [nl |-> e[1], size |-> e[2], actual |-> e[3], gk |-> e[4],
        given |-> IF e[4] = "none" THEN <<-1, -1>> ELSE given,
        data |-> x,
        rendered |-> [nx |-> Data(100 + i, e[1]), data |-> x, size |-> e[2], mode |-> 33188, dt |-> <<0, 33>>,
                      crc |-> IF e[4] = "none" THEN crc ELSE given]]

Archive(es) ==
    LET ents == [i \in 1..Len(es) |-> Entry(i, es[i])]
        ref == Render([i \in 1..Len(es) |-> ents[i].rendered])
    IN [entries |-> [i \in 1..Len(es) |-> [k \in {"nl", "size", "actual", "gk", "given", "data"} |-> ents[i][k]]],
        ref |-> ref, size |-> HexLen(ref), refres |-> "ok"]

N == "none"  G == "right"  W == "wrong"
Described == <<
    <<>>,                                             \* 1: the empty archive
    <<<<1, 3, 3, N>>>>,                               \* 2: one entry
    <<<<1, 3, 3, N>>, <<1, 2, 2, G>>>>,               \* 3: with known and unknown checksum
    <<<<1, 0, 0, N>>, <<2, 2, 2, N>>>>,               \* 4: an empty entry first
    <<<<1, 4, 2, N>>, <<1, 1, 1, N>>>>,               \* 5: too short
    <<<<1, 2, 4, N>>, <<1, 1, 1, N>>>>,               \* 6: too long
    <<<<1, 3, 3, W>>, <<1, 2, 2, N>>>>,               \* 7: wrong checksum supplied
    <<<<1, 3, 3, G>>>>,                               \* 8: right checksum supplied
    <<<<1, 4, 0, N>>>>,                               \* 9: nothing where something was declared
    <<<<1, 3, 1, G>>, <<1, 2, 3, W>>>>,               \* 10: wrong sizes with supplied checksums
    <<<<1, 2, 2, N>>, <<1, 0, 0, G>>, <<1, 3, 3, N>>>> \* 11: three entries
    >>

ASSUME ndJsonSerialize(IOEnv.OUT, [a \in 1..Len(Described) |-> Archive(Described[a])])
=============================================================================
