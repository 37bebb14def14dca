------------------------------ MODULE Archives ------------------------------
(* The archives a run talks about, and the constraints in force.            *)
(*                                                                          *)
(* Archs is a sequence of records; the first one is the empty archive. Each *)
(* has the file as delivered by a fault free sequential read (ref, its size *)
(* and how that read ended) and its entries: name length, declared size,    *)
(* actual data size, whether a checksum was supplied (gk = "none", "right", *)
(* "wrong") and which, and possibly the data.                               *)
(*                                                                          *)
(* They are read from files written by the harness. (These are definitions, *)
(* not CONSTANTs, since TLC evaluates a definition once, but a constant     *)
(* overridden in a configuration at each use.)                              *)
EXTENDS Sequences, SequencesExt, Json, IOUtils

Archs == ndJsonDeserialize(IOEnv.ARCHS)

(* Names of the constraints in force *)
Enforce == ToSet(ndJsonDeserialize(IOEnv.ENFORCE)[1])
=============================================================================
