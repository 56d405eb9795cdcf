------------------------------ MODULE CsvConv ------------------------------
(* Conversion of a text file of comma separated numbers into a file of       *)
(* 64-bit records (C20).                                                     *)
(*                                                                           *)
(* A field is <<"num", id>>, <<"empty", 0>> or <<"bad", 0>>; a file is a     *)
(* sequence of lines, a line a sequence of fields. Numbers count by their    *)
(* identity `id` (equal bit patterns).                                       *)
EXTENDS Integers, Sequences, SequencesExt

Fields(rows) == FlattenSeq(rows)
Nums(fs)     == LET f == SelectSeq(fs, LAMBDA x : x[1] = "num") IN [i \in 1..Len(f) |-> f[i][2]]
HasBad(fs)   == \E i \in 1..Len(fs) : fs[i][1] = "bad"

(* What a conversion must come to when the output takes `limit` bytes (-1:   *)
(* any number).                                                              *)
Fits(n, limit)       == limit < 0 \/ 8 * n <= limit
Converts(rows, limit) == LET fs == Fields(rows) IN ~HasBad(fs) /\ Fits(Len(Nums(fs)), limit)

=============================================================================
