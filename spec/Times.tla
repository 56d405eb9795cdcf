-------------------------------- MODULE Times --------------------------------
(* What the reported execution times of an operation may be (C19).  wall is  *)
(* the time from call to return; rd and wd the time spent inside the input   *)
(* and the output of the operation.  segs: the nine segments, the first two  *)
(* of them reading and writing.                                              *)
EXTENDS Integers, Sequences, SequencesExt

Total(segs) == FoldLeft(LAMBDA a, x : a + x, 0, segs)

(* the segments are disjoint parts of this operation alone                   *)
PartsOK(segs, wall) == Len(segs) = 9 /\ Total(segs) <= wall
(* all waiting for the input is reading, all waiting for the output writing  *)
ReadOK(segs, rd) == segs[1] >= rd
WriteOK(segs, wd) == segs[2] >= wd
QueryOK(segs, wall, rd, wd) == PartsOK(segs, wall) /\ ReadOK(segs, rd) /\ WriteOK(segs, wd)
(* an operation that adds its parts to a timer; times are cut to units, so   *)
(* a segment may gain one unit                                               *)
Gain(before, segs) == [i \in 1..Len(segs) |-> segs[i] - before[i]]
AddedOK(before, segs, wall, rd) ==
  /\ Len(segs) = 9 /\ Len(before) = 9
  /\ \A i \in 1..9 : segs[i] >= before[i]
  /\ Total(Gain(before, segs)) <= wall + 9
  /\ segs[1] - before[1] + 1 >= rd
Zero(segs) == \A i \in 1..Len(segs) : segs[i] = 0
=============================================================================
