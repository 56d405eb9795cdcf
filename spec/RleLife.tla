------------------------------- MODULE RleLife ------------------------------
(* RLE's incremental representation (closed fields plus one pending run,     *)
(* runs at most MaxRun long) implements CompressorLife: after any history    *)
(* the fields it would hand out are the canonical runs of the held records.  *)
EXTENDS CompressorLife, FiniteSets
CONSTANTS Vals, MaxRun, MaxHeld
VARIABLES fields,    \* closed runs <<count, value>>
          pc, pv     \* pending run: count (0 = none) and value
rvars == <<lvars, fields, pc, pv>>

(* the code's loop over appended values                                      *)
RECURSIVE Feed(_, _, _, _)
Feed(f, c, v, xs) ==
  IF xs = <<>> THEN [f |-> f, c |-> c, v |-> v]
  ELSE LET x == Head(xs) IN
    IF c = 0 THEN Feed(f, 1, x, Tail(xs))
    ELSE IF x = v /\ c < MaxRun THEN Feed(f, c + 1, v, Tail(xs))
    ELSE Feed(Append(f, <<c, v>>), 1, x, Tail(xs))

(* the code's rewind: pops whole runs, shortens the run the cut falls into   *)
RECURSIVE Pop(_, _, _, _)
Pop(f, c, v, n) ==
  IF n < c THEN [ok |-> TRUE, f |-> f, c |-> c - n, v |-> v]
  ELSE IF f = <<>> THEN [ok |-> n = c, f |-> f, c |-> 0, v |-> v]
  ELSE LET t == f[Len(f)] IN Pop(SubSeq(f, 1, Len(f) - 1), t[1], t[2], n - c)

Set(r) == fields' = r.f /\ pc' = r.c /\ pv' = r.v
RInit == LInit /\ fields = <<>> /\ pc = 0 /\ pv = CHOOSE v \in Vals : TRUE
Segs == {<<>>} \cup {<<a>> : a \in Vals} \cup {<<a, b>> : a, b \in Vals} \cup {<<a, a, a>> : a \in Vals}
RCompress == \E xs \in Segs : Compress(xs) /\ Set(Feed(<<>>, 0, pv, xs))
RAppend == \E xs \in Segs : Len(held) + Len(xs) <= MaxHeld /\ Append_(xs) /\ Set(Feed(fields, pc, pv, xs))
RRewind == \E n \in 0..MaxHeld + 1 :
             /\ held # <<>>
             /\ LET r == Pop(fields, pc, pv, n)
                IN /\ Rewind(n, r.ok)
                   /\ IF r.ok THEN Set(r) ELSE UNCHANGED <<fields, pc, pv>>
RReset == Reset /\ fields' = <<>> /\ pc' = 0 /\ pv' = pv
RNext == RCompress \/ RAppend \/ RRewind \/ RReset
RSpec == RInit /\ [][RNext]_rvars

(* canonical runs of a record sequence                                       *)
RECURSIVE Runs(_)
Runs(xs) ==
  IF xs = <<>> THEN <<>>
  ELSE LET same == {k \in 1..(IF Len(xs) < MaxRun THEN Len(xs) ELSE MaxRun) : \A i \in 1..k : xs[i] = xs[1]}
           k == CHOOSE m \in same : \A j \in same : j <= m
       IN <<<<k, xs[1]>>>> \o Runs(SubSeq(xs, k + 1, Len(xs)))

HandsOut == IF pc = 0 THEN fields ELSE Append(fields, <<pc, pv>>)
Canonical == HandsOut = Runs(held)
=============================================================================
