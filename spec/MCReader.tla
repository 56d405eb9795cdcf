------------------------------ MODULE MCReader ------------------------------
(* A chunk reader keeps a cursor in the encoded chunk and, once the chunk    *)
(* was decoded as a whole, the decoded values.  Every operation starts from  *)
(* the beginning (or from the decoded values), so that its answer does not   *)
(* depend on the operations before it (C08), wherever an iterator or an      *)
(* early exit left the cursor.                                               *)
(* The same module enumerates the histories that are replayed into the       *)
(* readers of the code (Emit).                                               *)
EXTENDS EbiQuery, TLC
CONSTANTS N,        \* records
          MaxLen,   \* length of a history
          Kinds,    \* values
          Rewinds   \* does every operation start at the beginning?  (FALSE breaks HistoryFree)
VARIABLES data, cursor, cached, cache, ans, want, hist
vars == <<data, cursor, cached, cache, ans, want, hist>>

Ops == {"iter0", "iter1", "iterhalf", "iterall", "full", "mat", "matmask", "filter", "filtermask", "fmat", "fmatmask",
        "sum", "summask", "min", "max", "dist", "dot"}
Iters == {"iter0", "iter1", "iterhalf", "iterall"}
Cached == {"full"}                       \* operations that keep the decoded values
Upto(o) == CASE o = "iter0" -> 0 [] o = "iter1" -> 1 [] o = "iterhalf" -> N \div 2 [] OTHER -> N

Init == /\ data \in [1..N -> Kinds]
        /\ cursor = 0 /\ cached = FALSE /\ cache = <<>> /\ ans = <<>> /\ want = <<>> /\ hist = <<>>

(* what an operation sees when it reads on from position c                   *)
Rest(c) == SubSeq(data, c + 1, N)
Answer(o, xs) ==
  CASE o \in Iters -> SubSeq(xs, 1, IF Upto(o) < Len(xs) THEN Upto(o) ELSE Len(xs))
    [] o = "sum" -> <<FoldLeft(LAMBDA a, x : a + x, 0, xs)>>
    [] o = "min" -> <<FoldLeft(LAMBDA a, x : IF x < a THEN x ELSE a, 99, xs)>>
    [] OTHER -> xs
(* iterators always read the chunk; the others prefer the decoded values     *)
Source(o) == IF cached /\ o \notin Iters THEN cache ELSE Rest(IF Rewinds THEN 0 ELSE cursor)
(* scanning operations may stop anywhere once the answer is known            *)
Stops(o) == IF o \in Iters THEN {Upto(o)} ELSE 0..N
Do(o) ==
  /\ Len(hist) < MaxLen
  /\ ans' = Answer(o, Source(o))
  /\ want' = Answer(o, data)
  /\ IF o \in Iters THEN cursor' \in Stops(o) /\ UNCHANGED <<cached, cache>>
     ELSE IF cached THEN UNCHANGED <<cursor, cached, cache>>
     ELSE \/ cursor' = N /\ cached' = TRUE /\ cache' = Rest(0)      \* decodes the chunk first
          \/ o \notin Cached /\ cursor' \in Stops(o) /\ UNCHANGED <<cached, cache>>
  /\ hist' = Append(hist, o)
  /\ UNCHANGED data
Next == \E o \in Ops : Do(o)
Spec == Init /\ [][Next]_vars
HistoryFree == ans = want
CacheOK == cached => cache = data
(* for the generator: one state per history                                  *)
OpView == hist
Emit == Len(hist) = MaxLen =>
  PrintT("SCN {\"ops\":[" \o FoldLeft(LAMBDA a, i : a \o (IF i = 1 THEN "" ELSE ",") \o "\"" \o hist[i] \o "\"", "", [i \in 1..Len(hist) |-> i]) \o "]}")
=============================================================================
