------------------------------- MODULE Exper -------------------------------
(* The commands of the experimenter over a data set (C24): what each reports *)
(* and where. Values are integers (the rank-preserving names of doubles).    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Cmds == {"compress", "filter", "filter_materialize", "materialize", "max", "sum"}

(* the number of the next result: the lowest that is not taken               *)
NextFree(nums) == CHOOSE k \in 0..Cardinality(nums) : k \notin nums /\ \A j \in 0..(k - 1) : j \in nums

Ascending(s)     == SortSeq(s, LAMBDA a, b : a < b)
Percentile(s, p) == Ascending(s)[((Len(s) * p) \div 100) + 1]

(* A predicate is [kind, lo, lok, hi, hik]: Eq and Ne use lo, Range both     *)
(* bounds with lok, hik in {"None", "Inclusive", "Exclusive"}.               *)
Holds(p, v) ==
  CASE p.kind = "Any" -> TRUE
    [] p.kind = "Eq" -> v = p.lo
    [] p.kind = "Ne" -> v # p.lo
    [] p.kind = "Range" -> /\ p.lok = "Inclusive" => v >= p.lo
                           /\ p.lok = "Exclusive" => v > p.lo
                           /\ p.hik = "Inclusive" => v <= p.hi
                           /\ p.hik = "Exclusive" => v < p.hi

(* The selected record numbers, ascending: chunk -1 is the whole file, of    *)
(* chunks of k records; masked = 0: no bitmask.                              *)
Selected(vals, k, q) ==
  SelectSeq([i \in 1..Len(vals) |-> i - 1],
            LAMBDA i : /\ q.chunk < 0 \/ i \div k = q.chunk
                       /\ q.masked = 0 \/ i \in {q.mask[j] : j \in 1..Len(q.mask)}
                       /\ Holds(q.pred, vals[i + 1]))
Picked(vals, is) == [j \in 1..Len(is) |-> vals[is[j] + 1]]
RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE s[1] + Total(Tail(s))
IsLargest(m, s) == (\E i \in 1..Len(s) : s[i] = m) /\ \A i \in 1..Len(s) : s[i] <= m
=============================================================================
