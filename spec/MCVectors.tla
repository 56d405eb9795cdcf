------------------------------ MODULE MCVectors -----------------------------
(* Nearest neighbour and matrix product read the chunks one after another    *)
(* and carry an unfinished vector or row over to the next chunks.  A vector  *)
(* may begin anywhere in a chunk and span any number of chunks (C10, C11).   *)
EXTENDS EbiQuery, TLC
CONSTANTS MaxN,     \* records
          Vals,     \* values of records
          Targets,  \* values of the target
          MaxM,     \* length of the target vector
          Strict    \* is only a smaller distance better?  (TRUE breaks KnnIs on infinite distances)
VARIABLES iv, t, sizes, c,
          off,      \* position in the chunk
          rem,      \* records missing to the vector being processed
          part,     \* its distance so far
          idx,      \* its number
          best,     \* the best vector so far: <<index, distance>>
          acc, row  \* dot products of the finished rows, and of the row being processed
vars == <<iv, t, sizes, c, off, rem, part, idx, best, acc, row>>
Plus(a, b) == IF Infinity \in {a, b} THEN Infinity ELSE a + b
Parts(n) == UNION {{s \in [1..k -> 1..n] : FoldLeft(LAMBDA a, x : a + x, 0, s) = n} : k \in 0..n}
Init == /\ \E n \in 0..MaxN : iv \in [1..n -> Vals] /\ sizes \in Parts(n)
        /\ \E m \in 1..MaxM : t \in [1..m -> Targets] /\ rem = m
        /\ c = 0 /\ off = 0 /\ part = 0 /\ idx = 0 /\ best = <<-1, Infinity>> /\ acc = <<>> /\ row = 0
starts == StartsOf(sizes)
Piece == SubSeq(iv, starts[c + 1] + 1, starts[c + 2])
(* the next run of records of the current vector inside the current chunk    *)
Step ==
  /\ c < Len(sizes)
  /\ IF off = Len(Piece) THEN c' = c + 1 /\ off' = 0 /\ UNCHANGED <<rem, part, idx, best, acc, row>>
     ELSE LET k == IF rem < Len(Piece) - off THEN rem ELSE Len(Piece) - off
              seg == SubSeq(t, Len(t) - rem + 1, Len(t) - rem + k)
              d == Plus(part, DistSq(Piece, off, seg))
              r == row + Dot(Piece, off, seg)
          IN /\ off' = off + k /\ UNCHANGED c
             /\ IF k < rem THEN rem' = rem - k /\ part' = d /\ row' = r /\ UNCHANGED <<idx, best, acc>>
                ELSE /\ rem' = Len(t) /\ part' = 0 /\ row' = 0 /\ idx' = idx + 1 /\ acc' = Append(acc, r)
                     /\ best' = IF d < best[2] \/ (d = best[2] /\ ~Strict) THEN <<idx, d>> ELSE best
  /\ UNCHANGED <<iv, t, sizes>>
Spec == Init /\ [][Step]_vars
Over == c = Len(sizes)
KnnIs == Over => KnnOK(iv, t, best[1], best[2])
(* the product with a one-column target, on data that is whole rows          *)
MulIs == Over /\ Len(iv) % Len(t) = 0 => acc = MatmulAns(iv, t, Len(t), 1, 1, Len(t))
(* the carry is exact at every moment                                        *)
Carry == LET read == IF Over THEN Len(iv) ELSE starts[c + 1] + off
             m == Len(t)
         IN /\ read = idx * m + (m - rem)
            /\ part = (IF \E i \in 1..(m - rem) : iv[idx * m + i] = Far THEN Infinity
                       ELSE SumTo(m - rem, LAMBDA i : (iv[idx * m + i] - t[i]) * (iv[idx * m + i] - t[i])))
            /\ row = SumTo(m - rem, LAMBDA i : iv[idx * m + i] * t[i])
=============================================================================
