------------------------------ MODULE MCStats ------------------------------
(* Design: statistics of several files gathered in one pass per file, with   *)
(* running sums and the word before. Carry = TRUE forgets to start over at a *)
(* new file; Partial = TRUE reports what was gathered before a bad field.    *)
EXTENDS Stats

CONSTANTS Words0, MaxFields, NFiles, Carry, Partial
WordSet == {w \in [1..Words0 -> {0, 1}] : TRUE}
Bad == <<2>>

VARIABLES files, k, pos, acc, out
vars == <<files, k, pos, acc, out>>

Zero == [n |-> 0, prev |-> <<>>, lead |-> 0, trail |-> 0, sum |-> 0, sq |-> 0, seen |-> {}]
None == [n |-> -1]
Init == /\ files = <<>> /\ k = 0 /\ pos = 1 /\ acc = Zero /\ out = <<>>
(* the files are chosen first                                                *)
Choose == /\ k = 0 /\ k' = 1
          /\ files' \in [1..NFiles -> UNION {[1..m -> WordSet \cup {Bad}] : m \in 0..MaxFields}]
          /\ UNCHANGED <<pos, acc, out>>

Val(w) == IF w[1] = 1 THEN -NatOf(Tail(w)) ELSE NatOf(Tail(w))
Fresh  == IF Carry THEN [acc EXCEPT !.n = 0, !.sum = 0, !.sq = 0, !.lead = 0, !.trail = 0, !.seen = {}] ELSE Zero
Report(a) == [n |-> a.n, lead |-> a.lead, trail |-> a.trail, sum |-> a.sum,
              spread |-> a.n * a.sq - a.sum * a.sum, dups |-> a.n - Cardinality(a.seen)]

Next1 == k \in 1..NFiles
Take == /\ Next1 /\ pos <= Len(files[k]) /\ files[k][pos] # Bad
        /\ LET w == files[k][pos]  v == Val(w)  x == XorW(w, acc.prev)
           IN acc' = [n |-> acc.n + 1, prev |-> w, sum |-> acc.sum + v, sq |-> acc.sq + v * v, seen |-> acc.seen \cup {w},
                      lead  |-> acc.lead + (IF acc.prev = <<>> THEN 0 ELSE LeadingZeros(x)),
                      trail |-> acc.trail + (IF acc.prev = <<>> THEN 0 ELSE TrailingZeros(x))]
        /\ pos' = pos + 1 /\ UNCHANGED <<files, k, out>>
End(r) == out' = Append(out, r) /\ k' = k + 1 /\ pos' = 1 /\ acc' = Fresh /\ UNCHANGED files
Stop == /\ Next1 /\ pos <= Len(files[k]) /\ files[k][pos] = Bad
        /\ End(IF Partial THEN Report(acc) ELSE None)
Done == Next1 /\ pos > Len(files[k]) /\ End(Report(acc))
Next == Choose \/ Take \/ Stop \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Want(f) == IF \E i \in 1..Len(f) : f[i] = Bad THEN None
           ELSE LET vs == [i \in 1..Len(f) |-> Val(f[i])]
                IN [n |-> Len(f), lead |-> LeadSum(f), trail |-> TrailSum(f), sum |-> SumSeq(vs),
                    spread |-> Spread(vs), dups |-> Len(f) - Distinct(f)]
Right == \A i \in 1..Len(out) : out[i] = Want(files[i])
Ends  == <>(k = NFiles + 1)
(* the order of the bit patterns is that of the values                       *)
ASSUME \A a, b \in WordSet : /\ LessNum(a, b) = (Val(a) < Val(b))
                             /\ SameNum(a, b) = (Val(a) = Val(b))
(* n * sum of squares - square of the sum is n times the sum of the squared  *)
(* differences from the mean, and so never negative                          *)
ASSUME \A s \in UNION {[1..m -> -2..2] : m \in 1..3} :
         Spread(s) * Len(s) = SumSeq([i \in 1..Len(s) |-> (Len(s) * s[i] - SumSeq(s)) * (Len(s) * s[i] - SumSeq(s))])
=============================================================================
