------------------------------ MODULE MCBatch ------------------------------
(* Design of all and all-patch: the patched codecs of every data set first,  *)
(* then every codec of the patched data sets; a cell is cleared before it is *)
(* measured. The result is the table the definition asks for.                *)
EXTENDS Batch
CONSTANTS NSets, NCodecs, MaxN, Clear, MaxRuns
(* Clear: "all" slots are emptied, "some" keeps one, "none"                  *)
Sets == 1..NSets
Codecs == 1..NCodecs
Slots == {"compress", "sum"}
VARIABLES pc, table, before, n, pd, pk, todo, runs
vars == <<pc, table, before, n, pd, pk, todo, runs>>
Cell == [Slots -> Seq(Nat)]
Empty == [s \in Slots |-> <<>>]
None == [x \in {} |-> Empty]

Init == pc = "idle" /\ table = None /\ before = None /\ n = 0 /\ pd = {} /\ pk = {} /\ todo = {} /\ runs = 0
(* a full experiment patches every data set of an empty table                *)
Start == /\ pc = "idle" /\ runs < MaxRuns /\ runs' = runs + 1
         /\ n' \in 1..MaxN
         /\ IF runs = 0 THEN pd' = Sets /\ pk' = {} ELSE pd' \in SUBSET Sets /\ pk' \in SUBSET Codecs
         /\ before' = table /\ pc' = "codecs" /\ todo' = Sets \X pk'
         /\ UNCHANGED table
Cleared(c) == CASE Clear = "all" -> Empty
                [] Clear = "some" -> [c EXCEPT !["compress"] = <<>>]
                [] Clear = "none" -> c
Stamp == [i \in 1..n |-> runs]   \* the run that made an entry
Measure(p) ==
  LET c == IF p \in DOMAIN table THEN Cleared(table[p]) ELSE Empty
      m == [c EXCEPT !["compress"] = @ \o Stamp, !["sum"] = @ \o Stamp]
  IN table' = [q \in DOMAIN table \cup {p} |-> IF q = p THEN m ELSE table[q]]
Step == /\ pc \in {"codecs", "sets"} /\ todo # {}
        /\ \E p \in todo : Measure(p) /\ todo' = todo \ {p}
        /\ UNCHANGED <<pc, before, n, pd, pk, runs>>
Then == /\ pc \in {"codecs", "sets"} /\ todo = {}
        /\ IF pc = "codecs" THEN pc' = "sets" /\ todo' = pd \X Codecs ELSE pc' = "idle" /\ todo' = {}
        /\ UNCHANGED <<table, before, n, pd, pk, runs>>
Next == Start \/ Step \/ Then
Spec == Init /\ [][Next]_vars

Times(t) == UNION {UNION {{t[p][s][i] : i \in 1..Len(t[p][s])} : s \in Slots} : p \in DOMAIN t}
InTodo(p) == Patched(p[1], p[2], pd, pk)
Exact == (pc = "idle" /\ runs > 0) =>
  /\ DOMAIN table = DOMAIN before \cup {p \in Sets \X Codecs : InTodo(p)}
  /\ \A p \in DOMAIN table :
       IF InTodo(p) THEN \A s \in Slots : Len(table[p][s]) = n /\ \A i \in 1..n : table[p][s][i] \notin Times(before)
       ELSE table[p] = before[p]
=============================================================================
