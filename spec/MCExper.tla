------------------------------ MODULE MCExper ------------------------------
(* Design of the result directory: a run takes the lowest free number,       *)
(* creates the file, writes through a buffer that the file may refuse, and   *)
(* reports. Flush = FALSE leaves the last buffer to the destructor, which    *)
(* cannot report; Scan = FALSE takes the number of existing results instead. *)
EXTENDS Exper
CONSTANTS Confs, MaxRuns, Flush, Scan, K

VARIABLES store, files, pc, cur, told, runs, h
vars == <<store, files, pc, cur, told, runs, h>>
None == [conf |-> 0, whole |-> FALSE]

Init == /\ store = 0 /\ files = <<>> /\ pc = "idle" /\ cur = 0 /\ told = <<>> /\ runs = 0 /\ h = <<>>
Nums == DOMAIN files

(* told: what each successful run reported, by its order; files: by number   *)
Compress == /\ pc = "idle" /\ runs < MaxRuns
            /\ \E c \in Confs : store' = c
            /\ runs' = runs + 1 /\ UNCHANGED <<files, pc, cur, told, h>>
Start == /\ pc = "idle" /\ runs < MaxRuns /\ store # 0
         /\ cur' = IF Scan THEN NextFree(Nums) ELSE Cardinality(Nums)
         /\ pc' = "open" /\ runs' = runs + 1 /\ UNCHANGED <<store, files, told, h>>
Put(k, v) == [n \in DOMAIN files \cup {k} |-> IF n = k THEN v ELSE files[n]]
Open == /\ pc = "open" /\ files' = Put(cur, [conf |-> store, whole |-> FALSE])
        /\ pc' = "write" /\ UNCHANGED <<store, cur, told, runs, h>>
Write == /\ pc = "write"
         /\ \E room \in BOOLEAN :
              /\ files' = IF room THEN Put(cur, [conf |-> store, whole |-> TRUE]) ELSE files
              /\ IF room \/ ~Flush
                 THEN told' = Append(told, [n |-> cur, conf |-> store]) /\ pc' = "idle"
                 ELSE told' = told /\ pc' = "idle"
         /\ UNCHANGED <<store, cur, runs, h>>
(* the user tidies up; the result is no longer promised                       *)
Remove == /\ pc = "idle" /\ runs < MaxRuns
          /\ \E n \in Nums : /\ files' = [m \in Nums \ {n} |-> files[m]]
                             /\ told' = SelectSeq(told, LAMBDA t : t.n # n)
          /\ runs' = runs + 1 /\ UNCHANGED <<store, pc, cur, h>>
Next == Compress \/ Start \/ Open \/ Write \/ Remove
Spec == Init /\ [][Next]_vars

(* every result that was reported is there, whole, and still its own          *)
Kept == \A i \in 1..Len(told) : /\ told[i].n \in Nums
                                /\ files[told[i].n] = [conf |-> told[i].conf, whole |-> TRUE]
Apart == \A i, j \in 1..Len(told) : i # j => told[i].n # told[j].n

(* Histories of commands for the recorder: a compress, then any K - 1 others  *)
Ops == {<<"compress", m>> : m \in 0..3}
       \cup {<<c, m>> : c \in Cmds \ {"compress"}, m \in 0..1} \cup {<<"made", 0>>, <<"made", 1>>, <<"rm", 0>>, <<"data", 0>>}
GNext == /\ Len(h) < K
         /\ \E o \in Ops : (Len(h) > 0 \/ o[1] = "compress") /\ h' = Append(h, o)
         /\ UNCHANGED <<store, files, pc, cur, told, runs>>
GSpec == Init /\ [][GNext]_vars
Str(o) == "[\"" \o o[1] \o "\"," \o ToString(o[2]) \o "]"
RECURSIVE Join(_)
Join(s) == IF Len(s) = 1 THEN Str(s[1]) ELSE Str(s[1]) \o "," \o Join(Tail(s))
Emit == (Len(h) = K) => PrintT("SCN [" \o Join(h) \o "]")
=============================================================================
