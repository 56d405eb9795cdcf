------------------------------- MODULE MCTimes -------------------------------
(* Timers of a decoder: an operation resets the decoder's timer, visits some *)
(* chunks, and adds each chunk reader's timer, which measured reading,       *)
(* working and writing one after the other.  Time passes in ticks.           *)
EXTENDS Times, TLC
CONSTANTS Chunks, Ops, MaxTick,
          Resets,    \* the timer starts from zero
          Nested     \* reading is measured inside working (double counting)

Seg == {1, 2, 9}     \* reading, writing, decompressing
VARIABLES op, left, phase, timer, ct, wall, rd, wd
vars == <<op, left, phase, timer, ct, wall, rd, wd>>
None == [i \in 1..9 |-> 0]
Plus(a, b) == [i \in 1..9 |-> a[i] + b[i]]

Init == op = 0 /\ left = 0 /\ phase = "idle" /\ timer = None /\ ct = None /\ wall = 0 /\ rd = 0 /\ wd = 0

Start == /\ phase = "idle" /\ op < Ops
         /\ \E n \in 0..Chunks : left' = n /\ phase' = (IF n = 0 THEN "idle" ELSE "read")
         /\ op' = op + 1 /\ wall' = 0 /\ rd' = 0 /\ wd' = 0 /\ ct' = None
         /\ timer' = IF Resets THEN None ELSE timer
Run == \E t \in 0..MaxTick :
  \/ /\ phase = "read" /\ phase' = "work" /\ rd' = rd + t /\ wall' = wall + t
     /\ ct' = [ct EXCEPT ![1] = @ + t, ![9] = @ + (IF Nested THEN t ELSE 0)] /\ UNCHANGED <<op, left, timer, wd>>
  \/ /\ phase = "work" /\ phase' = "write" /\ wall' = wall + t
     /\ ct' = [ct EXCEPT ![9] = @ + t] /\ UNCHANGED <<op, left, timer, rd, wd>>
  \/ /\ phase = "write" /\ phase' = "between" /\ wd' = wd + t /\ wall' = wall + t
     /\ ct' = [ct EXCEPT ![2] = @ + t] /\ UNCHANGED <<op, left, timer, rd>>
  \/ /\ phase = "between" /\ wall' = wall + t       \* unmeasured work
     /\ timer' = Plus(timer, ct) /\ ct' = None /\ left' = left - 1
     /\ phase' = (IF left = 1 THEN "idle" ELSE "read") /\ UNCHANGED <<op, rd, wd>>
Next == Start \/ Run
Spec == Init /\ [][Next]_vars
AnswerOK == phase = "idle" => QueryOK(timer, wall, rd, wd)
=============================================================================
