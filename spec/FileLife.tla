------------------------------ MODULE FileLife ------------------------------
(* The life of an output file (C05): the encoder writes a header with a      *)
(* blank footer offset, the chunks, the footer, then goes back to fill in    *)
(* the footer offset and the elapsed time, and flushes.  Between it and the  *)
(* disk there may be a write buffer; any write to the disk may be short,     *)
(* interrupted or fail, and the process may die at any moment.  Whatever is  *)
(* on the disk then is either rejected by a reader or holds every record.    *)
EXTENDS Integers, Sequences, SequencesExt, TLC
CONSTANTS Chunks,    \* number of chunks
          CSize,     \* cells of a chunk
          Caps,      \* capacities of the write buffer; 0: unbuffered
          FinalFlush \* does the encoder flush at the end?  (FALSE breaks Durable)
VARIABLES disk,      \* cells on the disk
          pos,       \* file position of the disk
          buf,       \* cells in the write buffer
          cap,       \* its capacity
          todo,      \* what the encoder still has to do
          res        \* "running", "ok", "err", "dead"
vars == <<disk, pos, buf, cap, todo, res>>
Rep(x, n) == [i \in 1..n |-> x]
(* the header is magic and footer offset; the footer two cells, elapsed last *)
Body == FoldLeft(LAMBDA a, i : a \o <<<<"w", Rep(ToString(i), CSize)>>, <<"fl">>>>, <<>>, [i \in 1..Chunks |-> i])
FootAt == 2 + Chunks * CSize
Footer == <<<<"w", <<"foot">>>>, <<"w", <<"elapsed0">>>>>>
Patch == <<<<"seek", 1>>, <<"w", <<"offset">>>>>>
Program == <<<<"w", <<"magic", "blank">>>>>> \o Body
           \o Footer \o Patch \o <<<<"seek", FootAt + 1>>, <<"w", <<"elapsed">>>>>>
           \o (IF FinalFlush THEN <<<<"fl">>>> ELSE <<>>)
Init == disk = <<>> /\ pos = 0 /\ buf = <<>> /\ cap \in Caps /\ todo = Program /\ res = "running"

Put(d, p, x) == IF p < Len(d) THEN [d EXCEPT ![p + 1] = x]
                ELSE Append(d \o Rep("hole", p - Len(d)), x)
(* one cell reaches the disk                                                 *)
Sink(cells) == /\ disk' = Put(disk, pos, cells[1]) /\ pos' = pos + 1
(* unbuffered: the disk takes the cells one by one (a short write)           *)
Write ==
  /\ todo[1][1] = "w"
  /\ LET cells == todo[1][2]
     IN IF cap = 0
        THEN /\ Sink(cells) /\ UNCHANGED buf
             /\ todo' = IF Len(cells) = 1 THEN Tail(todo) ELSE <<<<"w", Tail(cells)>>>> \o Tail(todo)
        ELSE IF Len(buf) + Len(cells) <= cap
        THEN buf' = buf \o cells /\ todo' = Tail(todo) /\ UNCHANGED <<disk, pos>>
        ELSE IF buf # <<>>          \* no room: the buffer goes first
        THEN Sink(buf) /\ buf' = Tail(buf) /\ UNCHANGED todo
        ELSE /\ Sink(cells) /\ UNCHANGED buf
             /\ todo' = IF Len(cells) = 1 THEN Tail(todo) ELSE <<<<"w", Tail(cells)>>>> \o Tail(todo)
Drain == Sink(buf) /\ buf' = Tail(buf) /\ UNCHANGED todo
Flush == todo[1][1] = "fl" /\ IF buf # <<>> THEN Drain ELSE todo' = Tail(todo) /\ UNCHANGED <<disk, pos, buf>>
Seek == todo[1][1] = "seek" /\ IF buf # <<>> THEN Drain
                               ELSE pos' = todo[1][2] /\ todo' = Tail(todo) /\ UNCHANGED <<disk, buf>>
Run == res = "running" /\ todo # <<>> /\ (Write \/ Flush \/ Seek) /\ UNCHANGED res
End == res = "running" /\ todo = <<>> /\ res' = "ok" /\ UNCHANGED <<disk, pos, buf, todo>>
(* a write, seek or flush fails for good: encode reports it                  *)
Fail == res = "running" /\ todo # <<>> /\ res' = "err" /\ UNCHANGED <<disk, pos, buf, todo>>
Die == res = "running" /\ res' = "dead" /\ UNCHANGED <<disk, pos, buf, todo>>
Next == (Run \/ End \/ Fail \/ Die) /\ UNCHANGED cap
Spec == Init /\ [][Next]_vars /\ WF_vars((Run \/ End) /\ UNCHANGED cap)

(* the reader: magic, a footer offset, and a whole footer there              *)
Accepted == Len(disk) >= 2 /\ disk[1] = "magic" /\ disk[2] = "offset" /\ Len(disk) >= FootAt + 2
Whole == /\ \A i \in 1..Chunks : \A j \in 1..CSize : disk[2 + (i - 1) * CSize + j] = ToString(i)
         /\ disk[FootAt + 1] = "foot" /\ disk[FootAt + 2] \in {"elapsed0", "elapsed"}
Safe == Accepted => Whole
(* success means that the file is there, not just in the buffer              *)
Durable == res = "ok" => Accepted /\ Whole /\ disk[FootAt + 2] = "elapsed" /\ buf = <<>>
NoHoles == \A i \in 1..Len(disk) : disk[i] # "hole"
Ends == <>(res # "running")
=============================================================================
