------------------------------ MODULE Transfer ------------------------------
(* A query between an input that hands out bytes in pieces, is interrupted,  *)
(* ends early or fails, and an output that takes bytes the same way (C18).   *)
(* Each record occupies Half bytes in a chunk; the query copies the records  *)
(* of every chunk to its output; a second query follows on the same reader.  *)
EXTENDS Integers, Sequences, SequencesExt, TLC

CONSTANTS Sizes,     \* chunkings: records per chunk
          Half,      \* bytes per record
          RPieces, WPieces, RFree, WFree,
          Seeks      \* a query begins each chunk at its offset (FALSE: wherever the reader stands)

VARIABLES sizes, c, phase, pos, buf, out, q, st, hit, rs, ws
vars == <<sizes, c, phase, pos, buf, out, q, st, hit, rs, ws>>

AllSizes == {<<>>, <<1>>, <<2>>, <<1, 1>>, <<2, 1>>}
Min2(a, b) == IF a < b THEN a ELSE b
SumTo2(s, k) == FoldLeft(LAMBDA a, i : a + s[i], 0, [i \in 1..k |-> i])
Total == SumTo2(sizes, Len(sizes))
Byte(i) == <<(i \div Half) + 1, i % Half>>                \* i-th byte of the chunks
Bytes(a, b) == [i \in 1..(b - a) |-> Byte(a + i - 1)]
Start(k) == Half * SumTo2(sizes, k - 1)
Expected == Bytes(0, Half * Total)
Need == Half * sizes[c] - Len(buf)

Init == /\ sizes \in Sizes
        /\ c = 1 /\ phase = "seek" /\ pos = 0 /\ buf = <<>> /\ out = <<>>
        /\ q = 1 /\ st = "run" /\ hit = 0 /\ rs = <<>> /\ ws = <<>>

Fault == st' = "err" /\ hit' = 1 /\ UNCHANGED <<sizes, c, phase, pos, buf, out, q>>
Stay == UNCHANGED <<sizes, c, phase, pos, buf, out, q, st, hit>>

Begin == /\ phase = "seek" /\ c <= Len(sizes)
         /\ pos' = IF Seeks THEN Start(c) ELSE pos
         /\ buf' = <<>> /\ phase' = "read"
         /\ UNCHANGED <<sizes, c, out, q, st, hit, rs, ws>>
Done == /\ phase = "seek" /\ c > Len(sizes)
        /\ st' = "ok" /\ UNCHANGED <<sizes, c, phase, pos, buf, out, q, hit, rs, ws>>

Read(k) == LET n == Min2(k, Min2(Need, Half * Total - pos))
           IN /\ n > 0
              /\ pos' = pos + n
              /\ buf' = buf \o Bytes(pos, pos + n)
              /\ phase' = IF n = Need THEN "write" ELSE "read"
              /\ UNCHANGED <<sizes, c, out, q, st, hit>>
Reading == /\ phase = "read"
           /\ \/ /\ Len(rs) < RFree
                 /\ \E k \in RPieces \cup {-1, -2, -3} :
                      /\ rs' = Append(rs, k)
                      /\ CASE k = -1 -> Stay [] k \in {-2, -3} -> Fault [] OTHER -> Read(k)
              \/ Len(rs) >= RFree /\ Read(Half * Total) /\ UNCHANGED rs
           /\ UNCHANGED ws

\* writes go record by record; what is still to be written of the chunk is buf
Write(k) == LET n == Min2(k, IF Len(buf) % Half = 0 THEN Half ELSE Len(buf) % Half)
            IN /\ out' = out \o SubSeq(buf, 1, n)
               /\ buf' = SubSeq(buf, n + 1, Len(buf))
               /\ IF n = Len(buf) THEN phase' = "seek" /\ c' = c + 1 ELSE UNCHANGED <<phase, c>>
               /\ UNCHANGED <<sizes, pos, q, st, hit>>
Writing == /\ phase = "write"
           /\ \/ /\ Len(ws) < WFree
                 /\ \E k \in WPieces \cup {-1, -2, -3} :
                      /\ ws' = Append(ws, k)
                      /\ CASE k = -1 -> Stay [] k \in {-2, -3} -> Fault [] OTHER -> Write(k)
              \/ Len(ws) >= WFree /\ Write(Half) /\ UNCHANGED ws
           /\ UNCHANGED rs

\* the next query on the same reader
Again == /\ st # "run" /\ q = 1
         /\ q' = 2 /\ st' = "run" /\ hit' = 0 /\ c' = 1 /\ phase' = "seek" /\ out' = <<>> /\ buf' = <<>>
         /\ UNCHANGED <<sizes, pos, rs, ws>>

Next == \/ st = "run" /\ (Begin \/ Done \/ Reading \/ Writing)
        \/ Again
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Whole == st = "ok" => out = Expected /\ hit = 0
PrefixOnly == IsPrefix(out, Expected)
Blame == st = "err" => hit = 1
Terminates == <>(q = 2 /\ st # "run")

Emit == q = 1 /\ st # "run" =>
  LET S(s) == FoldLeft(LAMBDA a, i : a \o (IF i = 1 THEN "" ELSE ",") \o ToString(s[i]), "", [i \in 1..Len(s) |-> i])
  IN PrintT("SCN {\"rs\":[" \o S(rs) \o "],\"ws\":[" \o S(ws) \o "]}")
=============================================================================
