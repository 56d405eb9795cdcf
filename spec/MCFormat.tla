------------------------------ MODULE MCFormat ------------------------------
(* A writer of the file layout, one write after the other: a header that     *)
(* points nowhere, the chunks, the footer in its pieces, and the header      *)
(* again, now with the footer's place.  For every codec, chunk option,       *)
(* configuration and chunk list within the bounds: what a reader finds in    *)
(* the finished file is what was written (C03, C16), and no image of the     *)
(* file before the last write, nor any proper prefix of it after, is one a   *)
(* reader accepts (C05).  Late = TRUE notes the first record of a chunk only *)
(* after counting its records: must fail.                                    *)
EXTENDS Format, TLC, FiniteSets
CONSTANTS MaxChunks, Late
CfgBytes == {0, 7, 255}
Payloads == {<<1>>, <<69, 66>>} \cup (IF MaxChunks > 2 THEN {<<0, 0, 0>>} ELSE {})
Values == {<<0,0,0,0,0,0,0,0>>, <<3,0,0,0,0,0,0,0>>, <<0,1,0,0,0,0,0,128>>}
Ver == <<0, 256, 513>>
Times == {[k \in 1..16 |-> 0], [k \in 1..16 |-> (k * 37) % 256]}

VARIABLES id, kind, value, cfg, chunks, el, b, stage, done, nrec, foots
vars == <<id, kind, value, cfg, chunks, el, b, stage, done, nrec, foots>>
Zero8 == <<0,0,0,0,0,0,0,0>>
Init == /\ id \in 0..(NCodecs - 1) /\ kind = 0 /\ value = Zero8 /\ cfg = <<>> /\ chunks = <<>> /\ el = <<>>
        /\ b = <<>> /\ stage = "choose" /\ done = 0 /\ nrec = 0 /\ foots = <<>>
Choose ==
  /\ stage = "choose" /\ stage' = "header"
  /\ kind' \in 0..2 /\ value' \in (IF kind' = 0 THEN {Zero8} ELSE Values)
  /\ \E x \in CfgBytes : cfg' = [k \in 1..CfgLen(id) |-> IF k = 1 THEN x ELSE (x * k) % 256]
  /\ chunks' \in UNION {[1..k -> Payloads \X (1..2)] : k \in 0..MaxChunks}
  /\ el' \in Times
  /\ UNCHANGED <<id, b, done, nrec, foots>>
Header(foff8) == HeaderBytes(0, id, kind, value, foff8, Ver)
WriteHeader == /\ stage = "header" /\ stage' = "chunks" /\ b' = Header(Zero8)
               /\ UNCHANGED <<id, kind, value, cfg, chunks, el, done, nrec, foots>>
WriteChunk ==
  /\ stage = "chunks" /\ done < Len(chunks)
  /\ LET ch == chunks[done + 1]
         at == IF Late THEN nrec + ch[2] ELSE nrec
     IN /\ b' = b \o ch[1]
        /\ foots' = Append(foots, <<LE(Len(b), 8), LE(at, 8)>>)
        /\ nrec' = nrec + ch[2]
  /\ done' = done + 1
  /\ UNCHANGED <<id, kind, value, cfg, chunks, el, stage>>
(* the footer in the pieces the code writes                                  *)
Crc == <<1, 2, 3, 4>>
Segs == [k \in 1..9 |-> [j \in 1..16 |-> (el[j] + k) % 256]]
Piece(s) == CASE s = "f1" -> LE(nrec, 8) \o LE(Len(foots), 8)
              [] s = "f2" -> Cat([i \in 1..Len(foots) |-> foots[i][1] \o foots[i][2]])
              [] s = "f3" -> <<Len(cfg)>> \o cfg
              [] s = "f4" -> el \o Cat(Segs) \o Crc
After(s) == CASE s = "f1" -> "f2" [] s = "f2" -> "f3" [] s = "f3" -> "f4" [] s = "f4" -> "last"
ToFooter == /\ stage = "chunks" /\ done = Len(chunks) /\ stage' = "f1" /\ done' = Len(b)
            /\ UNCHANGED <<id, kind, value, cfg, chunks, el, b, nrec, foots>>
WriteFooter == /\ stage \in {"f1", "f2", "f3", "f4"} /\ b' = b \o Piece(stage) /\ stage' = After(stage)
               /\ UNCHANGED <<id, kind, value, cfg, chunks, el, done, nrec, foots>>
Rewrite == /\ stage = "last" /\ stage' = "end"
           /\ b' = Header(LE(done, 8)) \o SubSeq(b, HeaderLen + 1, Len(b))
           /\ UNCHANGED <<id, kind, value, cfg, chunks, el, done, nrec, foots>>
Next == Choose \/ WriteHeader \/ WriteChunk \/ ToFooter \/ WriteFooter \/ Rewrite
Spec == Init /\ [][Next]_vars
(* ---- what it has to be ---- *)
Sizes == [i \in 1..Len(chunks) |-> chunks[i][2]]
End == stage = "end"
IsFinished == End => Finished(b, Sizes)
Found == End =>
  LET h == HeaderOf(b)  t == FooterOf(b)
      ph(i) == IF i > t.nch THEN FOff(b) ELSE Num(t.foots[i][1], 0, 8)
  IN /\ h = [magic |-> Magic, ft |-> 0, id |-> id, kind |-> kind, value |-> value, foff |-> LE(done, 8), ver |-> Ver]
     /\ t.nrec = LE(nrec, 8) /\ t.nch = Len(chunks) /\ t.cfg = cfg /\ t.elapsed = el /\ t.segs = Segs /\ t.crc = Crc
     /\ t.len = Len(FooterBytes(t.nrec, foots, cfg, el, Segs, Crc))
     /\ SubSeq(b, done + 1, Len(b)) = FooterBytes(t.nrec, foots, cfg, el, Segs, Crc)
     /\ \A i \in 1..Len(chunks) : Bytes(b, ph(i), ph(i + 1) - ph(i)) = chunks[i][1]
     /\ nrec = FoldLeft(LAMBDA a, s : a + s, 0, Sizes)
NotBefore == ~End => ~Parseable(b)
NoPrefix == End => \A n \in 0..(Len(b) - 1) : ~Parseable(SubSeq(b, 1, n))
(* numbers survive their bytes                                                *)
ASSUME \A n \in {1, 2, 3, 4, 8} : \A v \in {0, 1, 127, 128, 255} \cup (IF n >= 2 THEN {256, 32767, 65535} ELSE {})
                                       \cup (IF n >= 4 THEN {65536, 2147483647} ELSE {}) :
          (n < 4 \/ v <= 2147483647) => Num(LE(v, n), 0, n) = v
=============================================================================
