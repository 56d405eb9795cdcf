-------------------------------- MODULE MCXor -------------------------------
(* Every coding the format allows is read back, in every reachable coder     *)
(* state, for all words (small widths); and a coding is never a proper       *)
(* prefix of another one of the same state that means something else.        *)
EXTENDS XorCodecs, TLC
CONSTANTS Codecs
Tab == <<0, 2>>
Tab4 == <<0, 1, 3, 5>>
VARIABLES c, st, v, bits, nst
vars == <<c, st, v, bits, nst>>
Words == [1..W -> {0, 1}]
Init == /\ c \in Codecs /\ st = InitOf(c) /\ v = ZeroW /\ bits = <<>> /\ nst = InitOf(c)
Next == /\ c' = c /\ st' = nst
        /\ \E w \in Words : \E e \in Enc(c, nst, w) : v' = w /\ bits' = e.bits /\ nst' = e.st
Spec == Init /\ [][Next]_vars
(* nst, v, bits are the last coding made in state st                          *)
ReadBack == bits # <<>> =>
  /\ LET r == Dec(c, st, bits, 0)
     IN r.ok /\ r.v = v /\ r.st = nst /\ r.p = Len(bits)
  (* with anything behind and in front of it                                  *)
  /\ LET r == Dec(c, st, <<1, 0, 1>> \o bits \o <<1, 1, 0>>, 3)
     IN r.ok /\ r.v = v /\ r.st = nst /\ r.p = Len(bits) + 3
(* a cut coding is not accepted                                               *)
NotCut == bits # <<>> => \A k \in 0..(Len(bits) - 1) : ~Dec(c, st, SubSeq(bits, 1, k), 0).ok
Total == bits = <<>> => \A w \in Words : Enc(c, st, w) # {}
View == <<c, st, v, bits, nst>>
=============================================================================
