----------------------------- MODULE XorCodecs ------------------------------
(* The bit formats of the XOR codecs: Gorilla, Chimp, Chimp128 and the inner *)
(* coder of Elf.  For each codec:                                            *)
(*   Dec*(st, b, p)  reads one word from the bits b behind position p:       *)
(*                   [ok, v, st, p] with the new coder state and position    *)
(*   Enc*(st, v)     the set of ALL codings of v the format allows in state  *)
(*                   st, as [bits, st] - an encoder picks any of them        *)
(* Words are bit sequences of length W, most significant bit first.  The     *)
(* constants scale the formats down for exhaustive checking; the real ones   *)
(* are W = 64, LenB = 6, GLeadB = 5, LeadB = 3, ElfB = 4, RingB = 7.         *)
EXTENDS Bits, Integers, FiniteSets
CONSTANTS W,        \* word width
          LenB,     \* bits of a length field (0 stands for W where noted)
          GLeadB,   \* bits of Gorilla's leading-zeros field
          LeadB,    \* bits of Chimp's leading-zeros code
          LeadTab,  \* the leading zeros each code stands for
          ElfB,     \* bits of Elf's short length field (0 stands for 2^ElfB)
          RingB     \* log2 of Chimp128's ring of previous words

ZeroW == Zeros(W)
Has(b, p, n) == p + n <= Len(b)
Take(b, p, n) == SubSeq(b, p + 1, p + n)
(* xor difference with n significant bits followed by t zeros                 *)
Spread(bits, t) == Zeros(W - Len(bits) - t) \o bits \o Zeros(t)
Fail == [ok |-> FALSE, v |-> ZeroW, st |-> <<>>, p |-> 0]
Got(v, st, p) == [ok |-> TRUE, v |-> v, st |-> st, p |-> p]
Code(bits, st) == [bits |-> bits, st |-> st]
(* the bits of d without its first l and last t                               *)
Middle(d, l, t) == SubSeq(d, l + 1, W - t)
Fits(d, l, t) == (\A i \in 1..l : d[i] = 0) /\ (\A i \in (W - t + 1)..W : d[i] = 0)
None == -1

----------------------------------------------------------------------------
(* Gorilla: 64 bits; then 0: same, 10: the bits of the current window,       *)
(* 11 + lead + (length - 1): a new window and its bits                       *)
GInit == [first |-> TRUE, v |-> ZeroW, l |-> None, t |-> None]
DecG(st, b, p) ==
  IF st.first
  THEN IF Has(b, p, W) THEN LET v == Take(b, p, W) IN Got(v, [st EXCEPT !.first = FALSE, !.v = v], p + W) ELSE Fail
  ELSE IF ~Has(b, p, 1) THEN Fail
  ELSE IF b[p + 1] = 0 THEN Got(st.v, st, p + 1)
  ELSE IF ~Has(b, p, 2) THEN Fail
  ELSE IF b[p + 2] = 0
  THEN LET n == W - st.l - st.t
       IN IF st.l = None \/ ~Has(b, p + 2, n) THEN Fail
          ELSE LET v == XorW(st.v, Spread(Take(b, p + 2, n), st.t)) IN Got(v, [st EXCEPT !.v = v], p + 2 + n)
  ELSE IF ~Has(b, p + 2, GLeadB + LenB) THEN Fail
  ELSE LET l == NatOf(Take(b, p + 2, GLeadB))
           n == NatOf(Take(b, p + 2 + GLeadB, LenB)) + 1
           q == p + 2 + GLeadB + LenB
       IN IF l + n > W \/ ~Has(b, q, n) THEN Fail
          ELSE LET t == W - l - n
                   v == XorW(st.v, Spread(Take(b, q, n), t))
               IN Got(v, [first |-> FALSE, v |-> v, l |-> l, t |-> t], q + n)
EncG(st, v) ==
  IF st.first THEN {Code(v, [st EXCEPT !.first = FALSE, !.v = v])}
  ELSE LET d == XorW(st.v, v)
       IN (IF IsZeroW(d) THEN {Code(<<0>>, st)} ELSE {})
          \cup (IF st.l # None /\ Fits(d, st.l, st.t)
                THEN {Code(<<1, 0>> \o Middle(d, st.l, st.t), [st EXCEPT !.v = v])} ELSE {})
          \cup {Code(<<1, 1>> \o BitsOf(w[1], GLeadB) \o BitsOf(W - w[1] - w[2] - 1, LenB) \o Middle(d, w[1], w[2]),
                     [first |-> FALSE, v |-> v, l |-> w[1], t |-> w[2]])
                : w \in {x \in (0..(2 ^ GLeadB - 1)) \X (0..(W - 1)) : x[1] + x[2] < W /\ Fits(d, x[1], x[2])}}

----------------------------------------------------------------------------
(* Chimp: 64 bits; then 00: same, 01 + lead code + length (0: W) + bits,     *)
(* 10: all bits behind the lead of the last 11 or 10, 11 + lead code + bits. *)
(* 00 and 01 forget the lead.                                                *)
Leads == {i \in 1..Len(LeadTab) : LeadTab[i] < W}
CInit == [first |-> TRUE, v |-> ZeroW, l |-> None]
LenOf(k) == IF k = 0 THEN W ELSE k
ChimpRest(st, prev, b, p, flag, upd(_, _)) ==
  \* flags 10 and 11, against the previous word; upd(v, l): the new state
  IF flag = 2
  THEN IF st.l = None \/ ~Has(b, p, W - st.l) THEN Fail
       ELSE LET v == XorW(prev, Spread(Take(b, p, W - st.l), 0)) IN Got(v, upd(v, st.l), p + W - st.l)
  ELSE IF ~Has(b, p, LeadB) THEN Fail
  ELSE LET l == LeadTab[NatOf(Take(b, p, LeadB)) + 1]
           q == p + LeadB
       IN IF l >= W \/ ~Has(b, q, W - l) THEN Fail
          ELSE LET v == XorW(prev, Spread(Take(b, q, W - l), 0)) IN Got(v, upd(v, l), q + W - l)
(* lead code, length, bits: the difference and the position behind           *)
LeadLen(b, p) ==
  IF ~Has(b, p, LeadB + LenB) THEN [ok |-> FALSE]
  ELSE LET l == LeadTab[NatOf(Take(b, p, LeadB)) + 1]
           n == LenOf(NatOf(Take(b, p + LeadB, LenB)))
           q == p + LeadB + LenB
       IN IF l + n > W \/ ~Has(b, q, n) THEN [ok |-> FALSE]
          ELSE [ok |-> TRUE, d |-> Spread(Take(b, q, n), W - l - n), p |-> q + n, l |-> l]
DecC(st, b, p) ==
  IF st.first
  THEN IF Has(b, p, W) THEN LET v == Take(b, p, W) IN Got(v, [first |-> FALSE, v |-> v, l |-> None], p + W) ELSE Fail
  ELSE IF ~Has(b, p, 2) THEN Fail
  ELSE LET flag == 2 * b[p + 1] + b[p + 2]
       IN CASE flag = 0 -> Got(st.v, [st EXCEPT !.l = None], p + 2)
            [] flag = 1 -> LET r == LeadLen(b, p + 2)
                           IN IF ~r.ok THEN Fail
                              ELSE LET v == XorW(st.v, r.d) IN Got(v, [first |-> FALSE, v |-> v, l |-> None], r.p)
            [] OTHER -> ChimpRest(st, st.v, b, p + 2, flag, LAMBDA v, l : [first |-> FALSE, v |-> v, l |-> l])
(* all codings of the difference d with lead code and length                 *)
LeadLenCodes(d) ==
  {BitsOf(x[1] - 1, LeadB) \o BitsOf((W - LeadTab[x[1]] - x[2]) % W, LenB) \o Middle(d, LeadTab[x[1]], x[2])
     : x \in {y \in Leads \X (0..(W - 1)) : LeadTab[y[1]] + y[2] < W /\ Fits(d, LeadTab[y[1]], y[2])}}
ChimpCodes(st, d, upd(_)) ==
  (IF st.l # None /\ Fits(d, st.l, 0) THEN {Code(<<1, 0>> \o Middle(d, st.l, 0), upd(st.l))} ELSE {})
  \cup {Code(<<1, 1>> \o BitsOf(i - 1, LeadB) \o Middle(d, LeadTab[i], 0), upd(LeadTab[i]))
          : i \in {k \in Leads : Fits(d, LeadTab[k], 0)}}
EncC(st, v) ==
  IF st.first THEN {Code(v, [first |-> FALSE, v |-> v, l |-> None])}
  ELSE LET d == XorW(st.v, v)
       IN (IF IsZeroW(d) THEN {Code(<<0, 0>>, [st EXCEPT !.l = None])} ELSE {})
          \cup {Code(<<0, 1>> \o c, [first |-> FALSE, v |-> v, l |-> None]) : c \in LeadLenCodes(d)}
          \cup ChimpCodes(st, d, LAMBDA l : [first |-> FALSE, v |-> v, l |-> l])

----------------------------------------------------------------------------
(* Chimp128: a ring of the last 2^RingB words.  00 + index: that word again, *)
(* 01 + index + lead code + length + bits: difference to that word, 10 and   *)
(* 11 as in Chimp against the previous word.                                 *)
RingN == 2 ^ RingB
NInit == [first |-> TRUE, v |-> ZeroW, l |-> None, ring |-> <<>>, cur |-> 0]
(* ring holds the words written so far (at most RingN), by slot              *)
Push(st, v, l) ==
  LET c == (st.cur + 1) % RingN
  IN [first |-> FALSE, v |-> v, l |-> l, cur |-> c,
      ring |-> IF Len(st.ring) < RingN THEN Append(st.ring, v) ELSE [st.ring EXCEPT ![c + 1] = v]]
DecN(st, b, p) ==
  IF st.first
  THEN IF Has(b, p, W)
       THEN LET v == Take(b, p, W) IN Got(v, [first |-> FALSE, v |-> v, l |-> None, ring |-> <<v>>, cur |-> 0], p + W)
       ELSE Fail
  ELSE IF ~Has(b, p, 2) THEN Fail
  ELSE LET flag == 2 * b[p + 1] + b[p + 2]
       IN IF flag >= 2 THEN ChimpRest(st, st.v, b, p + 2, flag, LAMBDA v, l : Push(st, v, l))
          ELSE IF ~Has(b, p + 2, RingB) THEN Fail
          ELSE LET i == NatOf(Take(b, p + 2, RingB)) + 1
                   q == p + 2 + RingB
               IN IF i > Len(st.ring) THEN Fail
                  ELSE IF flag = 0 THEN Got(st.ring[i], Push(st, st.ring[i], None), q)
                  ELSE LET r == LeadLen(b, q)
                       IN IF ~r.ok THEN Fail
                          ELSE LET v == XorW(st.ring[i], r.d) IN Got(v, Push(st, v, None), r.p)
EncN(st, v) ==
  IF st.first THEN {Code(v, [first |-> FALSE, v |-> v, l |-> None, ring |-> <<v>>, cur |-> 0])}
  ELSE {Code(<<0, 0>> \o BitsOf(i - 1, RingB), Push(st, v, None)) : i \in {k \in 1..Len(st.ring) : st.ring[k] = v}}
       \cup UNION {{Code(<<0, 1>> \o BitsOf(i - 1, RingB) \o c, Push(st, v, None)) : c \in LeadLenCodes(XorW(st.ring[i], v))}
                     : i \in 1..Len(st.ring)}
       \cup ChimpCodes(st, XorW(st.v, v), LAMBDA l : Push(st, v, l))

----------------------------------------------------------------------------
(* Elf's coder: the first word as its number of trailing zeros (LenB + 1     *)
(* bits; W: the zero word) and the bits above its lowest 1.  Then 01: same,  *)
(* 00: the bits of the current window, 10 + lead code + short length + bits, *)
(* 11 + lead code + length + bits; the lowest bit of the last two is a 1     *)
(* that is not stored.                                                       *)
EInit == [first |-> TRUE, v |-> ZeroW, l |-> None, t |-> None]
EWindow(st, b, p, nb) ==
  IF ~Has(b, p, LeadB + nb) THEN Fail
  ELSE LET l == LeadTab[NatOf(Take(b, p, LeadB)) + 1]
           k == NatOf(Take(b, p + LeadB, nb))
           n == IF k = 0 THEN 2 ^ nb ELSE k
           q == p + LeadB + nb
       IN IF l + n > W \/ ~Has(b, q, n - 1) THEN Fail
          ELSE LET t == W - l - n
                   v == XorW(st.v, Spread(Take(b, q, n - 1) \o <<1>>, t))
               IN Got(v, [first |-> FALSE, v |-> v, l |-> l, t |-> t], q + n - 1)
DecE(st, b, p) ==
  IF st.first
  THEN IF ~Has(b, p, LenB + 1) THEN Fail
       ELSE LET t == NatOf(Take(b, p, LenB + 1))
                q == p + LenB + 1
            IN IF t > W \/ (t < W /\ ~Has(b, q, W - 1 - t)) THEN Fail
               ELSE LET v == IF t = W THEN ZeroW ELSE Spread(Take(b, q, W - 1 - t) \o <<1>>, t)
                    IN Got(v, [st EXCEPT !.first = FALSE, !.v = v], q + (IF t = W THEN 0 ELSE W - 1 - t))
  ELSE IF ~Has(b, p, 2) THEN Fail
  ELSE LET flag == 2 * b[p + 1] + b[p + 2]
       IN CASE flag = 1 -> Got(st.v, st, p + 2)
            [] flag = 0 -> LET n == W - st.l - st.t
                           IN IF st.l = None \/ ~Has(b, p + 2, n) THEN Fail
                              ELSE LET v == XorW(st.v, Spread(Take(b, p + 2, n), st.t))
                                   IN Got(v, [st EXCEPT !.v = v], p + 2 + n)
            [] flag = 2 -> EWindow(st, b, p + 2, ElfB)
            [] OTHER -> EWindow(st, b, p + 2, LenB)
EncE(st, v) ==
  IF st.first
  THEN LET t == TrailingZeros(v)
       IN {Code(BitsOf(t, LenB + 1) \o (IF t = W THEN <<>> ELSE SubSeq(v, 1, W - 1 - t)), [st EXCEPT !.first = FALSE, !.v = v])}
  ELSE LET d == XorW(st.v, v)
           t == TrailingZeros(d)
           ls == {i \in Leads : t < W /\ LeadTab[i] + t < W /\ Fits(d, LeadTab[i], 0)}
           new(i) == [first |-> FALSE, v |-> v, l |-> LeadTab[i], t |-> t]
           n(i) == W - LeadTab[i] - t
       IN (IF IsZeroW(d) THEN {Code(<<0, 1>>, st)} ELSE {})
          \cup (IF st.l # None /\ Fits(d, st.l, st.t)
                THEN {Code(<<0, 0>> \o Middle(d, st.l, st.t), [st EXCEPT !.v = v])} ELSE {})
          \cup {Code(<<1, 0>> \o BitsOf(i - 1, LeadB) \o BitsOf(n(i) % (2 ^ ElfB), ElfB) \o Middle(d, LeadTab[i], t + 1), new(i))
                  : i \in {k \in ls : n(k) <= 2 ^ ElfB}}
          \cup {Code(<<1, 1>> \o BitsOf(i - 1, LeadB) \o BitsOf(n(i) % W, LenB) \o Middle(d, LeadTab[i], t + 1), new(i))
                  : i \in ls}

----------------------------------------------------------------------------
InitOf(c) == CASE c = "gorilla" -> GInit [] c = "chimp" -> CInit [] c = "chimp128" -> NInit [] c = "elf" -> EInit
Dec(c, st, b, p) == CASE c = "gorilla" -> DecG(st, b, p) [] c = "chimp" -> DecC(st, b, p)
                      [] c = "chimp128" -> DecN(st, b, p) [] c = "elf" -> DecE(st, b, p)
Enc(c, st, v) == CASE c = "gorilla" -> EncG(st, v) [] c = "chimp" -> EncC(st, v)
                   [] c = "chimp128" -> EncN(st, v) [] c = "elf" -> EncE(st, v)
=============================================================================
