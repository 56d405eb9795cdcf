------------------------------ MODULE TraceElf ------------------------------
(* Validates recorded answers of the decimal functions under Elf.            *)
EXTENDS ElfDecimal, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
Ev(n) == l <= Len(Trace) /\ E.ev = n /\ E.st = "ok" /\ l' = l + 1
TInit == l = 1

(* bits to keep for a places                                                 *)
TPlaces == Ev("places") /\ IsPlaceBits(E.f, E.a)
(* negative powers of ten                                                    *)
TPow == Ev("pow") /\ Nearest(E.m, E.e, <<1>>, E.a)
(* first significant place of any double                                     *)
TSp == Ev("sp") /\ FirstPlaceV(E.sp, E.m, E.e)

(* a decimal of at most 15 digits, its double v = m*2^e, the codec's counts  *)
(* (alpha places, beta* digits), the bits kept and the value recovered       *)
IsPower == E.d = <<1>> /\ E.a >= 1
Accepts == E.bs < 16
Exact == E.alpha = E.a /\ E.bs = (IF IsPower THEN 0 ELSE E.nd)
(* the significance count may give up (17) only where the double product is  *)
(* inexact or the search starts beyond the last place                        *)
MustAccept == /\ E.a <= 22
              /\ E.last = 0 \/ (1 <= E.last /\ E.last <= E.nd)
              /\ ProductRoundsTo(E.m, E.e, E.a, E.d)
TDec == /\ Ev("dec")
        /\ Nearest(E.m, E.e, E.d, E.a)
        /\ FirstPlace(E.sp, E.d, E.a) /\ E.nd = E.sp + E.a + 1
        /\ Accepts => Exact \/ (IsPower /\ E.bs = 0 /\ E.alpha >= E.a)
        /\ MustAccept => Accepts
        /\ Accepts => IsPlaceBits(E.f, E.alpha)
        (* erased: everything below 2^-f goes                                *)
        /\ E.erased = 1 =>
             /\ Accepts
             /\ Erased(E.m, E.em, 0 - E.f - E.e)
             /\ ~IsPower => RoundsUpTo(E.em, E.e, E.a, E.d)
             /\ E.rm = E.m /\ E.re = E.e /\ E.rneg = E.neg
             (* the place the decoder sees                                   *)
             /\ ~IsPower => E.spp = E.sp

(* rounding up any double at place a: up to one rounding of the product, the *)
(* result is the double nearest to d / 10^a with d - 1 < v*10^a <= d          *)
Slack(x) == Add(Shl(x, 52), x)             \* x * (1 + 2^-52) * 2^52
TRound == /\ Ev("round")
          /\ IF E.d = <<>> THEN E.rz = 1 ELSE E.rz = 0 /\ Nearest(E.rm, E.re, E.d, E.a)
          /\ E.rneg = E.neg
          /\ LET v == ScaledV(E.m, E.e, E.a)
                 x == ScaledD(E.d, E.e)
                 one == ScaledD(<<1>>, E.e)
             IN /\ Le(Shl(v, 52), Slack(x))                        \* v <= d (1 + eps)
                /\ Lt(x, Add(v, one)) \/ Lt(Shl(Sub(x, one), 52), Slack(v))
TNext == TPlaces \/ TPow \/ TSp \/ TDec \/ TRound
TSpec == TInit /\ [][TNext]_l
Accepted == LET d == TLCGet("stats").diameter
            IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d>>)
=============================================================================
