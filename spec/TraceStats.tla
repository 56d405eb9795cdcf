----------------------------- MODULE TraceStats -----------------------------
(* Validates the recorded statistics of files. Reported reals arrive as the  *)
(* nearest integer of the quantity Stats compares: avg * n, std^2 * n^2.     *)
EXTENDS Stats, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
Ev(n) == l <= Len(Trace) /\ E.ev = n /\ l' = l + 1
TInit == l = 1

Near(a, b)   == a - b <= 1 /\ b - a <= 1
Words        == <<>> \o [i \in 1..Len(E.nums) |-> UnpackBytes(E.nums[i].w, 8)]
PlacesOfAll  == <<>> \o [i \in 1..Len(E.nums) |-> Places(E.nums[i].t)]
Values       == <<>> \o [i \in 1..Len(E.nums) |-> E.nums[i].v]
R            == E.stats

Dist(s, r)   == r.max = MostOf(s) /\ r.min = LeastOf(s) /\ Near(r.sum, SumSeq(s)) /\ Near(r.spread, Spread(s))
NoDist(r)    == r.max = 0 /\ r.min = 0 /\ r.sum = 0 /\ r.spread = 0

(* a file without numbers                                                    *)
Nothing == /\ R.n = 0 /\ NoDist(R.places) /\ NoDist(R.exps) /\ NoDist(R.vals)
           /\ R.lead = 64 /\ R.trail = 64 /\ R.dups = 0

Something ==
  LET ws == Words  ps == PlacesOfAll  es == <<>> \o [i \in 1..Len(ws) |-> ExpOf(ws[i], 11)]
  IN /\ R.n = Len(ws)
     /\ Dist(ps, R.places)
     /\ Dist(es, R.exps)
     /\ IF Len(ws) = 1 THEN R.lead = 64 /\ R.trail = 64
        ELSE Near(R.lead, 100 * LeadSum(ws)) /\ Near(R.trail, 100 * TrailSum(ws))
     /\ Near(R.dups, 100 * (Len(ws) - Distinct(ws)))
     (* the extremes of finite numbers, as doubles                           *)
     /\ (E.finite = 1) => IsMost(UnpackBytes(R.maxw, 8), ws) /\ IsLeast(UnpackBytes(R.minw, 8), ws)
     (* the moments of numbers whose sums are exact                          *)
     /\ (E.small = 1) => Near(R.vals.sum, SumSeq(Values)) /\ Near(R.vals.spread, Spread(Values))

(* a file that can be read and holds only numbers has an entry, another none *)
TFile == /\ Ev("stats")
         /\ IF E.good = 0 THEN E.have = 0
            ELSE E.have = 1 /\ (IF Len(E.nums) = 0 THEN Nothing ELSE Something)
(* the result holds nothing else, and a run that cannot write it says so      *)
TRun == /\ Ev("run")
        /\ IF E.room = 1 THEN E.st = "ok" /\ E.entries = E.goods ELSE E.st = "failed"
TNext == TFile \/ TRun
TSpec == TInit /\ [][TNext]_l
Accepted == LET d == TLCGet("stats").diameter
            IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d>>)
=============================================================================
