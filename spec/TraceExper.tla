----------------------------- MODULE TraceExper -----------------------------
(* Validates recorded runs of the experimenter. A run covers the files       *)
(* E.on; the state is the data, what each file was last compressed from and  *)
(* with, and which results exist.                                            *)
EXTENDS Exper, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, data, store, nums
E == Trace[l]
Is(P) == P = TRUE
Ev(n) == l <= Len(Trace) /\ E.ev = n /\ l' = l + 1
TInit == l = 1 /\ data = <<>> /\ store = <<>> /\ nums = <<>>

NoConf == [conf |-> "", k |-> 1, vals |-> <<>>]
TData == /\ Ev("data")
         /\ data' = E.files
         /\ store' = [f \in 1..Len(E.files) |-> NoConf]
         /\ nums' = [f \in 1..Len(E.files) |-> [c \in Cmds |-> {}]]

(* files the run must fail on leave no result and disturb no other           *)
Bads == E.exit = 0 /\ \A i \in 1..Len(E.bad) : E.bad[i].st = "failed" /\ E.bad[i].results = 0

(* the three percentiles and the median for equality                         *)
TMake == /\ Ev("make") /\ Is(Bads)
         /\ Is(\A i \in 1..Len(E.on) :
                 LET v == data[E.on[i].f]  r == E.on[i]
                 IN IF v = <<>> THEN r.st = "failed"
                    ELSE r.st = "ok" /\ r.consts = <<Percentile(v, 10), Percentile(v, 50), Percentile(v, 90), Percentile(v, 50), Percentile(v, 50)>>)
         /\ UNCHANGED <<data, store, nums>>

(* one new result under the next free number, the others as they were        *)
Filed(r, f)  == r.st = "ok" /\ r.kept = 1 /\ r.fresh = <<NextFree(nums[f][E.cmd])>>
Framed(r, conf) == r.rep.mem = E.mem /\ r.rep.path = 1 /\ r.rep.input = 1 /\ r.rep.type = 1 /\ r.rep.conf = conf
Books == nums' = [f \in DOMAIN nums |->
                    IF \E i \in 1..Len(E.on) : E.on[i].f = f
                    THEN [nums[f] EXCEPT ![E.cmd] = @ \cup {NextFree(@)}] ELSE nums[f]]

TCompress == /\ Ev("cmd") /\ E.cmd = "compress" /\ Is(Bads)
             /\ Is(\A i \in 1..Len(E.on) :
                     LET r == E.on[i]  v == data[r.f]
                     IN /\ Filed(r, r.f) /\ Framed(r, E.conf)
                        /\ r.rep.n = Len(v) /\ r.rep.raw = 8 * Len(v) /\ r.rep.size = r.len
                        /\ r.rep.area = r.foot - 30  (* between header and footer *)
                        /\ (v # <<>>) => r.rep.ratio = r.rep.size /\ r.rep.arearatio = r.rep.area
                        /\ r.out = v)
             /\ store' = [f \in DOMAIN store |->
                            IF \E i \in 1..Len(E.on) : E.on[i].f = f THEN [conf |-> E.conf, k |-> E.k, vals |-> data[f]] ELSE store[f]]
             /\ Books /\ UNCHANGED data

Answer(r, v, k) ==
  LET is == Selected(v, k, E.q)  xs == Picked(v, is)
  IN CASE E.cmd = "filter" ->
            /\ r.rep.count = Len(is)
            /\ IF r.rep.listed = 1 THEN r.rep.ids = is
               ELSE Len(is) > 0 /\ r.rep.ids = <<is[1], is[Len(is)]>>
       [] E.cmd \in {"materialize", "filter_materialize"} ->
            IF E.mem = 1 THEN r.rep.bytes = 8 * Len(is) ELSE r.out = xs
       [] E.cmd = "max" -> xs = <<>> \/ IsLargest(r.rep.value, xs)
       [] E.cmd = "sum" -> E.whole = 0 \/ r.rep.value = Total(xs)

(* without a compressed file there is nothing to run on                      *)
(* (E.ulp = 1: the listed finding, a constant its JSON reader changes)       *)
TQuery == /\ Ev("cmd") /\ E.cmd # "compress" /\ Is(Bads)
          /\ Is(\A i \in 1..Len(E.on) :
                  LET r == E.on[i]  s == store[r.f]
                  IN /\ s.conf # ""
                     /\ Filed(r, r.f) /\ Framed(r, s.conf)
                     /\ E.ulp = 1 \/ (r.rep.query = E.query /\ Answer(r, s.vals, s.k)))
          /\ Books /\ UNCHANGED <<data, store>>

(* the data file was replaced; the compressed one still holds the former     *)
TChange == /\ Ev("change") /\ data' = [data EXCEPT ![E.f] = E.vals]
           /\ UNCHANGED <<store, nums>>
(* a result was deleted by hand                                              *)
TRemove == /\ Ev("rm")
           /\ nums' = [nums EXCEPT ![E.f][E.cmd] = @ \ {E.n}]
           /\ UNCHANGED <<data, store>>
(* no room for the result: the run says so                                    *)
TNoRoom == Ev("noroom") /\ E.st = "failed" /\ UNCHANGED <<data, store, nums>>

TNext == TData \/ TMake \/ TCompress \/ TQuery \/ TChange \/ TRemove \/ TNoRoom
TSpec == TInit /\ [][TNext]_<<l, data, store, nums>>
Accepted == LET d == TLCGet("stats").diameter
            IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d>>)
=============================================================================
