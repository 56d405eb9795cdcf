----------------------------- MODULE TraceBatch -----------------------------
(* Validates recorded full experiments and patches of their results.         *)
EXTENDS Batch, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, table, nums
E == Trace[l]
Is(P) == P = TRUE
Ev(n) == l <= Len(Trace) /\ E.ev = n /\ l' = l + 1
TInit == l = 1 /\ table = {} /\ nums = [k \in {"all", "all_patch"} |-> {}]
Begin == Ev("begin") /\ table' = {} /\ nums' = [k \in {"all", "all_patch"} |-> {}]

(* cells are [set, codec, entries]                                           *)
SetIx(name)  == CHOOSE i \in 1..Len(E.sets) : E.sets[i].name = name
Known(name)  == \E i \in 1..Len(E.sets) : E.sets[i].name = name /\ E.sets[i].skip = 0
Stamps(t)    == UNION {{c.entries[i].stamp : i \in 1..Len(c.entries)} : c \in t}
Pd == {E.pd[i] : i \in 1..Len(E.pd)}
Pc == {E.pc[i] : i \in 1..Len(E.pc)}
(* what this run measures                                                    *)
Todo == {<<s, j>> \in {<<i, k>> : i \in 1..Len(E.sets), k \in 1..E.most} :
           /\ E.sets[s].skip = 0 /\ j <= Len(E.sets[s].comps)
           /\ E.kind = "all" \/ Patched(E.sets[s].name, E.sets[s].comps[j].name, Pd, Pc)}
KeyOf(p) == <<E.sets[p[1]].name, E.sets[p[1]].comps[p[2]].scheme>>

Right(e, set, comp) ==
  LET r == e.rep  v == set.vals  is0 == [i \in 1..Len(v) |-> i - 1]
  IN /\ r.mem = E.mem /\ r.input = 1 /\ r.path = 1 /\ r.conf = comp.conf
     /\ CASE e.cmd = "compress" -> r.n = Len(v) /\ r.raw = 8 * Len(v)
          [] e.cmd = "materialize" -> E.mem = 0 \/ r.bytes = 8 * Len(v)
          [] e.cmd = "max" -> IsLargest(r.value, v)
          [] e.cmd = "sum" -> E.whole = 0 \/ r.value = Total(v)
          [] OTHER ->
               LET f  == set.filters[CHOOSE i \in 1..Len(set.filters) : set.filters[i].name = e.filter]
                   is == Selected(v, comp.k, f.q)
               IN /\ r.query = f.query
                  /\ IF e.cmd = "filter_materialize" THEN E.mem = 0 \/ r.bytes = 8 * Len(is)
                     ELSE r.count = Len(is) /\ (IF r.listed = 1 THEN r.ids = is
                                               ELSE Len(is) > 0 /\ r.ids = <<is[1], is[Len(is)]>>)

Measured(c, p) ==
  LET set == E.sets[p[1]]  comp == set.comps[p[2]]
  IN IF comp.off = 1 THEN c.entries = <<>>
     ELSE /\ Full(c.entries, SlotsOf(set.filters), E.n, Stamps(table))
          /\ \A i \in 1..Len(c.entries) : Right(c.entries[i], set, comp)

Bare(c) == [set |-> c.set, codec |-> c.codec,
            entries |-> [i \in 1..Len(c.entries) |-> [slot |-> c.entries[i].slot, stamp |-> c.entries[i].stamp]]]
Cells == {Bare(E.cells[i]) : i \in 1..Len(E.cells)}
Old == IF E.kind = "all" THEN {} ELSE table
(* what was recorded of a chosen data set with a codec that is no longer      *)
(* configured for it may go or stay                                          *)
Loose(t) == \A c \in t : c.set \in Pd
TRun == /\ Ev("run") /\ E.fail = 0
        /\ Is(E.exit = 0 /\ E.fresh = <<NextFree(nums[E.kind])>> /\ E.kept = 1)
        /\ Is(Cardinality({<<c.set, c.codec>> : c \in Cells}) = Len(E.cells))
        /\ Is(\A p \in Todo : \E i \in 1..Len(E.cells) :
                <<E.cells[i].set, E.cells[i].codec>> = KeyOf(p) /\ Measured(E.cells[i], p))
        (* the rest is what it was *)
        /\ Is(LET rest(t) == {c \in t : <<c.set, c.codec>> \notin {KeyOf(p) : p \in Todo}}
              IN rest(Cells) \subseteq Old /\ Loose(rest(Old) \ rest(Cells)))
        /\ table' = Cells
        /\ nums' = [nums EXCEPT ![E.kind] = @ \cup {NextFree(@)}]
(* a configuration that cannot be read: no result, and the run says so        *)
TFail == /\ Ev("run") /\ E.fail = 1 /\ E.exit # 0 /\ E.fresh = <<>> /\ E.kept = 1
         /\ UNCHANGED <<table, nums>>
TNext == Begin \/ TRun \/ TFail
TSpec == TInit /\ [][TNext]_<<l, table, nums>>
Accepted == LET d == TLCGet("stats").diameter
            IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d>>)
=============================================================================
