----------------------------- MODULE TraceBench -----------------------------
(* Runs of the ucr2018 and embedding commands and what they wrote (C26).     *)
EXTENDS Bench, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, dirs
E == Trace[l]
Is(P) == P = TRUE
Ev(n) == l <= Len(Trace) /\ E.ev = n /\ l' = l + 1
TInit == l = 1 /\ dirs = [k \in {"ucr2018", "embedding"} |-> {}]
Begin == Ev("begin") /\ dirs' = [k \in {"ucr2018", "embedding"} |-> {}]
(* a directory of results is deleted                                         *)
Gone == Ev("gone") /\ E.dir \in dirs[E.kind] /\ dirs' = [dirs EXCEPT ![E.kind] = @ \ {E.dir}]

All13 == {E.codecs[i] : i \in 1..Len(E.codecs)}
(* one entry per name, and of exactly these names                            *)
Exactly(s, names) == {s[i].name : i \in 1..Len(s)} = names /\ Len(s) = Cardinality(names)
Named(s, n) == s[CHOOSE i \in 1..Len(s) : s[i].name = n]

(* statistics of n values; what a fresh encoding takes                       *)
Stats(r, n) == /\ r.raw = 8 * n /\ r.size = r.esize /\ r.area = r.earea
               /\ n = 0 \/ (r.ratio = r.size /\ r.arearatio = r.area)

UcrSet(r, set, codec, q) ==
  LET p  == Common(set.ps, 100)
      tr == Tail(set.train)  te == Tail(set.test)
      xs == [i \in 1..Len(tr) |-> Rounded(tr[i].vals, p - set.shift)]
      ts == [i \in 1..Len(te) |-> Rounded(te[i].vals, p - set.shift)]
      xl == [i \in 1..Len(tr) |-> tr[i].label]
      tl == [i \in 1..Len(te) |-> te[i].label]
      (* so inexact that any line may be the nearest; Delta-Sprintz beyond   *)
      (* nine places is a listed finding                                     *)
      wide == (codec = "BUFF" /\ q # -1 /\ p - q > 3) \/ (codec = "DeltaSprintz" /\ p > 9)
      e  == IF wide THEN 0 ELSE Error2(codec, p, q)
      w  == Len(xs[1])
      flat(k) == xs[((k - 1) \div w) + 1][((k - 1) % w) + 1]
      shown == IF Len(xs) * w < 5 THEN Len(xs) * w ELSE 5
  IN /\ set.p = p /\ r.conf = set.confs[codec]
     /\ r.n = 5 /\ r.k = 1 /\ r.prec = q
     /\ Stats(r, Len(xs) * w)
     /\ r.exact = 1 /\ (wide \/ (Sure(xs, xl, ts, tl, e) <= r.correct /\ r.correct <= Possible(xs, xl, ts, tl, e)))
     /\ r.correct \in 0..Len(te)
     /\ r.times = [i \in 1..Len(te) |-> 5] /\ r.segs = [i \in 1..Len(te) |-> 5]
     /\ r.dn = 5 /\ r.dtimes = 5 /\ r.dsegs = 5 /\ Len(r.first) = 5
     /\ \A j \in 1..5 : /\ Len(r.first[j]) = shown
                        /\ wide \/ \A k \in 1..shown : Abs(r.first[j][k] - 16 * flat(k)) <= 8 * e

(* with all codecs at full precision, with BUFF at each lower one            *)
UcrFiles == {<<c, -1>> : c \in All13} \cup {<<"BUFF", E.precs[i]>> : i \in 1..Len(E.precs)}
Ucr == /\ Ev("ucr") /\ E.fail = 0
       /\ Is(E.exit = 0 /\ E.fresh = <<NextFreeDir(dirs["ucr2018"])>> /\ E.kept = 1)
       /\ Is({<<E.files[i].codec, E.files[i].q>> : i \in 1..Len(E.files)} = UcrFiles /\ Len(E.files) = Cardinality(UcrFiles))
       /\ Is(\A i \in 1..Len(E.files) :
               /\ Exactly(E.files[i].sets, {E.sets[k].name : k \in 1..Len(E.sets)})
               /\ \A k \in 1..Len(E.sets) : UcrSet(Named(E.files[i].sets, E.sets[k].name), E.sets[k], E.files[i].codec, E.files[i].q))
       /\ dirs' = [dirs EXCEPT !["ucr2018"] = @ \cup {NextFreeDir(@)}]

(* a precision in tenths, rounded                                            *)
Prec(set) == (set.tenths + 5) \div 10
EmbCell(r, set, codec) ==
  /\ r.conf = set.confs[codec] /\ r.n = 10 /\ r.prec = Prec(set) /\ r.same = 1
  /\ r.lens = [i \in 1..7 |-> 10]
  /\ \A i \in 1..Len(r.stats) : Stats(r.stats[i], set.n)
  /\ codec \in Quantizing \/ \A i \in 1..Len(r.out) : r.out[i] = set.head
Emb == /\ Ev("emb") /\ E.fail = 0
       /\ Is(E.exit = 0 /\ E.fresh = <<NextFreeDir(dirs["embedding"])>> /\ E.kept = 1)
       /\ Is(Exactly(E.sets2, {E.sets[k].name : k \in 1..Len(E.sets)}))
       /\ Is(\A k \in 1..Len(E.sets) :
               LET set == E.sets[k]  res == Named(E.sets2, set.name).cells
                   todo == All13 \ (IF Prec(set) > 12 THEN Quantizing ELSE {})
               IN Exactly(res, todo) /\ \A c \in todo : EmbCell(Named(res, c), set, c))
       /\ dirs' = [dirs EXCEPT !["embedding"] = @ \cup {NextFreeDir(@)}]
Fail == /\ (Ev("ucr") \/ Ev("emb")) /\ E.fail = 1
        /\ E.exit # 0 /\ E.fresh = <<>> /\ E.kept = 1 /\ UNCHANGED dirs
TNext == Begin \/ Gone \/ Ucr \/ Emb \/ Fail
TSpec == TInit /\ [][TNext]_<<l, dirs>>
Accepted == LET d == TLCGet("stats").diameter
            IN IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", d>>)
=============================================================================
