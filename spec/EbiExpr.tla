------------------------------- MODULE EbiExpr ------------------------------
(* Arithmetic expressions over columns (C09).  Numbers are exact fractions   *)
(* <<n, d>> in lowest terms with d > 0; <<1,0>> and <<-1,0>> are the         *)
(* infinities and <<0,0>> is NaN.                                            *)
EXTENDS EbiQuery

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
AbsI(a) == IF a < 0 THEN -a ELSE a
Frac(n, d) == LET g == Gcd(AbsI(n), AbsI(d))
                  s == IF d < 0 THEN -1 ELSE 1
              IN <<s * (n \div g), (s * d) \div g>>
NaN == <<0, 0>>
IsNaN(x) == x = NaN
IsInf(x) == x[2] = 0 /\ x[1] # 0
Sgn(x) == IF x[1] > 0 THEN 1 ELSE IF x[1] < 0 THEN -1 ELSE 0
Inf(s) == <<s, 0>>

Neg(x) == <<-x[1], x[2]>>
Add(x, y) == IF IsNaN(x) \/ IsNaN(y) THEN NaN
             ELSE IF IsInf(x) /\ IsInf(y) THEN (IF x = y THEN x ELSE NaN)
             ELSE IF IsInf(x) THEN x ELSE IF IsInf(y) THEN y
             ELSE Frac(x[1] * y[2] + y[1] * x[2], x[2] * y[2])
Mul(x, y) == IF IsNaN(x) \/ IsNaN(y) THEN NaN
             ELSE IF IsInf(x) \/ IsInf(y)
                  THEN IF Sgn(x) * Sgn(y) = 0 THEN NaN ELSE Inf(Sgn(x) * Sgn(y))
             ELSE Frac(x[1] * y[1], x[2] * y[2])
(* division by zero depends on the sign of zero and is not used              *)
Div(x, y) == IF IsNaN(x) \/ IsNaN(y) THEN NaN
             ELSE IF IsInf(y) THEN (IF IsInf(x) THEN NaN ELSE <<0, 1>>)
             ELSE IF IsInf(x) THEN Inf(Sgn(x) * Sgn(y))
             ELSE Frac(x[1] * y[2], x[2] * y[1])
Apply(op, x, y) == CASE op = "+" -> Add(x, y) [] op = "-" -> Add(x, Neg(y))
                     [] op = "*" -> Mul(x, y) [] op = "/" -> Div(x, y)
LessF(x, y) == IF IsInf(x) \/ IsInf(y) THEN x # y /\ (x = Inf(-1) \/ y = Inf(1))
               ELSE x[1] * y[2] < y[1] * x[2]

(* e: <<"lit", frac>>, <<"ix", i>> or <<op, e1, e2>>; r a record number      *)
RECURSIVE Eval(_, _, _)
Eval(cols, e, r) ==
  CASE e[1] = "lit" -> e[2]
    [] e[1] = "ix"  -> cols[e[2] + 1][r + 1]
    [] OTHER        -> Apply(e[1], Eval(cols, e[2], r), Eval(cols, e[3], r))

(* the largest column an expression uses, -1 if none                         *)
RECURSIVE MaxIx(_)
MaxIx(e) == CASE e[1] = "lit" -> -1 [] e[1] = "ix" -> e[2]
              [] OTHER -> LET a == MaxIx(e[2]) b == MaxIx(e[3]) IN IF a > b THEN a ELSE b

RECURSIVE OnlyLits(_)
OnlyLits(e) == CASE e[1] = "lit" -> TRUE [] e[1] = "ix" -> FALSE
                 [] OTHER -> OnlyLits(e[2]) /\ OnlyLits(e[3])
(* no operator has literals only on both sides, except possibly the root     *)
RECURSIVE Plain(_)
Plain(e) == IF e[1] \in {"lit", "ix"} THEN TRUE ELSE ~OnlyLits(e) /\ Plain(e[2]) /\ Plain(e[3])

MinF(xs) == FoldLeft(LAMBDA a, x : IF IsNaN(x) \/ ~LessF(x, a) THEN a ELSE x, Inf(1), xs)
MaxF(xs) == FoldLeft(LAMBDA a, x : IF IsNaN(x) \/ ~LessF(a, x) THEN a ELSE x, Inf(-1), xs)
SumF(xs) == FoldLeft(Add, <<0, 1>>, xs)

ExprVals(cols, e, sel) == [i \in 1..Len(sel) |-> Eval(cols, e, sel[i])]
SomeOrdered(xs) == \E i \in 1..Len(xs) : ~IsNaN(xs[i])

(* the answer of one aggregation: out is a sequence (one element for scalars) *)
AggOK(cols, e, kind, sel, out) ==
  LET xs == ExprVals(cols, e, sel)
  IN CASE kind = "none" -> out = xs
       [] kind = "sum"  -> out = <<SumF(xs)>>
       [] kind = "min"  -> Len(out) = 1 /\ (SomeOrdered(xs) => out[1] = MinF(xs))
       [] kind = "max"  -> Len(out) = 1 /\ (SomeOrdered(xs) => out[1] = MaxF(xs))
=============================================================================
