----------------------------- MODULE RealArith -----------------------------
(***************************************************************************)
(* Real numbers for TLC.                                                   *)
(*                                                                         *)
(* TLC has 32-bit integers only, and the boosting algorithms of miniboosts *)
(* are defined over the reals.  A number is therefore written as a string: *)
(* an integer "3", a fraction "-1/7" or a decimal "0.125", "1e-9" (TLC     *)
(* integers are accepted too).  The operators below have their usual       *)
(* meaning; java/RealArith.java overrides them with EXACT rational         *)
(* arithmetic (RExp, RLn and RSqrt to 50 significant digits).  "NaN",      *)
(* "inf" and "-inf" are strings that denote no number: IsReal is FALSE,    *)
(* every arithmetic result is "NaN", every comparison is FALSE.            *)
(*                                                                         *)
(* The TLA+ bodies are what the overrides stand for; the operators with    *)
(* a CHOOSE body exist only through their override.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

LOCAL Prim(name) == Assert(FALSE, <<"RealArith override missing", name>>)

IsReal(a) == Prim("IsReal")
RNorm(a)  == Prim("RNorm")       \* the canonical string of a number
RAdd(a, b) == Prim("RAdd")
RSub(a, b) == Prim("RSub")
RMul(a, b) == Prim("RMul")
RDiv(a, b) == Prim("RDiv")       \* "NaN" when b = 0
RLe(a, b) == Prim("RLe")
RLt(a, b) == Prim("RLt")
REq(a, b) == Prim("REq")
RExp(a)  == Prim("RExp")
RLn(a)   == Prim("RLn")          \* "NaN" unless a > 0
RSqrt(a) == Prim("RSqrt")
RFloor(a) == Prim("RFloor")
RInt(a) == Prim("RInt")         \* is the number an integer?
RShow(a) == Prim("RShow")

RECURSIVE RSum(_)
RSum(s) == IF s = <<>> THEN "0" ELSE RAdd(Head(s), RSum(Tail(s)))
\* the sums of the first 1, 2, ... entries
RPrefix(s) == [i \in 1..Len(s) |-> RSum(SubSeq(s, 1, i))]
RECURSIVE RDot(_, _)
RDot(s, u) == IF s = <<>> THEN "0"
              ELSE RAdd(RMul(Head(s), Head(u)), RDot(Tail(s), Tail(u)))

-----------------------------------------------------------------------------
RGe(a, b) == RLe(b, a)
RGt(a, b) == RLt(b, a)
RNeg(a)   == RSub("0", a)
RAbs(a)   == IF RLt(a, "0") THEN RNeg(a) ELSE RNorm(a)
RMax(a, b) == IF RLe(a, b) THEN b ELSE a
RMin(a, b) == IF RLe(a, b) THEN a ELSE b
RSign(a)  == IF RLt(a, "0") THEN -1 ELSE IF RGt(a, "0") THEN 1 ELSE 0
RSq(a)    == RMul(a, a)

\* |a - b| <= tol
RNear(a, b, tol) == RLe(RAbs(RSub(a, b)), tol)
\* |a - b| <= tol * max(1, |b|)
RClose(a, b, tol) == RLe(RAbs(RSub(a, b)), RMul(tol, RMax("1", RAbs(b))))

\* the sequence itself; the override hands TLC its entries evaluated
RSeq(s)       == s
Map(Op(_), s) == RSeq([i \in 1..Len(s) |-> Op(s[i])])
RScale(c, s)  == [i \in 1..Len(s) |-> RMul(c, s[i])]
RVAdd(s, u)   == [i \in 1..Len(s) |-> RAdd(s[i], u[i])]
RVMul(s, u)   == [i \in 1..Len(s) |-> RMul(s[i], u[i])]
RConst(c, n)  == [i \in 1..n |-> c]
AllReal(s)    == \A i \in 1..Len(s) : IsReal(s[i])

RECURSIVE RMaxOf(_)
RMaxOf(s) == IF Len(s) = 1 THEN RNorm(s[1]) ELSE RMax(s[1], RMaxOf(Tail(s)))
RECURSIVE RMinOf(_)
RMinOf(s) == IF Len(s) = 1 THEN RNorm(s[1]) ELSE RMin(s[1], RMinOf(Tail(s)))

\* the i-th smallest entries first
RSorted(s) == SortSeq(s, LAMBDA a, b : RLt(a, b))
=============================================================================
