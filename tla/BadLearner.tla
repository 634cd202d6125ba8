----------------------------- MODULE BadLearner -----------------------------
(***************************************************************************)
(* The base learner that keeps LPBoost busy: a fixed class of hypotheses   *)
(* on n rows, of which it returns one of largest edge.  Hypotheses are     *)
(* given by their margins (label times confidence).                        *)
(***************************************************************************)
EXTENDS RealArith

VARIABLES
  prob,   \* [n, tol, nu]: rows, tolerance, capping parameter; <<>> at first
  got     \* hypotheses returned so far, by number in the class
tvars0 == <<prob, got>>

Halfway(p) == (p.n + 1) \div 2
Shift(p) == RNeg(RFloor(RNeg(p.nu)))          \* nu rounded up
Eps(p) == RDiv(p.tol, RMul("2", p.n))
Sized(p) == Halfway(p) + 1                    \* hypotheses in the class

\* the margin of row i (from 0) under hypothesis k (from 0)
Margin(p, k, i) ==
  LET h == Halfway(p)  s == Shift(p)  e == Eps(p)
      below(c) == RAdd("-1", RMul(c, e))
  IN  CASE k = 0 -> IF i < h THEN "1" ELSE IF RLt(i, RAdd(h, s)) THEN below("2") ELSE below("3")
        [] k = h -> IF i < h THEN below("1") ELSE RSub("1", e)
        [] OTHER -> LET a == h + k - 1  gap == 3 + 2 * k IN
                    IF a <= i /\ RLt(i, RAdd(a, s)) THEN "1"
                    ELSE IF RGe(i, RAdd(a, s)) /\ RLt(i, RAdd(a, RMul("2", s))) THEN below(gap - 1)
                    ELSE below(gap)
Margins(p, k) == [i \in 1..p.n |-> Margin(p, k, i - 1)]
EdgeOf(p, k, d) == RDot(Margins(p, k), d)
BestEdge(p, d) == RMaxOf([k \in 1..Sized(p) |-> EdgeOf(p, k - 1, d)])

-----------------------------------------------------------------------------
BadInit == prob = <<>> /\ got = <<>>
Build(n, tol, nu) == prob' = [n |-> n, tol |-> tol, nu |-> nu] /\ got' = <<>>
Return(k) == got' = Append(got, k) /\ UNCHANGED prob

\* the least capped sum of the margins: what hypothesis k guarantees
LeastEdge(p, k) ==
  LET s == RSorted(Margins(p, k))
      nu == p.nu
      w(i) == RMax("0", RMin("1", RSub(nu, i - 1)))
  IN  RDiv(RSum([i \in 1..p.n |-> RMul(s[i], w(i))]), nu)
\* rounds LPBoost needs at least: the hypotheses move over the lower half of
\* the rows by Shift rows at a time
AtLeast(p) == LET q == RDiv(RSub(p.n \div 2 + 1, p.nu), Shift(p))
              IN  CHOOSE r \in 1..(p.n + 2) : REq(r, RAdd("1", RNeg(RFloor(RNeg(q)))))
=============================================================================
