-------------------------------- MODULE Loss --------------------------------
(***************************************************************************)
(* The losses of gradient boosting (LossFunction, GBMLoss): the mean of a  *)
(* loss per example, absolute ("L1") or squared ("L2"); its derivatives in *)
(* the predictions (for L2 those of half the square); and the step along a *)
(* direction p that minimises the loss of the residuals r.                 *)
(***************************************************************************)
EXTENDS RealArith

VARIABLES asked   \* the questions answered so far
lvars == <<asked>>

Point(kind, p, y) == LET e == RSub(p, y) IN IF kind = "L1" THEN RAbs(e) ELSE RSq(e)
MeanOf(s) == RDiv(RSum(s), Len(s))
Eval(kind, p, y) == MeanOf([i \in 1..Len(p) |-> Point(kind, p[i], y[i])])

\* the slopes g allowed at one prediction (an interval at the kink of L1)
GradOK(kind, g, p, y) ==
  IF kind = "L2" THEN REq(g, RSub(p, y))
  ELSE IF RGt(p, y) THEN REq(g, "1") ELSE IF RLt(p, y) THEN REq(g, "-1") ELSE RLe(RAbs(g), "1")
Hess(kind) == IF kind = "L2" THEN "1" ELSE "0"

\* loss of the residuals r after a step c along p
StepLoss(kind, r, p, c) == RSum([i \in 1..Len(r) |-> Point(kind, RMul(c, p[i]), r[i])])
Flat(p) == \A i \in 1..Len(p) : REq(p[i], "0")
Candidates(kind, r, p) ==
  IF Flat(p) THEN {"0"}
  ELSE IF kind = "L2" THEN {RDiv(RDot(r, p), RDot(p, p))}
  ELSE {RDiv(r[i], p[i]) : i \in {j \in 1..Len(p) : ~REq(p[j], "0")}}
Least(kind, r, p) == LET S == {StepLoss(kind, r, p, c) : c \in Candidates(kind, r, p)} IN CHOOSE x \in S : \A z \in S : RLe(x, z)

LInit == asked = <<>>
\* derivatives at p for the targets y, then the step along p for the residuals y
Ask(kind, p, y) == asked' = Append(asked, [kind |-> kind, p |-> p, y |-> y])
=============================================================================
