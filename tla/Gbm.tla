-------------------------------- MODULE Gbm ---------------------------------
(***************************************************************************)
(* Gradient boosting: the weak learner is shown the predictions f of the   *)
(* additive model (0 at first); the regressor p it returns is added with   *)
(* the coefficient c that minimises the training loss of f + c p.  A game  *)
(* ends when that coefficient is 0, or at the round limit.                 *)
(* In this game a query's d holds f, and u the values p.                   *)
(***************************************************************************)
EXTENDS Game

VARIABLES loss, y, f, coefs   \* "L1" | "L2"; targets; predictions; coefficients
bvars == <<loss, y, f, coefs>>

LIMIT == 100

Res == [i \in 1..Len(y) |-> RSub(y[i], f[i])]
Zero(s) == \A i \in 1..Len(s) : REq(s[i], "0")
Plus(g, c, p) == [i \in 1..Len(g) |-> RAdd(g[i], RMul(c, p[i]))]

LossOf(g) ==
  RDiv(RSum([i \in 1..Len(y) |-> LET e == RSub(y[i], g[i]) IN IF loss = "L1" THEN RAbs(e) ELSE RSq(e)]), Len(y))

\* the loss along p is least at one of these coefficients
Candidates(p) ==
  IF Zero(p) THEN {"0"}
  ELSE IF loss = "L2" THEN {RDiv(RDot(Res, p), RDot(p, p))}
  ELSE {RDiv(Res[i], p[i]) : i \in {j \in 1..Len(y) : ~REq(p[j], "0")}}
\* the least loss along p
BestLoss(p) == LET S == {LossOf(Plus(f, c, p)) : c \in Candidates(p)}
               IN  CHOOSE x \in S : \A z \in S : RLe(x, z)
Coefs(p) == {c \in Candidates(p) : REq(LossOf(Plus(f, c, p)), BestLoss(p))}

-----------------------------------------------------------------------------
BInit(ls, tg) == GInit /\ loss = ls /\ y = tg /\ f = <<>> /\ coefs = <<>>
BPre == Preprocess /\ f' = [i \in 1..Len(y) |-> "0"] /\ coefs' = <<>> /\ UNCHANGED <<loss, y>>
BAsk(p, h) == Ask(f, p, h) /\ UNCHANGED bvars
NewP == hist[Len(hist)].u

BAdd(c) == /\ Continue
           /\ f' = Plus(f, c, NewP) /\ coefs' = Append(coefs, c)
           /\ UNCHANGED <<loss, y>>
BStop == Stop /\ UNCHANGED bvars
BQuit == Quit /\ UNCHANGED bvars
BPost == Postprocess /\ UNCHANGED bvars

\* the output: the sum of coefs[k] * hypothesis k
Model(i) == RDot(coefs, [k \in 1..Len(coefs) |-> hist[k].u[i]])
=============================================================================
