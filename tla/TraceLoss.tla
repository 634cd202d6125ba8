----------------------------- MODULE TraceLoss ------------------------------
(* The real loss functions against Loss (L01). *)
EXTENDS Loss, TraceBase
VARIABLE phase
tvars == <<lvars, t, l, note, phase>>
C(name, cond, info) == Clause("L01", name, cond, R.id, l, info)
TInit == TraceInit /\ LInit /\ phase = 0
Mag(s) == RMax("1e-300", RMaxOf(Map(RAbs, s)))
Rel == "1e-13"
Near(a, b) == IsReal(a) /\ RLe(RAbs(RSub(a, b)), RMul(Rel, RAbs(b)))

TLoss ==
  /\ E.e = "loss" /\ Ask(E.kind, E.p, E.y)
  /\ LET k == Len(E.p)  both == RAdd(Mag(E.p), Mag(E.y)) IN
     /\ C("loss of one example", Len(E.point) = k /\ \A i \in 1..k : IsReal(E.point[i])
            /\ RNear(E.point[i], Point(E.kind, E.p[i], E.y[i]), RMul(Rel, IF E.kind = "L1" THEN both ELSE RSq(both))), E)
     /\ C("the loss is the mean over the examples", IsReal(E.eval)
            /\ RNear(E.eval, Eval(E.kind, E.p, E.y), RMul(Rel, IF E.kind = "L1" THEN both ELSE RSq(both))), <<E, RShow(Eval(E.kind, E.p, E.y))>>)
     /\ C("the gradient", Len(E.g) = k /\ \A i \in 1..k : IsReal(E.g[i])
            /\ IF E.kind = "L2" THEN RNear(E.g[i], RSub(E.p[i], E.y[i]), RMul(Rel, both)) ELSE GradOK("L1", E.g[i], E.p[i], E.y[i]), E)
     /\ C("the Hessian", Len(E.h) = k /\ \A i \in 1..k : IsReal(E.h[i]) /\ REq(E.h[i], Hess(E.kind)), E)
  /\ Advance /\ phase' = l
\* the step for residuals y along p
TStep ==
  /\ E.e = "step" /\ Ask(E.kind, E.p, E.y)
  /\ LET r == E.y  least == Least(E.kind, r, E.p)
         sz == StepLoss(E.kind, r, E.p, "0")
     IN C("the step minimises the loss", IsReal(E.c) /\ RLe(StepLoss(E.kind, r, E.p, E.c), RAdd(least, RMul("1e-11", sz))),
          <<E, RShow(least), RShow(StepLoss(E.kind, r, E.p, E.c))>>)
  /\ Advance /\ phase' = l
TPanic == E.e = "panic" /\ C("no failure", FALSE, E) /\ Excuse("failure") /\ UNCHANGED <<lvars, phase>>
TNext == More /\ (TLoss \/ TStep \/ TPanic)
TSpec == TInit /\ [][TNext]_tvars
TView == <<t, l, phase>>
=============================================================================
