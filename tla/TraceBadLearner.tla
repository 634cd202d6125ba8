-------------------------- MODULE TraceBadLearner ---------------------------
(***************************************************************************)
(* The real worst-case base learner against BadLearner (W05): "build",     *)
(* then "ask" (distribution, margins of the hypothesis returned; edges     *)
(* asked for are those the booster or the harness plays), and "end" after  *)
(* a game of LPBoost.  "dummy": a dummy sample.                            *)
(***************************************************************************)
EXTENDS BadLearner, TraceBase
VARIABLES phase
tvars == <<tvars0, t, l, note, phase>>

C(name, cond, info) == Clause("W05", name, cond, R.id, l, info)
TInit == TraceInit /\ BadInit /\ phase = 0

TDummy ==
  /\ E.e = "dummy"
  /\ C("a dummy sample has as many rows as asked for, half of them positive",
       /\ E.shape[1] = E.n /\ Len(E.y) = E.n
       /\ \A i \in 1..E.n : REq(E.y[i], IF i <= E.n \div 2 THEN "1" ELSE "-1"), E)
  /\ C("a dummy sample is empty", \A i \in 1..Len(E.x) : \A j \in 1..Len(E.x[i]) : REq(E.x[i][j], "0"), E)
  /\ Advance /\ UNCHANGED tvars0 /\ phase' = l
TBuild == E.e = "build" /\ Build(E.n, E.tol, E.nu) /\ Advance /\ phase' = l

Is(k, u) == LET v == Margins(prob, k) IN \A i \in 1..prob.n : RNear(u[i], v[i], "1e-15")
TAsk ==
  /\ E.e = "ask"
  /\ C("confidences are at most one in size", \A i \in 1..Len(E.u) : IsReal(E.u[i]) /\ RLe(RAbs(E.u[i]), "1"), E)
  /\ C("the hypothesis is one of the class", \E k \in 0..(Sized(prob) - 1) : Is(k, E.u), E)
  /\ LET k == CHOOSE k \in 0..(Sized(prob) - 1) : Is(k, E.u) IN
     /\ C("no hypothesis of the class has a larger edge", RGe(EdgeOf(prob, k, E.d), RSub(BestEdge(prob, E.d), "1e-14")),
          <<k, RShow(EdgeOf(prob, k, E.d)), RShow(BestEdge(prob, E.d))>>)
     /\ Return(k)
  /\ Advance /\ phase' = l

TEnd ==
  /\ E.e = "end"
  /\ C("LPBoost needs rounds in proportion to the number of rows",
       (RLe(RMul("4", Shift(prob)), prob.n) /\ RGe(Eps(prob), "1e-4") /\ RLe(E.tol, "0.5")) => Len(got) >= AtLeast(prob), <<Len(got), prob>>)
  /\ Advance /\ UNCHANGED tvars0 /\ phase' = l

TPanic == E.e = "panic" /\ C("no failure", FALSE, E) /\ Excuse("failure") /\ UNCHANGED <<tvars0, phase>>
TNext == More /\ (TDummy \/ TBuild \/ TAsk \/ TEnd \/ TPanic)
TSpec == TInit /\ [][TNext]_tvars
TView == <<t, l, phase>>
=============================================================================
