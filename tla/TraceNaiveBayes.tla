-------------------------- MODULE TraceNaiveBayes ---------------------------
(***************************************************************************)
(* The real naive Bayes learner against NaiveBayes (W04).  "fit": a table  *)
(* and weights; "ask": rows with confidences, labels and probabilities.    *)
(***************************************************************************)
EXTENDS NaiveBayes, TraceBase
VARIABLES phase
tvars == <<tvars0, t, l, note, phase>>

C(name, cond, info) == Clause("W04", name, cond, R.id, l, info)
TInit == TraceInit /\ NBInit /\ phase = 0

TFit == /\ E.e = "fit"
        /\ Fit([cols |-> E.cols, y |-> E.y, w |-> E.w])
        /\ Advance /\ phase' = l

\* relative precision of a log posterior: variances are computed from
\* deviations from a mean, which is known to 1e-15 of the values
Fuzz(m, row) ==
  LET spread(k, f) == RDiv(RAdd(RSq(m[k].mean[f]), RSq(row[f])), m[k].var[f])
      big == RMaxOf([k \in 1..Len(m) |-> RSum([f \in 1..Len(row) |-> RSqrt(spread(k, f))])])
      size == RMaxOf([k \in 1..Len(m) |-> Size(m[k], row)])
  IN  RMul(RAdd("1", size), RMul("1e-12", RAdd("1", big)))
\* labels whose posterior is as large as the largest, as far as can be told
Likely(m, row) == LET b == BestPost(m, row)  z == Fuzz(m, row) IN {m[k].y : k \in {i \in 1..Len(m) : RGe(Post(m[i], row), RSub(b, z))}}

Probs(m, row, p) ==
  \* probabilities are in proportion to the posteriors
  \A a, b \in 1..Len(m) :
    LET pa == p[CHOOSE k \in 1..Len(p) : REq(p[k][1], m[a].y)][2]
        pb == p[CHOOSE k \in 1..Len(p) : REq(p[k][1], m[b].y)][2]
        d == RDiv(RSub(Post(m[a], row), Post(m[b], row)), "2")
    IN  (IsReal(pa) /\ IsReal(pb) /\ RGt(pa, "1e-200") /\ RGt(pb, "1e-200") /\ RLe(Fuzz(m, row), "1e-3"))
        => RNear(RSub(RLn(pa), RLn(pb)), d, RAdd("1e-9", Fuzz(m, row)))
TAsk ==
  /\ E.e = "ask"
  /\ C("every row is answered", Len(E.ans) = Len(E.rows) /\ Len(E.pred) = Len(E.rows) /\ Len(E.prob) = Len(E.rows), E)
  /\ \A i \in 1..Len(E.rows) :
       LET row == E.rows[i]  best == Likely(model, row) IN
       /\ C("the answer is the label of largest posterior", IsReal(E.ans[i]) /\ RNorm(E.ans[i]) \in best, <<row, E.ans[i], best, job>>)
       /\ C("the predicted label is the sign of the answer", E.pred[i] = (IF RGe(E.ans[i], "0") THEN 1 ELSE -1), <<E.ans[i], E.pred[i]>>)
       /\ C("probabilities are in proportion to the posteriors", Probs(model, row, E.prob[i]), <<row, E.prob[i]>>)
  /\ Advance /\ phase' = l
  /\ asked' = asked \o [i \in 1..Len(E.rows) |-> [row |-> E.rows[i], ans |-> E.ans[i]]] /\ UNCHANGED <<job, model>>

TPanic == E.e = "panic" /\ C("no failure", FALSE, E) /\ Excuse("failure") /\ UNCHANGED <<tvars0, phase>>
TNext == More /\ (TFit \/ TAsk \/ TPanic)
TSpec == TInit /\ [][TNext]_tvars
TView == <<t, l, phase>>
=============================================================================
