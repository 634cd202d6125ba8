----------------------------- MODULE TraceTree ------------------------------
(***************************************************************************)
(* Trees of the real learners are trees of Tree (W01, W02, W03).           *)
(* A run is one or more trees of one learner: "begin" (the problem and the *)
(* rows to answer), the nodes in preorder, "end" (the answers on the rows).*)
(***************************************************************************)
EXTENDS Tree, TraceBase
VARIABLES phase
tvars == <<tvars0, t, l, note, phase>>

C(fam, name, cond, info) == Clause(fam, name, cond, R.id, l, info)
TInit == TraceInit /\ TreeInit /\ phase = 0
\* the shape of trees belongs to W01 or W03, the choice of the cut to W02 or W03
Shape == IF Newton THEN "W03" ELSE "W01"
Choice == IF Newton THEN "W03" ELSE "W02"

\* values too close to a bin boundary: in which bin they are depends on rounding
OnGrid(wd) == LET z == RMul(wd, 1048576) IN REq(z, RFloor(z))
Blurred(x, n) ==
  LET lo == Lo(x)  wd == Width(x, n)  sz == RMul("1e-12", RAdd(RAbs(lo), RAbs(Hi(x)))) IN
  \E i \in 1..Len(x) :
    LET k == RFloor(RAdd("0.5", RDiv(RSub(x[i], lo), wd)))
        b == RAdd(lo, RMul(k, wd))
    IN  k > 0 /\ k < n /\ RNear(x[i], b, sz) /\ ~(REq(x[i], b) /\ OnGrid(wd))

TBegin ==
  /\ E.e = "begin"
  /\ IF \E j \in 1..Len(E.cols) : Blurred(E.cols[j], E.bins[j])
     THEN Excuse("a value on a bin boundary") /\ UNCHANGED tvars0
     ELSE /\ Begin([kind |-> E.kind, cols |-> E.cols, bins |-> E.bins, y |-> E.y, w |-> E.w, lam |-> E.lam, splits |-> E.splits])
          /\ Advance
  /\ phase' = l

\* the derivatives of the loss, from which a regression tree is grown
Deriv(loss, p, y, g, h) ==
  CASE loss = "L2" -> RNear(g, RSub(p, y), RMul("1e-12", RMax("1", RAbs(RSub(p, y))))) /\ REq(h, "1")
    [] loss = "L1" -> /\ REq(h, "0")
                      /\ IF RGt(p, y) THEN REq(g, "1") ELSE IF RLt(p, y) THEN REq(g, "-1") ELSE RLe(RAbs(g), "1")
TLoss == /\ E.e = "loss"
         /\ C("W03", "gradients and Hessians of the loss",
              Len(E.g) = Len(E.y) /\ Len(E.h) = Len(E.y) /\ \A i \in 1..Len(E.y) : Deriv(E.loss, E.pred[i], E.y[i], E.g[i], E.h[i]), E)
         /\ Advance /\ UNCHANGED tvars0 /\ phase' = l

TBranch ==
  /\ E.e = "node" /\ E.kind = "B"
  /\ C(Shape, "a tree is complete", todo # <<>>, E)
  /\ LET nd == todo[1]  rows == nd.rows  x == job.cols[E.f]
         left == SelectSeq(rows, LAMBDA i : RLt(x[i], E.thr))
     IN  /\ C(Shape, "no more splits than the depth on a path", nd.depth < job.splits + E.extra, <<nd.depth, job.splits>>)
         /\ C(Shape, "a split has examples on both sides", left # <<>> /\ Len(left) < Len(rows), <<E, rows>>)
         /\ LET cuts == IF On(Choice) THEN AllCuts(rows) ELSE <<>>
                stay == IF On(Choice) THEN Stay(rows) ELSE "0"
                best == BestOf(cuts, stay)
                sz == RMul("1e-9", RAdd("1e-9", RAdd(RAbs(Lo(x)), RAbs(Hi(x)))))
            IN /\ C(Choice, "the threshold separates bins half way", \E i \in 1..Len(cuts) : cuts[i][1] = E.f /\ RNear(cuts[i][2], E.thr, sz),
                    <<E, [i \in 1..Len(cuts) |-> <<cuts[i][1], RShow(cuts[i][2])>>]>>)
               /\ C(Choice, "the split is the best one",
                    RGe(ScoreOf(rows, left), RSub(best, Slack(rows))), <<E, RShow(ScoreOf(rows, left)), RShow(best)>>)
         /\ GrowBranch(E.f, RNorm(E.thr), left)
  /\ Advance /\ phase' = l

LeafTol(rows) ==
  IF ~Newton THEN "1e-9"
  ELSE LET h == RAdd(job.lam, Tot(job.w, rows))
       IN  RDiv(RMul("1e-9", RSum([k \in 1..Len(rows) |-> RAbs(job.y[rows[k]])])), h)
TLeaf ==
  /\ E.e = "node" /\ E.kind = "L"
  /\ C(Shape, "a tree is complete", todo # <<>>, E)
  /\ LET nd == todo[1]  rows == nd.rows IN
     /\ C(Shape, "answer of a leaf", IsReal(E.ans) /\ RNear(E.ans, LeafValue(rows), LeafTol(rows)), <<E, RShow(LeafValue(rows)), rows>>)
     /\ C(Shape, "a leaf answers within [-1, 1]", Newton \/ RLe(RAbs(E.ans), "1"), E)
     /\ On(Choice) => C(Choice, "a leaf is full, settled, or has no better split", MayLeaf(nd),
                        <<rows, nd.depth, RShow(Stay(rows)), [i \in 1..Len(AllCuts(rows)) |-> RShow(AllCuts(rows)[i][3])]>>)
     /\ GrowLeaf(E.ans)
  /\ Advance /\ phase' = l

\* answers on all rows, also those of weight zero and new ones
TEnd ==
  /\ E.e = "end"
  /\ C(Shape, "a tree is complete", todo = <<>>, todo)
  /\ C(Shape, "every row gets the answer of the leaf it leads to",
       Len(E.ans) = Len(E.rows) /\ \A i \in 1..Len(E.rows) :
          LET k == CHOOSE k \in 1..Len(grown) : Follows(E.rows[i], grown[k].path) IN REq(E.ans[i], grown[k].ans), <<E, grown>>)
  /\ C(Shape, "the label is the sign of the answer", Newton \/ \A i \in 1..Len(E.rows) : E.pred[i] = (IF RGe(E.ans[i], "0") THEN 1 ELSE -1), <<E>>)
  /\ Advance /\ UNCHANGED tvars0 /\ phase' = l

TPanic == E.e = "panic" /\ C(Shape, "no failure", FALSE, E) /\ Excuse("failure") /\ UNCHANGED <<tvars0, phase>>
TNext == More /\ (TBegin \/ TLoss \/ TBranch \/ TLeaf \/ TEnd \/ TPanic)
TSpec == TInit /\ [][TNext]_tvars
TView == <<t, l, phase>>
=============================================================================
