-------------------------------- MODULE Tree --------------------------------
(***************************************************************************)
(* Growing a decision tree (criteria entropy, gini, twoing, edge) or a     *)
(* regression tree (criterion newton), node by node, in preorder.          *)
(*                                                                         *)
(* A feature is cut into bins of equal width between its smallest and      *)
(* largest value.  At a node, bins that hold no example of the node are    *)
(* merged into their neighbours, half way; the cuts between the remaining  *)
(* bins are the candidates.  An example goes left when its value is below  *)
(* the threshold.                                                          *)
(***************************************************************************)
EXTENDS RealArith

VARIABLES
  job,    \* the training problem, see below
  todo,   \* nodes still to grow, first one first: [rows, depth, path]
  grown   \* leaves so far: [rows, ans, path]
tvars0 == <<job, todo, grown>>

(* job: kind    the criterion                                              *)
(*      cols    one sequence of values per feature                         *)
(*      bins    number of bins of each feature                             *)
(*      y, w    labels and weights; for newton gradients and Hessians      *)
(*      lam     newton: the regularisation                                 *)
(*      splits  how many splits a path may have                            *)

Sum(s, rows) == RSum([k \in 1..Len(rows) |-> s[rows[k]]])
Tot(s, rows) == RDot([k \in 1..Len(rows) |-> s[rows[k]]], [k \in 1..Len(rows) |-> "1"])
Newton == job.kind = "newton"

\* rows that count: those of positive weight
Rows0 == LET all == [i \in 1..Len(job.y) |-> i]
         IN IF Newton THEN all ELSE SelectSeq(all, LAMBDA i : RGt(job.w[i], "0"))

Begin(j) == /\ job' = j /\ grown' = <<>>
            /\ todo' = <<[rows |-> LET all == [i \in 1..Len(j.y) |-> i]
                                   IN IF j.kind = "newton" THEN all ELSE SelectSeq(all, LAMBDA i : RGt(j.w[i], "0")),
                          depth |-> 0, path |-> <<>>]>>
TreeInit == job = <<>> /\ todo = <<>> /\ grown = <<>>

-----------------------------------------------------------------------------
(* bins *)
Lo(x) == LET a == RMinOf(x) IN IF REq(a, RMaxOf(x)) THEN RSub(a, "0.001") ELSE a
Hi(x) == LET b == RMaxOf(x) IN IF REq(b, RMinOf(x)) THEN RAdd(b, "0.001") ELSE b
Width(x, n) == RDiv(RSub(Hi(x), Lo(x)), n)
Bin(v, lo, wd, n) == LET k == RFloor(RDiv(RSub(v, lo), wd)) IN IF k >= n THEN n ELSE IF k < 0 THEN 1 ELSE k + 1
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A z \in S : x <= z IN <<x>> \o SeqOf(S \ {x})

\* the bins of feature j that hold examples of a node: <<number, the examples>>
Occupied(rows, j) ==
  LET x == job.cols[j]  n == job.bins[j]  lo == Lo(x)  wd == Width(x, n)
      b == TLCEval([k \in 1..Len(rows) |-> Bin(x[rows[k]], lo, wd, n)])
      occ == SeqOf({b[k] : k \in 1..Len(rows)})
      In(p) == LET ks == SelectSeq([k \in 1..Len(rows) |-> k], LAMBDA k : b[k] = p) IN [i \in 1..Len(ks) |-> rows[ks[i]]]
  IN  TLCEval([i \in 1..Len(occ) |-> <<occ[i], In(occ[i])>>])
\* the cut between the bins numbered p and q
Half(j, p, q) == LET x == job.cols[j] IN RAdd(Lo(x), RMul(Width(x, job.bins[j]), RDiv(p + q - 1, "2")))

LeftOf(rows, j, thr) == LET x == job.cols[j] IN SelectSeq(rows, LAMBDA i : RLt(x[i], thr))
Minus(rows, left) == SelectSeq(rows, LAMBDA i : \A k \in 1..Len(left) : left[k] # i)

-----------------------------------------------------------------------------
(* criteria; larger is better *)
WPos(rows) == Tot(job.w, SelectSeq(rows, LAMBDA i : RGt(job.y[i], "0")))
WNeg(rows) == Tot(job.w, SelectSeq(rows, LAMBDA i : RLe(job.y[i], "0")))
PLn(p) == IF RLe(p, "0") THEN "0" ELSE RMul(p, RLn(p))
\* weight times impurity of a part with weights p and n of the labels
Impure(p, n) ==
  LET z == RAdd(p, n) IN
  IF RLe(z, "0") THEN "0"
  ELSE IF job.kind = "entropy" THEN RSub(PLn(z), RAdd(PLn(p), PLn(n)))
  ELSE RSub(z, RDiv(RAdd(RSq(p), RSq(n)), z))
NewtonOf(g, h) == IF RLe(RAdd(h, job.lam), "0") THEN "0" ELSE RDiv(RSq(g), RAdd(h, job.lam))

\* the score of splitting into two parts, given by their sums (p, n), or (G, H)
Score(lp, ln, rp, rn) ==
  LET all == RAdd(RAdd(lp, ln), RAdd(rp, rn)) IN
  CASE job.kind \in {"entropy", "gini"} -> RNeg(RDiv(RAdd(Impure(lp, ln), Impure(rp, rn)), all))
    [] job.kind = "edge" -> RDiv(RAbs(RSub(RSub(lp, ln), RSub(rp, rn))), all)
    [] job.kind = "twoing" ->
         LET pl == RAdd(lp, ln)  pr == RAdd(rp, rn) IN
         IF REq(pl, "0") \/ REq(pr, "0") THEN "0"
         ELSE LET D(a, b) == RAbs(RSub(RDiv(a, pl), RDiv(b, pr)))
              IN  RDiv(RMul(RSq(RAdd(D(lp, rp), D(ln, rn))), RMul(pl, pr)), RMul("4", RSq(all)))
    [] job.kind = "newton" -> RAdd(NewtonOf(lp, ln), NewtonOf(rp, rn))

A(rows) == IF Newton THEN Tot(job.y, rows) ELSE WPos(rows)
B(rows) == IF Newton THEN Tot(job.w, rows) ELSE WNeg(rows)
\* not splitting: everything on the left
Stay(rows) == Score(A(rows), B(rows), "0", "0")
ScoreOf(rows, left) == LET p == A(rows)  n == B(rows)  lp == A(left)  ln == B(left)
                       IN  Score(lp, ln, RSub(p, lp), RSub(n, ln))

\* how far scores may be apart and count as equal
Slack(rows) ==
  IF ~Newton THEN "1e-9"
  ELSE LET h == RAdd(job.lam, RMinOf(job.w))
           g == RSum([k \in 1..Len(rows) |-> RAbs(job.y[rows[k]])])
       IN  RMul("1e-9", RMax("1e-9", RDiv(RSq(g), IF RLe(h, "0") THEN "1" ELSE h)))

\* all cuts of all features: <<feature, threshold, score>>
AllCuts(rows) ==
  LET p == A(rows)  n == B(rows)
      Of(j) == LET oc == Occupied(rows, j)
                   pa == RPrefix([i \in 1..Len(oc) |-> A(oc[i][2])])
                   pb == RPrefix([i \in 1..Len(oc) |-> B(oc[i][2])])
               IN TLCEval([i \in 1..(Len(oc) - 1) |->
                     <<j, Half(j, oc[i][1], oc[i + 1][1]), Score(pa[i], pb[i], RSub(p, pa[i]), RSub(n, pb[i]))>>])
      F[j \in 0..Len(job.cols)] == IF j = 0 THEN <<>> ELSE F[j - 1] \o Of(j)
  IN  F[Len(job.cols)]
BestOf(cuts, stay) == RMaxOf(<<stay>> \o [i \in 1..Len(cuts) |-> cuts[i][3]])

-----------------------------------------------------------------------------
(* leaves *)
LeafValue(rows) ==
  IF Newton THEN RNeg(RDiv(Tot(job.y, rows), RAdd(Tot(job.w, rows), job.lam)))
  ELSE RDiv(RSub(WPos(rows), WNeg(rows)), RAdd(WPos(rows), WNeg(rows)))

\* nothing to gain by splitting further
Settled(rows) == IF Newton THEN \A k \in 1..Len(rows) : REq(job.y[rows[k]], "0")
                 ELSE REq(WPos(rows), "0") \/ REq(WNeg(rows), "0")
Full(node) == node.depth >= job.splits

NoCut(rows) == LET cs == AllCuts(rows) s == Stay(rows) IN RLe(BestOf(cs, s), RAdd(s, Slack(rows)))
MayLeaf(node) == Full(node) \/ Settled(node.rows) \/ NoCut(node.rows)

GrowLeaf(ans) == /\ todo # <<>>
                 /\ grown' = Append(grown, [rows |-> todo[1].rows, ans |-> ans, path |-> todo[1].path])
                 /\ todo' = Tail(todo) /\ UNCHANGED job
GrowBranch(j, thr, left) ==
  /\ todo # <<>>
  /\ LET nd == todo[1]
         child(rs, s) == [rows |-> rs, depth |-> nd.depth + 1, path |-> Append(nd.path, <<j, thr, s>>)]
     IN  todo' = <<child(left, "left"), child(Minus(nd.rows, left), "right")>> \o Tail(todo)
  /\ UNCHANGED <<job, grown>>

\* does a row with values v (one per feature) follow the path?
Follows(v, path) == \A k \in 1..Len(path) : RLt(v[path[k][1]], path[k][2]) <=> (path[k][3] = "left")
=============================================================================
