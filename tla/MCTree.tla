------------------------------- MODULE MCTree -------------------------------
(***************************************************************************)
(* Every tree for every tiny table, label vector and weight vector, for    *)
(* every choice among equally good cuts.                                   *)
(***************************************************************************)
EXTENDS Tree, Json
CONSTANTS M, D, VALS, WTS, KINDS, SPLITS, LAM, YS
mcvars == tvars0

AsSeq(g, k) == [i \in 1..k |-> g[i]]
Distinct(x) == Cardinality({RNorm(x[i]) : i \in 1..Len(x)})
MCInit ==
  \E g \in [1..D -> [1..M -> VALS]], y \in [1..M -> YS], w \in [1..M -> WTS], k \in KINDS, s \in SPLITS, nb \in {0, 1} :
    LET cols == [j \in 1..D |-> AsSeq(g[j], M)]
        j == [kind |-> k, cols |-> cols, bins |-> [i \in 1..D |-> IF nb = 0 THEN Distinct(cols[i]) ELSE 3],
              y |-> AsSeq(y, M), w |-> AsSeq(w, M), lam |-> LAM, splits |-> s]
        rows == IF k = "newton" THEN [i \in 1..M |-> i] ELSE SelectSeq([i \in 1..M |-> i], LAMBDA i : RGt(w[i], "0"))
    IN  /\ rows # <<>>
        /\ k = "newton" => (\A i \in 1..M : w[i] = w[1])
        /\ job = j /\ grown = <<>> /\ todo = <<[rows |-> rows, depth |-> 0, path |-> <<>>]>>
MCNext ==
  /\ todo # <<>>
  /\ LET nd == todo[1] IN
     IF Full(nd) \/ Settled(nd.rows) THEN GrowLeaf(LeafValue(nd.rows))
     ELSE LET cs == AllCuts(nd.rows)  st == Stay(nd.rows) IN
          IF REq(BestOf(cs, st), st) THEN GrowLeaf(LeafValue(nd.rows))
          ELSE \E i \in 1..Len(cs) : REq(cs[i][3], BestOf(cs, st)) /\ GrowBranch(cs[i][1], cs[i][2], LeftOf(nd.rows, cs[i][1], cs[i][2]))
MCSpec == MCInit /\ [][MCNext]_mcvars

-----------------------------------------------------------------------------
Done == todo = <<>>
Nodes == todo \o grown
Val(i) == [j \in 1..D |-> job.cols[j][i]]
In(i, s) == \E k \in 1..Len(s) : s[k] = i
\* nodes and leaves partition the examples, and an example is where its values lead
Partition == \A i \in 1..Len(Rows0) :
  LET r == Rows0[i] IN
  /\ Cardinality({k \in 1..Len(todo) : In(r, todo[k].rows)}) + Cardinality({k \in 1..Len(grown) : In(r, grown[k].rows)}) = 1
  /\ \A k \in 1..Len(todo) : In(r, todo[k].rows) <=> Follows(Val(r), todo[k].path)
  /\ \A k \in 1..Len(grown) : In(r, grown[k].rows) <=> Follows(Val(r), grown[k].path)
NonEmpty == (\A k \in 1..Len(todo) : todo[k].rows # <<>>) /\ (\A k \in 1..Len(grown) : grown[k].rows # <<>>)
DepthOK == \A k \in 1..Len(grown) : Len(grown[k].path) <= job.splits
\* a leaf's sign is the majority label
Majority == (~Newton) => \A k \in 1..Len(grown) :
  LET a == grown[k].ans  p == WPos(grown[k].rows)  n == WNeg(grown[k].rows)
  IN /\ RLe(RAbs(a), "1") /\ (RGt(p, n) <=> RGt(a, "0")) /\ (RLt(p, n) <=> RLt(a, "0"))
\* the criterion summed over the leaves never gets worse than at the root
Cost(rows) == IF Newton THEN RNeg(NewtonOf(A(rows), B(rows))) ELSE Impure(WPos(rows), WNeg(rows))
Progress0 == job.kind \in {"entropy", "gini", "newton"} =>
  LET c == RAdd(RSum([k \in 1..Len(todo) |-> Cost(todo[k].rows)]), RSum([k \in 1..Len(grown) |-> Cost(grown[k].rows)]))
  IN  RLe(c, RAdd("1e-30", Cost(Rows0)))
\* a leaf takes the best regularised Newton step
Step(rows, v) == RAdd(RMul(Tot(job.y, rows), v), RMul(RDiv(RAdd(Tot(job.w, rows), job.lam), "2"), RSq(v)))
NewtonStep == Newton => \A k \in 1..Len(grown) : \A v \in {"-3", "-1", "-1/2", "0", "1/3", "1", "2"} :
  RLe(Step(grown[k].rows, grown[k].ans), Step(grown[k].rows, v))
\* an edge stump is the best of all stumps with any labels on the bin boundaries
EdgeOf(a, b, left) == RAdd(RMul(a, RSub(WPos(left), WNeg(left))),
                           RMul(b, RSub(RSub(WPos(Rows0), WPos(left)), RSub(WNeg(Rows0), WNeg(left)))))
StumpEdge == LET S(k) == IF RGe(grown[k].ans, "0") THEN "1" ELSE "-1"
             IN RSum([k \in 1..Len(grown) |-> RMul(S(k), RSub(WPos(grown[k].rows), WNeg(grown[k].rows)))])
BestStump == (Done /\ job.kind = "edge" /\ job.splits = 1) =>
  \A j \in 1..D : \A k \in 0..job.bins[j] :
    LET x == job.cols[j]
        thr == RAdd(Lo(x), RMul(k, Width(x, job.bins[j])))
        left == SelectSeq(Rows0, LAMBDA i : RLt(x[i], thr))
    IN  \A a, b \in {"1", "-1"} : RLe(EdgeOf(a, b, left), StumpEdge)
\* with distinct values in their own bins and enough splits, leaves are pure
Emit == Done => PrintT("@BEH " \o ToJson(job))
=============================================================================
