---------------------------- MODULE MCBadLearner ----------------------------
(***************************************************************************)
(* LPBoost against the learner, exactly.  LPBoost plays a distribution     *)
(* (entries at most 1/nu) that minimises the largest edge of the           *)
(* hypotheses it has.  Extreme points of the capped simplex (nu integral:  *)
(* uniform over nu rows) are tried; one whose largest edge is no larger    *)
(* than what the newest hypothesis guarantees is optimal by duality.       *)
(***************************************************************************)
EXTENDS BadLearner
CONSTANTS NS, TOLS, NUS
VARIABLES d
mcvars == <<tvars0, d>>

Uniform(S, n) == [i \in 1..n |-> IF i \in S THEN RDiv("1", Cardinality(S)) ELSE "0"]
Corners(p) == {Uniform(S, p.n) : S \in {T \in SUBSET (1..p.n) : REq(Cardinality(T), p.nu)}}
Worst(p, x) == RMaxOf([k \in 1..Len(got) |-> EdgeOf(p, got[k], x)])
\* certified optimal distributions
Optimal == {x \in Corners(prob) : REq(Worst(prob, x), LeastEdge(prob, got[Len(got)]))}

MCInit == BadInit /\ d = <<>>
MCNext ==
  \/ /\ prob = <<>> /\ \E n \in NS, tl \in TOLS, nu \in NUS : RLe(RMul("4", nu), n) /\ Build(n, tl, nu)
     /\ d' = [i \in 1..prob'.n |-> RDiv("1", prob'.n)]
  \/ /\ prob # <<>> /\ d # <<>>
     /\ \E k \in 0..(Sized(prob) - 1) : REq(EdgeOf(prob, k, d), BestEdge(prob, d)) /\ Return(k)
     /\ d' = <<>>
  \/ /\ prob # <<>> /\ d = <<>> /\ got # <<>>
     /\ \E x \in Optimal : d' = x
     /\ UNCHANGED tvars0
MCSpec == MCInit /\ [][MCNext]_mcvars

-----------------------------------------------------------------------------
Bounded == prob # <<>> => \A k \in 0..(Sized(prob) - 1) : \A i \in 0..(prob.n - 1) : RLe(RAbs(Margin(prob, k, i)), "1")
Done == prob # <<>> /\ \E k \in 1..Len(got) : got[k] = Halfway(prob)
\* fewer than nu rows are left that no hypothesis has got right
Late == prob # <<>> /\ RLt(Cardinality({i \in 0..(prob.n - 1) : \A k \in 1..Len(got) : Margin(prob, got[k], i) # "1"}), prob.nu)
\* Until then or until the last hypothesis of the class is returned, every hypothesis is
\* new and LPBoost is far from stopping: the first edge was that of the
\* uniform distribution, about 0, and there is a distribution for which no
\* edge exceeds -1 + tol.
Fresh == \A i, j \in 1..Len(got) : i # j => got[i] # got[j]
Far == (prob # <<>> /\ got # <<>> /\ ~Done /\ ~Late) => \E x \in Corners(prob) : RLe(Worst(prob, x), RAdd("-1", prob.tol))
First == (d # <<>> /\ got = <<>>) => RGe(BestEdge(prob, d), "0")
Slow == (Done \/ Late) => Len(got) >= AtLeast(prob)
\* the optimum is certified until the hypotheses have moved past the last row
Going == (prob # <<>> /\ d = <<>> /\ got # <<>> /\ ~Done /\ ~Late /\ Optimal = {}) => Len(got) + 1 >= AtLeast(prob)
=============================================================================
