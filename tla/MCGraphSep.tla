----------------------------- MODULE MCGraphSep -----------------------------
(***************************************************************************)
(* Graph separation boosting on every labelling of M examples against      *)
(* every weak learner, to the end.                                         *)
(***************************************************************************)
EXTENDS GraphSep

CONSTANTS M, MEMORY   \* MEMORY: whether histories are told apart

mcvars == <<gvars, pvars>>
Labellings == {y \in [1..M -> {1, -1}] : \E i, j \in 1..M : y[i] # y[j]}
AsSeq(f) == [i \in 1..M |-> f[i]]

MCInit == \E y \in Labellings : PInit(AsSeq(y))
MCNext ==
  \/ phase = "idle" /\ round = 0 /\ PPre
  \/ /\ phase = "ready" /\ pairs # {}
     /\ \E pr \in [1..M -> {1, -1}] :
          PAsk(PDist, [i \in 1..M |-> ToString(lab[i] * pr[i])], round, AsSeq(pr))
  \/ PContinue \/ PStop \/ PQuit
MCSpec == MCInit /\ [][MCNext]_mcvars
MCView == IF MEMORY THEN mcvars
          ELSE <<phase, lab, pairs, IF phase = "asked" THEN Newest ELSE <<>>>>

-----------------------------------------------------------------------------
OpenPairs == phase = "ready" =>
  pairs = {p \in AllPairs : \A k \in 1..Len(preds) : preds[k][p[1]] = preds[k][p[2]]}
DistOK == (phase = "ready" /\ pairs # {}) => IsDist(PDist, M, "0")
FirstDist == (phase = "ready" /\ round = 0) =>
  \A i \in Examples : REq(PDist[i], RDiv("1/2", Cardinality({j \in Examples : lab[j] = lab[i]})))
\* half of the weight is on each class
Balanced == (phase = "ready" /\ pairs # {}) =>
  REq(RSum([i \in Examples |-> IF lab[i] = 1 THEN PDist[i] ELSE "0"]), "1/2")
\* an edge other than 0 means progress
EdgeProgress == phase = "asked" =>
  (~REq(Edge(hist[Len(hist)].d, hist[Len(hist)].u), "0") => Separated(Newest) # {})
RoundBound == round <= Cardinality(AllPairs) + 1
ZeroError == (phase = "stopped" /\ pairs = {}) => \A i \in Examples : Aggregate(Column(i)) = lab[i]

Emit == (phase = "stopped") => PrintT("@BEH " \o ToString(<<lab, preds>>))
=============================================================================
