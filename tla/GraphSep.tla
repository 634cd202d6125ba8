------------------------------ MODULE GraphSep ------------------------------
(***************************************************************************)
(* Graph separation boosting: the pairs of differently labelled examples   *)
(* that no hypothesis predicts differently.  An example weighs as many     *)
(* pairs as it is in.                                                      *)
(***************************************************************************)
EXTENDS Game

VARIABLES lab, pairs, preds   \* labels; open pairs; the predictions of every hypothesis
pvars == <<lab, pairs, preds>>

Examples == 1..Len(lab)
AllPairs == {p \in Examples \X Examples : p[1] < p[2] /\ lab[p[1]] # lab[p[2]]}
Degree(i) == Cardinality({p \in pairs : i \in {p[1], p[2]}})
PDist == [i \in Examples |-> RDiv(Degree(i), 2 * Cardinality(pairs))]
Sign(x) == IF RGe(x, "0") THEN 1 ELSE -1
Separated(pr) == {p \in pairs : pr[p[1]] # pr[p[2]]}

PInit(y) == GInit /\ lab = y /\ pairs = {} /\ preds = <<>>
PPre == Preprocess /\ pairs' = AllPairs /\ preds' = <<>> /\ UNCHANGED lab

\* pr: the predicted labels of the hypothesis received
PAsk(dd, u, h, pr) == Ask(dd, u, h) /\ preds' = Append(preds, pr) /\ UNCHANGED <<lab, pairs>>

Newest == preds[Len(preds)]
PContinue == /\ Continue /\ Separated(Newest) # {}
             /\ pairs' = pairs \ Separated(Newest) /\ UNCHANGED <<lab, preds>>
PStop == Stop /\ Separated(Newest) = {} /\ UNCHANGED pvars
PQuit == Quit /\ pairs = {} /\ UNCHANGED pvars
PPost == Postprocess /\ UNCHANGED pvars

\* the aggregated prediction on an example with predictions v under the hypotheses
Column(i) == [k \in 1..Len(preds) |-> preds[k][i]]
Aggregate(v) == IF \E i \in Examples : lab[i] = 1 /\ Column(i) = v THEN 1 ELSE -1
=============================================================================
