------------------------------- MODULE MCGbm --------------------------------
(***************************************************************************)
(* Gradient boosting on every target vector over YS against every weak     *)
(* learner over PS, for B rounds.                                          *)
(***************************************************************************)
EXTENDS Gbm

CONSTANTS M, B, YS, PS, LOSSES, STEPS

mcvars == <<gvars, bvars>>
AsVec(g) == [i \in 1..M |-> g[i]]

MCInit == \E ls \in LOSSES, t \in [1..M -> YS] : BInit(ls, AsVec(t))
MCNext ==
  \/ phase = "idle" /\ round = 0 /\ BPre
  \/ phase = "ready" /\ round < B /\ \E p \in [1..M -> PS] : BAsk(AsVec(p), round)
  \/ phase = "asked" /\ \E c \in Coefs(NewP) : IF REq(c, "0") THEN BStop ELSE BAdd(c)
  \/ phase = "ready" /\ round = B /\ BQuit
MCSpec == MCInit /\ [][MCNext]_mcvars

-----------------------------------------------------------------------------
\* no coefficient does better than the optimal ones
Optimal == phase = "asked" => \A c \in STEPS : RLe(BestLoss(NewP), LossOf(Plus(f, c, NewP)))
Exists == phase = "asked" => Coefs(NewP) # {}

\* the loss never increases
NeverWorse == phase = "asked" => RLe(BestLoss(NewP), LossOf(f))

\* after a least-squares step the residuals are orthogonal to the newest regressor
Orthogonal == (phase = "ready" /\ round > 0 /\ loss = "L2") => REq(RDot(Res, NewP), "0")

\* the predictions are those of the additive model
Additive == phase \in {"ready", "stopped"} => \A i \in 1..M : REq(f[i], Model(i))

\* a perfect regressor leaves nothing to do
Perfect == (phase = "ready" /\ round > 0 /\ hist[Len(hist)].u = [i \in 1..M |-> RSub(y[i], hist[Len(hist)].d[i])])
             => Zero(Res)

Emit == (phase = "stopped") => PrintT("@BEH " \o ToString(<<loss, y, [k \in 1..Len(hist) |-> hist[k].u]>>))
=============================================================================
