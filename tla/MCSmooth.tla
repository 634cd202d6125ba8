------------------------------ MODULE MCSmooth ------------------------------
(***************************************************************************)
(* SmoothBoost against every weak learner whose hypotheses have edge at    *)
(* least MINEDGE ("-1": every weak learner), for B rounds or to its end    *)
(* (B = 0).                                                                *)
(***************************************************************************)
EXTENDS SmoothBoost

CONSTANTS M, B, KAPPA, GAMMA, VALS, MINEDGE

VARIABLE log
mcvars == <<gvars, svars, log>>

MOVES == [1..M -> VALS]
EPS == "1e-35"
Ceil(x) == LET f == RFloor(x) IN IF REq(x, f) THEN f ELSE f + 1
MaxLoop == Ceil(LimitReal)

MCInit == SInit(KAPPA, GAMMA) /\ log = <<>>

MCNext ==
  \/ phase = "idle" /\ round = 0 /\ SPre(M) /\ UNCHANGED log
  \/ /\ phase = "ready" /\ round < MaxLoop /\ (B > 0 => round < B)
     /\ RGe(Total, Goal)
     /\ \E mv \in MOVES :
          LET u == [i \in 1..M |-> mv[i]] IN
          /\ RGe(Edge(SDist, u), MINEDGE)
          /\ SAsk(SDist, u, round) /\ log' = Append(log, u)
  \/ SContinue /\ UNCHANGED log
  \/ phase = "ready" /\ (RLt(Total, Goal) \/ round = MaxLoop \/ (B > 0 /\ round = B)) /\ SQuit /\ UNCHANGED log

MCSpec == MCInit /\ [][MCNext]_mcvars

\* the future depends on the sums only
MCView == <<phase, round, sums, IF phase = "asked" THEN hist[Len(hist)].u ELSE <<>>>>

-----------------------------------------------------------------------------
Playing == phase \in {"ready", "asked"}
BySum == phase = "stopped" /\ RLt(Total, Goal)

\* sums hold the margins of the uniform vote
SumsAreMargins ==
  (phase = "ready" /\ hist # <<>>) =>
    \A i \in 1..M : RNear(sums[i], RMul(Len(hist), RSub(SMargin(i), Theta)), EPS)

\* smooth: nobody weighs more than 1/(kappa m)
Smooth == (Playing /\ RGe(Total, Goal)) => /\ IsDist(SDist, M, EPS)
                                           /\ Capped(SDist, RMul(kappa, M), EPS)
\* a stop by the sum leaves less than a kappa fraction at margin theta or below
MarginAtEnd ==
  BySum => RLt(RDiv(Cardinality({i \in 1..M : RLe(SMargin(i), Theta)}), M), kappa)

\* against a weak learner of advantage gamma the limit is never the reason to stop
Terminates == (RGe(MINEDGE, RMul("2", gamma)) /\ phase = "stopped" /\ B = 0) => BySum

Emit == (phase = "stopped") => PrintT("@BEH " \o ToString(log))
=============================================================================
