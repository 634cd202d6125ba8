----------------------------- MODULE MCExpBoost -----------------------------
(***************************************************************************)
(* Exhaustive exploration of the exponential boosters against every weak   *)
(* learner: at each round the weak learner may answer any of the margin    *)
(* vectors MOVES.  B = round bound.                                        *)
(***************************************************************************)
EXTENDS ExpBoost

CONSTANTS M, B, RULE, TOLR, VALS

MOVES == [1..M -> VALS]
EPS == "1e-35"

VARIABLE log     \* the moves so far: the behaviour handed to the real code

MCInit == EInit(RULE, TOLR) /\ log = <<>>

MCNext ==
  \/ EPre(M) /\ log = <<>> /\ UNCHANGED log
  \/ /\ round < B
     /\ \E mv \in MOVES :
          LET u == [i \in 1..M |-> mv[i]] IN
          EAsk(d, u, round) /\ log' = Append(log, u)
  \/ round = B /\ EQuit /\ UNCHANGED log
  \/ EContinue /\ UNCHANGED log
  \/ EPerfect /\ UNCHANGED log

MCSpec == MCInit /\ [][MCNext]_<<gvars, evars, log>>

-----------------------------------------------------------------------------
OnGame == phase # "idle"

\* B01: what the weak learner sees is a distribution
DistOK == OnGame => IsDist(d, M, EPS)

\* B03: a +-1 hypothesis has edge 0 under the next distribution
Orthogonal ==
  (phase = "ready" /\ rule = "ada" /\ hist # <<>> /\ \A i \in 1..M : Last.u[i] \in {"1", "-1"})
    => RNear(Edge(d, Last.u), "0", EPS)

\* B03: training error bound
RECURSIVE ZProd(_)
ZProd(h) == IF h = <<>> THEN "1"
            ELSE LET g == Edge(Head(h).d, Head(h).u)
                 IN  RMul(RSqrt(RSub("1", RSq(g))), ZProd(Tail(h)))
Bad == {i \in 1..M : RLe(RDot(votes, [k \in 1..Len(votes) |-> hist[k].u[i]]), "0")}
ErrorBound ==
  (phase = "ready" /\ rule = "ada" /\ hist # <<>>)
    => RLe(RDiv(Cardinality(Bad), M), RAdd(EPS, ZProd(hist)))

\* B06: nobody weighs more than an example that was never classified correctly
NeverRight(i) == \A k \in 1..Len(hist) : RLe(hist[k].u[i], "0")
GoodRounds == \A k \in 1..Len(hist) : RGe(Edge(hist[k].d, hist[k].u), "0")
MadaCap ==
  (phase = "ready" /\ rule = "mada" /\ GoodRounds) =>
    \A i \in 1..M : NeverRight(i) => \A j \in 1..M : RLe(d[j], RAdd(d[i], EPS))

\* B06: a correct example never gains on a wrong one
MadaMonotone ==
  (phase = "ready" /\ rule = "mada" /\ GoodRounds /\ hist # <<>>) =>
    \A i, j \in 1..M :
      (RGt(Last.u[i], "0") /\ RLt(Last.u[j], "0")) =>
         RLe(RMul(d[i], Last.d[j]), RAdd(EPS, RMul(d[j], Last.d[i])))

\* B04: votes are positive: every edge exceeds the margin estimate
VotesPositive == (rule = "adav") => \A k \in 1..Len(votes) : phase = "stopped" \/ RGt(votes[k], "0")

\* behaviours for replay: one line per maximal behaviour
Emit == (phase = "stopped") => PrintT("@BEH " \o ToString(log))
=============================================================================
