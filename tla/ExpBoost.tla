------------------------------ MODULE ExpBoost ------------------------------
(***************************************************************************)
(* AdaBoost, AdaBoostV (AdaBoost-star) and MadaBoost: boosters that        *)
(* re-weight examples exponentially.                                       *)
(*                                                                         *)
(*   rule = "ada"   vote a = 1/2 ln((1+g)/(1-g)),  d' ~ d exp(-a u)        *)
(*   rule = "adav"  vote a - 1/2 ln((1+r)/(1-r)),  r = min edge - tol      *)
(*   rule = "mada"  b = sqrt(e/(1-e)) with e = sqrt(eps/2), eps the error; *)
(*                  vote ln(1/b), weights min(1, prod b_s^u_s)             *)
(***************************************************************************)
EXTENDS Game

VARIABLES
  rule,    \* "ada" | "adav" | "mada"
  tol,     \* tolerance (only "adav" looks at it)
  d,       \* the distribution of the next query
  votes,   \* the votes of the hypotheses kept so far
  voters,  \* their ids
  gmin,    \* smallest edge so far (capped at 1)
  lnb      \* "mada": ln prod b_s^u_s per example

evars == <<rule, tol, d, votes, voters, gmin, lnb>>

Half(a) == RMul("1/2", a)
LogOdds(g) == Half(RLn(RDiv(RAdd("1", g), RSub("1", g))))

MadaBeta(g) ==
  LET eps == Half(RSub("1", g))
      e   == RSqrt(Half(eps))
  IN  RSqrt(RDiv(e, RSub("1", e)))

\* the vote of a hypothesis with edge g, gm the smallest edge including g
VoteOf(rl, tl, g, gm) ==
  CASE rl = "ada"  -> LogOdds(g)
    [] rl = "adav" -> RSub(LogOdds(g), LogOdds(RSub(gm, tl)))
    [] rl = "mada" -> RNeg(RLn(MadaBeta(g)))

Reweight(dd, u, a) ==
  Normalise([i \in 1..Len(dd) |-> RMul(dd[i], RExp(RNeg(RMul(a, u[i]))))])

MadaDist(lb) == Normalise([i \in 1..Len(lb) |-> RExp(RMin("0", lb[i]))])

AddLn(lb, u, a) == [i \in 1..Len(lb) |-> RSub(lb[i], RMul(a, u[i]))]

-----------------------------------------------------------------------------
EInit(rl, tl) ==
  /\ GInit
  /\ rule = rl /\ tol = tl
  /\ d = <<>> /\ votes = <<>> /\ voters = <<>> /\ gmin = "1" /\ lnb = <<>>

EPre(m) ==
  /\ Preprocess
  /\ d' = Uniform(m)
  /\ votes' = <<>> /\ voters' = <<>> /\ gmin' = "1"
  /\ lnb' = [i \in 1..m |-> "0"]
  /\ UNCHANGED <<rule, tol>>

EAsk(dd, u, h) == Ask(dd, u, h) /\ UNCHANGED evars

Last == hist[Len(hist)]

\* |edge| < 1: the hypothesis is weighed and the distribution updated
EContinue ==
  LET q == Last
      g == Edge(q.d, q.u)
      gm == RMin(g, gmin)
      a == VoteOf(rule, tol, g, gm)
  IN  /\ Continue
      /\ RLt(RAbs(g), "1")
      /\ gmin' = gm
      /\ votes' = Append(votes, a) /\ voters' = Append(voters, q.h)
      /\ lnb' = IF rule = "mada" THEN AddLn(lnb, q.u, a) ELSE lnb
      /\ d' = IF rule = "mada" THEN MadaDist(lnb') ELSE Reweight(q.d, q.u, a)
      /\ UNCHANGED <<rule, tol>>

\* |edge| = 1: the hypothesis alone is the answer
EPerfect ==
  LET q == Last
      g == Edge(q.d, q.u)
  IN  /\ Stop
      /\ RGe(RAbs(g), "1")
      /\ votes' = <<ToString(RSign(g))>> /\ voters' = <<q.h>>
      /\ UNCHANGED <<rule, tol, d, gmin, lnb>>

EQuit == Quit /\ UNCHANGED evars
EPost == Postprocess /\ UNCHANGED evars
=============================================================================
