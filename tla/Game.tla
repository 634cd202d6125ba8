-------------------------------- MODULE Game --------------------------------
(***************************************************************************)
(* The boosting game every booster of miniboosts plays (trait Booster).    *)
(*                                                                         *)
(*   run = preprocess ; boost 1 ; boost 2 ; ... ; boost k ; postprocess    *)
(*                                                                         *)
(* where round k is the first that signals a stop.  The weak learner is    *)
(* the environment: it may answer a query with any hypothesis.  A          *)
(* hypothesis matters only through its margins u[i] = y_i * h(x_i).        *)
(* The linearization point of a round is the call of the weak learner, at  *)
(* which the distribution d becomes visible.                               *)
(***************************************************************************)
EXTENDS RealArith

VARIABLES
  phase,    \* "idle" | "ready" | "asked" | "stopped"
  round,    \* the number of rounds begun in this run
  hist      \* the queries of this run, oldest first: [d, u, h]

gvars == <<phase, round, hist>>

GInit == phase = "idle" /\ round = 0 /\ hist = <<>>

\* preprocess: forgets everything about earlier runs
Preprocess ==
  /\ phase = "idle"
  /\ phase' = "ready" /\ round' = 0 /\ hist' = <<>>

\* a round that queries the weak learner with d and receives h with margins u
Ask(d, u, h) ==
  /\ phase = "ready"
  /\ phase' = "asked"
  /\ round' = round + 1
  /\ hist' = Append(hist, [d |-> d, u |-> u, h |-> h])

\* a round that stops without a query
Quit ==
  /\ phase = "ready"
  /\ phase' = "stopped" /\ round' = round + 1
  /\ UNCHANGED hist

Continue == phase = "asked" /\ phase' = "ready" /\ UNCHANGED <<round, hist>>
Stop     == phase = "asked" /\ phase' = "stopped" /\ UNCHANGED <<round, hist>>

Postprocess == phase = "stopped" /\ phase' = "idle" /\ UNCHANGED <<round, hist>>

-----------------------------------------------------------------------------
(* Vocabulary shared by all boosters.                                      *)

\* d is a probability distribution over m examples, up to eps
IsDist(d, m, eps) ==
  /\ Len(d) = m
  /\ AllReal(d)
  /\ \A i \in 1..m : RGe(d[i], RNeg(eps))
  /\ RNear(RSum(d), "1", eps)

Capped(d, nu, eps) ==
  LET cap == RAdd(RDiv("1", nu), eps)
  IN  \A i \in 1..Len(d) : RLe(d[i], cap)

Uniform(m) == RConst(RDiv("1", m), m)

Edge(d, u) == RDot(d, u)

Normalise(s) == LET z == RSum(s) IN RSeq([i \in 1..Len(s) |-> RDiv(s[i], z)])

SumAbs(s) == RSum(Map(RAbs, s))

\* votes scaled to total absolute weight 1
NormaliseAbs(s) == LET z == SumAbs(s) IN RSeq([i \in 1..Len(s) |-> RDiv(s[i], z)])

\* margins of the vote w over the queries hs (records with margins u)
VoteMargins(w, us, m) ==
  [i \in 1..m |-> RDot(w, [k \in 1..Len(us) |-> us[k][i]])]

\* entries equal up to relative error rel and absolute error abs
AllClose(s, t, rel, abs) ==
  /\ Len(s) = Len(t)
  /\ \A i \in 1..Len(s) :
       RLe(RAbs(RSub(s[i], t[i])), RAdd(abs, RMul(rel, RAbs(t[i]))))

(* soft-margin objective of margins g with capping nu: the least expected  *)
(* margin over distributions capped by 1/nu = mean of the nu smallest      *)
RECURSIVE TakeCapped(_, _, _)
TakeCapped(sorted, left, unit) ==
  IF sorted = <<>> \/ RLe(left, "0") THEN "0"
  ELSE LET t == RMin(left, unit)
       IN  RAdd(RMul(t, Head(sorted)), TakeCapped(Tail(sorted), RSub(left, t), unit))
SoftMargin(g, nu) == TakeCapped(RSorted(g), "1", RDiv("1", nu))
HardMargin(g) == RMinOf(g)
=============================================================================
