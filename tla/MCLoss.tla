------------------------------- MODULE MCLoss -------------------------------
(* Losses, derivatives and steps for every pair of vectors over a grid. *)
EXTENDS Loss, Json
CONSTANTS M, VALS, GS, STEPS
AsSeq(g) == [i \in 1..M |-> g[i]]
MCInit == LInit
MCNext == asked = <<>> /\ \E k \in {"L1", "L2"}, p \in [1..M -> VALS], y \in [1..M -> VALS] : Ask(k, AsSeq(p), AsSeq(y))
MCSpec == MCInit /\ [][MCNext]_lvars
Q == asked[1]
One == asked # <<>>
\* g is a slope exactly when the tangent with the stated curvature stays below (L1), or is the loss (L2)
Tangent == One => \A i \in 1..M : \A g \in GS :
  LET half(x) == IF Q.kind = "L2" THEN RDiv(Point("L2", x, Q.y[i]), "2") ELSE Point("L1", x, Q.y[i])
      tan(x) == RAdd(half(Q.p[i]), RAdd(RMul(g, RSub(x, Q.p[i])), RMul(RDiv(Hess(Q.kind), "2"), RSq(RSub(x, Q.p[i])))))
  IN  GradOK(Q.kind, g, Q.p[i], Q.y[i]) <=> \A x \in STEPS : RLe(tan(x), half(x))
\* the candidates hold a best step
Best == One => \A c \in STEPS : RLe(Least(Q.kind, Q.y, Q.p), StepLoss(Q.kind, Q.y, Q.p, c))
Mean == One => /\ RGe(Eval(Q.kind, Q.p, Q.y), "0")
               /\ (REq(Eval(Q.kind, Q.p, Q.y), "0") <=> \A i \in 1..M : REq(Q.p[i], Q.y[i]))
               /\ REq(Eval(Q.kind, Q.p, Q.y), Eval(Q.kind, Q.y, Q.p))
\* the mean square is at least the squared mean
Jensen == One => RLe(RSq(Eval("L1", Q.p, Q.y)), Eval("L2", Q.p, Q.y))
Emit == One => PrintT("@BEH " \o ToJson(Q))
=============================================================================
