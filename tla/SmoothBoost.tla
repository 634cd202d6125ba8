---------------------------- MODULE SmoothBoost -----------------------------
(***************************************************************************)
(* SmoothBoost: N_i sums y_i h_s(x_i) - theta over the rounds; an example  *)
(* with N_i <= 0 has measure 1, otherwise (1-gamma)^(N_i/2).  The game     *)
(* ends when the total measure falls below kappa*m, or at the round limit  *)
(* 2/(kappa gamma^2 sqrt(1-gamma)), and every hypothesis has one vote.     *)
(***************************************************************************)
EXTENDS Game

VARIABLES kappa, gamma, sums
svars == <<kappa, gamma, sums>>

Theta == RDiv(gamma, RAdd("2", gamma))
Measure(n) == IF RLe(n, "0") THEN "1"
              ELSE RExp(RMul(RMul("1/2", n), RLn(RSub("1", gamma))))
Measures == [i \in 1..Len(sums) |-> Measure(sums[i])]
Total == RSum(Measures)
SDist == Normalise(Measures)
\* the total measure the game must keep
Goal == RMul(kappa, Len(sums))
\* the round limit before rounding up; only for gamma > 0
LimitReal == RDiv("2", RMul(kappa, RMul(RSq(gamma), RSqrt(RSub("1", gamma)))))

SInit(kp, gm) == GInit /\ kappa = kp /\ gamma = gm /\ sums = <<>>

SPre(mm) == Preprocess /\ sums' = [i \in 1..mm |-> "0"] /\ UNCHANGED <<kappa, gamma>>

SAsk(dd, u, h) == Ask(dd, u, h) /\ UNCHANGED svars

SContinue ==
  /\ Continue
  /\ sums' = [i \in 1..Len(sums) |-> RSub(RAdd(sums[i], hist[Len(hist)].u[i]), Theta)]
  /\ UNCHANGED <<kappa, gamma>>

SQuit == Quit /\ UNCHANGED svars
SPost == Postprocess /\ UNCHANGED svars

\* the output: one vote for each hypothesis
SVotes == [k \in 1..Len(hist) |-> RDiv("1", Len(hist))]
SMargin(i) == RDiv(RSum([k \in 1..Len(hist) |-> hist[k].u[i]]), Len(hist))
=============================================================================
