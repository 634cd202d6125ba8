------------------------------ MODULE MCEnding ------------------------------
(***************************************************************************)
(* Every way games of a booster with a round limit can end, game after     *)
(* game on one object.                                                     *)
(***************************************************************************)
EXTENDS Ending

CONSTANTS LIMIT, GAMES,
  EARLY    \* TRUE: the booster tests its criterion before it asks

VARIABLES gamenr
mcvars == <<gvars, evars, gamenr>>

MCInit == NInit /\ gamenr = 0
MCNext ==
  \/ gamenr < GAMES /\ NPre /\ gamenr' = gamenr + 1
  \/ round < LIMIT /\ NAsk(<<"1">>, <<"1">>, round) /\ UNCHANGED gamenr
  \/ NContinue /\ UNCHANGED gamenr
  \/ NStop /\ UNCHANGED gamenr
  \/ EARLY /\ round < LIMIT /\ NQuit("before") /\ UNCHANGED gamenr
  \/ round = LIMIT /\ NQuit("limit") /\ UNCHANGED gamenr
  \/ NPost /\ UNCHANGED gamenr
MCSpec == MCInit /\ [][MCNext]_mcvars /\ WF_mcvars(MCNext)

Ended == phase = "stopped" \/ (phase = "idle" /\ gamenr > 0)

\* never more than the limit
Bounded == told <= LIMIT /\ fin <= LIMIT
\* a game that asks in every round breaks with the number of its queries
Queries == Ended /\ why # "before" => told = Len(hist)
Early   == Ended /\ why = "before" => told = Len(hist) + 1
\* nothing was told before the first game, and the last game is what is told
Fresh == gamenr = 0 => fin = 0
Last_ == phase = "idle" /\ gamenr > 0 => fin = Len(hist) /\ (~EARLY => fin = told)
\* every game ends
Ends == [](phase = "ready" => <>(phase = "stopped"))
=============================================================================
