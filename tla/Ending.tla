------------------------------- MODULE Ending --------------------------------
(***************************************************************************)
(* What a booster tells about the end of its game (trait Booster and the   *)
(* accessors terminated()).  A game ends                                   *)
(*   "after"   in a round whose query met the stopping criterion,          *)
(*   "before"  in a round whose criterion was met before any query,        *)
(*   "limit"   in the round after the last one allowed.                    *)
(* The ending round breaks with its number, except beyond the limit, where *)
(* it breaks with the limit itself.  terminated() is 0 before the first    *)
(* game and the number of queries of the last one afterwards.              *)
(***************************************************************************)
EXTENDS Game

VARIABLES
  why,    \* "" | "after" | "before" | "limit": how the last game ended
  told,   \* what its last round broke with
  fin     \* what terminated() tells between games

evars == <<why, told, fin>>

NInit == GInit /\ why = "" /\ told = 0 /\ fin = 0

\* the number a round breaks with; the number of the round is n
Told(n, w) == IF w = "limit" THEN n - 1 ELSE n

NPre == Preprocess /\ UNCHANGED evars
NAsk(d, u, h) == Ask(d, u, h) /\ UNCHANGED evars
NContinue == Continue /\ UNCHANGED evars
NStop == Stop /\ why' = "after" /\ told' = Told(round, "after") /\ UNCHANGED fin
NQuit(w) == w \in {"before", "limit"} /\ Quit /\ why' = w /\ told' = Told(round + 1, w) /\ UNCHANGED fin
NPost == Postprocess /\ fin' = Len(hist) /\ UNCHANGED <<why, told>>
=============================================================================
