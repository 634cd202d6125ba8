------------------------------- MODULE Logger -------------------------------
(***************************************************************************)
(* A booster driven by the logger.  The logger plays the game of Game and, *)
(* after every round, evaluates the objective on the training sample and   *)
(* the loss on both samples, for the combination the booster then has, and *)
(* writes a row.  It ends the game when a round stops it or the time spent *)
(* in rounds exceeds the limit, and returns the booster's output.          *)
(***************************************************************************)
EXTENDS Game

VARIABLES
  limit,    \* time limit (milliseconds), or -1: none
  clock,    \* time spent in rounds so far
  pending,  \* what is still to be evaluated for the round just played
  vals,     \* evaluated for this round: a function of the above
  rows,     \* rows written: [objective, train, test, time]
  stop      \* the last round stopped the game
lvars == <<gvars, limit, clock, pending, vals, rows, stop>>
Tasks == {"objective", "train", "test"}
NoVals == [k \in Tasks |-> ""]

LInit == GInit /\ limit = -1 /\ clock = 0 /\ pending = {} /\ vals = NoVals /\ rows = <<>> /\ stop = FALSE

LStart(lm) == Preprocess /\ limit' = lm /\ clock' = 0 /\ pending' = {} /\ vals' = NoVals /\ rows' = <<>> /\ stop' = FALSE

LAsk(d, u, h) == pending = {} /\ Len(rows) = round /\ Ask(d, u, h) /\ UNCHANGED <<limit, clock, pending, vals, rows, stop>>

\* a round is over after dt: it has stopped the game or not
LRound(stops, dt) ==
  /\ pending = {} /\ ~stop
  /\ IF phase = "asked" THEN Continue
     ELSE phase = "ready" /\ stops /\ round' = round + 1 /\ UNCHANGED <<phase, hist>>
  /\ Len(rows) = round' - 1
  /\ stop' = stops /\ clock' = clock + dt /\ pending' = Tasks /\ vals' = NoVals
  /\ UNCHANGED <<limit, rows>>

LEval(k, v) == k \in pending /\ pending' = pending \ {k} /\ vals' = [vals EXCEPT ![k] = v]
               /\ UNCHANGED <<gvars, limit, clock, rows, stop>>

Expired == limit >= 0 /\ clock > limit
LRow == /\ phase = "ready" /\ pending = {} /\ Len(rows) < round
        /\ rows' = Append(rows, [objective |-> vals["objective"], train |-> vals["train"], test |-> vals["test"], time |-> clock])
        /\ phase' = IF stop \/ Expired THEN "stopped" ELSE "ready"
        /\ UNCHANGED <<round, hist, limit, clock, pending, vals, stop>>

LEnd == Postprocess /\ UNCHANGED <<limit, clock, pending, vals, rows, stop>>
=============================================================================
