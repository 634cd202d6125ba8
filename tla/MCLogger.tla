------------------------------ MODULE MCLogger ------------------------------
(***************************************************************************)
(* The logger with every weak learner of two answers, every moment of      *)
(* stopping and every run time up to T per round.                          *)
(***************************************************************************)
EXTENDS Logger
CONSTANTS B, T, LIMITS
VARIABLES ended
mcvars == <<lvars, ended>>

MCInit == LInit /\ ended = FALSE
MCNext ==
  \/ phase = "idle" /\ ~ended /\ \E lm \in LIMITS : LStart(IF lm = 99 THEN -1 ELSE lm) /\ UNCHANGED ended
  \/ round < B /\ ~stop /\ \E h \in {1, 2} : LAsk(<<"1">>, <<"1">>, h) /\ UNCHANGED ended
  \/ \E dt \in 0..T, s \in BOOLEAN : LRound(s \/ round = B, dt) /\ UNCHANGED ended
  \/ \E k \in pending : LEval(k, <<k, round, Len(hist)>>) /\ UNCHANGED ended
  \/ LRow /\ UNCHANGED ended
  \/ LEnd /\ ended' = TRUE
MCSpec == MCInit /\ [][MCNext]_mcvars /\ WF_mcvars(MCNext)

-----------------------------------------------------------------------------
OneRowPerRound == phase = "stopped" \/ ended => Len(rows) = round
RowsBehind == Len(rows) \in {round, round - 1}
\* a row tells what was known after its round, and of no other round
Faithful == \A i \in 1..Len(rows) : \A k \in Tasks : rows[i][k] = <<k, i, IF i <= Len(hist) THEN i ELSE i - 1>>
Times == \A i \in 1..(Len(rows) - 1) : rows[i].time <= rows[i + 1].time
\* the game goes on as long as it may, and not longer
Prompt == \A i \in 1..Len(rows) : (i < round /\ limit >= 0) => rows[i].time <= limit
NoEarlyEnd == phase = "stopped" => (stop \/ Expired)
NoAskAfter == stop => Len(hist) \in {round, round - 1}
Ends == <>ended
Emit == ended => PrintT("@BEH " \o ToString(<<round, Len(hist), stop, limit>>))
=============================================================================
