------------------------------ MODULE Console -------------------------------
(***************************************************************************)
(* The logger on the console.  It is put together from six components and  *)
(* two numbers, every one of which counts as given last; with a component  *)
(* missing it is refused.  It prints the settings in force and then, after *)
(* a round, the lines owed for it: one every so many rounds, one at the    *)
(* end of the game, and one when the time is up.                           *)
(***************************************************************************)
EXTENDS RealArith

VARIABLES
  parts,  \* component -> what was given last, "-": nothing
  limit,  \* time limit in milliseconds, "-": none
  every,  \* interval of the status lines, "-": silent
  phase,  \* "setup", "refused", "built", "running", "over"
  n,      \* rounds played
  owed    \* lines owed: <<kind, round>>
cvars == <<parts, limit, every, phase, n, owed>>

Comps == {"booster", "learner", "objective", "loss", "train", "test"}
Unit(u) == CASE u = "ms" -> "1" [] u = "secs" -> "1000" [] u = "mins" -> "60000"

CInit == /\ parts = [c \in Comps |-> "-"] /\ limit = "-" /\ every = "100"
         /\ phase = "setup" /\ n = 0 /\ owed = <<>>
Give(c, v) == /\ phase = "setup" /\ parts' = [parts EXCEPT ![c] = v]
              /\ UNCHANGED <<limit, every, phase, n, owed>>
SetLimit(v, u) == /\ phase = "setup" /\ limit' = RMul(v, Unit(u))
                  /\ UNCHANGED <<parts, every, phase, n, owed>>
SetEvery(k) == /\ phase = "setup" /\ every' = k
               /\ UNCHANGED <<parts, limit, phase, n, owed>>
Complete == \A c \in Comps : parts[c] # "-"
Build == /\ phase = "setup" /\ phase' = IF Complete THEN "built" ELSE "refused"
         /\ UNCHANGED <<parts, limit, every, n, owed>>
\* the settings are printed
Start == phase = "built" /\ phase' = "running" /\ UNCHANGED <<parts, limit, every, n, owed>>

Expired(ms) == limit # "-" /\ RGt(ms, limit)
Due(k) == every # "-" /\ RSign(RSub(k, RMul(every, RFloor(RDiv(k, every))))) = 0
Lines(k, ms, stop) ==
  IF Expired(ms) THEN <<<<"TLE", k>>>>
  ELSE (IF Due(k) THEN <<<<"LOG", k>>>> ELSE <<>>)
    \o (IF stop /\ every # "-" THEN <<<<"FIN", k>>>> ELSE <<>>)
\* a round, after which the clock shows ms
Round(ms, stop) == /\ phase = "running" /\ owed = <<>>
                   /\ n' = n + 1 /\ owed' = Lines(n + 1, ms, stop)
                   /\ phase' = IF stop \/ Expired(ms) THEN "over" ELSE "running"
                   /\ UNCHANGED <<parts, limit, every>>
PrintLine(line) == owed # <<>> /\ line = Head(owed) /\ owed' = Tail(owed)
               /\ UNCHANGED <<parts, limit, every, phase, n>>

-----------------------------------------------------------------------------
(* A time as shown: seconds with milliseconds, or minutes and seconds, or  *)
(* hours and minutes; the rest is dropped.                                 *)
Rest(x, y) == RSub(x, RMul(y, RFloor(RDiv(x, y))))
Clock(ms) ==
  IF RLt(ms, "60000") THEN <<<<RDiv(ms, "1000"), "s">>>>
  ELSE IF RLt(ms, "3600000") THEN <<<<RFloor(RDiv(ms, "60000")), "m">>, <<RFloor(RDiv(Rest(ms, "60000"), "1000")), "s">>>>
  ELSE <<<<RFloor(RDiv(ms, "3600000")), "h">>, <<RFloor(RDiv(Rest(ms, "3600000"), "60000")), "m">>>>
UnitMs(u) == CASE u = "s" -> "1000" [] u = "m" -> "60000" [] u = "h" -> "3600000"
Value(c) == RSum([i \in 1..Len(c) |-> RMul(c[i][1], UnitMs(c[i][2]))])
SameClock(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i][2] = b[i][2] /\ REq(a[i][1], b[i][1])
=============================================================================
