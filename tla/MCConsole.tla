----------------------------- MODULE MCConsole ------------------------------
(* Every set-up of B calls on a complete or incomplete logger, and every   *)
(* run of at most N rounds with every order of stop and time limit.        *)
EXTENDS Console, Json
CONSTANTS B, N, LIMITS, EVERYS, STEPS
VARIABLES ops, times, out
mcvars == <<cvars, ops, times, out>>
Units == {"ms", "secs", "mins"}
MCInit == CInit /\ ops = <<>> /\ times = <<>> /\ out = <<>>
Keep == UNCHANGED <<times, out>>
Op(k, v, u) == ops' = Append(ops, [k |-> k, v |-> v, u |-> u])
\* all components but at most one are there before the calls
Begin == /\ ops = <<>> /\ phase = "setup"
         /\ \E S \in {Comps} \cup {Comps \ {c} : c \in Comps} :
              /\ parts' = [c \in Comps |-> IF c \in S THEN "real" ELSE "-"]
              /\ ops' = <<[k |-> "given", v |-> IF S = Comps THEN "-" ELSE CHOOSE c \in Comps : c \notin S, u |-> "-"]>>
         /\ UNCHANGED <<limit, every, phase, n, owed>> /\ Keep
Call == /\ phase = "setup" /\ ops # <<>> /\ Len(ops) <= B
        /\ \/ \E v \in LIMITS, u \in Units : SetLimit(v, u) /\ Op("limit", v, u)
           \/ \E k \in EVERYS : SetEvery(k) /\ Op("every", k, "-")
           \/ \E c \in {"learner", "objective"} : Give(c, "real") /\ Op(c, "real", "-")
        /\ Keep
Time == IF times = <<>> THEN 0 ELSE times[Len(times)]
MCNext == \/ Begin \/ Call
          \/ ops # <<>> /\ Build /\ UNCHANGED ops /\ Keep
          \/ Start /\ UNCHANGED ops /\ Keep
          \/ /\ n < N /\ \E dt \in STEPS, stop \in BOOLEAN : Round(Time + dt, stop) /\ times' = Append(times, Time + dt)
             /\ UNCHANGED <<ops, out>>
          \/ owed # <<>> /\ PrintLine(Head(owed)) /\ out' = Append(out, Head(owed)) /\ UNCHANGED <<ops, times>>
MCSpec == MCInit /\ [][MCNext]_mcvars

Quiet == owed = <<>>
Kinds(k) == SelectSeq(out, LAMBDA x : x[1] = k)
\* the status lines are those of the rounds divisible by the interval; only
\* the round that ran out of time has none
Status == (Quiet /\ every # "-" /\ n > 0) =>
   LET late == IF Kinds("TLE") # <<>> THEN 1 ELSE 0
   IN Len(Kinds("LOG")) = (n - late) \div (CASE every = "1" -> 1 [] every = "2" -> 2 [] every = "3" -> 3 [] OTHER -> 100)
\* the game ends with one closing line, of the last round
Closing == (Quiet /\ phase = "over") =>
   /\ Len(Kinds("FIN")) + Len(Kinds("TLE")) <= 1
   /\ every # "-" => Len(Kinds("FIN")) + Len(Kinds("TLE")) = 1
   /\ (Kinds("FIN") \o Kinds("TLE")) # <<>> => out[Len(out)] = (Kinds("FIN") \o Kinds("TLE"))[1] /\ out[Len(out)][2] = n
Silence == every = "-" => \A i \in 1..Len(out) : out[i][1] = "TLE"
NotLate == phase = "running" => \A i \in 1..Len(times) : ~Expired(times[i])
\* lines come in the order of the rounds
Ordered == \A i, j \in 1..Len(out) : i < j => out[i][2] <= out[j][2]
Refused == (phase = "refused") <=> (phase # "setup" /\ ~Complete)
\* the last call counts
LastOf(k) == LET I == {i \in 1..Len(ops) : ops[i].k = k} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : j <= i
LastWins == /\ every = IF LastOf("every") = 0 THEN "100" ELSE ops[LastOf("every")].v
            /\ IF LastOf("limit") = 0 THEN limit = "-" ELSE REq(limit, RMul(ops[LastOf("limit")].v, Unit(ops[LastOf("limit")].u)))
\* a time as shown is off by less than its smallest unit, and its smaller
\* part does not make up a larger
Shown == \A ms \in {"0", "7", "999", "1000", "59999", "60000", "61001", "3599999", "3600000", "7325000", "360000000000001"} :
   LET c == Clock(ms) IN
   /\ RLe(Value(c), ms) /\ RLt(RSub(ms, Value(c)), UnitMs(c[Len(c)][2]))
   /\ Len(c) = 2 => RLt(c[2][1], "60") /\ RGe(c[1][1], "1")
Emit == (phase = "over" /\ Quiet) \/ phase = "refused" => PrintT("@BEH " \o ToJson([ops |-> ops, times |-> times, late |-> Kinds("TLE") # <<>>]))
=============================================================================
