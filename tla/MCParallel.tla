---------------------------- MODULE MCParallel ------------------------------
(***************************************************************************)
(* MCSpec: every way to spread a question over threads, for every sequence *)
(* of N values, two askers at once.  HSpec: every order in which askers    *)
(* begin and finish questions (for replay).                                *)
(***************************************************************************)
EXTENDS Parallel
CONSTANTS N, VALS, ASKERS, OPS, B, QS
VARIABLES data, ops
mcvars == <<parvars, data, ops>>

MCInit == ParInit(1..ASKERS) /\ data \in [1..N -> VALS] /\ ops = 0
Values == [i \in 1..N |-> data[i]]
MCNext ==
  /\ UNCHANGED <<data, ops>>
  /\ \E a \in 1..ASKERS :
       \/ \E q \in OPS : q \notin DOMAIN said /\ (IF a = 1 THEN TRUE ELSE ~Idle(a - 1)) /\ Begin(a, q, Whole(N))
       \/ \E i \in 1..N, k \in 1..N : Cut(a, i, k)
       \/ \E i \in 1..N : ~Idle(a) /\ Eval(a, i, Asked(a), Values)
       \/ \E i \in 1..N : ~Idle(a) /\ Merge(a, i, Asked(a))
       \/ Ready(a) /\ Agrees(Asked(a), Pieces(a)[1].val[1], LAMBDA x, y : x = y) /\ Finish(a, Pieces(a)[1].val[1])
MCSpec == MCInit /\ [][MCNext]_mcvars

\* whatever the schedule, the answer is that of one thread
AsAlone == \A q \in DOMAIN said : said[q] = Alone(q, Values, 1, N)
\* no contrary answer is ever ready: agreement never has to be forced
NoForce == \A a \in 1..ASKERS : Ready(a) => Pieces(a)[1].val[1] = Alone(Asked(a), Values, 1, N)
\* the pieces always cover the values, in order
Covers == \A a \in 1..ASKERS : ~Idle(a) =>
  LET ps == Pieces(a) IN
  ps[1].lo = 1 /\ ps[Len(ps)].hi = N /\ (\A i \in 1..(Len(ps) - 1) : ps[i].hi + 1 = ps[i + 1].lo)
  /\ \A i \in 1..Len(ps) : ps[i].lo <= ps[i].hi
\* work can always go on to an answer
GoesOn == \A a \in 1..ASKERS : ~Idle(a) =>
  \/ Ready(a)
  \/ \E i \in 1..Len(Pieces(a)) : Pieces(a)[i].val = <<>>
  \/ \E i \in 1..(Len(Pieces(a)) - 1) : Pieces(a)[i].val # <<>> /\ Pieces(a)[i + 1].val # <<>>

-----------------------------------------------------------------------------
HInit == ParInit(1..ASKERS) /\ data = <<>> /\ ops = <<>>
Busy == {a \in 1..ASKERS : ~Idle(a)}
HNext ==
  /\ Len(ops) < B /\ UNCHANGED data
  /\ \E a \in 1..ASKERS :
       \/ \E q \in 1..QS : Len(ops) + Cardinality(Busy) + 2 <= B /\ Begin(a, q, <<>>) /\ ops' = Append(ops, <<"begin", a, q>>)
       \/ ~Idle(a) /\ Finish(a, Asked(a)) /\ ops' = Append(ops, <<"finish", a, 0>>)
HSpec == HInit /\ [][HNext]_mcvars
OneAnswer == \A q \in DOMAIN said : said[q] = q
Emit == Len(ops) = B => PrintT("@BEH " \o ToString(ops))
=============================================================================
