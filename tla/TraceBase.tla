----------------------------- MODULE TraceBase ------------------------------
(***************************************************************************)
(* Common part of all trace specifications: recorded runs of the real code *)
(* (one JSON object per line of the file named by the environment variable *)
(* TRACE), and clauses that report which part of a specification action an *)
(* event fails to satisfy.                                                 *)
(*                                                                         *)
(* A trace specification explores, for every run, the one behaviour that   *)
(* its events determine: t is the run, l the next event.  A clause is a    *)
(* conjunct of an action; a false clause disables the action, so the       *)
(* behaviour ends early and the run is not accepted (no "@DONE").  Clauses *)
(* carry the property they belong to; FAMILY picks the property under      *)
(* check ("ALL": every clause), clauses of the others are not enforced.    *)
(***************************************************************************)
EXTENDS RealArith, Json, IOUtils

VARIABLES
  t,    \* the run followed
  l,    \* its next event
  note  \* "" or why the rest of the run is not judged

Runs == ndJsonDeserialize(IOEnv.TRACE)
FAMILY == IOEnv.FAMILY
NRuns == Len(Runs)

Report(fam, name, id, at, info) ==
  PrintT("@CLAUSE " \o fam \o " | " \o name \o " | " \o id \o " | " \o ToString(at) \o " | " \o ToString(info))

On(fam) == FAMILY = fam \/ FAMILY = "ALL"

\* conjunct cond of property fam; at: event index in run id
Clause(fam, name, cond, id, at, info) ==
  IF On(fam)
  THEN IF cond THEN TRUE ELSE (Report(fam, name, id, at, info) /\ FALSE)
  ELSE TRUE

Range(s) == {s[i] : i \in 1..Len(s)}
Param(r, k, dflt) == IF k \in Range(r.has) THEN r.p[k] ELSE dflt
Has(r, k) == k \in Range(r.has)

R == Runs[t]
E == R.ev[l]
More == l <= Len(R.ev)
Advance == l' = l + 1 /\ UNCHANGED <<t, note>>

TraceInit == t \in 1..NRuns /\ l = 1 /\ note = ""

\* stop judging the run: the events that follow are beyond the precision of
\* the recorded numbers
Excuse(why) == note' = why /\ l' = Len(R.ev) + 1 /\ UNCHANGED t

Done == l = Len(R.ev) + 1
Progress == Done => PrintT((IF note = "" THEN "@DONE " ELSE "@EXCUSED ") \o R.id \o " " \o note)
=============================================================================
