-------------------------------- MODULE Vote --------------------------------
(***************************************************************************)
(* A combined hypothesis: pairs of a weight and a member hypothesis, built *)
(* from slices, appended to, normalised, stored and loaded again.  Members *)
(* are numbers; val[h][row] is the answer of member h on a row.            *)
(***************************************************************************)
EXTENDS RealArith

VARIABLES w, h, alive      \* weights and members, paired; whether a vote exists
vvars == <<w, h, alive>>

AbsSum(ws) == RSum(Map(RAbs, ws))
Normal(ws) == LET z == AbsSum(ws) IN [i \in 1..Len(ws) |-> RDiv(ws[i], z)]

Kept(ws) == SelectSeq([i \in 1..Len(ws) |-> i], LAMBDA i : ~REq(ws[i], "0"))
Pick(s, ix) == [k \in 1..Len(ix) |-> s[ix[k]]]

VInit == w = <<>> /\ h = <<>> /\ alive = FALSE

\* normalising needs some weight
CanNormal(ws) == ~REq(AbsSum(ws), "0")

\* of zero votes nothing is kept
Build(ws, hs) == /\ Len(ws) = Len(hs)
                 /\ w' = Normal(Pick(ws, Kept(ws))) /\ h' = Pick(hs, Kept(ws)) /\ alive' = TRUE
New == w' = <<>> /\ h' = <<>> /\ alive' = TRUE
Push(a, m) == alive /\ w' = Append(w, a) /\ h' = Append(h, m) /\ UNCHANGED alive
Normalize == alive /\ CanNormal(w) /\ w' = Normal(w) /\ UNCHANGED <<h, alive>>
StoreLoad == alive /\ UNCHANGED vvars

\* the vote on a row, given the members' answers there
Value(ans(_)) == RDot(w, [k \in 1..Len(h) |-> ans(h[k])])
Label(v) == IF RGe(v, "0") THEN 1 ELSE -1
=============================================================================
