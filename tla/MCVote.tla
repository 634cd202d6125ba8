------------------------------- MODULE MCVote -------------------------------
(***************************************************************************)
(* Every history of up to B operations on a vote with weights from WS over *)
(* members 0..N-1, whose answers on a row are VAL[member + 1].             *)
(***************************************************************************)
EXTENDS Vote
CONSTANTS N, B, WS
VARIABLE ops
mcvars == <<vvars, ops>>

Mem == 0..(N - 1)
VAL == <<"1", "-1/2", "0">>
Ans(m) == VAL[m + 1]
AsSeq(g, n) == [i \in 1..n |-> g[i]]

MCInit == VInit /\ ops = <<>>
Do(o) == ops' = Append(ops, o)
MCNext ==
  /\ Len(ops) < B
  /\ \/ \E n \in 1..2 : \E ws \in [1..n -> WS], hs \in [1..n -> Mem] :
          ops = <<>> /\ Build(AsSeq(ws, n), AsSeq(hs, n)) /\ Do(<<"build", AsSeq(ws, n), AsSeq(hs, n)>>)
     \/ ops = <<>> /\ New /\ Do(<<"new", <<>>, <<>>>>)
     \/ \E a \in WS, m \in Mem : Push(a, m) /\ Do(<<"push", <<a>>, <<m>>>>)
     \/ Normalize /\ Do(<<"norm", <<>>, <<>>>>)
     \/ StoreLoad /\ (ops = <<>> \/ ops[Len(ops)][1] # "store") /\ Do(<<"store", <<>>, <<>>>>)
MCSpec == MCInit /\ [][MCNext]_mcvars

-----------------------------------------------------------------------------
Last == ops[Len(ops)]
Paired == Len(w) = Len(h)
UnitSum == (ops # <<>> /\ Last[1] \in {"build", "norm"}) => (REq(AbsSum(w), "1") \/ (w = <<>> /\ Last[1] = "build"))
BuildKeepsSigns == (ops # <<>> /\ Last[1] = "build") => \A i \in 1..Len(w) : ~REq(w[i], "0")
\* building and then normalising changes nothing; the vote is bounded by the members
Idempotent == (ops # <<>> /\ Last[1] \in {"build", "norm"}) => Normal(w) = [i \in 1..Len(w) |-> RNorm(w[i])]
Bounded == (ops # <<>> /\ Last[1] \in {"build", "norm"}) => RLe(RAbs(Value(Ans)), "1")
\* building from slices is appending the pairs and normalising
SameAsPush == (ops # <<>> /\ Last[1] = "build") =>
  IF ~CanNormal(Last[2]) THEN REq(Value(Ans), "0") ELSE
  REq(Value(Ans), RDiv(RDot(Last[2], [k \in 1..Len(Last[3]) |-> Ans(Last[3][k])]), AbsSum(Last[2])))
Emit == (Len(ops) = B) => PrintT("@BEH " \o ToString(ops))
=============================================================================
