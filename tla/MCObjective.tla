---------------------------- MODULE MCObjective -----------------------------
(***************************************************************************)
(* Objective values of every sample with labels and confidences over a     *)
(* grid.                                                                   *)
(***************************************************************************)
EXTENDS Objective, Json
CONSTANTS M, FS, NUS
mcvars == <<gvars, ovars>>

AsSeq(g) == [i \in 1..M |-> g[i]]
MCInit == OInit /\ GInit
MCNext ==
  \/ sample = <<>> /\ \E y \in [1..M -> {"1", "-1"}], f \in [1..M -> FS] : Given([y |-> AsSeq(y), f |-> AsSeq(f)]) /\ UNCHANGED gvars
  \/ /\ sample # <<>> /\ Len(values) = 0
     /\ \E k \in {"soft", "hard", "exp"} : \E nu \in IF k = "soft" THEN NUS ELSE {"1"} : Compute(k, nu) /\ UNCHANGED gvars
MCSpec == MCInit /\ [][MCNext]_mcvars

-----------------------------------------------------------------------------
V == values[1]
G == Margins(sample)
\* corners of the capped simplex: whole caps on a set of rows, the rest on one more
Corners(nu) ==
  LET q == RFloor(nu)  rest == RSub("1", RDiv(q, nu))
  IN  {[i \in 1..M |-> IF i \in S THEN RDiv("1", nu) ELSE IF i = r THEN rest ELSE "0"] :
         <<S, r>> \in {<<S, r>> \in (SUBSET (1..M)) \X (1..M) : REq(Cardinality(S), q) /\ (r \notin S \/ REq(rest, "0"))}}
\* the soft margin is the least edge over the capped simplex
Least == (values # <<>> /\ V.kind = "soft") =>
  /\ \A d \in Corners(V.nu) : RGe(RDot(d, G), V.v)
  /\ \E d \in Corners(V.nu) : REq(RDot(d, G), V.v)
\* its dual: the best threshold less the excess of the margins below it
Dual == (values # <<>> /\ V.kind = "soft") =>
  LET val(rho) == RSub(rho, RDiv(RSum([i \in 1..M |-> RMax("0", RSub(rho, G[i]))]), V.nu))
  IN  /\ \A i \in 1..M : RLe(val(G[i]), V.v)
      /\ \E i \in 1..M : REq(val(G[i]), V.v)
Between == (values # <<>> /\ V.kind = "soft") =>
  /\ RLe(HardMargin(G), V.v) /\ RLe(V.v, RDiv(RSum(G), M))
  /\ REq(V.nu, "1") => REq(V.v, HardMargin(G))
  /\ REq(V.nu, M) => REq(V.v, RDiv(RSum(G), M))
\* the exponential loss bounds the share of wrong labels
ErrorBound == (values # <<>> /\ V.kind = "exp") =>
  LET wrong == Cardinality({i \in 1..M : LabelOf(sample.f[i]) # sample.y[i]}) IN
  /\ RGe(V.v, RDiv(wrong, M))
  /\ wrong = 0 => RNear(V.v, RExp("-1"), "1e-40")
Emit == values # <<>> => PrintT("@BEH " \o ToJson([y |-> sample.y, f |-> sample.f, nu |-> V.nu]))
=============================================================================
