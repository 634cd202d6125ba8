----------------------------- MODULE MCSimplex ------------------------------
(***************************************************************************)
(* The projection of every weight vector over a grid: it is the point of   *)
(* least relative entropy, which the search by descending order need not   *)
(* say by itself.                                                          *)
(***************************************************************************)
EXTENDS Simplex, Json
CONSTANTS M, LOGS, NUS, GRID
mcvars == <<gvars, xvars>>
AsSeq(g) == [i \in 1..M |-> g[i]]

MCInit == XInit /\ GInit
MCNext == /\ \/ logs = <<>> /\ \E s \in [1..M -> LOGS], nu \in NUS : Request(AsSeq(s), nu)
             \/ CapNext \/ Finish
          /\ UNCHANGED gvars
MCSpec == MCInit /\ [][MCNext]_mcvars
-----------------------------------------------------------------------------
Ready == dist # <<>>
EPS == "1e-30"
Legal == Ready => IsDist(dist, M, EPS) /\ \A i \in 1..M : RLe(dist[i], RAdd(cap, EPS))
\* while searching, every entry capped is one that ends at the cap, and mass is left
Sound == Busy => RGe(Mass, RNeg(EPS)) /\ capped <= M
\* optimality conditions: uncapped positive entries have one ratio, which no capped entry falls below
KKT == Ready => \A i, j \in 1..M :
  (~IsCapped(i) /\ RGt(dist[i], "0") /\ RGt(dist[j], "0")) =>
    LET ri == RSub(RLn(dist[i]), logs[i])  rj == RSub(RLn(dist[j]), logs[j]) IN
    IF IsCapped(j) THEN RLe(rj, RAdd(ri, EPS)) ELSE RNear(ri, rj, EPS)
\* no distribution of a grid in the capped simplex is nearer
Grid == {g \in [1..M -> 0..GRID] : LET RECURSIVE S(_) S(k) == IF k = 0 THEN 0 ELSE g[k] + S(k - 1) IN S(M) = GRID}
Nearest == Ready => \A g \in Grid :
  LET e == [i \in 1..M |-> RDiv(g[i], GRID)] IN
  (\A i \in 1..M : RLe(e[i], cap)) => RLe(Divergence(dist, logs), RAdd(EPS, Divergence(e, logs)))
Ordered == Ready => \A i, j \in 1..M : RLe(logs[i], logs[j]) => RLe(dist[i], dist[j])
Shape == Ready => /\ REq(cap, RDiv("1", M)) => \A i \in 1..M : RNear(dist[i], cap, EPS)
                  /\ REq(cap, "1") => \A i, j \in 1..M : RNear(RMul(dist[i], RExp(RSub(logs[j], logs[i]))), dist[j], EPS)
EntropyOK == Ready => RGe(KLUniform(dist), RNeg(EPS)) /\ RLe(NegEntropy(dist), EPS)
Emit == Ready => PrintT("@BEH " \o ToJson([logs |-> logs, nu |-> RDiv("1", cap)]))
=============================================================================
