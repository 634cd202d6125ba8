------------------------------ MODULE MCMargin ------------------------------
(***************************************************************************)
(* The soft-margin boosters against every best-response weak learner over  *)
(* every small hypothesis class.                                           *)
(*                                                                         *)
(* lp, soft: distributions and combinations range over a grid that         *)
(* contains exact optima (StrongDuality checks it); wherever there are     *)
(* several optimal distributions, or several best responses, all are       *)
(* explored.  For soft, ANY distribution that respects the edge bounds may *)
(* be queried: the guarantee does not depend on the entropy.               *)
(* erlp (classes of two), cerlp, mlp: in real arithmetic.                  *)
(***************************************************************************)
EXTENDS MarginBoost, SequencesExt

CONSTANTS M, ALGS, RULES, NUS, TOLS, GRID, MAXCLASS, B, VALS

VARIABLES d, objs   \* the distribution of the next query; the values of Obj so far
mcvars == <<gvars, mvars, d, objs>>

VecSet  == [1..M -> VALS]
AsVec(f) == [i \in 1..M |-> f[i]]
Classes == {Map(AsVec, SetToSeq(S)) : S \in UNION {kSubset(k, VecSet) : k \in 1..MAXCLASS}}

RECURSIVE SumInt(_, _)
SumInt(f, i) == IF i = 0 THEN 0 ELSE f[i] + SumInt(f, i - 1)
Grid(n, top) == {f \in [1..n -> 0..top] : SumInt(f, n) = GRID}
Scaled(f, n) == [i \in 1..n |-> RDiv(f[i], GRID)]

RatInt(s) == CHOOSE k \in 1..M : RNorm(k) = RNorm(s)
Dists == {Scaled(f, M) : f \in Grid(M, GRID \div RatInt(nu))}
\* combinations of the members ks
Combos(ks) == {[k \in 1..nn |-> RDiv(f[k], GRID)] : f \in {g \in [1..nn -> 0..GRID] :
                  SumInt(g, nn) = GRID /\ \A k \in 1..nn : k \in ks \/ g[k] = 0}}

MinOf(S) == LET RECURSIVE Go(_)
                Go(T) == LET x == CHOOSE y \in T : TRUE IN
                         IF Cardinality(T) = 1 THEN RNorm(x) ELSE RMin(x, Go(T \ {x}))
            IN  Go(S)
MinMax(ks) == MinOf({MaxEdge(dd, ks) : dd \in Dists})
MaxSoft(ks) == RNeg(MinOf({RNeg(Soft(v)) : v \in Combos(ks)}))
BestCombo(ks) == LET x == MaxSoft(ks) IN CHOOSE v \in Combos(ks) : REq(Soft(v), x)

\* erlp over at most two members: maximise the concave Obj on a segment
RECURSIVE Bisect(_, _, _, _, _)
Bisect(g, dir, lo, hi, k) ==
  LET s == Half(RAdd(lo, hi)) IN
  IF k = 0 THEN s
  ELSE IF RGt(Slope(At(g, dir, s), dir), "0") THEN Bisect(g, dir, s, hi, k - 1)
       ELSE Bisect(g, dir, lo, s, k - 1)
ErlpCombo(ks) ==
  IF Cardinality(ks) = 1 THEN Unit(CHOOSE k \in ks : TRUE)
  ELSE LET a == CHOOSE k \in ks : TRUE
           b == CHOOSE k \in ks : k # a
           dir == [i \in 1..mm |-> RSub(cls[b][i], cls[a][i])]
           s == IF RGe(Slope(cls[b], dir), "0") THEN "1"
                ELSE IF RLe(Slope(cls[a], dir), "0") THEN "0" ELSE Bisect(cls[a], dir, "0", "1", 45)
       IN  Toward(Unit(a), b, s)

EPS == "1e-9"

MCInit ==
  \E a \in ALGS, n \in NUS, tl \in TOLS, rl \in RULES, c \in Classes :
    /\ a \in {"lp", "soft", "erlp"} => rl = "short"
    /\ a = "erlp" => Len(c) <= 2
    /\ MInit(a, n, tl, rl, c)
    /\ d = Uniform(M) /\ objs = <<>>

BestResponses == {p \in 1..nn : \A q \in 1..nn : RGe(Edge(d, cls[p]), Edge(d, cls[q]))}

MCPre == MPre /\ round = 0 /\ UNCHANGED <<d, objs>>

MCAsk ==
  /\ round < B
  /\ \E p \in BestResponses : Ask(d, cls[p], p - 1) /\ gmin' = NewGmin(d, p)
  /\ UNCHANGED <<w, d, objs>> /\ Keep

\* the combination the round computes
NextW ==
  IF alg \in {"lp", "soft"} THEN BestCombo(Seen)
  ELSE IF alg = "erlp" THEN ErlpCombo(Seen)
  ELSE IF Len(hist) = 1 THEN Unit(LastP)
  ELSE LET s == IF rule = "classic" THEN ClassicStep(Len(hist)) ELSE ShortStep(w, Last.d, LastP)
           f == Toward(w, LastP, s)
       IN  IF alg = "cerlp" THEN f
           ELSE LET x == BestCombo(Seen) IN IF RGe(Obj(f), Obj(x)) THEN f ELSE x

MCOn ==
  LET v == NextW
      bound == RSub(gmin, tol)
      gap == IF alg \in {"lp", "soft"} THEN RSub(bound, Soft(v)) ELSE StopGap(gmin, w)
  IN
  \/ /\ (IF alg = "soft" THEN RGe(gap, "0") ELSE RGt(gap, "0"))
     /\ MOn(v)
     /\ CASE alg = "lp"   -> LET x == MinMax(Seen) IN \E dd \in Dists : REq(MaxEdge(dd, Seen), x) /\ d' = dd
          [] alg = "soft" -> \E dd \in Dists : RLe(MaxEdge(dd, Seen), bound) /\ d' = dd
          [] OTHER        -> d' = Proj(Margins(v), Eta)
     /\ objs' = IF alg \in {"cerlp", "mlp"} THEN Append(objs, Obj(v)) ELSE objs
  \/ /\ (IF alg = "soft" THEN RLt(gap, "0") ELSE RLe(gap, "0"))
     /\ MHalt(IF alg \in {"lp", "soft"} THEN v ELSE w)
     /\ UNCHANGED <<d, objs>>

MCNext == MCPre \/ MCAsk \/ (phase = "asked" /\ MCOn)
MCSpec == MCInit /\ [][MCNext]_mcvars
MCView == <<mvars, phase, round, Seen, d, objs, IF hist = <<>> THEN <<>> ELSE Last>>

-----------------------------------------------------------------------------
On == phase # "idle"
DistLegal == On => CapDist(d, "1e-30")
CombLegal == (w # Zeros) => Convex(w, "1e-30")

\* the certificates of MarginBoost accept what the algorithms do
CertOK == (phase = "ready" /\ hist # <<>>) => DistOK(d, IF alg = "erlp" THEN w ELSE <<>>, EPS)

Opt == MinMax(1..nn)
StrongDuality == (phase = "asked" /\ alg \in {"lp", "soft"}) => REq(MaxSoft(Seen), MinMax(Seen))
GminSound == (hist # <<>> /\ alg # "erlp") => RGe(gmin, Opt)
Optimal == phase = "stopped" => Guarantee(w, Opt, EPS)

\* a short step, and the better of two steps, never lose
Ascent ==
  (alg \in {"cerlp", "mlp"} /\ rule = "short" /\ Len(objs) >= 2) =>
    RGe(objs[Len(objs)], RSub(objs[Len(objs) - 1], "1e-30"))

Emit == (phase = "idle") => PrintT("@BEH " \o ToString(<<alg, nu, tol, rule, cls>>))
=============================================================================
