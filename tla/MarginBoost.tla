---------------------------- MODULE MarginBoost -----------------------------
(***************************************************************************)
(* The boosters that maximise the soft margin over convex combinations of  *)
(* the hypotheses received (capping parameter nu, tolerance tol):          *)
(*                                                                         *)
(*   lp     LPBoost     d minimises the largest edge                       *)
(*   erlp   ERLPBoost   d minimises largest edge + KL(d, uniform)/eta      *)
(*   soft   SoftBoost   d minimises KL subject to edges <= gmin - tol      *)
(*          (TotalBoost: nu = 1)                                           *)
(*   cerlp  CERLPBoost  d = projection of the margins of w; Frank-Wolfe    *)
(*   mlp    MLPBoost    the same, w the better of a Frank-Wolfe and an LP  *)
(*                      step                                               *)
(*                                                                         *)
(* All minimisations range over distributions with entries at most 1/nu.   *)
(* Optimality is expressed by duality certificates, so that every clause   *)
(* is a finite computation:                                                *)
(*   soft margin of w  <=  min_d max_j edge  <=  largest edge under d      *)
(*   Obj(w)            <=  min_d max_j edge + KL/eta                       *)
(***************************************************************************)
EXTENDS Game

VARIABLES
  alg, nu, tol, rule,
  cls,     \* the margin vectors of the weak learner's class, by id + 1
  w,       \* the current combination: one weight per member of cls
  gmin     \* smallest edge (erlp: smallest edge + KL/eta) so far

mvars == <<alg, nu, tol, rule, cls, w, gmin>>

mm == Len(cls[1])
nn == Len(cls)
Zeros == [k \in 1..nn |-> "0"]
Unit(p) == [k \in 1..nn |-> IF k = p THEN "1" ELSE "0"]
Seen == {hist[k].h + 1 : k \in 1..Len(hist)}

Half(a) == RDiv(a, "2")
\* the regularisation parameter of erlp, cerlp and mlp
Eta == RMax("1/2", RDiv(RLn(RDiv(mm, nu)), Half(tol)))

----------------------------------------------------------------------------
Convex(v, eps) ==
  /\ \A k \in 1..nn : IsReal(v[k]) /\ RGe(v[k], RNeg(eps))
  /\ RNear(RSum(v), "1", eps)

\* margins of the combination v
Margins(v) == LET P == {k \in 1..nn : RSign(v[k]) # 0} IN
              LET RECURSIVE Acc(_)
                  Acc(k) == IF k = 0 THEN RConst("0", mm)
                            ELSE IF k \in P THEN RVAdd(Acc(k - 1), RScale(v[k], cls[k])) ELSE Acc(k - 1)
              IN  Acc(nn)

Soft(v) == SoftMargin(Margins(v), nu)

Edges(dd, ks) == {Edge(dd, cls[k]) : k \in ks}
RECURSIVE MaxSet(_)
MaxSet(S) == LET x == CHOOSE y \in S : TRUE IN
             IF Cardinality(S) = 1 THEN RNorm(x) ELSE RMax(x, MaxSet(S \ {x}))
MaxEdge(dd, ks) == MaxSet(Edges(dd, ks))

XLnX(x, c) == IF RLe(x, "0") THEN "0" ELSE RMul(x, RLn(RMul(c, x)))
\* relative entropy to the uniform distribution
KL(dd) == RSum(Map(LAMBDA a : XLnX(a, Len(dd)), dd))

RECURSIVE MinSet(_)
MinSet(S) == LET x == CHOOSE y \in S : TRUE IN
             IF Cardinality(S) = 1 THEN RNorm(x) ELSE RMin(x, MinSet(S \ {x}))
\* exp(-x); e^-300 is taken for zero
ExpNeg(x) == IF RGt(x, "300") THEN "0" ELSE RExp(RNeg(x))

(* The capped exponential projection: the minimiser of d.g + KL(d)/eta     *)
(* over distributions capped by 1/nu.  The weights exp(-eta g) are scaled  *)
(* to the mass the capped entries leave; an entry that then exceeds the    *)
(* cap is capped as well.                                                  *)
Proj(g, eta) ==
  LET n   == Len(g)
      cap == RDiv("1", nu)
      RECURSIVE Go(_)
      Go(K) ==    \* K: the entries at the cap
        LET rest == {i \in 1..n : i \notin K}
            mass == RSub("1", RMul(Cardinality(K), cap))
            lo   == MinSet({g[i] : i \in rest})
            e    == RSeq([i \in 1..n |-> IF i \in K THEN "0" ELSE ExpNeg(RMul(eta, RSub(g[i], lo)))])
            c    == RDiv(mass, RSum(e))
            x    == RSeq([i \in 1..n |-> IF i \in K THEN cap ELSE RMul(c, e[i])])
            over == {i \in rest : RGt(x[i], cap)}
        IN  IF rest = {} THEN RConst(cap, n) ELSE IF over = {} THEN x ELSE Go(K \cup over)
  IN  Go({})

ObjOf(g, eta) == LET p == Proj(g, eta) IN RAdd(RDot(p, g), RDiv(KL(p), eta))
Obj(v) == ObjOf(Margins(v), Eta)

\* SoftBoost's dual function for multipliers lam of the constraints edges <= b
DualSoft(lam, b) ==
  LET g == Margins(lam) IN RSub(ObjOf(g, "1"), RMul(b, RSum(lam)))

----------------------------------------------------------------------------
(* The distribution queried, given the state before the query and, for     *)
(* erlp and soft, a certificate (multipliers, one per member of cls).      *)
Vecs(a, b, eps) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : RNear(a[i], b[i], eps)

CapDist(dd, eps) == IsDist(dd, mm, eps) /\ Capped(dd, nu, eps)
ErlpValue(dd) == RAdd(MaxEdge(dd, Seen), RDiv(KL(dd), Eta))

DistOK(dd, cert, eps) ==
  IF hist = <<>> THEN Vecs(dd, Uniform(mm), eps)
  ELSE
  /\ CapDist(dd, eps)
  /\ CASE alg = "lp"   -> RLe(MaxEdge(dd, Seen), RAdd(eps, Soft(w)))
       [] alg = "erlp" -> RLe(ErlpValue(dd), RAdd(eps, Obj(cert)))
       [] alg = "soft" -> /\ RLe(MaxEdge(dd, Seen), RAdd(eps, RSub(gmin, tol)))
                          /\ cert # <<>> => RLe(KL(dd), RAdd(eps, DualSoft(cert, RSub(gmin, tol))))
       [] alg \in {"cerlp", "mlp"} -> Vecs(dd, Proj(Margins(w), Eta), eps)

\* what gmin becomes after the query dd is answered by member p
EdgeTerm(dd, p) == IF alg = "erlp" THEN RAdd(Edge(dd, cls[p]), RDiv(KL(dd), Eta)) ELSE Edge(dd, cls[p])
NewGmin(dd, p) == RMin(gmin, EdgeTerm(dd, p))

----------------------------------------------------------------------------
(* Frank-Wolfe rules: from v towards (or within) the simplex, p newest.    *)
Toward(v, p, s) == RSeq([k \in 1..nn |-> RAdd(v[k], RMul(s, RSub(IF k = p THEN "1" ELSE "0", v[k])))])
Shift(v, a, b, s) == RSeq([k \in 1..nn |-> IF k = b THEN RAdd(v[k], s) ELSE IF k = a THEN RSub(v[k], s) ELSE v[k]])

ClassicStep(it) == RDiv("2", it + 1)

ShortStep(v, dd, p) ==
  LET g    == Margins(v)
      diff == RSeq([i \in 1..mm |-> RSub(cls[p][i], g[i])])
      sup  == RMaxOf(Map(RAbs, diff))
  IN  RMax("0", RMin("1", RDiv(RDot(dd, diff), RMul(Eta, RSq(sup)))))

\* slope of Obj at g in direction dir (Obj is concave)
Slope(g, dir) == RDot(Proj(g, Eta), dir)
At(g, dir, s) == RVAdd(g, RScale(s, dir))

\* s maximises Obj on g + [0, top] dir, up to del
Maximises(g, dir, s, top, del) ==
  /\ RLe(RSub(s, del), "0") \/ RGe(Slope(At(g, dir, RSub(s, del)), dir), "-1e-9")
  /\ RGe(RAdd(s, del), top) \/ RLe(Slope(At(g, dir, RAdd(s, del)), dir), "1e-9")

LineOK(v, p, v2, del) ==
  LET q   == CHOOSE k \in (1..nn) \ {p} : \A j \in (1..nn) \ {p} : RLe(v[j], v[k])
      s   == IF RLe(v[q], "0") THEN "0" ELSE RSub("1", RDiv(v2[q], v[q]))
      g   == Margins(v)
      dir == RSeq([i \in 1..mm |-> RSub(cls[p][i], g[i])])
  IN  /\ RGe(s, RNeg(del)) /\ RLe(s, RAdd("1", del))
      /\ Vecs(v2, Toward(v, p, s), del)
      /\ Maximises(g, dir, s, "1", del)

Active(v) == {k \in 1..nn : RGt(v[k], "0")}
\* weights too small to tell from zero
Murky(v) == \E k \in 1..nn : RGt(v[k], "0") /\ RLt(v[k], "1e-9")
EdgeOf(dd, k) == Edge(dd, cls[k])
Tops(v, dd)    == {b \in Active(v) : \A k \in Active(v) : RGe(EdgeOf(dd, b), RSub(EdgeOf(dd, k), "1e-12"))}
Bottoms(v, dd) == {a \in Active(v) : \A k \in Active(v) : RLe(EdgeOf(dd, a), RAdd(EdgeOf(dd, k), "1e-12"))}
PairGain(v, dd) == RSub(EdgeOf(dd, CHOOSE b \in Tops(v, dd) : TRUE), EdgeOf(dd, CHOOSE a \in Bottoms(v, dd) : TRUE))
StepGain(v, dd, p) == RSub(EdgeOf(dd, p), RDot(dd, Margins(v)))

PairOK(v, dd, v2, del) ==
  \E a \in Bottoms(v, dd), b \in Tops(v, dd) :
    LET s   == RSub(v[a], v2[a])
        g   == Margins(v)
        dir == RSeq([i \in 1..mm |-> RSub(cls[b][i], cls[a][i])])
    IN  /\ RGe(s, RNeg(del)) /\ RLe(s, RAdd(v[a], del))
        /\ Vecs(v2, Shift(v, a, b, s), del)
        /\ Maximises(g, dir, s, v[a], del)

FWOK(it, v, dd, p, v2, del) ==
  CASE rule = "classic" -> Vecs(v2, Toward(v, p, ClassicStep(it)), del)
    [] rule = "short"   -> Vecs(v2, Toward(v, p, ShortStep(v, dd, p)), del)
    [] rule = "line"    -> LineOK(v, p, v2, del)
    [] rule = "blended" ->
         LET l == PairGain(v, dd)
             r == StepGain(v, dd, p)
         IN  \/ RGe(l, RSub(r, "1e-9")) /\ PairOK(v, dd, v2, del)
             \/ RLe(l, RAdd(r, "1e-9")) /\ LineOK(v, p, v2, del)

(* A value the Frank-Wolfe step is sure to reach: mlp must not fall below. *)
FWFloor(it, v, dd, p) ==
  CASE rule = "classic" -> {Obj(Toward(v, p, ClassicStep(it)))}
    [] rule = "short"   -> {Obj(Toward(v, p, ShortStep(v, dd, p)))}
    [] rule = "line"    -> {Obj(Toward(v, p, s)) : s \in {"0", "1/8", "1/4", "1/2", "3/4", "1"}}
    [] rule = "blended" -> {Obj(v)}

----------------------------------------------------------------------------
(* The stopping rules, given the state after the answer (Last) and the     *)
(* combination v2 the round computed.                                      *)
Last == hist[Len(hist)]
LastP == Last.h + 1
HalfTol == Half(tol)

(* StopGap <= 0: the rule says stop.  gm: gmin including the last answer   *)
StopGap(gm, v2) ==
  CASE alg = "lp"    -> RSub(RSub(gm, tol), Soft(v2))
    [] alg = "soft"  -> RSub(RSub(gm, tol), Soft(v2))
    [] alg = "erlp"  -> IF Len(hist) = 1 THEN "1"
                        ELSE LET before == {hist[k].h + 1 : k \in 1..(Len(hist) - 1)}
                             IN  RSub(RSub(gm, RAdd(MaxEdge(Last.d, before), RDiv(KL(Last.d), Eta))), HalfTol)
    [] alg = "cerlp" -> IF Len(hist) = 1 THEN "1"
                        ELSE RSub(RSub(Edge(Last.d, Last.u), RDot(Last.d, Margins(w))), HalfTol)
    [] alg = "mlp"   -> IF Len(hist) = 1 THEN "1" ELSE RSub(RSub(gm, Obj(w)), HalfTol)

\* the guarantee, relative to an upper bound on the optimum over the class
Guarantee(v, opt, eps) == RGe(Soft(v), RSub(RSub(opt, tol), eps))

----------------------------------------------------------------------------
MInit(a, n, tl, rl, c) ==
  /\ GInit
  /\ alg = a /\ nu = n /\ tol = tl /\ rule = rl /\ cls = c
  /\ w = [k \in 1..Len(c) |-> "0"] /\ gmin = "1"

Keep == UNCHANGED <<alg, nu, tol, rule, cls>>

MPre == Preprocess /\ w' = Zeros /\ gmin' = "1" /\ Keep

MAsk(dd, p, cert, eps) ==
  /\ DistOK(dd, cert, eps)
  /\ Ask(dd, cls[p], p - 1)
  /\ gmin' = NewGmin(dd, p)
  /\ UNCHANGED w /\ Keep

MOn(v2)   == Continue /\ w' = v2 /\ UNCHANGED gmin /\ Keep
MHalt(v2) == Stop /\ w' = v2 /\ UNCHANGED gmin /\ Keep
MPost == Postprocess /\ UNCHANGED mvars
=============================================================================
