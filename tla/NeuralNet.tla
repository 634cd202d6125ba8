----------------------------- MODULE NeuralNet ------------------------------
(***************************************************************************)
(* The neural network of miniboosts: layers of an affine map and an        *)
(* activation, trained by gradient steps on a batch of examples.           *)
(*                                                                         *)
(* A network is a sequence of layers [w, b, act]: w[i] the weights of unit *)
(* i, b[i] its bias, act = [k, c] with k in "id", "relu", "sigmoid",       *)
(* "softmax" and c the threshold (relu) or the scale (sigmoid, softmax).   *)
(***************************************************************************)
EXTENDS RealArith

VARIABLES
  net,   \* <<>> before the network is built
  steps  \* gradient steps done
nvars == <<net, steps>>

-----------------------------------------------------------------------------
\* forward
Affine(L, x) == [i \in 1..Len(L.w) |-> RAdd(RDot(L.w[i], x), L.b[i])]
SoftMaxOf(c, u) ==
  LET top == RMaxOf(u)
      e == [i \in 1..Len(u) |-> RExp(RMul(c, RSub(u[i], top)))]
      z == RSum(e)
  IN  [i \in 1..Len(u) |-> RDiv(e[i], z)]
SigmoidOf(c, v) == RDiv("1", RAdd("1", RExp(RNeg(RMul(c, v)))))
Act(a, u) ==
  CASE a.k = "id" -> u
    [] a.k = "relu" -> [i \in 1..Len(u) |-> IF RLe(u[i], a.c) THEN "0" ELSE u[i]]
    [] a.k = "sigmoid" -> [i \in 1..Len(u) |-> SigmoidOf(a.c, u[i])]
    [] a.k = "softmax" -> SoftMaxOf(a.c, u)

\* values of the units after each layer; Pass(n, x)[l].u before, .z after the activation
RECURSIVE PassFrom(_, _)
PassFrom(n, x) ==
  IF n = <<>> THEN <<>>
  ELSE LET u == Affine(n[1], x)
           z == Act(n[1].act, u)
       IN  <<[in |-> x, u |-> u, z |-> z]>> \o PassFrom(Tail(n), z)
Pass(n, x) == PassFrom(n, x)
Out(n, x) == LET p == Pass(n, x) IN p[Len(p)].z

-----------------------------------------------------------------------------
\* backward: derivatives through an activation at u, given those at its outputs
Back(a, u, g) ==
  CASE a.k = "id" -> g
    [] a.k = "relu" -> [i \in 1..Len(u) |-> IF RLt(u[i], a.c) THEN "0" ELSE g[i]]
    [] a.k = "sigmoid" -> [i \in 1..Len(u) |->
         LET p == SigmoidOf(a.c, u[i]) IN RMul(RMul(a.c, RMul(p, RSub("1", p))), g[i])]
    [] a.k = "softmax" ->
         LET p == SoftMaxOf(a.c, u)  mean == RDot(p, g)
         IN  [i \in 1..Len(u) |-> RMul(RMul(a.c, p[i]), RSub(g[i], mean))]
Transposed(w, g) == [j \in 1..Len(w[1]) |-> RSum([i \in 1..Len(w) |-> RMul(w[i][j], g[i])])]

\* what the network is to say for a label: one output is the confidence in +1,
\* two outputs are those in -1 and +1
Wanted(n, y) == LET d == Len(n[Len(n)].b) IN
  IF d = 1 THEN <<RDiv(RAdd(y, "1"), "2")>>
  ELSE [i \in 1..d |-> IF i = (IF RGt(y, "0") THEN 2 ELSE 1) THEN "1" ELSE "0"]

\* error at the output before its activation, then carried back layer by layer
RECURSIVE DeltaAt(_, _, _, _)
DeltaAt(n, p, y, l) ==
  IF l = Len(n) THEN LET w == Wanted(n, y) IN [i \in 1..Len(w) |-> RSub(p[l].z[i], w[i])]
  ELSE Back(n[l].act, p[l].u, Transposed(n[l + 1].w, DeltaAt(n, p, y, l + 1)))

\* derivatives of the loss of one example: [w, b] for every layer
Grad(n, x, y) ==
  LET p == Pass(n, x) IN
  [l \in 1..Len(n) |->
     LET d == DeltaAt(n, p, y, l) IN
     [w |-> [i \in 1..Len(d) |-> [j \in 1..Len(p[l].in) |-> RMul(d[i], p[l].in[j])]], b |-> d]]

\* one step down the summed loss of a batch of examples [x, y]
Step(n, batch, rate) ==
  LET gs == [k \in 1..Len(batch) |-> Grad(n, batch[k].x, batch[k].y)] IN
  [l \in 1..Len(n) |->
     [act |-> n[l].act,
      b |-> [i \in 1..Len(n[l].b) |-> RSub(n[l].b[i], RMul(rate, RSum([k \in 1..Len(gs) |-> gs[k][l].b[i]])))],
      w |-> [i \in 1..Len(n[l].w) |-> [j \in 1..Len(n[l].w[i]) |->
               RSub(n[l].w[i][j], RMul(rate, RSum([k \in 1..Len(gs) |-> gs[k][l].w[i][j]])))]]]]

\* the confidence a classifier reads off the outputs
Confidence(z) ==
  IF Len(z) = 1 THEN RSub(RMul("2", z[1]), "1")
  ELSE IF RGt(z[1], z[2]) THEN RNeg(z[1]) ELSE z[2]

\* the loss the step descends, for an output activation that goes with it
Loss(n, x, y) ==
  LET a == n[Len(n)].act
      z == Out(n, x)
      w == Wanted(n, y)
  IN  CASE a.k = "id" -> RDiv(RSum([i \in 1..Len(z) |-> RSq(RSub(z[i], w[i]))]), "2")
        [] a.k = "sigmoid" -> RNeg(RSum([i \in 1..Len(z) |->
               RAdd(RMul(w[i], RLn(z[i])), RMul(RSub("1", w[i]), RLn(RSub("1", z[i]))))]))
        [] a.k = "softmax" -> RNeg(RSum([i \in 1..Len(z) |-> RMul(w[i], RLn(z[i]))]))
Matches(n) == LET a == n[Len(n)].act IN a.k = "id" \/ (a.k \in {"sigmoid", "softmax"} /\ REq(a.c, "1"))

-----------------------------------------------------------------------------
NInit == net = <<>> /\ steps = 0
Build(n) == net = <<>> /\ net' = n /\ steps' = 0
Train(batch, rate) == net # <<>> /\ net' = Step(net, batch, rate) /\ steps' = steps + 1
=============================================================================
