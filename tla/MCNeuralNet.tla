---------------------------- MODULE MCNeuralNet -----------------------------
(***************************************************************************)
(* Every network of a given shape with weights from a small set, every     *)
(* batch over a grid: what Step does is what the derivative of the loss    *)
(* says, checked against difference quotients.                             *)
(***************************************************************************)
EXTENDS NeuralNet, Json
CONSTANTS NAME,    \* the family of networks
          VALS,    \* weights and biases
          XS,      \* values of inputs
          NB,      \* batch size
          B,       \* steps
          RATE
VARIABLE batch
mcvars == <<nvars, batch>>

H == "1/10000000000000"
TOL == "1e-11"

A(k, c) == [k |-> k, c |-> c]
Hidden == {A("id", "0"), A("relu", "0"), A("relu", "1/4"), A("sigmoid", "1"), A("sigmoid", "2"), A("softmax", "1"), A("softmax", "1/2")}
\* <<inputs, units of layer 1, ...>>
SHAPE == CASE NAME = "single" -> <<2, 2>> [] NAME = "hidden2" -> <<1, 2, 2>> [] NAME = "hidden1" -> <<1, 2, 1>>
           [] NAME = "batch" -> <<2, 2, 2>> [] NAME = "deep" -> <<1, 2, 2, 1>>
\* activations, one tuple per network
ACTS == CASE NAME = "single" -> {<<A("id", "0")>>, <<A("softmax", "1")>>, <<A("softmax", "2")>>}
          [] NAME \in {"hidden2", "batch"} -> Hidden \X {A("id", "0"), A("softmax", "1")}
          [] NAME = "hidden1" -> Hidden \X {A("id", "0"), A("sigmoid", "1")}
          [] NAME = "deep" -> Hidden \X Hidden \X {A("sigmoid", "1")}

Seqs(S, n) == [1..n -> S]
AsSeq(f, n) == [i \in 1..n |-> f[i]]
\* few distinct parameters: unit i, input j of layer l gets VALS through a pattern
Pattern(p, q, r, l, i, j) == CASE (i + j + l) % 3 = 0 -> p [] (i + j + l) % 3 = 1 -> q [] OTHER -> r
Nets == {[l \in 1..Len(SHAPE) - 1 |->
            [act |-> a[l],
             w |-> [i \in 1..SHAPE[l + 1] |-> [j \in 1..SHAPE[l] |-> Pattern(p, q, r, l, i, j)]],
             b |-> [i \in 1..SHAPE[l + 1] |-> Pattern(q, r, p, l, i, 0)]]] :
         a \in ACTS, p \in VALS, q \in VALS, r \in VALS}
Examples == {[x |-> AsSeq(x, SHAPE[1]), y |-> y] : x \in Seqs(XS, SHAPE[1]), y \in {"1", "-1"}}
Batches == {AsSeq(f, NB) : f \in [1..NB -> Examples]}

MCInit == NInit /\ batch = <<>>
MCNext ==
  \/ net = <<>> /\ \E n \in Nets, b \in Batches : Build(n) /\ batch' = b
  \/ net # <<>> /\ steps < B /\ Train(batch, RATE) /\ UNCHANGED batch
MCSpec == MCInit /\ [][MCNext]_mcvars

-----------------------------------------------------------------------------
Total(n) == RSum([k \in 1..Len(batch) |-> Loss(n, batch[k].x, batch[k].y)])
Shift(n, l, i, j, h) ==  \* j = 0: the bias
  IF j = 0 THEN [n EXCEPT ![l].b[i] = RAdd(@, h)] ELSE [n EXCEPT ![l].w[i][j] = RAdd(@, h)]
Quotient(n, l, i, j) == RDiv(RSub(Total(Shift(n, l, i, j, H)), Total(Shift(n, l, i, j, RNeg(H)))), RMul("2", H))
Moved(l, i, j) == LET m == Step(net, batch, "1") IN
  IF j = 0 THEN RSub(net[l].b[i], m[l].b[i]) ELSE RSub(net[l].w[i][j], m[l].w[i][j])
Kink(n) == \E k \in 1..Len(batch) : LET p == Pass(n, batch[k].x) IN
  \E l \in 1..Len(n) : n[l].act.k = "relu" /\ \E i \in 1..Len(p[l].u) : REq(p[l].u[i], n[l].act.c)

\* the step follows the derivative of the loss in every parameter
Gradient == (net # <<>> /\ Matches(net) /\ ~Kink(net)) =>
  \A l \in 1..Len(net) : \A i \in 1..Len(net[l].b) : \A j \in 0..Len(net[l].w[i]) :
    RNear(Moved(l, i, j), Quotient(net, l, i, j), TOL)
\* a small step never raises the loss
Descent == (net # <<>> /\ Matches(net) /\ ~Kink(net)) =>
  RLe(Total(Step(net, batch, "1e-9")), RAdd(Total(net), "1e-14"))
\* outputs and confidences in range
Ranges == net # <<>> =>
  \A k \in 1..Len(batch) :
    LET z == Out(net, batch[k].x)  a == net[Len(net)].act  c == Confidence(z) IN
    /\ a.k = "softmax" => RNear(RSum(z), "1", "1e-40") /\ \A i \in 1..Len(z) : RGt(z[i], "0")
    /\ a.k = "sigmoid" => \A i \in 1..Len(z) : RGt(z[i], "0") /\ RLt(z[i], "1")
    /\ (a.k \in {"sigmoid", "softmax"} /\ Len(z) <= 2) => RLe(RAbs(c), "1")
    /\ (a.k = "softmax" /\ Len(z) = 2) => RGe(RAbs(c), "0.4999999999")
\* outputs as wanted: nothing moves
FixPoint == (net # <<>> /\ \A k \in 1..Len(batch) : \A i \in 1..Len(Out(net, batch[k].x)) :
               REq(Out(net, batch[k].x)[i], Wanted(net, batch[k].y)[i])) => Step(net, batch, "1") = Map(LAMBDA L : [act |-> L.act, w |-> Map(LAMBDA r : Map(RNorm, r), L.w), b |-> Map(RNorm, L.b)], net)
Emit == (steps = 0 /\ net # <<>>) => PrintT("@BEH " \o ToJson([net |-> net, batch |-> batch, rate |-> RATE, n |-> B]))
=============================================================================
