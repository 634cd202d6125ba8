--------------------------- MODULE TraceNeuralNet ---------------------------
(***************************************************************************)
(* The real neural network against NeuralNet: gradient steps (N01),        *)
(* outputs and confidences (N02), networks produced by the learner (N03).  *)
(* After a step the recorded parameters replace the computed ones, so      *)
(* rounding does not add up.                                               *)
(***************************************************************************)
EXTENDS NeuralNet, TraceBase
VARIABLES phase0
tvars == <<nvars, t, l, note, phase0>>

C(fam, name, cond, info) == Clause(fam, name, cond, R.id, l, info)
TInit == TraceInit /\ NInit /\ phase0 = 0

Abs1(s) == RSum(Map(RAbs, s))
\* how large values and derivatives may grow
Gain(L) == RMul(RAdd("1", RAdd(RSum(Map(Abs1, L.w)), Abs1(L.b))),
                IF L.act.k \in {"sigmoid", "softmax"} THEN RMax("1", L.act.c) ELSE "1")
RECURSIVE Size(_)
Size(n) == IF n = <<>> THEN "1" ELSE RMul(Gain(n[1]), Size(Tail(n)))
Unit == "1e-11"
EvalTol(n, x) == RMul(Unit, RMul(Size(n), RAdd("1", Abs1(x))))
StepTol(n, batch, rate) ==
  RMul(Unit, RAdd("1", RMul(rate, RMul(Size(n), RSum([k \in 1..Len(batch) |-> RSq(RAdd("1", Abs1(batch[k].x)))])))))
Kink(n, x) == LET p == Pass(n, x) IN
  \E i \in 1..Len(n) : n[i].act.k = "relu" /\ \E j \in 1..Len(p[i].u) : RNear(p[i].u[j], n[i].act.c, "1e-9")

SameShape(m, n) == /\ Len(m) = Len(n)
                   /\ \A i \in 1..Len(n) : /\ Len(m[i].b) = Len(n[i].b) /\ Len(m[i].w) = Len(n[i].w)
                                           /\ \A j \in 1..Len(n[i].w) : Len(m[i].w[j]) = Len(n[i].w[j])
Real(n) == \A i \in 1..Len(n) : AllReal(n[i].b) /\ \A j \in 1..Len(n[i].w) : AllReal(n[i].w[j])
Apart(m, n, tol) == {<<i, j, k>> \in UNION {{<<i, j, k>> : j \in 1..Len(n[i].b), k \in 0..Len(n[i].w[1])} : i \in 1..Len(n)} :
  IF k = 0 THEN ~RNear(m[i].b[j], n[i].b[j], tol) ELSE ~RNear(m[i].w[j][k], n[i].w[j][k], tol)}

TNet == E.e = "net" /\ Build(E.net) /\ Advance /\ phase0' = l

TTrain ==
  /\ E.e = "train"
  /\ IF \E k \in 1..Len(E.batch) : Kink(net, E.batch[k].x)
     THEN net' = E.net /\ steps' = steps + 1
     ELSE LET want == Step(net, E.batch, E.rate)  tol == StepTol(net, E.batch, E.rate) IN
          /\ C("N01", "shape of the network stays", SameShape(E.net, net), <<net, E.net>>)
          /\ C("N01", "parameters are numbers", Real(E.net), <<E.net>>)
          /\ C("N01", "a step moves every parameter against its derivative", Apart(E.net, want, tol) = {},
               <<Apart(E.net, want, tol), Map(LAMBDA L : L.act, net), E.batch, RShow(tol)>>)
          /\ net' = E.net /\ steps' = steps + 1
  /\ Advance /\ phase0' = l

TEval ==
  /\ E.e = "eval"
  /\ IF Kink(net, E.x) THEN TRUE
     ELSE LET z == Out(net, E.x)  tol == EvalTol(net, E.x) IN
          /\ C("N02", "outputs", Len(E.z) = Len(z) /\ AllReal(E.z) /\ \A i \in 1..Len(z) : RNear(E.z[i], z[i], tol),
               <<E, Map(RShow, z), Map(LAMBDA L : L.act, net)>>)
          /\ Len(z) <= 2 =>
             C("N02", "confidence",
               IF Len(z) = 2 /\ RNear(z[1], z[2], tol) THEN RNear(RAbs(E.conf), RAbs(z[2]), RMul("2", tol))
               ELSE IsReal(E.conf) /\ RNear(E.conf, Confidence(z), RMul("2", tol)), <<E, Map(RShow, z)>>)
  /\ Advance /\ phase0' = l /\ UNCHANGED nvars

\* produced by the learner: the shape asked for; after enough steps, an output
\* layer without activation fits the examples its batches are drawn from
TProduced ==
  /\ E.e = "produced"
  /\ C("N03", "layers as appended", Len(E.net) = Len(E.dims) /\ Real(E.net) /\
       \A i \in 1..Len(E.dims) : /\ Len(E.net[i].w) = E.dims[i] /\ Len(E.net[i].b) = E.dims[i]
                                 /\ \A j \in 1..E.dims[i] : Len(E.net[i].w[j]) = (IF i = 1 THEN E.inputs ELSE E.dims[i - 1])
                                 /\ E.net[i].act = E.acts[i], <<E>>)
  /\ E.fit # <<>> =>
     LET m == Step(E.net, E.fit, "1")  rest == Apart(m, E.net, E.tol) IN
     C("N03", "training ends at the best fit of the examples drawn", rest = {}, <<rest, E.net, E.fit>>)
  /\ net' = E.net /\ steps' = 0 /\ Advance /\ phase0' = l

TPanic == /\ E.e = "panic"
          /\ C("N01", "no failure", E.fam # "N01", <<E, net>>) /\ C("N02", "no failure", E.fam # "N02", <<E, net>>)
          /\ C("N03", "no failure", E.fam # "N03", <<E>>)
          /\ Excuse("failure") /\ UNCHANGED <<nvars, phase0>>
\* a network that diverges leaves the precision of the recorded numbers
Large == net # <<>> /\ (~Real(net) \/ RGt(Size(net), "1e9"))
TLarge == Large /\ Excuse("large parameters") /\ UNCHANGED <<nvars, phase0>>
TNext == More /\ (IF Large THEN TLarge ELSE TNet \/ TTrain \/ TEval \/ TProduced \/ TPanic)
TSpec == TInit /\ [][TNext]_tvars
TView == <<t, l, phase0>>
=============================================================================
