---------------------------- MODULE TraceSimplex ----------------------------
(***************************************************************************)
(* Edges, margins, entropies and projections of the real code (B17).       *)
(***************************************************************************)
EXTENDS Simplex, TraceBase
VARIABLE at0
tvars == <<gvars, xvars, t, l, note, at0>>

C(name, cond, info) == Clause("B17", name, cond, R.id, l, info)
TInit == TraceInit /\ XInit /\ GInit /\ at0 = 0
Stay == at0' = l /\ UNCHANGED gvars

Mag(s) == RMax("1", RMaxOf(Map(RAbs, s)))
Vec(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : IsReal(a[i]) /\ RNear(a[i], b[i], tol)

\* the sample, the confidences of the hypotheses on it and the votes of the run
Y == R.y
H == R.h
W == R.w
m == Len(Y)
Mar(c) == [i \in 1..m |-> RMul(Y[i], c[i])]
VoteAt(i) == RDot(W, [k \in 1..Len(H) |-> H[k][i]])
VoteMar == [i \in 1..m |-> RMul(Y[i], VoteAt(i))]
Size(i) == RAdd("1e-300", RDot(Map(RAbs, W), [k \in 1..Len(H) |-> RAbs(H[k][i])]))
NearVote(v, i) == IsReal(v) /\ RNear(v, VoteMar[i], RMul("1e-13", Size(i)))

\* a projection: the search runs silently to its end
TProject == /\ E.e = "project" /\ at0 # l
            /\ Request(CASE E.of = "logs" -> E.logs
                        [] E.of = "margins" -> [i \in 1..Len(E.logs) |-> RNeg(RMul(E.eta, E.logs[i]))]
                        [] E.of = "vote" -> [i \in 1..m |-> RNeg(RMul(E.eta, VoteMar[i]))], E.nu)
            /\ at0' = l /\ UNCHANGED <<gvars, t, l, note>>
TSearch == /\ E.e = "project" /\ at0 = l /\ (CapNext \/ Finish) /\ UNCHANGED <<gvars, t, l, note, at0>>
TProjected ==
  /\ E.e = "project" /\ at0 = l /\ dist # <<>>
  /\ C("the projection onto the capped simplex", Vec(E.d, dist, RMul("1e-11", RMax("100", Mag(logs)))),
       <<logs, cap, Map(RShow, dist), E.d>>)
  /\ C("a projection is a distribution", IsDist(E.d, n, "1e-6") /\ \A i \in 1..n : RLe(E.d[i], RAdd(cap, "1e-9")), E.d)
  /\ Reset /\ Advance /\ UNCHANGED <<gvars, at0>>

TValue ==
  /\ UNCHANGED xvars /\ Advance /\ Stay
  /\ \/ /\ E.e = "margins"
        /\ C("margins of a hypothesis", Vec(E.v, Mar(H[E.k]), RMul("1e-15", Mag(H[E.k]))), <<E, Y, H[E.k]>>)
     \/ /\ E.e = "edge"
        /\ C("edge of a hypothesis", IsReal(E.v) /\ RNear(E.v, RDot(E.d, Mar(H[E.k])), RMul("1e-13", Mag(H[E.k]))), <<E, Y, H[E.k]>>)
     \/ /\ E.e = "votemargins"
        /\ C("margins of a vote", Len(E.v) = m /\ \A i \in 1..m : NearVote(E.v[i], i), <<E, Map(RShow, VoteMar)>>)
     \/ /\ E.e = "voteedge"
        /\ C("edge of a vote", IsReal(E.v) /\ RNear(E.v, RDot(E.d, VoteMar), RMul("1e-13", RMaxOf([i \in 1..m |-> Size(i)]))), E)
     \/ /\ E.e = "logexp"
        /\ C("logarithms of the exponential distribution",
             Len(E.v) = m /\ \A i \in 1..m : IsReal(E.v[i]) /\ RNear(E.v[i], RNeg(RMul(E.eta, VoteMar[i])), RMul("1e-13", RMul(E.eta, Size(i)))), E)
     \/ /\ E.e = "entropy"
        /\ C("entropy", IsReal(E.v) /\ RNear(E.v, NegEntropy(E.d), "1e-12"), <<E, RShow(NegEntropy(E.d))>>)
        /\ C("relative entropy to the uniform distribution", IsReal(E.u) /\ RNear(E.u, KLUniform(E.d), "1e-12"), <<E, RShow(KLUniform(E.d))>>)
     \/ /\ E.e = "inner"
        /\ C("inner product", IsReal(E.v) /\ RNear(E.v, RDot(E.a, E.b), RMul("1e-14", RAdd("1e-300", RDot(Map(RAbs, E.a), Map(RAbs, E.b))))), E)
     \/ /\ E.e = "normalize"
        /\ C("normalised by the sum of absolute values", Vec(E.v, NormaliseAbs(E.a), "1e-13"), E)

TPanic == E.e = "panic" /\ C("no failure", FALSE, E) /\ Excuse("failure") /\ UNCHANGED <<gvars, xvars, at0>>
TNext == More /\ (TProject \/ TSearch \/ TProjected \/ TValue \/ TPanic)
TSpec == TInit /\ [][TNext]_tvars
TView == <<t, l, at0, logs, capped, dist>>
=============================================================================
