----------------------------- MODULE TraceVote ------------------------------
(***************************************************************************)
(* Operations on the real WeightedMajority are behaviours of Vote (B14).   *)
(* After every operation the harness observes its weights, members, and    *)
(* every form of evaluation on every row.                                  *)
(***************************************************************************)
EXTENDS Vote, TraceBase
tvars == <<vvars, t, l, note>>
C(name, cond, info) == Clause("B14", name, cond, R.id, l, info)
phase == alive
TInit == TraceInit /\ VInit

Ans(m, row) == R.tab[m + 1][row]
Val(row) == RDot(w, [k \in 1..Len(h) |-> Ans(h[k], row)])
Scale(row) == RMax("1", RSum([k \in 1..Len(h) |-> RAbs(RMul(w[k], Ans(h[k], row)))]))
EPS == "1e-12"
NR == Len(R.tab[1])

\* what the harness sees after the operation, in the next event
TOp == /\ E.e \in {"build", "new", "push", "norm", "store"}
       /\ CASE E.e = "build" -> Build(E.w, E.h)
            [] E.e = "new" -> New
            [] E.e = "push" -> Push(E.w[1], E.h[1])
            [] E.e = "norm" -> Normalize
            [] E.e = "store" -> StoreLoad
       /\ Advance

TObs == /\ E.e = "obs" /\ alive
        /\ C("weights and members stay paired", E.h = h /\ Len(E.w) = Len(w), <<h, E.h, E.w>>)
        /\ C("weights", AllReal(E.w) /\ \A i \in 1..Len(w) : RNear(E.w[i], w[i], RMul(EPS, RMax("1", RAbs(w[i])))), <<Map(RShow, w), E.w>>)
        /\ C("taken apart, the parts are the weights and members", E.dw = E.w /\ E.dh = E.h, <<E.dw, E.dh>>)
        /\ C("confidence is the weighted sum of the members' confidences",
             Len(E.conf) = NR /\ \A r \in 1..NR : RNear(E.conf[r], Val(r), RMul(EPS, Scale(r))), <<E.conf, [r \in 1..NR |-> RShow(Val(r))]>>)
        /\ C("a label is +1 exactly when the confidence is not negative",
             Len(E.pred) = NR /\ \A r \in 1..NR : E.pred[r] = Label(E.conf[r]), <<E.conf, E.pred>>)
        /\ C("confidences of all rows agree with the rows", E.confall = E.conf, <<E.conf, E.confall>>)
        /\ C("labels of all rows agree with the rows", E.predall = E.pred, <<E.pred, E.predall>>)
        /\ C("the regression value is the weighted sum of the members' values",
             Len(E.reg) = NR /\ E.regall = E.reg /\ \A r \in 1..NR : RNear(E.reg[r], Val(r), RMul(EPS, Scale(r))), <<E.reg, E.regall>>)
        \* what is observed is the state to go on from
        /\ w' = Map(RNorm, E.w) /\ UNCHANGED <<h, alive>>
        /\ Advance

\* a hypothesis of a real weak learner, stored and loaded
TStored == /\ E.e = "stored"
           /\ C("a stored hypothesis answers as before", E.after = E.before, <<E.kind, E.before, E.after>>)
           /\ C("a stored hypothesis is the same hypothesis", E.same, E.kind)
           /\ Advance /\ UNCHANGED vvars

TPanic == E.e = "panic" /\ C("no failure", FALSE, E) /\ Excuse("failure") /\ UNCHANGED vvars
TNext == More /\ (TOp \/ TObs \/ TStored \/ TPanic)
TSpec == TInit /\ [][TNext]_tvars
TView == <<t, l, phase>>
=============================================================================
