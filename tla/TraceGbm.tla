------------------------------ MODULE TraceGbm ------------------------------
(***************************************************************************)
(* Runs of the real GBM are behaviours of Gbm (B16).  The coefficient of a *)
(* round shows in the next query, or in the output.                        *)
(***************************************************************************)
EXTENDS Gbm, TraceBase

VARIABLE mode
tvars == <<gvars, bvars, t, l, note, mode>>
m == R.m
C(name, cond, info) == Clause("B16", name, cond, R.id, l, info)
EPS == "1e-9"

TInit == TraceInit /\ mode = "" /\ BInit(R.loss, R.y)

Scale == RMaxOf([i \in 1..m |-> RMax("1", RMax(RAbs(y[i]), RAbs(f[i])))])
Close(a, b) == \A i \in 1..m : RNear(a[i], b[i], RMul(EPS, Scale))
ScaledLoss == IF loss = "L1" THEN Scale ELSE RSq(Scale)

Big(p) == CHOOSE i \in 1..m : \A j \in 1..m : RLe(RAbs(p[j]), RAbs(p[i]))

\* small integers: the code's arithmetic is exact
Exact(s) == \A i \in 1..m : REq(s[i], RFloor(s[i])) /\ RLe(RAbs(s[i]), "1000")
MustStop(p) == \/ Zero(p)
               \/ Zero(Res) /\ Exact(p)
               \/ loss = "L2" /\ Exact(p) /\ Exact(Res) /\ REq(RDot(Res, p), "0")
MayStop(p) == RLe(LossOf(f), RAdd(BestLoss(p), RMul(EPS, ScaledLoss)))

Optimal(c) ==
  C("the coefficient is optimal",
    RLe(LossOf(Plus(f, c, NewP)), RAdd(BestLoss(NewP), RMul(EPS, ScaledLoss))),
    <<RShow(c), Map(RShow, Res), NewP>>)

TBegin == /\ E.e = "begin" /\ phase = "idle"
          /\ IF E.mode = "run" THEN BPre ELSE UNCHANGED <<gvars, bvars>>
          /\ mode' = E.mode /\ Advance
TPre == E.e = "pre" /\ BPre /\ Advance /\ UNCHANGED mode

TAsk == /\ E.e = "ask" /\ phase = "ready"
        /\ C("one prediction per example", Len(E.d) = m /\ AllReal(E.d), E.d)
        /\ C("the weak learner sees the model's predictions", Close(E.d, f), <<Map(RShow, f), E.d>>)
        /\ C("no query beyond the round limit", Len(hist) < LIMIT, Len(hist))
        /\ Ask(E.d, E.u, E.h)
        /\ f' = Map(RNorm, E.d) /\ UNCHANGED <<loss, y, coefs>>
        /\ Advance /\ UNCHANGED mode

\* a round went on; its coefficient is read off the next query's predictions
Read(q) == LET i == Big(NewP) IN IF Zero(NewP) THEN "0" ELSE RDiv(RSub(q[i], f[i]), NewP[i])
Went(q) == LET c == Read(q) IN
           /\ C("a zero coefficient stops", ~MustStop(NewP), NewP)
           /\ Optimal(c) /\ BAdd(c)

TGoOn == /\ E.e = "ask" /\ phase = "asked" /\ mode = "run"
         /\ C("one prediction per example", Len(E.d) = m /\ AllReal(E.d), E.d)
         /\ Went(E.d) /\ UNCHANGED <<t, l, note, mode>>

TStep == /\ E.e = "step" /\ phase = "asked"
         /\ Clause("B19", "the ending round tells its number", E.flow = "B" => E.at = E.it, R.id, l, E)
         /\ IF E.flow = "B"
            THEN /\ C("stops only for a zero coefficient", MayStop(NewP), <<Map(RShow, Res), NewP>>)
                 /\ BStop
            ELSE \* the next event that shows numbers: a query or the output
                 LET nx == R.ev[l + 1] IN
                 IF nx.e = "ask" THEN Went(nx.d)
                 ELSE IF nx.e = "end" THEN FALSE
                 ELSE IF nx.e = "step" /\ R.ev[l + 2].e = "end"
                 THEN LET c == R.ev[l + 2].w[Len(R.ev[l + 2].w)] IN
                      C("a zero coefficient stops", ~MustStop(NewP), NewP) /\ Optimal(c) /\ BAdd(c)
                 ELSE BStop
         /\ Advance /\ UNCHANGED mode

TStepQuit == /\ E.e = "step" /\ phase = "ready"
             /\ C("a round without a query stops, at the limit", E.flow = "B" /\ Len(hist) = LIMIT, <<E, Len(hist)>>)
             /\ Clause("B19", "the ending round tells the limit", E.at = Len(hist), R.id, l, E)
             /\ BQuit /\ Advance /\ UNCHANGED mode

\* in a run the output tells how the last round went
TFinish == /\ E.e = "end" /\ mode = "run" /\ phase = "asked"
           /\ IF Len(E.w) < Len(hist)
              THEN C("stops only for a zero coefficient", MayStop(NewP), <<Map(RShow, Res), NewP>>) /\ BStop
              ELSE /\ C("goes on to the round limit", Len(hist) = LIMIT, Len(hist))
                   /\ Optimal(E.w[Len(hist)]) /\ BAdd(E.w[Len(hist)])
           /\ UNCHANGED <<t, l, note, mode>>
TFinishReady == /\ E.e = "end" /\ mode = "run" /\ phase = "ready" /\ BQuit /\ UNCHANGED <<t, l, note, mode>>

TEnd == /\ E.e = "end" /\ phase = "stopped"
        /\ C("the output has every regressor with its coefficient",
             Len(E.w) = Len(coefs) /\ E.h = [k \in 1..Len(coefs) |-> hist[k].h], <<E.w, E.h>>)
        /\ C("coefficients of the output",
             \A k \in 1..Len(coefs) : RClose(E.w[k], coefs[k], "1e-5"), <<Map(RShow, coefs), E.w>>)
        /\ C("the output evaluates to the additive model on the training rows",
             \A i \in 1..m : RNear(E.f[i], RDot(E.w, [k \in 1..Len(E.h) |-> R.tab[E.h[k] + 1][i]]), RMul(EPS, Scale))
                             /\ RNear(E.f[i], f[i], RMul("1e-6", Scale)), <<E.f, Map(RShow, f)>>)
        /\ C("the output evaluates to the additive model on other rows",
             \A i \in 1..R.q : RClose(E.qf[i], RDot(E.w, [k \in 1..Len(E.h) |-> R.tab[E.h[k] + 1][m + i]]), "1e-7"), E.qf)
        /\ BPost /\ Advance /\ UNCHANGED mode

TPanic == E.e = "panic" /\ C("no failure", FALSE, E) /\ Excuse("failure") /\ UNCHANGED <<gvars, bvars, mode>>
TLimit == E.e = "limit" /\ C("no query beyond the round limit", R.limit < LIMIT, R.limit)
          /\ Advance /\ UNCHANGED <<gvars, bvars, mode>>

TNext == More /\ (TBegin \/ TPre \/ TAsk \/ TGoOn \/ TStep \/ TStepQuit \/ TFinish \/ TFinishReady \/ TEnd \/ TPanic \/ TLimit)
TSpec == TInit /\ [][TNext]_tvars
TView == <<t, l, phase>>
=============================================================================
