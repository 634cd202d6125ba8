---------------------------- MODULE TraceSmooth -----------------------------
(***************************************************************************)
(* Runs of the real SmoothBoost are behaviours of SmoothBoost (B05).       *)
(***************************************************************************)
EXTENDS SmoothBoost, TraceBase

VARIABLE mode
tvars == <<gvars, svars, t, l, note, mode>>
m == R.m
C(name, cond, info) == Clause("B05", name, cond, R.id, l, info)

TInit == TraceInit /\ mode = "" /\ SInit(Param(R, "tol", "1/2"), Param(R, "gamma", "1/2"))

\* decisions within rounding of the threshold are not judged
Below == RLt(Total, RSub(Goal, "1e-9"))
Above == RGe(Total, RAdd(Goal, "1e-9"))
NoLimit == RLe(gamma, "0")
AtLimit == ~NoLimit /\ RGe(Len(hist), RSub(LimitReal, "1e-6"))
Short   == NoLimit \/ RLe(Len(hist), RSub(LimitReal, "1e-6"))
Over    == ~NoLimit /\ RGe(Len(hist), RAdd(LimitReal, "1.000001"))

AskOK(q) ==
  /\ C("one entry per example", Len(q) = m /\ AllReal(q), q)
  /\ C("distribution follows the measure",
       LET sd == SDist IN \A i \in 1..m : RLe(RAbs(RSub(q[i], sd[i])), RAdd("1e-300", RMul("1e-9", sd[i]))), <<Map(RShow, SDist), q>>)
  /\ C("distribution is smooth", Capped(q, RMul(kappa, m), "1e-9"), q)
  /\ C("no query once the measure is small", ~Below, RShow(Total))
  /\ C("no query beyond the round limit", ~AtLimit, <<Len(hist), RShow(LimitReal)>>)

TBegin == /\ E.e = "begin" /\ phase = "idle"
          /\ IF E.mode = "run" THEN SPre(m) ELSE UNCHANGED <<gvars, svars>>
          /\ mode' = E.mode /\ Advance
TPre == E.e = "pre" /\ SPre(m) /\ Advance /\ UNCHANGED mode

TAsk == /\ E.e = "ask" /\ phase = "ready"
        /\ AskOK(E.d)
        /\ SAsk(E.d, E.u, E.h)
        /\ Advance /\ UNCHANGED mode

TGoOn == /\ E.e \in {"ask", "limit", "end"} /\ mode = "run" /\ phase = "asked"
         /\ SContinue /\ UNCHANGED <<t, l, note, mode>>

\* a round that queried goes on; the next one decides
Votes(w, h) ==
  /\ C("votes for every hypothesis received", h = [k \in 1..Len(hist) |-> hist[k].h] /\ Len(w) = Len(h), <<w, h>>)
  /\ C("votes are equal", w # <<>> /\ AllReal(w) /\ RGt(w[1], "0") /\ \A k \in 1..Len(w) : RClose(w[k], w[1], "1e-9"), w)

TStep == /\ E.e = "step" /\ phase = "asked"
         /\ C("a round that queries goes on", E.flow = "C", E)
         /\ SContinue
         /\ C("a combination exists", E.cok = 1, E)
         /\ Votes(E.cw, E.ch)
         /\ Advance /\ UNCHANGED mode

WhyStop == /\ C("stops for a small measure or at the limit", ~Above \/ AtLimit, <<RShow(Total), RShow(Goal), Len(hist)>>)

TStepQuit == /\ E.e = "step" /\ phase = "ready"
             /\ C("a round without a query stops", E.flow = "B", E)
             /\ WhyStop
             /\ SQuit /\ Advance /\ UNCHANGED mode

TFinish == /\ E.e = "end" /\ mode = "run" /\ phase = "ready"
           /\ WhyStop /\ SQuit /\ UNCHANGED <<t, l, note, mode>>

BadEnd(f) == Cardinality({i \in 1..m : RLe(RMul(R.y[i], f[i]), RSub(Theta, "1e-9"))})
TEnd == /\ E.e = "end" /\ phase = "stopped"
        /\ Votes(E.w, E.h)
        /\ C("votes sum to one", RNear(RSum(E.w), "1", "1e-9"), E.w)
        /\ C("few examples have a small margin",
             Below => RLt(RDiv(BadEnd(E.f), m), kappa), E.f)
        /\ SPost /\ Advance /\ UNCHANGED mode

TPanic == E.e = "panic" /\ C("no failure", FALSE, E) /\ Excuse("failure") /\ UNCHANGED <<gvars, svars, mode>>
TLimit == E.e = "limit" /\ phase = "ready" /\ ~Below
          /\ C("the game ends at its limit", ~AtLimit, E)
          /\ Advance /\ UNCHANGED <<gvars, svars, mode>>

TNext == More /\ (TBegin \/ TPre \/ TAsk \/ TGoOn \/ TStep \/ TStepQuit \/ TFinish \/ TEnd \/ TPanic \/ TLimit)
TSpec == TInit /\ [][TNext]_tvars
TView == <<t, l, phase>>
=============================================================================
