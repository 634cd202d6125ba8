--------------------------- MODULE TraceExpBoost ----------------------------
(***************************************************************************)
(* Runs of the real AdaBoost, AdaBoostV and MadaBoost are behaviours of    *)
(* ExpBoost.  Properties B03 (ada), B04 (adav), B06 (mada).                *)
(*                                                                         *)
(* Events: begin, pre (preprocess returned), ask (the weak learner was     *)
(* queried), step (a boosting round returned; current combination cw/ch),  *)
(* end (postprocess returned; output w/h, its confidences f and            *)
(* predictions p on the sample), panic, limit.                             *)
(* In mode "run" only begin, ask and end are visible: the rounds' results  *)
(* are inferred from the events that follow.                               *)
(***************************************************************************)
EXTENDS ExpBoost, TraceBase

VARIABLE slack    \* how far votes may drift: rounding is amplified by edges near one
tvars == <<gvars, evars, t, l, note, slack>>

Fam(b) == CASE b = "adaboost" -> "B03" [] b = "adaboostv" -> "B04" [] b = "madaboost" -> "B06"
Rule(b) == CASE b = "adaboost" -> "ada" [] b = "adaboostv" -> "adav" [] b = "madaboost" -> "mada"

m == R.m
DefTol(r) == IF r.booster = "adaboostv" THEN RDiv("1", r.m) ELSE RDiv("1", r.m + 1)

C(name, cond, info) == Clause(Fam(R.booster), name, cond, R.id, l, info)

TInit == TraceInit /\ slack = "1e-7" /\ EInit(Rule(R.booster), Param(R, "tol", DefTol(R)))

\* the round limit of each rule; a limit within 1e-9 of an integer may be off by one
LimitReal ==
  CASE rule = "ada"  -> RDiv(RLn(m), RSq(tol))
    [] rule = "adav" -> RDiv(RMul("2", RLn(m)), RSq(tol))
    [] rule = "mada" -> RDiv(m - 1, RSq(tol))
Limits ==
  IF Has(R, "quit") THEN {RFloor(R.p["quit"])}
  ELSE LET x == LimitReal
           f == RFloor(IF rule = "mada" THEN RNeg(x) ELSE x)   \* mada: ceiling
           k == IF rule = "mada" THEN -f ELSE f
       IN  IF RNear(x, k, "1e-9") \/ RNear(x, k + 1, "1e-9") \/ RNear(x, k - 1, "1e-9")
           THEN {k - 1, k, k + 1} ELSE {k}

(* Edges within this distance of +-1 may or may not stop the run: the code *)
(* computes them in floating point.  In the first round over a power of    *)
(* two many examples with +-1 hypotheses the edge is exact.                *)
RIM == "1e-9"
EdgeNow == Edge(Last.d, Last.u)
NearOne(g) == RGe(RAbs(g), RSub("1", RIM))
MustStop == /\ Len(hist) = 1 /\ m \in {2, 4, 8, 16}
            /\ \/ \A i \in 1..m : Last.u[i] = "1.0"
               \/ \A i \in 1..m : Last.u[i] = "-1.0"

Gap(g) == RSub("1", RMin(RAbs(g), RSub("1", RIM)))
\* relative tolerance for the weights after a hypothesis of edge g
TolOf(g) == RAdd("1e-8", RDiv("1e-13", Gap(g)))
Slacker(g) == RAdd(slack, RDiv("1e-13", Gap(g)))

\* votes of tiny size may be dropped by the code and by rounding
Strip(w, h) == SelectSeq([k \in 1..Len(w) |-> <<w[k], h[k]>>], LAMBDA x : RGt(RAbs(x[1]), "1e-9"))
SameVote(w, h, w2, h2, tl) ==
  LET a == Strip(w, h)
      b == Strip(w2, h2)
  IN  /\ Len(a) = Len(b)
      /\ \A k \in 1..Len(a) : a[k][2] = b[k][2] /\ RNear(a[k][1], b[k][1], tl)

\* every vote is zero, up to rounding: there may be no vote to normalise
AllZero(vs) == \A k \in 1..Len(vs) : RLe(RAbs(vs[k]), "1e-12")

OutputOK(w, h, vs, hs, sl) ==
  IF AllZero(vs) THEN C("one weight per hypothesis", Len(w) = Len(h) /\ AllReal(w), <<w, h>>)
  ELSE
  LET nv == NormaliseAbs(vs) IN
  /\ C("one weight per hypothesis", Len(w) = Len(h), <<w, h>>)
  /\ C("output has weights", Len(w) > 0 /\ AllReal(w), w)
  /\ C("output weights sum to one", RNear(SumAbs(w), "1", "1e-9"), w)
  /\ C("output votes", SameVote(w, h, nv, hs, sl), <<Map(RShow, nv), hs, w, h>>)

(* AdaBoostV's margin estimate must be above -1 for its vote to exist.     *)
Estimable(g) == rule = "adav" => RGt(RSub(RMin(g, gmin), tol), RSub(RIM, "1"))

----------------------------------------------------------------------------
\* the queried distribution is the one the rules determine
DistCheck ==
  LET q == E.d
      tl == IF hist = <<>> THEN "1e-12"
            ELSE IF rule = "mada" THEN slack
            ELSE TolOf(Edge(Last.d, Last.u))
  IN
  /\ C("distribution has one real entry per example", Len(q) = m /\ AllReal(q), q)
  /\ C("distribution follows the rule",
       \A i \in 1..m : RLe(RAbs(RSub(q[i], d[i])), RAdd("1e-290", RMul(tl, d[i]))),
       <<Map(RShow, d), q>>)

TBegin ==
  /\ E.e = "begin" /\ phase = "idle"
  /\ IF R.mode = "run" THEN EPre(m) ELSE UNCHANGED <<gvars, evars>>
  /\ slack' = "1e-7"
  /\ Advance

TPre == E.e = "pre" /\ EPre(m) /\ Advance /\ UNCHANGED slack

\* one query when a round may begin
TAskReady ==
  /\ E.e = "ask" /\ phase = "ready"
  /\ DistCheck
  /\ C("no query beyond the round limit", \E k \in Limits : Len(hist) < k, Limits)
  /\ EAsk(E.d, E.u, E.h)
  /\ Advance /\ UNCHANGED slack

\* mode "run": a further query reveals that the previous round went on
TGoOn ==
  /\ E.e = "ask" /\ phase = "asked" /\ R.mode = "run"
  /\ LET g == EdgeNow IN
     /\ C("an edge of one ends the run", ~MustStop, RShow(g))
     /\ IF NearOne(g) \/ ~Estimable(g) THEN Excuse("edge") /\ UNCHANGED <<gvars, evars, slack>>
        ELSE EContinue /\ slack' = Slacker(g) /\ UNCHANGED <<t, l, note>>

\* a round ended: without a query, early, or normally
TStepQuit ==
  /\ E.e = "step" /\ phase = "ready"
  /\ C("a round without a query stops", E.flow = "B", E)
  /\ C("the run goes on to the round limit", Len(hist) \in Limits, <<Len(hist), Limits>>)
  /\ EQuit
  /\ votes # <<>> =>
        /\ C("combination exists", E.cok = 1, E)
        /\ OutputOK(E.cw, E.ch, votes, voters, slack)
  /\ Advance /\ UNCHANGED slack

PerfectAnswer(g) ==
  /\ Stop /\ votes' = <<ToString(RSign(g))>> /\ voters' = <<Last.h>>
  /\ UNCHANGED <<rule, tol, d, gmin, lnb>>

TStepEarly ==
  /\ E.e = "step" /\ phase = "asked" /\ E.flow = "B"
  /\ LET g == EdgeNow IN
     /\ C("only an edge of one ends a round early", NearOne(g), RShow(g))
     /\ PerfectAnswer(g)
     /\ C("a perfect hypothesis is the whole answer",
          E.cok = 1 /\ E.ch = <<Last.h>> /\ Len(E.cw) = 1 /\ RNear(E.cw[1], RSign(g), "1e-9"), E)
  /\ Advance /\ UNCHANGED slack

TStepOn ==
  /\ E.e = "step" /\ phase = "asked" /\ E.flow = "C"
  /\ LET g == EdgeNow IN
     /\ C("an edge of one ends the run", ~MustStop, RShow(g))
     /\ IF NearOne(g) \/ ~Estimable(g) THEN Excuse("edge") /\ UNCHANGED <<gvars, evars, slack>>
        ELSE /\ EContinue /\ slack' = Slacker(g)
             /\ C("combination after a round exists", E.cok = 1, E)
             /\ OutputOK(E.cw, E.ch, votes', voters', slack')
             /\ Advance

\* mode "run": the end reveals how the last round went
TFinishReady ==
  /\ E.e = "end" /\ R.mode = "run" /\ phase = "ready"
  /\ C("the run goes on to the round limit", Len(hist) \in Limits, <<Len(hist), Limits>>)
  /\ EQuit /\ UNCHANGED <<t, l, note, slack>>

TFinishAsked ==
  /\ E.e = "end" /\ R.mode = "run" /\ phase = "asked"
  /\ LET g == EdgeNow
         perfect == NearOne(g) /\ (Len(hist) \notin Limits \/ Len(E.h) = 1)
     IN  IF perfect THEN PerfectAnswer(g) /\ UNCHANGED <<t, l, note, slack>>
         ELSE /\ C("an edge of one ends the run", ~MustStop, RShow(g))
              /\ IF NearOne(g) \/ ~Estimable(g) THEN Excuse("edge") /\ UNCHANGED <<gvars, evars, slack>>
                 ELSE EContinue /\ slack' = Slacker(g) /\ UNCHANGED <<t, l, note>>

(* consequences for the output of a whole run *)
Ones(u) == \A i \in 1..m : u[i] \in {"1.0", "-1.0"}
Margin(w, h, i) ==
  LET u(k) == LET j == CHOOSE j \in 1..Len(hist) : hist[j].h = h[k] IN hist[j].u[i]
  IN  RDot(w, [k \in 1..Len(w) |-> u(k)])
RECURSIVE ZProd(_)
ZProd(hs) == IF hs = <<>> THEN "1"
             ELSE LET g == Edge(Head(hs).d, Head(hs).u) IN RMul(RSqrt(RMax("0", RSub("1", RSq(g)))), ZProd(Tail(hs)))

\* training error is at most the product of sqrt(1 - g^2)
ErrBound ==
  (rule = "ada" /\ \A k \in 1..Len(hist) : Ones(hist[k].u)) =>
    LET wrong == Cardinality({i \in 1..m : RLt(Margin(E.w, E.h, i), "-1e-9")})
        bound == ZProd(hist)
    IN  C("training error bound", RLe(RDiv(wrong, m), RAdd("1e-9", bound)), <<wrong, RShow(bound)>>)

\* after max_loop rounds of best responses the margin is within tol of the smallest edge
MarginBound ==
  (rule = "adav" /\ R.best = 1 /\ ~Has(R, "quit")) =>
    LET mm == RMinOf([i \in 1..m |-> Margin(E.w, E.h, i)])
    IN  C("margin guarantee", RGe(mm, RSub(RSub(gmin, tol), "1e-6")), <<RShow(mm), RShow(gmin)>>)

TEnd ==
  /\ E.e = "end" /\ phase = "stopped"
  /\ OutputOK(E.w, E.h, votes, voters, slack)
  /\ Len(hist) < 60 => (ErrBound /\ MarginBound)
  /\ EPost
  /\ Advance /\ UNCHANGED slack

TPanic ==
  /\ E.e = "panic"
  /\ IF phase = "asked" /\ (~Estimable(EdgeNow) \/ NearOne(EdgeNow)) THEN Excuse("edge") /\ UNCHANGED slack
     ELSE C("no panic", FALSE, E) /\ Advance /\ UNCHANGED slack
  /\ UNCHANGED <<gvars, evars>>

TLimit == E.e = "limit" /\ C("the run ends", FALSE, E) /\ UNCHANGED <<gvars, evars, slack>> /\ Advance

TNext ==
  /\ More
  /\ \/ TBegin \/ TPre \/ TAskReady \/ TGoOn \/ TStepQuit \/ TStepEarly \/ TStepOn
     \/ TFinishReady \/ TFinishAsked \/ TEnd \/ TPanic \/ TLimit

TSpec == TInit /\ [][TNext]_tvars
TView == <<t, l, phase>>
=============================================================================
