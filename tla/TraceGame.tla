----------------------------- MODULE TraceGame ------------------------------
(***************************************************************************)
(* Runs of any of the eleven classification boosters are behaviours of     *)
(* Game.  Properties                                                       *)
(*   B01  every query is a probability distribution                        *)
(*   B02  soft-margin boosters respect the cap 1/nu                        *)
(*   B13  the protocol, the round limits, repeatability                    *)
(*   B14  the combined hypothesis is the weighted vote of its parts        *)
(*   B19  the end of a game is told (Ending)                               *)
(*                                                                         *)
(* A run may hold several games ("begin"): the first ends before the next  *)
(* one begins.  A booster is a strategy: what it asks and outputs depends  *)
(* on the answers of the game alone, not on games played before.           *)
(***************************************************************************)
EXTENDS Game, TraceBase

VARIABLES
  mode,    \* how the current game is driven: "step" | "run"
  games,   \* the games finished: [hist, w, h, f]
  over     \* the step that stopped the game was seen
tvars == <<gvars, t, l, note, mode, games, over>>

m == R.m
C(fam, name, cond, info) == Clause(fam, name, cond, R.id, l, info)

CappedBoosters == {"lpboost", "erlpboost", "softboost", "cerlpboost", "mlpboost"}
Nu == IF R.booster \in CappedBoosters THEN Param(R, "nu", "1") ELSE "1"

----------------------------------------------------------------------------
(* round limits *)
Halved(x) == RDiv(x, "2")
Log(nu) == RLn(RDiv(m, nu))
FWLimit(h, nu) == RMax(RDiv("4", h), RDiv(RMul("8", Log(nu)), RSq(h)))
NoLimit == "1e300"
LimitReal ==
  LET b == R.booster IN
  CASE Has(R, "quit") -> R.p["quit"]
    [] b = "adaboost"  -> RDiv(RLn(m), RSq(Param(R, "tol", RDiv("1", m + 1))))
    [] b = "adaboostv" -> RDiv(RMul("2", RLn(m)), RSq(Param(R, "tol", RDiv("1", m))))
    [] b = "madaboost" -> RDiv(m - 1, RSq(Param(R, "tol", RDiv("1", m + 1))))
    [] b = "smoothboost" ->
         LET g == Param(R, "gamma", "1/2")
         IN  RDiv("2", RMul(Param(R, "tol", "1/2"), RMul(RSq(g), RSqrt(RSub("1", g)))))
    [] b \in {"erlpboost", "cerlpboost", "mlpboost"} -> FWLimit(Halved(Param(R, "tol", "0.01")), Nu)
    [] b \in {"softboost", "totalboost"} ->
         RMax("1", RDiv(RMul("2", Log(Nu)), RSq(Param(R, "tol", RDiv("1", m)))))
    [] b = "lpboost" -> NoLimit
    [] b = "graphsepboost" ->
         LET p == Cardinality({i \in 1..m : R.y[i] = 1}) IN RNorm(p * (m - p) + 1)
\* more than this many queries break the limit (rounding up, with slack at integers)
Beyond(n) == RGt(n, RAdd(RAdd(LimitReal, "1"), "1e-6"))
\* whether a run may stop at the limit: limits are rounded either way
AtLimit(n) == RLe(RAbs(RSub(n, LimitReal)), "1.000001")

----------------------------------------------------------------------------
Near(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) :
                 RLe(RAbs(RSub(a[i], b[i])), RAdd("1e-6", RMul("1e-6", RAbs(b[i]))))

FirstDist ==
  IF R.booster = "graphsepboost"
  THEN LET p == Cardinality({i \in 1..m : R.y[i] = 1})
       IN  [i \in 1..m |-> RDiv("1/2", IF R.y[i] = 1 THEN p ELSE m - p)]
  ELSE Uniform(m)

\* as far as both go, the answers in the game h were those of the current one
SameAnswers(h) == \A k \in 1..Len(hist) : k <= Len(h) => hist[k].h = h[k].h

AskOK ==
  LET q == E.d
      n == Len(hist) + 1
  IN
  /\ C("B01", "one finite entry per example", Len(q) = m /\ AllReal(q), q)
  /\ C("B01", "probability distribution", IsDist(q, m, "1e-6"), q)
  /\ C("B01", "first distribution", n = 1 => Near(q, FirstDist), q)
  /\ C("B02", "no entry above 1/nu",
       R.booster \in CappedBoosters => (AllReal(q) /\ Capped(q, Nu, "1e-6")), <<RShow(Nu), q>>)
  /\ C("B13", "no query beyond the round limit", ~Beyond(n), <<n, RShow(LimitReal)>>)
  /\ C("B13", "equal answers so far, equal question",
       \A k \in 1..Len(games) :
         (Len(games[k].hist) >= n - 1 /\ SameAnswers(games[k].hist)) =>
           (n <= Len(games[k].hist) /\ Near(q, games[k].hist[n].d)), <<n, q>>)

TInit == TraceInit /\ GInit /\ mode = "" /\ games = <<>> /\ over = FALSE

(* the value the ending round carries: Ending!Told *)
TestsFirst == R.booster \in {"smoothboost", "graphsepboost"}
ToldOK ==
  IF phase = "asked" THEN E.at = E.it
  ELSE \/ E.at = E.it - 1 /\ R.booster # "graphsepboost" /\ AtLimit(Len(hist))
       \/ E.at = E.it /\ TestsFirst

TBegin ==
  /\ E.e = "begin" /\ phase = "idle"
  /\ C("B19", "nothing has ended before the first game", E.fresh = 1 /\ E.fin >= 0 => E.fin = 0, E.fin)
  /\ mode' = E.mode /\ over' = FALSE
  /\ IF E.mode = "run" THEN Preprocess ELSE UNCHANGED gvars
  /\ Advance /\ UNCHANGED games

TPre == E.e = "pre" /\ Preprocess /\ Advance /\ UNCHANGED <<mode, games, over>>

(* The votes of AdaBoostV may be undefined; the vote does not exist then.  *)
ZeroEdge(q) == RNear(Edge(q.d, q.u), "0", "1e-9")
NoVote ==
  R.booster = "adaboostv" /\ \E k \in 1..Len(hist) :
       RLe(Edge(hist[k].d, hist[k].u), RAdd("-0.999999", Param(R, "tol", RDiv("1", m))))

Undefined == R.booster = "adaboostv" /\ NoVote

TUndefined == /\ More /\ phase = "ready" /\ Undefined
              /\ Excuse("margin estimate below -1") /\ UNCHANGED <<gvars, mode, games, over>>

TAsk ==
  /\ E.e = "ask" /\ phase = "ready" /\ ~Undefined
  /\ AskOK
  /\ Ask(E.d, E.u, E.h)
  /\ Advance /\ UNCHANGED <<mode, games, over>>

\* in a game driven by run the rounds' results are inferred
TGoOn ==
  /\ E.e \in {"ask", "limit"} /\ phase = "asked" /\ mode = "run"
  /\ Continue /\ UNCHANGED <<t, l, note, mode, games, over>>

\* a second query in one round, or a query outside a round
TBadAsk ==
  /\ E.e = "ask" /\ ~(phase = "ready") /\ ~(phase = "asked" /\ mode = "run")
  /\ C("B13", "one query per round, within rounds", FALSE, phase)
  /\ Excuse("query outside the protocol") /\ UNCHANGED <<gvars, mode, games, over>>

Subsequence(h) ==
  LET RECURSIVE Sub(_, _)
      Sub(a, b) == IF a = <<>> THEN TRUE ELSE IF b = <<>> THEN FALSE
                   ELSE IF Head(a) = Head(b) THEN Sub(Tail(a), Tail(b)) ELSE Sub(a, Tail(b))
  IN  Sub(h, [k \in 1..Len(hist) |-> hist[k].h])

TStep ==
  /\ E.e = "step" /\ phase \in {"ready", "asked"}
  /\ C("B13", "a round that goes on has queried", E.flow = "C" => phase = "asked", E)
  /\ C("B13", "current hypotheses were received",
       (E.cok = 1 /\ R.booster # "graphsepboost") => Subsequence(E.ch), E.ch)
  /\ C("B19", "the ending round tells its number", E.flow = "B" => ToldOK, <<E.at, E.it, phase, RShow(LimitReal)>>)
  /\ IF phase = "asked" THEN IF E.flow = "B" THEN Stop ELSE Continue
     ELSE IF E.flow = "B" THEN Quit ELSE UNCHANGED gvars
  /\ over' = (E.flow = "B")
  /\ Advance /\ UNCHANGED <<mode, games>>

\* in a game driven by run, the end reveals that the last round stopped
TFinish ==
  /\ E.e = "end" /\ mode = "run" /\ phase \in {"ready", "asked"}
  /\ IF phase = "asked" THEN Stop ELSE Quit
  /\ UNCHANGED <<t, l, note, mode, games, over>>

ConfOf(h, i) == LET k == CHOOSE j \in 1..Len(hist) : hist[j].h = h
                IN  IF R.y[i] = 1 THEN hist[k].u[i] ELSE RNeg(hist[k].u[i])
Known(h) == \A k \in 1..Len(h) : \E j \in 1..Len(hist) : hist[j].h = h[k]

Vote(w, h, i) == RDot(w, [k \in 1..Len(h) |-> ConfOf(h[k], i)])

EndOK ==
  LET w == E.w
      h == E.h
      f == E.f
      naive == R.booster = "graphsepboost"
  IN
  /\ C("B13", "output hypotheses were received, in order", naive \/ Subsequence(h), h)
  /\ C("B13", "a game is not empty", hist # <<>>, E)
  /\ C("B13", "the same game has the same output",
       \A k \in 1..Len(games) : SameAnswers(games[k].hist) =>
         LET g == games[k] IN
         /\ Len(hist) = Len(g.hist)
         /\ h = g.h /\ Near(w, g.w) /\ Near(f, g.f), <<w, h>>)
  /\ C("B14", "one weight per hypothesis", Len(w) = Len(h), <<w, h>>)
  /\ C("B14", "one value per row", Len(f) = m /\ Len(E.p) = m, f)
  /\ C("B14", "the confidence is the weighted vote",
       naive \/ (Known(h) /\ \A i \in 1..m : RNear(f[i], Vote(w, h, i), "1e-9")), f)
  /\ C("B14", "the label is the sign of the confidence",
       \A i \in 1..m : E.p[i] = (IF RGe(f[i], "0") THEN 1 ELSE -1), <<f, E.p>>)

TEnd ==
  /\ E.e = "end" /\ phase = "stopped"
  /\ EndOK
  /\ C("B19", "terminated() is the number of rounds played", E.fin >= 0 => E.fin = Len(hist), <<E.fin, Len(hist)>>)
  /\ games' = Append(games, [hist |-> hist, w |-> E.w, h |-> E.h, f |-> E.f])
  /\ Postprocess
  /\ Advance /\ UNCHANGED <<mode, over>>

\* postprocess before the game has stopped
TBadEnd ==
  /\ E.e = "end" /\ mode = "step" /\ phase \in {"ready", "asked"}
  /\ C("B13", "a game ends by a stop", FALSE, phase)
  /\ Excuse("end outside the protocol") /\ UNCHANGED <<gvars, mode, games, over>>

TPanic ==
  /\ E.e = "panic"
  /\ C("B02", "a legal nu is accepted",
       ~(R.booster \in CappedBoosters /\ E.at \in {"preprocess", "init"}) /\ ~(E.at = "run" /\ hist = <<>>), E)
  /\ C("B01", "a round hands out a distribution", ~(mode = "step" /\ phase = "ready") \/ (hist # <<>> /\ NoVote), E)
  /\ C("B13", "the game ends without a failure", hist # <<>> /\ NoVote, E)
  /\ Excuse("failure") /\ UNCHANGED <<gvars, mode, games, over>>

TLimit == /\ E.e = "limit" /\ ~(phase = "asked" /\ mode = "run")
          /\ Advance /\ UNCHANGED <<gvars, mode, games, over>>

TNext ==
  /\ More
  /\ \/ TUndefined \/ TBegin \/ TPre \/ TAsk \/ TGoOn \/ TBadAsk \/ TStep \/ TFinish \/ TEnd \/ TBadEnd \/ TPanic \/ TLimit

TSpec == TInit /\ [][TNext]_tvars
TView == <<t, l, phase>>
=============================================================================
