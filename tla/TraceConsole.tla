---------------------------- MODULE TraceConsole ----------------------------
(* What the real logger printed, against Console (R03).  R.m, R.mt: rows   *)
(* of the training and the test sample, R.want: what booster and weak      *)
(* learner say about themselves.                                           *)
EXTENDS Console, TraceBase
tvars == <<cvars, t, l, note>>
C(name, cond, info) == Clause("R03", name, cond, R.id, l, info)
TInit == TraceInit /\ CInit

TGive == E.e = "give" /\ Give(E.c, E.v) /\ Advance
TLimit == E.e = "limit" /\ SetLimit(E.v, E.u) /\ Advance
TEvery == E.e = "every" /\ SetEvery(E.v) /\ Advance
TBuild == /\ E.e = "build"
          /\ C("a logger is built exactly if no component is missing", (E.ok = 1) <=> Complete, <<parts, E>>)
          /\ Build /\ Advance

TStats ==
  /\ E.e = "stats"
  /\ C("the settings are printed once, first", phase = "built", phase)
  /\ C("the booster is named", E.booster = R.want.booster, E.booster)
  /\ C("the booster's settings are printed", E.brows = R.want.brows, <<E.brows, R.want.brows>>)
  /\ C("the weak learner given last is named", E.learner = parts["learner"], <<E.learner, parts>>)
  /\ C("the weak learner's settings are printed", E.lrows = R.want.lrows, <<E.lrows, R.want.lrows>>)
  /\ C("the objective given last is named", E.objective = parts["objective"], <<E.objective, parts>>)
  /\ C("the time limit in force is printed",
       IF limit = "-" THEN E.limit = <<>> ELSE SameClock(E.limit, Clock(limit)), <<E.limit, limit>>)
  /\ C("the columns are named unless silent", (E.header = 1) <=> (every # "-"), <<E.header, every>>)
  /\ Start /\ Advance

TRow ==
  /\ E.e = "row"
  /\ C("lines owed are printed", owed = <<>>, owed)
  /\ C("the game goes on until it stops or the time is up", phase = "running", <<phase, n, E, limit>>)
  /\ C("the losses are those on the samples given last", REq(E.train, R.m) /\ REq(E.test, R.mt), <<E, R.m, R.mt>>)
  /\ Round(E.ms, E.last = 1) /\ Advance

Digits == "51/10000000"
Same(a, b) == IF IsReal(b) THEN IsReal(a) /\ RLe(RAbs(RSub(a, b)), RAdd(Digits, RMul("1/1000000000000", RAbs(b)))) ELSE a = b
TLine ==
  /\ E.e = "line"
  /\ C("a line is printed when it is owed", owed # <<>> /\ <<E.kind, E.round>> = Head(owed), <<E, owed>>)
  /\ LET r == R.rows[E.round] IN
     /\ C("a line shows the values of its round", Same(E.obj, r.obj) /\ Same(E.train, r.train) /\ Same(E.test, r.test), <<E, r>>)
     /\ C("a line shows the time of its round", SameClock(E.time, Clock(r.ms)), <<E.time, r.ms>>)
  /\ PrintLine(<<E.kind, E.round>>) /\ Advance
TEnd == /\ E.e = "end"
        /\ C("lines owed are printed", owed = <<>>, owed)
        /\ C("the game ends by a stop or at the time limit", phase \in {"over", "refused"}, <<phase, n>>)
        /\ Advance /\ UNCHANGED cvars
TPanic == E.e = "panic" /\ C("no failure", FALSE, E) /\ Excuse("failure") /\ UNCHANGED cvars
TExcuse == E.e = "excuse" /\ Excuse(E.why) /\ UNCHANGED cvars
TNext == More /\ (TGive \/ TLimit \/ TEvery \/ TBuild \/ TStats \/ TRow \/ TLine \/ TEnd \/ TPanic \/ TExcuse)
TSpec == TInit /\ [][TNext]_tvars
TView == <<t, l, phase>>
=============================================================================
