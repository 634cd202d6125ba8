---------------------------- MODULE TraceLogger -----------------------------
(***************************************************************************)
(* Runs of the real logger are behaviours of Logger (R01), with the        *)
(* booster's rounds as in a game driven by hand (R.ref: queries, the       *)
(* combination's answers after every round, and the output after as many   *)
(* rounds as the logger made).  R.file holds the rows of the log file.     *)
(***************************************************************************)
EXTENDS Logger, TraceBase
tvars == <<lvars, t, l, note>>

C(name, cond, info) == Clause("R01", name, cond, R.id, l, info)
Near(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : RLe(RAbs(RSub(a[i], b[i])), RAdd("1e-7", RMul("1e-7", RAbs(b[i]))))
\* the same number, or both no number
Equal(a, b) == IF IsReal(b) THEN IsReal(a) /\ RLe(RAbs(RSub(a, b)), RMul("1e-9", RAdd("1e-9", RAbs(b)))) ELSE a = b

TInit == TraceInit /\ LInit

TStart == /\ E.e = "start" /\ LStart(E.limit) /\ Advance

\* the query is that of a game driven by hand
TAsk ==
  /\ E.e = "ask" /\ phase = "ready" /\ pending = {} /\ Len(rows) = round
  /\ LET n == Len(hist) + 1 IN
     /\ C("as many queries as without the logger", n <= Len(R.ref.asks), n)
     /\ C("the query is that of the booster", Near(E.d, R.ref.asks[n].d), <<n, E.d, R.ref.asks[n].d>>)
     /\ IF Near(E.d, R.ref.asks[n].d) THEN LAsk(E.d, <<>>, E.h) /\ Advance
        ELSE Excuse("games part") /\ UNCHANGED lvars

Last == round >= Len(R.ref.cur)
RowTime(k) == IF k <= Len(R.file.rows) THEN R.file.rows[k].ms ELSE clock
\* the first evaluation shows that the round is over
TRound ==
  /\ E.e = "eval" /\ pending = {}
  /\ LET k == Len(rows) + 1 IN
     /\ phase = "asked" \/ (phase = "ready" /\ k = Len(R.ref.cur) /\ Len(rows) = round)
     /\ C("time never runs backwards", RowTime(k) >= clock, <<k, R.file.rows>>)
     /\ C("the time of a round is counted", RowTime(k) - clock >= R.sleep[k], <<k, R.file.rows, R.sleep>>)
     /\ LRound(k = Len(R.ref.cur), RowTime(k) - clock)
  /\ UNCHANGED <<t, l, note>>

\* the evaluation is of the booster's combination after the round
TEval ==
  /\ E.e = "eval" /\ pending # {}
  /\ C("one evaluation of each kind per round", E.k \in pending, <<E.k, pending, round>>)
  /\ LET want == R.ref.cur[round] IN
     C("evaluated is the combination after the round, on the right sample",
       Near(E.conf, IF E.k = "test" THEN want.te ELSE want.tr), <<E, round>>)
  /\ LEval(E.k, E.v) /\ Advance

TRow ==
  /\ phase = "ready" /\ pending = {} /\ Len(rows) < round /\ More
  /\ C("one row per round", round <= Len(R.file.rows), <<round, R.file.rows>>)
  /\ LET f == R.file.rows[round] IN
     C("a row holds the values of its round", f.n = 4 /\ Equal(f.obj, vals["objective"]) /\ Equal(f.train, vals["train"]) /\ Equal(f.test, vals["test"]),
       <<f, vals>>)
  /\ LRow /\ UNCHANGED <<t, l, note>>

\* the logger went on although the game was over
TLate ==
  /\ phase = "stopped" /\ E.e \in {"ask", "eval"}
  /\ C("nothing is played after the end", FALSE, <<E.e, stop, clock, limit>>)
  /\ Excuse("late") /\ UNCHANGED lvars
\* a query when the round's evaluations are not done, or a second one
TBad ==
  /\ E.e = "ask" /\ phase # "stopped" /\ (pending # {} \/ phase = "asked")
  /\ C("every round is evaluated", FALSE, <<pending, phase, round>>)
  /\ Excuse("order") /\ UNCHANGED lvars

TEnd ==
  /\ E.e = "end" /\ pending = {} /\ Len(rows) = round
  /\ C("the game ends by a stop or at the time limit", phase = "stopped", <<round, clock, limit, R.file.rows>>)
  /\ C("the file has a header", R.file.header = "ObjectiveValue,TrainLoss,TestLoss,Time", R.file.header)
  /\ C("one row per round and nothing else", Len(R.file.rows) = round /\ R.file.tail = 1, <<round, R.file>>)
  /\ C("only rounds are timed", clock <= E.wall, <<clock, E.wall>>)
  /\ C("the output is that of the booster", Near(E.out, R.ref.out), <<E.out, R.ref.out>>)
  /\ LEnd /\ Advance
TMissing ==
  /\ E.e = "end" /\ (pending # {} \/ phase = "asked")
  /\ C("the last round is evaluated", FALSE, <<pending, phase, round>>)
  /\ Excuse("end") /\ UNCHANGED lvars

TExcuse == E.e = "excuse" /\ Excuse(E.why) /\ UNCHANGED lvars
TPanic == E.e = "panic" /\ C("no failure", FALSE, E) /\ Excuse("failure") /\ UNCHANGED lvars

TNext == More /\ (TStart \/ TAsk \/ TRound \/ TEval \/ TRow \/ TLate \/ TBad \/ TEnd \/ TMissing \/ TExcuse \/ TPanic)
TSpec == TInit /\ [][TNext]_tvars
TView == <<t, l, phase, round, pending, Len(rows)>>
=============================================================================
