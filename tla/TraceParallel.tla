---------------------------- MODULE TraceParallel ----------------------------
(***************************************************************************)
(* Questions asked of the real library on pools of different sizes, again  *)
(* and again, several at once, are answered as in Parallel (P01).  An      *)
(* answer is a text without its numbers, and the numbers.                  *)
(***************************************************************************)
EXTENDS Parallel, TraceBase
tvars == <<parvars, t, l, note>>
C(name, cond, info) == Clause("P01", name, cond, R.id, l, info)
TInit == TraceInit /\ ParInit(0..7)

Near(a, b) == a = b \/ (IsReal(a) /\ IsReal(b) /\ RClose(a, b, "1e-9"))
SameShape(x, y) == x.s = y.s /\ Len(x.x) = Len(y.x)
Same(x, y) == SameShape(x, y) /\ \A i \in 1..Len(x.x) : Near(x.x[i], y.x[i])
Apart(x, y) == {i \in 1..Len(x.x) : ~Near(x.x[i], y.x[i])}

TBegin == E.e = "begin" /\ Begin(E.a, E.q, <<>>)
TFinish == /\ E.e = "finish" /\ ~Idle(E.a)
           /\ LET q == Asked(E.a) IN
              /\ C("the answer has the form it had before", Agrees(q, E.ans, SameShape), <<R.qs[q], E.threads, E.ans.s, IF q \in DOMAIN said THEN said[q].s ELSE "">>)
              /\ C("the numbers are those answered before", Agrees(q, E.ans, Same), <<R.qs[q], E.threads, IF q \in DOMAIN said THEN {<<said[q].x[i], E.ans.x[i]>> : i \in Apart(said[q], E.ans)} ELSE {}>>)
           /\ Finish(E.a, E.ans)
TNext == More /\ (TBegin \/ TFinish) /\ Advance
TSpec == TInit /\ [][TNext]_tvars
TView == <<t, l>>
=============================================================================
