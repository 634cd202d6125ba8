--------------------------- MODULE TraceSettings ----------------------------
(* Real boosters being set up, against Settings (B18). *)
EXTENDS Settings, TraceBase
VARIABLE phase
tvars == <<stvars, t, l, note, phase>>
C(name, cond, info) == Clause("B18", name, cond, R.id, l, info)
TInit == TraceInit /\ b = "" /\ m = 0 /\ d = 0 /\ cfg = <<>> /\ phase = 0

Keep == Advance /\ phase' = l /\ UNCHANGED stvars
TNew == E.e = "new" /\ New(R.b, E.m, E.d) /\ Advance /\ phase' = l

TCall == /\ E.e = "call"
         /\ C("a legal setting is accepted", E.ok = 1, <<E, cfg>>)
         /\ Call(E.k, E.v) /\ Advance /\ phase' = l

\* row k of the report
Row(k) == k \in Range(E.has)
Says(k, x) == Row(k) /\ IsReal(E.rows[k]) /\ RClose(E.rows[k], x, "1/1000000000000")
Shown(k, x) == C("the report shows what is in force", Says(k, x), <<k, x, E.rows, cfg>>)
TInfo ==
  /\ E.e = "info"
  /\ Shown("examples", m) /\ Shown("features", d)
  /\ "tol" \in Keys(b) => Shown("tol", cfg["tol"])
  /\ ("gamma" \in Keys(b) /\ Set(cfg)) => /\ Shown("gamma", cfg["gamma"])
                            /\ Shown("theta", RDiv(cfg["gamma"], RAdd("2", cfg["gamma"])))
  /\ "fw" \in Keys(b) => C("the report shows what is in force", Row("fw") /\ E.rows["fw"] = cfg["fw"], <<E.rows, cfg>>)
  /\ "loss" \in Keys(b) => C("the report shows what is in force", Row("loss") /\ E.rows["loss"] = cfg["loss"], <<E.rows, cfg>>)
  /\ "quit" \in Keys(b) => C("the report shows what is in force", Row("quit") /\
         (IF cfg["quit"] = "-" THEN E.rows["quit"] = "-" ELSE Says("quit", cfg["quit"])), <<E.rows, cfg>>)
  \* a capping parameter from 1000 on is shown in thousands
  /\ "nu" \in Keys(b) =>
       /\ C("the report shows what is in force", Row("nu") /\ IsReal(E.rows["nu"]) /\
              RNear(E.rows["nu"], cfg["nu"], IF RLt(cfg["nu"], "1000") THEN "1/1000000000" ELSE "5001/100"), <<E.rows, cfg>>)
       /\ C("the capping parameter is shown as a percentage of the examples too", Row("pct") /\ IsReal(E.rows["pct"]) /\
              RNear(E.rows["pct"], RDiv(RMul("100", cfg["nu"]), m), "51/100000"), <<E.rows, cfg, m>>)
  /\ LET q == Limit(b, cfg, m) IN q.kind # "none" =>
       C("the report shows the round limit", Row("max") /\ IsReal(E.rows["max"]) /\ IsLimit(E.rows["max"], q, cfg), <<E.rows, q>>)
  /\ Keep

TMax == /\ E.e = "max"
        /\ LET q == Limit(b, cfg, m) IN C("the round limit follows from the settings", IsLimit(E.n, q, cfg), <<E, q, cfg, m>>)
        /\ Keep

\* the run of a fresh booster that is given just the settings in force
Same(v, w) == IF IsReal(v) /\ IsReal(w) THEN RClose(v, w, "1/10000000000000") ELSE v = w
Plain == /\ {E.set[i].k : i \in 1..Len(E.set)} = {k \in Keys(b) : cfg[k] # "-"}
         /\ \A i \in 1..Len(E.set) : Same(E.set[i].v, cfg[E.set[i].k])
TRun == /\ E.e = "run"
        /\ IF ~Plain THEN Report("B18", "harness: the fresh booster is set up differently", R.id, l, <<E.set, cfg>>) /\ FALSE ELSE TRUE
        /\ C("only the last values of the settings matter", E.got = E.fresh, <<cfg, E.got, E.fresh>>)
        /\ C("no more rounds than the limit", MayPlay(E.asked, b, cfg, m), <<E.asked, cfg, m>>)
        /\ Keep
TFailure == /\ E.e = "panic"
            /\ C("a report is given", ~Set(cfg), E) /\ Excuse("panic") /\ UNCHANGED <<stvars, phase>>
TNext == More /\ (TNew \/ TCall \/ TInfo \/ TMax \/ TRun \/ TFailure)
TSpec == TInit /\ [][TNext]_tvars
TView == <<t, l, phase>>
=============================================================================
