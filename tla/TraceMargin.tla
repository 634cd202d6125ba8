---------------------------- MODULE TraceMargin -----------------------------
(***************************************************************************)
(* Runs of the real LPBoost (B07), ERLPBoost (B08), SoftBoost, TotalBoost  *)
(* (B09), CERLPBoost (B10), MLPBoost (B11) are behaviours of MarginBoost;  *)
(* B12: the Frank-Wolfe rules of CERLPBoost and MLPBoost.                  *)
(*                                                                         *)
(* A record holds the margins cls of the class, for every query            *)
(* multipliers certs proving how good a distribution can be, and dstar, a  *)
(* capped distribution bounding the optimum over the class.                *)
(***************************************************************************)
EXTENDS MarginBoost, TraceBase

tvars == <<gvars, mvars, t, l, note>>

Fam(b) == CASE b = "lpboost" -> "B07" [] b = "erlpboost" -> "B08" [] b = "softboost" -> "B09"
            [] b = "totalboost" -> "B09" [] b = "cerlpboost" -> "B10" [] b = "mlpboost" -> "B11"
Alg(b) == CASE b = "lpboost" -> "lp" [] b = "erlpboost" -> "erlp" [] b = "softboost" -> "soft"
            [] b = "totalboost" -> "soft" [] b = "cerlpboost" -> "cerlp" [] b = "mlpboost" -> "mlp"
DefTol(r) == IF Alg(r.booster) \in {"lp", "soft"} THEN RDiv("1", r.m) ELSE "0.01"
RuleOf(r) == LET f == Param(r, "fw", "1.0") IN
             CASE f = "0.0" -> "classic" [] f = "1.0" -> "short" [] f = "2.0" -> "line" [] f = "3.0" -> "blended"

CF(fam, name, cond, info) == Clause(fam, name, cond, R.id, l, info)
C(name, cond, info) == CF(Fam(R.booster), name, cond, info)

TInit == TraceInit /\ MInit(Alg(R.booster), Param(R, "nu", "1"), Param(R, "tol", DefTol(R)), RuleOf(R), R.cls)

\* how closely the real code solves its optimisation problems
Eps == CASE alg = "lp" -> "1e-5" [] alg = "erlp" -> "1e-5" [] alg = "soft" -> "1e-5" [] OTHER -> "1e-6"
KLEps == "1e-4"
Byrun == R.mode = "run"

\* combination (ws, hs) as a vector over the class
VecOf(ws, hs) ==
  [k \in 1..nn |-> RSum([j \in 1..Len(hs) |-> IF hs[j] + 1 = k THEN ws[j] ELSE "0"])]

Cert == R.certs[Len(hist) + 1]

DistClauses(dd, cert) ==
  IF hist = <<>> THEN C("first distribution is uniform", Vecs(dd, Uniform(mm), "1e-9"), dd)
  ELSE
  /\ C("distribution is capped", CapDist(dd, "1e-6"), dd)
  /\ CASE alg = "lp" -> C("distribution minimises the largest edge",
                          Byrun \/ RLe(MaxEdge(dd, Seen), RAdd(Eps, Soft(w))),
                          <<RShow(MaxEdge(dd, Seen)), RShow(Soft(w))>>)
       [] alg = "erlp" -> C("distribution minimises the regularised largest edge",
                            RLe(ErlpValue(dd), RAdd(Eps, Obj(cert))), <<RShow(ErlpValue(dd)), RShow(Obj(cert))>>)
       [] alg = "soft" ->
            /\ C("edges stay below the bound", RLe(MaxEdge(dd, Seen), RAdd(Eps, RSub(gmin, tol))),
                 <<RShow(MaxEdge(dd, Seen)), RShow(RSub(gmin, tol))>>)
            /\ C("distribution is closest to uniform",
                 RLe(KL(dd), RAdd(KLEps, DualSoft(cert, RSub(gmin, tol)))),
                 <<RShow(KL(dd)), RShow(DualSoft(cert, RSub(gmin, tol)))>>)
       [] alg \in {"cerlp", "mlp"} ->
            C("distribution is the projection of the combination",
              Byrun \/ Vecs(dd, Proj(Margins(w), Eta), Eps), <<dd, Map(RShow, Proj(Margins(w), Eta))>>)

TBegin == /\ E.e = "begin" /\ phase = "idle"
          /\ IF E.mode = "run" THEN MPre ELSE UNCHANGED <<gvars, mvars>>
          /\ Advance

TPre == E.e = "pre" /\ MPre /\ Advance

TAsk ==
  /\ E.e = "ask" /\ phase = "ready"
  /\ Ask(E.d, cls[E.h + 1], E.h)
  /\ gmin' = NewGmin(E.d, E.h + 1)
  /\ UNCHANGED w /\ Keep
  /\ DistClauses(E.d, Cert)
  /\ Advance

TGoOn ==
  /\ E.e \in {"ask", "limit"} /\ phase = "asked" /\ Byrun
  /\ MOn(w) /\ UNCHANGED <<t, l, note>>

\* the stopping rule: a gap clearly above zero goes on, clearly below stops
SlackGap == CASE alg = "lp" -> "1e-5" [] alg = "soft" -> "1e-5" [] OTHER -> "1e-7"
StopClauses(v2, flow) ==
  LET g == StopGap(gmin, v2) IN
  /\ C("stops only by its rule", flow = "B" => RLe(g, SlackGap), RShow(g))
  /\ C("goes on only while its rule says so",
       flow = "C" => RGe(g, RNeg(SlackGap)), RShow(g))

CombClauses(v2) ==
  /\ C("combination is convex", Convex(v2, "1e-6"), Map(RShow, v2))
  /\ CF("B12", "combination is convex", Convex(v2, "1e-6"), Map(RShow, v2))
  /\ C("combines hypotheses received", \A k \in 1..nn : RGt(v2[k], "1e-9") => k \in Seen, Map(RShow, v2))

LPSlack == RAdd("1e-6", RDiv("20", Eta))

UpdateClauses(v2) ==
  IF Len(hist) = 1 THEN
    /\ C("the first hypothesis is taken", Vecs(v2, Unit(LastP), "1e-6"), Map(RShow, v2))
    /\ CF("B12", "the first hypothesis is taken", alg \in {"cerlp", "mlp"} => Vecs(v2, Unit(LastP), "1e-6"), Map(RShow, v2))
  ELSE
  CASE alg = "cerlp" ->
         /\ C("not worse than the Frank-Wolfe step",
              Murky(w) \/ \A x \in FWFloor(E.it, w, Last.d, LastP) : RGe(Obj(v2), RSub(x, "1e-6")), <<rule, Map(RShow, w), Map(RShow, v2)>>)
         /\ CF("B12", "Frank-Wolfe step", Murky(w) \/ FWOK(E.it, w, Last.d, LastP, v2, "1e-6"), <<rule, Map(RShow, w), Map(RShow, v2)>>)
    [] alg = "mlp" ->
         /\ C("not worse than the Frank-Wolfe step",
              \A x \in FWFloor(E.it, w, Last.d, LastP) : RGe(Obj(v2), RSub(x, "1e-6")), <<rule, Map(RShow, w), Map(RShow, v2)>>)
         /\ C("not worse than the LP step",
              RGe(Obj(v2), RSub(Soft(R.lpw[Len(hist)]), LPSlack)), <<Map(RShow, v2)>>)
    [] OTHER -> TRUE

\* rounds whose combination is beyond judgement: LPBoost and SoftBoost have
\* one after every round, ERLPBoost's dual weights come with its distribution
TStepAsked ==
  /\ E.e = "step" /\ phase = "asked"
  /\ LET stays == E.flow = "B" /\ alg \in {"erlp", "cerlp", "mlp"}   \* the newest hypothesis is not used
         v2    == IF E.cok = 1 THEN VecOf(E.cw, E.ch) ELSE w
     IN
     /\ C("a combination exists", E.cok = 1, E)
     /\ CombClauses(v2)
     /\ StopClauses(v2, E.flow)
     /\ stays => C("a stop leaves the combination", Vecs(v2, w, "1e-9"), Map(RShow, v2))
     /\ E.flow = "C" => UpdateClauses(v2)
     /\ IF E.flow = "B" THEN MHalt(v2) ELSE MOn(v2)
  /\ Advance

\* a round without a query: only at the round limit
TStepQuit ==
  /\ E.e = "step" /\ phase = "ready"
  /\ C("a round without a query stops", E.flow = "B", E)
  /\ Quit /\ UNCHANGED mvars
  /\ Advance

TFinish ==
  /\ E.e = "end" /\ Byrun /\ phase \in {"ready", "asked"}
  /\ IF phase = "asked" THEN Stop ELSE Quit
  /\ UNCHANGED mvars /\ UNCHANGED <<t, l, note>>

TEnd ==
  /\ E.e = "end" /\ phase = "stopped"
  /\ LET v == VecOf(E.w, E.h)
         opt == MaxEdge(R.dstar, 1..nn)
     IN
     /\ C("output is convex", Convex(v, "1e-6"), Map(RShow, v))
     /\ CF("B12", "output is convex", Convex(v, "1e-6"), Map(RShow, v))
     /\ C("output combines hypotheses received", \A k \in 1..nn : RGt(v[k], "1e-9") => k \in Seen, Map(RShow, v))
     /\ C("output is the current combination",
          (Byrun \/ alg \in {"lp", "soft"}) \/ Vecs(v, w, "1e-9"), Map(RShow, v))
     /\ C("soft margin within the tolerance of the optimum",
          (R.best = 1 /\ CapDist(R.dstar, "1e-9")) => Guarantee(v, opt, "1e-5"), <<RShow(Soft(v)), RShow(opt), RShow(tol)>>)
     /\ w' = v
  /\ Postprocess /\ UNCHANGED <<alg, nu, tol, rule, cls, gmin>>
  /\ Advance

TPanic == E.e = "panic" /\ C("no failure", FALSE, E) /\ Excuse("failure") /\ UNCHANGED <<gvars, mvars>>
TLimit == E.e = "limit" /\ ~(phase = "asked" /\ Byrun) /\ Advance /\ UNCHANGED <<gvars, mvars>>

TNext ==
  /\ More
  /\ \/ TBegin \/ TPre \/ TAsk \/ TGoOn \/ TStepAsked \/ TStepQuit \/ TFinish \/ TEnd \/ TPanic \/ TLimit

TSpec == TInit /\ [][TNext]_tvars
TView == <<t, l, phase>>
=============================================================================
