--------------------------- MODULE TraceGraphSep ----------------------------
(***************************************************************************)
(* Runs of the real GraphSepBoost are behaviours of GraphSep (B15).  A     *)
(* record holds tab, the confidences of every hypothesis of the class on   *)
(* the training rows and on R.q further rows.                              *)
(***************************************************************************)
EXTENDS GraphSep, TraceBase

VARIABLE mode
tvars == <<gvars, pvars, t, l, note, mode>>
m == R.m
C(name, cond, info) == Clause("B15", name, cond, R.id, l, info)

TInit == TraceInit /\ mode = "" /\ PInit(R.y)

Pred(h, row) == Sign(R.tab[h + 1][row])
Preds(h) == [i \in 1..m |-> Pred(h, i)]

TBegin == /\ E.e = "begin" /\ phase = "idle"
          /\ IF E.mode = "run" THEN PPre ELSE UNCHANGED <<gvars, pvars>>
          /\ mode' = E.mode /\ Advance
TPre == E.e = "pre" /\ PPre /\ Advance /\ UNCHANGED mode

TAsk == /\ E.e = "ask" /\ phase = "ready"
        /\ C("no query when every pair is separated", pairs # {}, Len(hist))
        /\ C("one entry per example", Len(E.d) = m /\ AllReal(E.d), E.d)
        /\ C("weights count the open pairs", LET pd == PDist IN \A i \in 1..m : RNear(E.d[i], pd[i], "1e-9"), <<PDist, E.d>>)
        /\ PAsk(E.d, E.u, E.h, Preds(E.h))
        /\ Advance /\ UNCHANGED mode

TGoOn == /\ E.e \in {"ask", "limit", "end"} /\ mode = "run" /\ phase = "asked"
         /\ IF E.e = "ask" THEN C("goes on only after progress", Separated(Newest) # {}, Newest) ELSE TRUE
         /\ PContinue \/ PStop
         /\ UNCHANGED <<t, l, note, mode>>

TStep == /\ E.e = "step" /\ phase = "asked"
         /\ C("stops exactly without progress", (E.flow = "B") = (Separated(Newest) = {}), <<E.flow, Newest>>)
         /\ PContinue \/ PStop
         /\ Advance /\ UNCHANGED mode

TStepQuit == /\ E.e = "step" /\ phase = "ready"
             /\ C("a round without a query stops, once every pair is separated", E.flow = "B" /\ pairs = {}, E)
             /\ PQuit /\ Advance /\ UNCHANGED mode

TFinish == /\ E.e = "end" /\ mode = "run" /\ phase = "ready"
           /\ C("goes on while pairs are open", pairs = {}, pairs)
           /\ PQuit /\ UNCHANGED <<t, l, note, mode>>

RowColumn(row) == [k \in 1..Len(hist) |-> Pred(hist[k].h, row)]
TEnd == /\ E.e = "end" /\ phase = "stopped"
        /\ C("predictions on the training rows", E.p = [i \in 1..m |-> Aggregate(Column(i))], E.p)
        /\ C("no training error when every pair is separated", pairs = {} => E.p = lab, E.p)
        /\ C("predictions on other rows", E.qp = [i \in 1..R.q |-> Aggregate(RowColumn(m + i))], E.qp)
        /\ C("at most one round more than there were pairs", round <= Cardinality(AllPairs) + 1, round)
        /\ PPost /\ Advance /\ UNCHANGED mode

TPanic == E.e = "panic" /\ C("no failure", FALSE, E) /\ Excuse("failure") /\ UNCHANGED <<gvars, pvars, mode>>
TLimit == E.e = "limit" /\ phase = "ready" /\ C("the game ends", FALSE, E) /\ Advance /\ UNCHANGED <<gvars, pvars, mode>>

TNext == More /\ (TBegin \/ TPre \/ TAsk \/ TGoOn \/ TStep \/ TStepQuit \/ TFinish \/ TEnd \/ TPanic \/ TLimit)
TSpec == TInit /\ [][TNext]_tvars
TView == <<t, l, phase>>
=============================================================================
