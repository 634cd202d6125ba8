----------------------------- MODULE MCRequest ------------------------------
(* Every session of up to B requests over a set of loads and of uses. *)
EXTENDS Request, Json
CONSTANTS B, LABELS, M, NUS
VARIABLE ops
mcvars == <<rqvars, ops>>
AsSeq(g, k) == [i \in 1..k |-> g[i]]
Col(k) == [i \in 1..k |-> ToString(i)]
Frames == {[op |-> "frame", names |-> <<"a", "b">>, cols |-> <<Col(M), [i \in 1..M |-> IF i = 1 THEN "3" ELSE "-3"]>>, target |-> AsSeq(t0, k)]
            : t0 \in [1..M -> LABELS], k \in {M, M - 1}}
Csvs == {[op |-> "csv", header |-> h, rows |-> r, target |-> tg] :
           h \in {<<>>, <<"a", "b">>}, tg \in {"", "a", "b", "c", "Feat. [2]"},
           r \in {<<>>, <<<<"1", "-1">>, <<"2", "1">>>>, <<<<"1", "-1">>, <<"2">>>>, <<<<"1", "-1">>, <<"2", "1", "1">>>>,
                  <<<<"1", "-1">>, <<"x", "1">>>>, <<<<"1", "-1">>, <<"", "1">>>>, <<<<"1", "-1">>, <<"2", "1">>, <<"5", "0">>>>}}
Svms == {[op |-> "svm", lines |-> <<[y |-> y1, f |-> <<<<k, v>>>>], [y |-> "-1", f |-> <<>>]>>] :
           y1 \in {"1", "2", "x", "0.5"}, k \in {-1, 0, 2}, v \in {"5", "v"}}
Loads == Frames \cup Csvs \cup Svms \cup {[op |-> "dummy", n |-> k] : k \in 0..4} \cup {[op |-> "missing"], [op |-> "nofile"]}

Boost(b, nu, g, k) == [op |-> "boost", b |-> b, nu |-> nu, gamma |-> g, kappa |-> k]
Uses == {Boost(b, "", "", "") : b \in {"adaboost", "adaboostv", "madaboost", "graphsepboost", "totalboost", "gbm", "lpboost",
                                       "erlpboost", "softboost", "cerlpboost", "mlpboost"}}
   \cup {Boost(b, nu, "", "") : b \in Capped, nu \in NUS}
   \cup {Boost("smoothboost", "", g, k) : g \in {"1/4", "0", "1/2", "-1/4", "3/4"}, k \in {"", "1/2"}}
   \cup {Boost("smoothboost", "", "1/4", k) : k \in {"0", "1", "-1/2", "2", "1/4"}}
   \cup {[op |-> o, nu |-> nu] : o \in {"score", "bad"}, nu \in NUS}
   \cup {[op |-> "cv", ratio |-> r] : r \in {"-1/2", "0", "1/4", "1", "5/4", "1/2"}}
   \cup {[op |-> "tree", kind |-> k, depth |-> d, bins |-> nm] : k \in {"decision", "regression"}, d \in {0, 1, 3}, nm \in {"", "a", "c"}}
   \cup {[op |-> "target", name |-> nm] : nm \in {"a", "b", "c", "Feat. [3]", "dummy"}}
   \cup {[op |-> "rename", names |-> ns] : ns \in {<<>>, <<"c">>, <<"b", "c">>, <<"b", "c", "a">>}}
MCInit == RInit /\ ops = <<>>
MCNext ==
  /\ Len(ops) < B
  /\ IF size = 0 \/ Len(ops) + 1 = B
     THEN \E q \in (IF ops = <<>> THEN Loads ELSE Uses) : Handle(q) /\ ops' = Append(ops, q)
     ELSE \E q \in {u \in Uses : u.op \in {"target", "rename"}} : Handle(q) /\ ops' = Append(ops, q)
MCSpec == MCInit /\ [][MCNext]_mcvars
\* a request is answered either way, and never both unless it is a frame that does not fit
Decided == \A q \in Loads \cup Uses : (OK(q) \/ MayRefuse(q)) /\ (OK(q) /\ MayRefuse(q) => Open(q))
\* the table is as wide and as long as it says
Shape == /\ Len(cols) = Len(names) /\ \A j \in 1..Len(cols) : Len(cols[j]) = size
         /\ n = Len(target)
Latest == ops[Len(ops)]
\* whoever boosts has a label +/- for both sides
TwoSides == (ops # <<>> /\ Latest.op = "boost" /\ verdict = "accepted" /\ Latest.b # "gbm") =>
              \E i, j \in 1..Len(target) : ~REq(target[i], target[j]) /\ \A k \in 1..Len(target) : REq(target[k], target[i]) \/ REq(target[k], target[j])
\* no capping parameter is legal that allows no distribution, and none is refused that allows one
Capping == (ops # <<>> /\ Latest.op \in {"boost", "score", "bad"} /\ ~Open(Latest) /\ (Latest.op = "boost" => Latest.b \in Capped /\ Latest.nu # "" /\ BinaryOK))
             => (verdict = "accepted" <=> (RGt(Latest.nu, "0") /\ RGe(RDiv(size, Latest.nu), "1") /\ RLe(RDiv("1", Latest.nu), "1")))
Keeps == [][verdict' = "refused" => UNCHANGED <<tvars0, size>>]_mcvars
Emit == (ops # <<>> /\ (Len(ops) = B \/ size = 0)) => PrintT("@BEH " \o ToJson(ops))
=============================================================================
