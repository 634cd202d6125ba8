----------------------------- MODULE MCSettings -----------------------------
(* All sequences of up to B builder calls for every booster and size. *)
EXTENDS Settings, Json, Sequences, FiniteSets
CONSTANTS B, SIZES, TOLS, NUS, QUITS
VARIABLE ops
mcvars == <<stvars, ops>>
Values(k) == CASE k = "tol" -> TOLS
               [] k = "nu" -> NUS
               [] k = "quit" -> QUITS
               [] k = "fw" -> Rules
               [] k = "gamma" -> {"1/4", "0", "2/5"}
               [] k = "loss" -> {"L1", "L2"}
MCInit == /\ b = "" /\ m = 0 /\ d = 1 /\ cfg = <<>> /\ ops = <<>>
Start == b = "" /\ \E x \in Boosters, mm \in SIZES : New(x, mm, 1) /\ ops' = <<>>
Step == b # "" /\ Len(ops) < B /\ \E k \in Keys(b), v \in UNION {Values(kk) : kk \in Keys(b)} :
          /\ v \in Values(k) /\ Call(k, v) /\ ops' = Append(ops, [k |-> k, v |-> v])
MCNext == Start \/ Step
MCSpec == MCInit /\ [][MCNext]_mcvars
LastOf(k) == LET I == {i \in 1..Len(ops) : ops[i].k = k}
             IN IF I = {} THEN Default(b, k, m) ELSE ops[CHOOSE i \in I : \A j \in I : j <= i].v
\* what is in force is what was asked for last, setting by setting
LastWins == b # "" => \A k \in Keys(b) : cfg[k] = LastOf(k)
\* a call touches one setting
Local == [][(b # "" /\ b' = b) => \E k \in Keys(b) : \A j \in Keys(b) \ {k} : cfg'[j] = cfg[j]]_mcvars
Lim(c) == Limit(b, c, m)
\* more rounds for a finer tolerance, fewer for more outliers
Finer(q, r) == q.kind = "none" \/ (~IsReal(q.x)) \/ (IsReal(r.x) /\ RLe(r.x, q.x))
Monotone == (b # "" /\ "tol" \in Keys(b)) =>
   /\ \A v \in TOLS : RLe(v, cfg["tol"]) => Finer(Lim([cfg EXCEPT !["tol"] = v]), Lim(cfg))
   /\ "nu" \in Keys(b) => \A v \in NUS : (RLe(v, m) /\ RLe(v, cfg["nu"])) => Finer(Lim([cfg EXCEPT !["nu"] = v]), Lim(cfg))
\* with more than one example and a tolerance below 1/2 at least one round can be played
Playable == (b # "" /\ m > 1 /\ "tol" \in Keys(b) /\ RLe(cfg["tol"], "1/2")) =>
   LET q == Lim(cfg) IN q.kind = "none" \/ ~IsReal(q.x) \/ RGe(Round(q.kind, q.x), "1")
\* a default is a legal value
Sound == b # "" => \A k \in Keys(b) : (k = "gamma" /\ cfg[k] = "-") \/ Legal(b, k, cfg[k], m)
\* the corrective boosters share one limit, SoftBoost with nu = 1 is TotalBoost
Kin == (b = "totalboost") => Lim(cfg) = Limit("softboost", [nu |-> "1", tol |-> cfg["tol"]], m)
Emit == (b # "" /\ Len(ops) = B) => PrintT("@BEH " \o ToJson([b |-> b, m |-> m, ops |-> ops]))
=============================================================================
