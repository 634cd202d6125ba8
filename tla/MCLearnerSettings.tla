------------------------- MODULE MCLearnerSettings --------------------------
(* All sequences of up to B builder calls for every learner. *)
EXTENDS LearnerSettings, Json
CONSTANTS B, VALS
DATA == {<<<<"0", "1", "3">>>>, <<<<"2", "2", "2", "2">>, <<"-1", "0", "1/2", "5">>>>}
VARIABLE ops
mcvars == <<lsvars, ops>>
Values(k) == CASE k = "depth" -> {"1", "3"}
               [] k = "criterion" -> {"gini", "edge", "twoing", "entropy"}
               [] k = "lambda" -> {"0", "1/2"}
               [] k = "loss" -> {"L1", "L2"}
               [] k = "batch" -> {"2"}
               [] OTHER -> {"1", "5"}
Op(k, j, v) == [k |-> k, j |-> j, v |-> v]
MCInit == w = "" /\ cols = <<>> /\ m = 0 /\ cfg = <<>> /\ bins = <<>> /\ layers = 0 /\ ops = <<>>
Start == w = "" /\ \E x \in Learners, cs \in DATA : New(x, cs, Len(cs[1])) /\ ops' = <<>>
Step == /\ w # "" /\ Len(ops) < B
        /\ \/ \E k \in Keys(w), v \in UNION {Values(kk) : kk \in Keys(w)} : v \in Values(k) /\ Call(k, v) /\ ops' = Append(ops, Op(k, 0, v))
           \/ \E j \in 1..Len(cols), n \in VALS : SetBins(j, n) /\ ops' = Append(ops, Op("bins", j, ToString(n)))
           \/ AppendLayer /\ ops' = Append(ops, Op("append", 0, "2"))
MCNext == Start \/ Step
MCSpec == MCInit /\ [][MCNext]_mcvars
LatestOf(k, j) == LET I == {i \in 1..Len(ops) : ops[i].k = k /\ ops[i].j = j}
              IN IF I = {} THEN "none" ELSE ops[CHOOSE i \in I : \A ii \in I : ii <= i].v
LastWins == w # "" =>
  /\ \A k \in Keys(w) : cfg[k] = IF LatestOf(k, 0) = "none" THEN Default(k, m) ELSE LatestOf(k, 0)
  /\ \A j \in 1..Len(bins) : bins[j] = bins[j] /\ ToString(bins[j]) = IF LatestOf("bins", j) = "none" THEN ToString(AtFirst(cols[j])) ELSE LatestOf("bins", j)
  /\ layers = Cardinality({i \in 1..Len(ops) : ops[i].k = "append"})
Inside(v, bn) == (bn[1] = "-Inf" \/ (IsReal(bn[1]) /\ RLe(bn[1], v))) /\ (bn[2] = "+Inf" \/ (IsReal(bn[2]) /\ RLt(v, bn[2])))
\* the bins part the line: every number is in exactly one of them
Partition == \A j \in 1..Len(bins) : \A v \in {"-5", "-1", "0", "1/3", "1/2", "1", "3/2", "2", "5", "100"} :
               Cardinality({k \in 1..bins[j] : Inside(v, Bin(cols[j], bins[j], k))}) = 1
\* no larger than the sample, never empty, and not needlessly small
Batches == w # "" => LET k == Halve(128, m) IN k <= m /\ k >= 1 /\ (k = 128 \/ 2 * k > m)
Emit == (w # "" /\ Len(ops) = B) => PrintT("@BEH " \o ToJson([w |-> w, cols |-> cols, ops |-> ops]))
=============================================================================
