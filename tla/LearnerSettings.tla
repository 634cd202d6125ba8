-------------------------- MODULE LearnerSettings ---------------------------
(***************************************************************************)
(* A weak learner being set up: builder calls put one setting to a new     *)
(* value and leave the others alone.  A tree learner has a number of bins  *)
(* for every feature, at first as many as the feature has distinct values  *)
(* but at most 255; the bins have equal width and cover the line.  A       *)
(* network is as deep as layers were appended; its mini-batches are halved *)
(* from 128 until they are no larger than the sample.                      *)
(***************************************************************************)
EXTENDS RealArith

VARIABLES w,     \* the learner
          cols,  \* the features: sequences of values
          m,     \* examples
          cfg,   \* setting -> value in force
          bins,  \* number of bins of each feature
          layers \* of a network
lsvars == <<w, cols, m, cfg, bins, layers>>

Learners == {"dtree", "rtree", "nn"}
Keys(x) == CASE x = "dtree" -> {"depth", "criterion"}
             [] x = "rtree" -> {"depth", "lambda", "loss"}
             [] x = "nn" -> {"epoch", "iter", "batch"}
RECURSIVE Halve(_, _)
Halve(k, mm) == IF k > mm THEN Halve(k \div 2, mm) ELSE k
Default(k, mm) == CASE k = "depth" -> "2"
                [] k = "criterion" -> "entropy"
                [] k = "lambda" -> "1/100"
                [] k = "loss" -> "-"     \* has to be set before building
                [] k = "epoch" -> "100"
                [] k = "iter" -> "200"
                [] k = "batch" -> ToString(Halve(128, mm))
Legal(k, v) == k = "depth" => RLe("1", v)
Distinct(x) == Cardinality({RNorm(x[i]) : i \in 1..Len(x)})
AtFirst(x) == IF Distinct(x) <= 255 THEN Distinct(x) ELSE 255

New(x, cs, mm) ==
  /\ w' = x /\ cols' = cs /\ m' = mm /\ layers' = 0
  /\ cfg' = [k \in Keys(x) |-> Default(k, mm)]
  /\ bins' = IF x = "nn" THEN <<>> ELSE [j \in 1..Len(cs) |-> AtFirst(cs[j])]
Call(k, v) == /\ k \in Keys(w) /\ Legal(k, v) /\ cfg' = [cfg EXCEPT ![k] = v]
              /\ UNCHANGED <<w, cols, m, bins, layers>>
SetBins(j, n) == /\ w # "nn" /\ j \in 1..Len(cols) /\ bins' = [bins EXCEPT ![j] = n]
                 /\ UNCHANGED <<w, cols, m, cfg, layers>>
AppendLayer == w = "nn" /\ layers' = layers + 1 /\ UNCHANGED <<w, cols, m, cfg, bins>>
Ready == w # "rtree" \/ cfg["loss"] # "-"

MaxBins == CHOOSE n \in {bins[j] : j \in 1..Len(bins)} : \A j \in 1..Len(bins) : bins[j] <= n
-----------------------------------------------------------------------------
(* the bins of a feature: [start, end), the first from -Inf, the last to   *)
(* +Inf; equal width between the smallest and the largest value            *)
Least(x) == RMinOf(x)
Most(x) == RMaxOf(x)
Lo(x) == IF REq(Least(x), Most(x)) THEN RSub(Least(x), "1/1000") ELSE Least(x)
Width(x, n) == IF REq(Least(x), Most(x)) THEN RDiv("1/500", n) ELSE RDiv(RSub(Most(x), Least(x)), n)
Border(x, n, k) == IF k = 0 THEN "-Inf" ELSE IF k = n THEN "+Inf" ELSE RAdd(Lo(x), RMul(k, Width(x, n)))
Bin(x, n, k) == <<Border(x, n, k - 1), Border(x, n, k)>>
\* of many bins only the first two and the last are shown
Picture(x, n) == IF n > 3 THEN <<Bin(x, n, 1), Bin(x, n, 2), Bin(x, n, n)>> ELSE [k \in 1..n |-> Bin(x, n, k)]
=============================================================================
