------------------------------ MODULE Settings ------------------------------
(***************************************************************************)
(* A booster being set up.  Its settings have defaults; a builder call     *)
(* puts one of them to a new value and leaves the others alone, whatever   *)
(* was called before.  What is in force when boosting starts is, for each  *)
(* setting, the value of its last call.  From the settings and the size of *)
(* the sample follow the report and the number of rounds the booster may   *)
(* play.                                                                   *)
(***************************************************************************)
EXTENDS RealArith

VARIABLES b,     \* the booster
          m, d,  \* examples and features of its sample
          cfg    \* setting -> value in force
stvars == <<b, m, d, cfg>>

Rules == {"classic", "short", "line", "pairwise"}
Bare == {"graphsepboost"}
Quitters == {"adaboost", "adaboostv", "madaboost"}
Caps == {"lpboost", "erlpboost", "softboost", "cerlpboost", "mlpboost"}
Walkers == {"cerlpboost", "mlpboost"}
Boosters == Quitters \cup Caps \cup {"smoothboost", "totalboost", "gbm"} \cup Bare

Keys(x) == (IF x \in Bare THEN {} ELSE {"tol"})
      \cup (IF x \in Quitters THEN {"quit"} ELSE {})
      \cup (IF x \in Caps THEN {"nu"} ELSE {})
      \cup (IF x \in Walkers THEN {"fw"} ELSE {})
      \cup (IF x = "smoothboost" THEN {"gamma"} ELSE {})
      \cup (IF x = "gbm" THEN {"loss"} ELSE {})

Default(x, k, mm) ==
  CASE k = "quit" -> "-"
    [] k = "nu" -> "1"
    [] k = "fw" -> "short"
    [] k = "gamma" -> "-"  \* has to be set before boosting
    [] k = "loss" -> "L2"
    [] k = "tol" /\ x \in {"adaboost", "madaboost"} -> RDiv("1", mm + 1)
    [] k = "tol" /\ x \in {"adaboostv", "lpboost", "softboost", "totalboost"} -> RDiv("1", mm)
    [] k = "tol" /\ x \in {"erlpboost", "cerlpboost", "mlpboost"} -> "1/100"
    [] k = "tol" /\ x = "smoothboost" -> "1/2"
    [] k = "tol" /\ x = "gbm" -> "0"

Legal(x, k, v, mm) ==
  CASE k = "nu" -> RLe("1", v) /\ RLe(v, mm)
    [] k = "gamma" -> RLe("0", v) /\ RLt(v, "1/2")
    [] k = "fw" -> v \in Rules
    [] OTHER -> TRUE

New(x, mm, dd) == /\ b' = x /\ m' = mm /\ d' = dd
                  /\ cfg' = [k \in Keys(x) |-> Default(x, k, mm)]
Call(k, v) == /\ k \in Keys(b) /\ Legal(b, k, v, m)
              /\ cfg' = [cfg EXCEPT ![k] = v] /\ UNCHANGED <<b, m, d>>

-----------------------------------------------------------------------------
(* The round limit: [kind, x], where the limit is x rounded in the         *)
(* direction kind; kind "none": there is none.  x = "NaN" stands for more  *)
(* rounds than can be counted.                                             *)
Tol2(c) == RSq(c["tol"])
Most(x, y) == IF ~IsReal(x) \/ ~IsReal(y) THEN "NaN" ELSE RMax(x, y)
Ln(c, mm) == RLn(RDiv(mm, IF "nu" \in DOMAIN c THEN c["nu"] ELSE "1"))
Set(c) == "gamma" \notin DOMAIN c \/ c["gamma"] # "-"
Limit(x, c, mm) ==
  CASE ~Set(c) -> [kind |-> "none", x |-> "0"]
    [] x = "adaboost"  -> [kind |-> "floor", x |-> RDiv(RLn(mm), Tol2(c))]
    [] x = "adaboostv" -> [kind |-> "floor", x |-> RDiv(RMul("2", RLn(mm)), Tol2(c))]
    [] x = "madaboost" -> [kind |-> "ceil", x |-> RDiv(mm - 1, Tol2(c))]
    [] x = "smoothboost" -> [kind |-> "ceil",
           x |-> RDiv("2", RMul(c["tol"], RMul(RSq(c["gamma"]), RSqrt(RSub("1", c["gamma"])))))]
    [] x \in {"erlpboost", "cerlpboost", "mlpboost"} -> [kind |-> "ceil",
           x |-> Most(RDiv("8", c["tol"]), RDiv(RMul("32", Ln(c, mm)), Tol2(c)))]
    [] x \in {"softboost", "totalboost"} -> [kind |-> "ceil",
           x |-> Most("1", RDiv(RMul("2", Ln(c, mm)), Tol2(c)))]
    [] x = "gbm" -> [kind |-> "ceil", x |-> "100"]
    [] OTHER -> [kind |-> "none", x |-> "0"]

\* the largest number of rounds that can be counted
Countless == "18446744073709551615"
Ceil(x) == RNeg(RFloor(RNeg(x)))
Round(kind, x) == RMin(IF kind = "floor" THEN RFloor(x) ELSE Ceil(x), Countless)
\* n is limit q of settings c; next to an integer the rounding may fall to
\* either side
Slack(q, c) == RAdd(RMul(q.x, "1/1000000000000"), IF b # "gbm" THEN RDiv("1/100000000000000", Tol2(c)) ELSE "0")
IsLimit(n, q, c) ==
  IF ~IsReal(q.x) THEN REq(n, Countless)
  ELSE /\ RLe(Round(q.kind, RSub(q.x, Slack(q, c))), n)
       /\ RLe(n, Round(q.kind, RAdd(q.x, Slack(q, c))))
\* at most so many rounds query the weak learner
MayPlay(k, x, c, mm) ==
  IF "quit" \in DOMAIN c /\ c["quit"] # "-" THEN RLe(k, c["quit"])
  ELSE LET q == Limit(x, c, mm)
       IN q.kind = "none" \/ ~IsReal(q.x) \/ RLe(k, RAdd(RMul(q.x, "1000000000001/1000000000000"), "1"))
=============================================================================
