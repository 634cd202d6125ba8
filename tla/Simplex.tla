------------------------------ MODULE Simplex -------------------------------
(***************************************************************************)
(* The projection of an exponential distribution onto the distributions    *)
(* with entries at most 1/nu, found by looking at the entries in           *)
(* descending order: as long as the largest uncapped entry, scaled with    *)
(* the others to the mass the capped ones leave, would exceed the cap, it  *)
(* is capped as well.  Weights are given by their logarithms.              *)
(***************************************************************************)
EXTENDS Game

VARIABLES
  logs,    \* logarithms of the weights
  cap,     \* 1/nu
  order,   \* indices, largest weight first
  capped,  \* how many of them are capped
  dist     \* the projection; <<>> while it is looked for
xvars == <<logs, cap, order, capped, dist>>

XInit == logs = <<>> /\ cap = "1" /\ order = <<>> /\ capped = 0 /\ dist = <<>>

Reset == logs' = <<>> /\ cap' = "1" /\ order' = <<>> /\ capped' = 0 /\ dist' = <<>>
Order(s) == SortSeq([i \in 1..Len(s) |-> i], LAMBDA i, j : RGt(s[i], s[j]))
Request(s, nu) == /\ logs' = s /\ cap' = RDiv("1", nu) /\ order' = Order(s) /\ capped' = 0 /\ dist' = <<>>

n == Len(logs)
IsCapped(i) == \E k \in 1..capped : order[k] = i
Mass == RSub("1", RMul(capped, cap))
Top == logs[order[capped + 1]]
\* weights of the uncapped entries relative to the largest of them; exp(-300) counts as nothing
Rel == [i \in 1..n |-> IF IsCapped(i) THEN "0"
                       ELSE LET x == RSub(logs[i], Top) IN IF RLt(x, "-300") THEN "0" ELSE RExp(x)]
Share == RDiv(Mass, RSum(Rel))     \* of the largest uncapped entry
TooMuch == capped < n /\ RGt(Share, cap)

Busy == logs # <<>> /\ dist = <<>>
CapNext == Busy /\ TooMuch /\ capped' = capped + 1 /\ UNCHANGED <<logs, cap, order, dist>>
Finish == /\ Busy /\ ~TooMuch
          /\ dist' = LET r == Rel  s == IF capped < n THEN Share ELSE "0"
                     IN  [i \in 1..n |-> IF IsCapped(i) THEN cap ELSE RMul(s, r[i])]
          /\ UNCHANGED <<logs, cap, order, capped>>

-----------------------------------------------------------------------------
(* entropies *)
XLn(x) == IF RLe(x, "0") THEN "0" ELSE RMul(x, RLn(x))
NegEntropy(d) == RSum(Map(XLn, d))
KLUniform(d) == RAdd(NegEntropy(d), RLn(Len(d)))
\* relative entropy of d to the weights, up to their total
Divergence(d, s) == RSub(NegEntropy(d), RDot(d, s))
=============================================================================
