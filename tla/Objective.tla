----------------------------- MODULE Objective ------------------------------
(***************************************************************************)
(* Objective values of a hypothesis on a sample: the soft margin (least    *)
(* expected margin over distributions with entries at most 1/nu), the hard *)
(* margin and the exponential loss of the predicted labels.                *)
(***************************************************************************)
EXTENDS Game

VARIABLES
  sample,  \* [y, f]: labels and confidences; <<>> at first
  values   \* values computed: [kind, nu, v]
ovars == <<sample, values>>

Margins(s) == [i \in 1..Len(s.y) |-> RMul(s.y[i], s.f[i])]
LabelOf(c) == IF RGe(c, "0") THEN "1" ELSE "-1"

Value(s, kind, nu) ==
  CASE kind = "soft" -> SoftMargin(Margins(s), nu)
    [] kind = "hard" -> HardMargin(Margins(s))
    [] kind = "exp" -> RDiv(RSum([i \in 1..Len(s.y) |-> RExp(RNeg(RMul(s.y[i], LabelOf(s.f[i]))))]), Len(s.y))

OInit == sample = <<>> /\ values = <<>>
Given(s) == sample' = s /\ values' = <<>>
Compute(kind, nu) == /\ sample # <<>>
                     /\ values' = Append(values, [kind |-> kind, nu |-> nu, v |-> Value(sample, kind, nu)])
                     /\ UNCHANGED sample
=============================================================================
