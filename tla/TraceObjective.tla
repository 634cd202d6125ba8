--------------------------- MODULE TraceObjective ---------------------------
(***************************************************************************)
(* The real objective functions against Objective (R02).                   *)
(***************************************************************************)
EXTENDS Objective, TraceBase
VARIABLES phase0
tvars == <<gvars, ovars, t, l, note, phase0>>

C(name, cond, info) == Clause("R02", name, cond, R.id, l, info)
TInit == TraceInit /\ OInit /\ GInit /\ phase0 = 0

TGiven == E.e = "sample" /\ Given([y |-> E.y, f |-> E.f]) /\ Advance /\ phase0' = l /\ UNCHANGED gvars
TValue ==
  /\ E.e = "value" /\ Compute(E.kind, E.nu)
  /\ LET v == values'[Len(values')].v
         size == RAdd("1e-300", RSum(Map(RAbs, sample.f)))
     IN C(E.kind \o " objective", IsReal(E.v) /\ RNear(E.v, v, IF E.kind = "exp" THEN "1e-12" ELSE RMul("1e-12", size)), <<E, RShow(v), sample>>)
  /\ Advance /\ phase0' = l /\ UNCHANGED gvars
TPanic == E.e = "panic" /\ C("no failure", FALSE, <<E, sample>>) /\ Excuse("failure") /\ UNCHANGED <<gvars, ovars, phase0>>
TNext == More /\ (TGiven \/ TValue \/ TPanic)
TSpec == TInit /\ [][TNext]_tvars
TView == <<t, l, phase0>>
=============================================================================
