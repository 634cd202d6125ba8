---------------------------- MODULE TraceRequest ----------------------------
(* Real sessions against Request (S06). *)
EXTENDS Request, TraceBase
VARIABLE phase
tvars == <<rqvars, t, l, note, phase>>
C(name, cond, info) == Clause("S06", name, cond, R.id, l, info)
TInit == TraceInit /\ RInit /\ phase = 0

TAccepted == /\ E.e = "accepted"
             /\ C("an unusable request is refused", OK(E.q), <<E, names, target, size>>)
             /\ Accept(E.q) /\ Advance /\ phase' = l
TRefused == /\ E.e = "refused"
            /\ C("a usable request is accepted", MayRefuse(E.q), <<E, names, target, size>>)
            /\ Refuse(E.q) /\ Advance /\ phase' = l
\* the sample as it is now
TSample == /\ E.e = "sample"
           /\ C("the sample is the one asked for", /\ E.names = names /\ E.shape = <<size, Len(names)>>
                    /\ Map(Norm, E.target) = target /\ Len(E.rows) = size
                    /\ \A i \in 1..size : Map(Norm, E.rows[i]) = [j \in 1..Len(cols) |-> cols[j][i]], <<E, names, cols, target, size>>)
           /\ Advance /\ phase' = l /\ UNCHANGED rqvars
\* boosting that asks nothing and refuses nothing; a sample that cannot be looked at
TFailure == /\ E.e \in {"ignored", "broken"}
            /\ C("a request is acted on or refused", FALSE, E) /\ Excuse("failure") /\ UNCHANGED <<rqvars, phase>>
TNext == More /\ (TAccepted \/ TRefused \/ TSample \/ TFailure)
TSpec == TInit /\ [][TNext]_tvars
TView == <<t, l, phase>>
=============================================================================
