--------------------------- MODULE TraceHypothesis ---------------------------
(***************************************************************************)
(* Trained hypotheses of the real learners and boosters are values of      *)
(* Hypothesis (H01).  Cells are the values of the columns trained on, in   *)
(* the order of training; the samples asked have them in other rows, other *)
(* orders, other storage, among other columns.                             *)
(***************************************************************************)
EXTENDS Hypothesis, TraceBase
VARIABLES text     \* what was stored, per document
tvars == <<hvars, t, l, note, text>>
C(name, cond, info) == Clause("H01", name, cond, R.id, l, info)
TInit == TraceInit /\ HInit /\ text = <<>>

Label(v) == IF RGe(v, "0") THEN 1 ELSE -1

TTrain == E.e = "train" /\ Train(E.f) /\ UNCHANGED text
TDrop == E.e = "drop" /\ Drop(E.h) /\ UNCHANGED text
TCopy == /\ E.e = "copy" /\ C("a copy equals the original", E.same, E)
         /\ Copy(E.h) /\ UNCHANGED text
TSave == /\ E.e = "save" /\ Save(E.h)
         /\ C("a hypothesis is stored as the same document each time",
              \A d \in 1..Len(docs) : docs[d] = fn[E.h] => text[d] = E.text, <<docs, text, E>>)
         /\ text' = Append(text, E.text)
TLoad == /\ E.e = "load" /\ C("a loaded hypothesis equals the stored one", E.same, E)
         /\ Load(E.d) /\ UNCHANGED text
TAsk == /\ E.e = "ask" /\ Held(E.h)
        /\ C("answers are real numbers", AllReal(E.ans), E)
        /\ C("the answer depends on the cells of the row alone", Agrees(E.h, E.rows, E.ans), <<E, fn[E.h]>>)
        /\ C("asked for all rows it answers as asked row by row", E.all = E.ans, E)
        /\ C("the label is the sign of the answer",
             E.label = <<>> \/ (Len(E.label) = Len(E.ans) /\ \A i \in 1..Len(E.ans) : E.label[i] = Label(E.ans[i])), E)
        /\ C("asked for all labels it answers as asked row by row", E.labels = E.label, E)
        /\ Ask(E.h, E.rows, E.ans) /\ UNCHANGED text
TPanic == E.e = "panic" /\ C("no failure", FALSE, E) /\ Excuse("failure") /\ UNCHANGED <<hvars, text>>
TOps == (TTrain \/ TDrop \/ TCopy \/ TSave \/ TLoad \/ TAsk) /\ Advance
TNext == More /\ (TOps \/ TPanic)
TSpec == TInit /\ [][TNext]_tvars
TView == <<t, l>>
=============================================================================
