---------------------------- MODULE MCHypothesis ----------------------------
(***************************************************************************)
(* Every history of B operations on two trained functions and their        *)
(* copies; samples are VIEWS, sequences of rows of a table whose cells are *)
(* CELLS (two rows of the table may have the same cells).                  *)
(***************************************************************************)
EXTENDS Hypothesis
CONSTANTS B, NV
VARIABLE ops
mcvars == <<hvars, ops>>

CELLS == <<"a", "b", "a">>
VIEWS == <<<<1, 2>>, <<2, 3, 1>>, <<3>>>>
TRUTH == [a |-> <<"1", "-1">>, b |-> <<"-1", "-1">>]
Rows(v) == [i \in 1..Len(VIEWS[v]) |-> CELLS[VIEWS[v][i]]]
True(f, v) == [i \in 1..Len(VIEWS[v]) |-> TRUTH[Rows(v)[i]][f]]

Do(o, a, b) == ops' = Append(ops, <<o, a, b>>)
Handles == 1..Len(fn)
MCInit == HInit /\ ops = <<>>
MCNext ==
  /\ Len(ops) < B
  /\ \/ \E f \in 1..2 : (f = 1 \/ fn # <<>>) /\ (\A h \in Handles : fn[h] # f) /\ ~(\E d \in 1..Len(docs) : docs[d] = f) /\ Train(f) /\ Do("train", f, 0)
     \/ \E h \in Handles : Copy(h) /\ Do("copy", h, 0)
     \/ \E h \in Handles : Drop(h) /\ Do("drop", h, 0)
     \/ \E h \in Handles : Save(h) /\ Do("save", h, 0)
     \/ \E d \in 1..Len(docs) : Load(d) /\ Do("load", d, 0)
     \/ \E h \in Handles, v \in 1..NV : Held(h) /\ Ask(h, Rows(v), True(fn[h], v)) /\ Do("ask", h, v)
MCSpec == MCInit /\ [][MCNext]_mcvars

-----------------------------------------------------------------------------
\* nothing said departs from the function as trained: no operation other than
\* training makes or changes one
Faithful == \A k \in DOMAIN said : said[k] = TRUTH[k[2]][k[1]]
Origins == \A h \in Handles : fn[h] # 0 => \E i \in 1..Len(ops) : ops[i] = <<"train", fn[h], 0>>
\* a function whose handles are all dropped lives on in its documents
Kept == \A d \in 1..Len(docs) : docs[d] \in 1..2 /\ ENABLED Load(d)
\* an answer contrary to one given is not possible, through whichever handle
NoOther == \A h \in Handles, v \in 1..NV : Held(h) =>
  LET wrong == [i \in 1..Len(VIEWS[v]) |-> IF True(fn[h], v)[i] = "1" THEN "-1" ELSE "1"]
  IN  (\E i \in 1..Len(VIEWS[v]) : <<fn[h], Rows(v)[i]>> \in DOMAIN said) => ~Agrees(h, Rows(v), wrong)
Monotone == [][\A k \in DOMAIN said : k \in DOMAIN said' /\ said'[k] = said[k]]_mcvars
Emit == (Len(ops) = B /\ ops[B][1] = "ask") => PrintT("@BEH " \o ToString(ops))
=============================================================================
