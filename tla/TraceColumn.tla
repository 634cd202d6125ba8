---------------------------- MODULE TraceColumn -----------------------------
(***************************************************************************)
(* Columns built by hand and columns of SVMLight files are columns of      *)
(* Column (S08).  A "cell" event stores a cell; a "look" event tells every *)
(* view; "rows" tells the number of rows of the sample the column is of.   *)
(***************************************************************************)
EXTENDS Column, TraceBase
tvars == <<cvars, t, l, note>>
C(name, cond, info) == Clause("S08", name, cond, R.id, l, info)
TInit == TraceInit /\ CInit
TNew  == E.e = "new" /\ New(E.kind, E.name) /\ Advance
TCell == E.e = "cell" /\ (IF kind = "dense" THEN Put(E.x) ELSE PutAt(E.i, E.x)) /\ Advance
TRows == E.e = "rows" /\ (IF kind = "sparse" /\ E.n > rows THEN Grow(E.n) ELSE UNCHANGED cvars) /\ Advance
TLook ==
  /\ E.e = "look"
  /\ LET col == Cells  v == E.v IN
     /\ C("stored as asked", v.k = kind, E)
     /\ C("its name", v.name = title, E)
     /\ C("the cells stored", ListOK(v, col), <<col, E>>)
     /\ C("exactly those", Len(v.it) = Len(stored), <<stored, E>>)
     /\ C("how many are stored", CountOK(v) /\ v.flen = v.len /\ v.fnone = v.none, E)
     /\ C("the zeros", E.zeros = 1 => ZerosOK(v, col), <<col, E>>)
     /\ C("single cells", Len(E.ix) = rows /\ \A i \in 1..rows : SameCell(E.ix[i], col[i]), <<col, E>>)
  /\ UNCHANGED cvars /\ Advance
TPanic == E.e = "panic" /\ C("no failure", FALSE, E) /\ Excuse("failure") /\ UNCHANGED cvars
TNext == More /\ (TNew \/ TCell \/ TRows \/ TLook \/ TPanic)
TSpec == TInit /\ [][TNext]_tvars
TView == <<t, l>>
=============================================================================
