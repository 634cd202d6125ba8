------------------------------ MODULE MCColumn ------------------------------
(* Every column of up to M rows, however built, with and without stored zeros. *)
EXTENDS Column, Json
CONSTANTS M, VALS
MCInit == CInit
MCNext ==
  \/ \E k \in {"dense", "sparse"} : New(k, "x")
  \/ rows < M /\ \E x \in VALS : Put(x)
  \/ \E i \in 0..(M - 1), x \in VALS : PutAt(i, x)
  \/ \E k \in 1..M : Grow(k)
MCSpec == MCInit /\ [][MCNext]_cvars

Built == kind # ""
\* the views are what they should be, and are not if anything else is told
Views == Built => ListOK(View, Cells) /\ CountOK(View) /\ ZerosOK(View, Cells)
Strict == kind = "sparse" =>
  /\ \A z \in 0..M : z # View.zc => ~ZerosOK([View EXCEPT !.zc = z], Cells)
  /\ \A a \in 1..Len(stored) : ListOK([View EXCEPT !.it = SelectSeq(@, LAMBDA e : e # stored[a])], Cells) => RSign(stored[a][2]) = 0
  /\ \A i \in 1..rows : ~ListOK(View, [Cells EXCEPT ![i] = "7"])
\* storing the zeros or leaving them out is not seen in the cells or the count of zeros
NonZero == SelectSeq(stored, LAMBDA e : RSign(e[2]) # 0)
SameWithout == kind = "sparse" =>
  LET without == RSeq([i \in 1..rows |-> CellOf(NonZero, i - 1)]) IN
  /\ \A i \in 1..rows : REq(without[i], Cells[i])
  /\ View.zc = rows - Len(NonZero)
  /\ ListOK([View EXCEPT !.it = NonZero], Cells)
Emit == (Built /\ rows > 0) => PrintT("@BEH " \o ToJson([k |-> kind, it |-> stored, n |-> rows]))
=============================================================================
