------------------------------- MODULE Column -------------------------------
(***************************************************************************)
(* A feature column, stored densely (every cell) or sparsely (some cells   *)
(* by row, the others are zero), built cell by cell, and what its views    *)
(* tell: number and list of the stored cells, single cells, and, of a      *)
(* sparse column of a sample, how many cells are zero.  A zero may be      *)
(* stored; what is zero does not depend on whether it is.                  *)
(***************************************************************************)
EXTENDS RealArith

VARIABLES
  kind,    \* "dense" | "sparse"
  title,   \* its name
  stored,  \* dense: the cells; sparse: pairs <<row, value>>, rows from 0 ascending
  rows     \* number of rows
cvars == <<kind, title, stored, rows>>

CInit == kind = "" /\ title = "" /\ stored = <<>> /\ rows = 0

New(k, nm) == kind = "" /\ kind' = k /\ title' = nm /\ stored' = <<>> /\ rows' = 0
Put(x) == kind = "dense" /\ stored' = Append(stored, RNorm(x)) /\ rows' = rows + 1 /\ UNCHANGED <<kind, title>>
PutAt(i, x) == /\ kind = "sparse" /\ i >= rows
               /\ stored' = Append(stored, <<i, RNorm(x)>>) /\ rows' = i + 1 /\ UNCHANGED <<kind, title>>
\* the sample has further rows, zero in this column
Grow(k) == kind = "sparse" /\ k > rows /\ rows' = k /\ UNCHANGED <<kind, title, stored>>

\* the cell of row i of a sparse list
CellOf(s, i) == IF \E a \in 1..Len(s) : s[a][1] = i THEN s[CHOOSE a \in 1..Len(s) : s[a][1] = i][2] ELSE "0"
Cells == IF kind = "sparse" THEN RSeq([i \in 1..rows |-> CellOf(stored, i - 1)]) ELSE stored

ZeroRows(col) == Cardinality({i \in 1..Len(col) : RSign(col[i]) = 0})

(* What the views of a column with the cells col tell.  v.k: how it is     *)
(* stored, v.it: the stored cells, v.len, v.none: their number, none, and  *)
(* for sparse columns v.hz: holds a zero, v.zc: the number of zeros.       *)
SameCell(a, b) == IsReal(a) /\ RLe(RAbs(RSub(a, b)), RMul("1e-15", RAbs(b)))
ListOK(v, col) ==
  IF v.k = "dense" THEN Len(v.it) = Len(col) /\ \A i \in 1..Len(col) : SameCell(v.it[i], col[i])
  ELSE LET at == {v.it[a][1] : a \in 1..Len(v.it)} IN
       /\ \A a \in 1..Len(v.it) : v.it[a][1] \in 0..(Len(col) - 1) /\ SameCell(v.it[a][2], col[v.it[a][1] + 1])
       /\ \A a \in 1..(Len(v.it) - 1) : v.it[a][1] < v.it[a + 1][1]
       /\ \A i \in 1..Len(col) : RSign(col[i]) # 0 => (i - 1) \in at
CountOK(v) == v.len = Len(v.it) /\ (v.none <=> Len(v.it) = 0)
ZerosOK(v, col) == v.k = "sparse" => LET z == ZeroRows(col) IN v.zc = z /\ (v.hz <=> z > 0)

View == [k |-> kind, it |-> stored, len |-> Len(stored), none |-> stored = <<>>,
         hz |-> ZeroRows(Cells) > 0, zc |-> ZeroRows(Cells)]
=============================================================================
