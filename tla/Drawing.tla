------------------------------ MODULE Drawing -------------------------------
(***************************************************************************)
(* The drawing of a tree as an undirected graph in dot form: one vertex    *)
(* per node, a branch labelled with its question "feature < threshold ?",  *)
(* a leaf drawn as a box labelled with its answer, and from every branch   *)
(* an edge "Yes" to the node reached when the value is below the threshold *)
(* and an edge "No" to the other.  A reader starts at the only vertex no   *)
(* edge leads to and follows the edges.                                    *)
(***************************************************************************)
EXTENDS RealArith

VARIABLES
  drawn,   \* [nodes, edges]: vertices [id, leaf, feat, num], edges [a, b, label]
  walk,    \* vertices still to visit, next one first
  seen     \* vertices visited, in order
dvars == <<drawn, walk, seen>>

Empty == [nodes |-> <<>>, edges |-> <<>>]
DInit == drawn = Empty /\ walk = <<>> /\ seen = <<>>

Ids(g) == {g.nodes[i].id : i \in 1..Len(g.nodes)}
Roots(g) == {x \in Ids(g) : \A k \in 1..Len(g.edges) : g.edges[k].b # x}
OneRoot(g) == Cardinality(Roots(g)) = 1
UniqueIds(g) == Cardinality(Ids(g)) = Len(g.nodes)
Vertex(x) == drawn.nodes[CHOOSE i \in 1..Len(drawn.nodes) : drawn.nodes[i].id = x]
From(x) == {k \in 1..Len(drawn.edges) : drawn.edges[k].a = x}
Edges(x, label) == {k \in From(x) : drawn.edges[k].label = label}
Target(x, label) == drawn.edges[CHOOSE k \in Edges(x, label) : TRUE].b
\* the edges of a branch and of a leaf
IsBranch(x) == /\ Cardinality(From(x)) = 2 /\ Cardinality(Edges(x, "Yes")) = 1 /\ Cardinality(Edges(x, "No")) = 1
               /\ {Target(x, "Yes"), Target(x, "No")} \subseteq Ids(drawn)
IsLeaf(x) == From(x) = {}

Read(g) == /\ OneRoot(g) /\ UniqueIds(g)
           /\ drawn' = g /\ walk' = <<CHOOSE x \in Roots(g) : TRUE>> /\ seen' = <<>>
\* the next node of the tree, in preorder
VisitBranch == LET x == Head(walk) IN
               /\ walk' = <<Target(x, "Yes"), Target(x, "No")>> \o Tail(walk)
               /\ seen' = Append(seen, x) /\ UNCHANGED drawn
VisitLeaf == LET x == Head(walk) IN
             walk' = Tail(walk) /\ seen' = Append(seen, x) /\ UNCHANGED drawn
Complete == walk = <<>> /\ Len(seen) = Len(drawn.nodes) /\ Cardinality({seen[i] : i \in 1..Len(seen)}) = Len(seen)

\* numbers are written with two decimals at least
Written(v, x) == IsReal(v) /\ RNear(v, x, RAdd("0.005", RMul("1e-12", RAbs(x))))
=============================================================================
