----------------------------- MODULE MCDrawing ------------------------------
(***************************************************************************)
(* Every tree up to a size, grown in preorder, is drawn with the preorder  *)
(* numbers as vertices; reading the drawing gives the tree back.           *)
(***************************************************************************)
EXTENDS Drawing, Json
CONSTANTS N, FEATS, THRS, ANSS
VARIABLES nodes,   \* the tree in preorder: [kind, f, thr, ans]
          open     \* subtrees still missing
mcvars == <<dvars, nodes, open>>

\* the position after the subtree that starts at k
RECURSIVE After(_)
After(k) == IF nodes[k].kind = "L" THEN k + 1 ELSE After(After(k + 1))
Draw == [nodes |-> [k \in 1..Len(nodes) |-> [id |-> ToString(k - 1), leaf |-> nodes[k].kind = "L", feat |-> nodes[k].f,
                                             num |-> IF nodes[k].kind = "L" THEN nodes[k].ans ELSE nodes[k].thr]],
         edges |-> LET es[k \in 0..Len(nodes)] ==
                         IF k = 0 THEN <<>>
                         ELSE es[k - 1] \o (IF nodes[k].kind = "L" THEN <<>>
                              ELSE <<[a |-> ToString(k - 1), b |-> ToString(k), label |-> "Yes"],
                                     [a |-> ToString(k - 1), b |-> ToString(After(k + 1) - 1), label |-> "No"]>>)
                   IN es[Len(nodes)]]

MCInit == DInit /\ nodes = <<>> /\ open = 1
Grow == /\ open > 0 /\ drawn = Empty
        /\ \/ \E a \in ANSS : nodes' = Append(nodes, [kind |-> "L", f |-> "", thr |-> "0", ans |-> a]) /\ open' = open - 1
           \/ /\ Len(nodes) + open + 2 <= N
              /\ \E f \in FEATS, z \in THRS : nodes' = Append(nodes, [kind |-> "B", f |-> f, thr |-> z, ans |-> "0"]) /\ open' = open + 1
        /\ UNCHANGED dvars
Show == open = 0 /\ drawn = Empty /\ Read(Draw) /\ UNCHANGED <<nodes, open>>
Visit == /\ walk # <<>>
         /\ IF IsBranch(Head(walk)) THEN VisitBranch ELSE VisitLeaf
         /\ UNCHANGED <<nodes, open>>
MCNext == Grow \/ Show \/ Visit
MCSpec == MCInit /\ [][MCNext]_mcvars
-----------------------------------------------------------------------------
\* the k-th vertex visited is the k-th node
Same == \A k \in 1..Len(seen) : LET v == Vertex(seen[k]) IN
          /\ v.leaf = (nodes[k].kind = "L") /\ v.feat = nodes[k].f
          /\ v.num = (IF v.leaf THEN nodes[k].ans ELSE nodes[k].thr)
Whole == (drawn # Empty /\ walk = <<>>) => Complete /\ Len(seen) = Len(nodes)
TreeLike == drawn # Empty => Len(drawn.edges) = Len(drawn.nodes) - 1
\* a row answered by following the drawing gets the tree's answer
RECURSIVE Ask(_, _), AskTree(_, _)
Ask(x, v) == IF IsLeaf(x) THEN Vertex(x).num ELSE Ask(Target(x, IF RLt(v[Vertex(x).feat], Vertex(x).num) THEN "Yes" ELSE "No"), v)
AskTree(k, v) == IF nodes[k].kind = "L" THEN nodes[k].ans ELSE AskTree(IF RLt(v[nodes[k].f], nodes[k].thr) THEN k + 1 ELSE After(k + 1), v)
Answers == (drawn # Empty /\ seen = <<>>) =>
  \A v \in [FEATS -> {"-10", "0", "10"}] : Ask(CHOOSE x \in Roots(drawn) : TRUE, v) = AskTree(1, v)
Emit == (open = 0 /\ drawn = Empty) => PrintT("@BEH " \o ToJson(nodes))
=============================================================================
