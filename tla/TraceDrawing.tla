---------------------------- MODULE TraceDrawing ----------------------------
(* Drawings of real trees, read vertex by vertex (W06). *)
EXTENDS Drawing, TraceBase
VARIABLE at0
tvars == <<dvars, t, l, note, at0>>
C(name, cond, info) == Clause("W06", name, cond, R.id, l, info)
TInit == TraceInit /\ DInit /\ at0 = 0

TDrawing == /\ E.e = "drawing"
            /\ C("a drawing is a dot graph", E.error = "", E)
            /\ LET g == [nodes |-> E.nodes, edges |-> E.edges] IN
               /\ C("every node has a vertex of its own", UniqueIds(g), g)
               /\ C("one vertex is the root", OneRoot(g), g)
               /\ Read(g)
            /\ Advance /\ at0' = l
TBranch == /\ E.e = "node" /\ E.kind = "B"
           /\ C("a vertex for every node", walk # <<>>, E)
           /\ LET x == Head(walk)  v == Vertex(x) IN
              /\ C("a branch has an edge for Yes and one for No", IsBranch(x), <<E, v, drawn.edges>>)
              /\ C("the question of a branch", ~v.leaf /\ v.feat = E.f /\ Written(v.num, E.thr), <<E, v>>)
           /\ VisitBranch /\ Advance /\ at0' = l
TLeaf == /\ E.e = "node" /\ E.kind = "L"
         /\ C("a vertex for every node", walk # <<>>, E)
         /\ LET x == Head(walk)  v == Vertex(x) IN
            /\ C("a leaf has no edges below", IsLeaf(x), <<E, v, drawn.edges>>)
            /\ C("the answer of a leaf", v.leaf /\ Written(v.num, E.ans), <<E, v>>)
         /\ VisitLeaf /\ Advance /\ at0' = l
TEnd == E.e = "end" /\ C("nothing else is drawn", Complete, <<drawn, seen, walk>>) /\ Advance /\ at0' = l /\ UNCHANGED dvars
TPanic == E.e = "panic" /\ C("no failure", FALSE, E) /\ Excuse("failure") /\ UNCHANGED <<dvars, at0>>
TNext == More /\ (TDrawing \/ TBranch \/ TLeaf \/ TEnd \/ TPanic)
TSpec == TInit /\ [][TNext]_tvars
TView == <<t, l, at0>>
=============================================================================
