------------------------ MODULE TraceLearnerSettings ------------------------
(* Real weak learners being set up, against LearnerSettings (W07). *)
EXTENDS LearnerSettings, TraceBase
VARIABLE phase
tvars == <<lsvars, t, l, note, phase>>
C(name, cond, info) == Clause("W07", name, cond, R.id, l, info)
TInit == TraceInit /\ w = "" /\ cols = <<>> /\ m = 0 /\ cfg = <<>> /\ bins = <<>> /\ layers = 0 /\ phase = 0
Keep == Advance /\ phase' = l /\ UNCHANGED lsvars
TNew == E.e = "new" /\ New(R.w, E.cols, E.m) /\ Advance /\ phase' = l
TCall == /\ E.e = "call"
         /\ C("a legal setting is accepted", E.ok = 1, <<E, cfg>>)
         /\ CASE E.k = "bins" -> SetBins(E.j, E.n)
              [] E.k = "append" -> AppendLayer
              [] OTHER -> Call(E.k, E.v)
         /\ Advance /\ phase' = l
Row(k) == k \in Range(E.has)
Shown(k, x) == C("the report shows what is in force", Row(k) /\ IsReal(E.rows[k]) /\ REq(E.rows[k], x), <<k, x, E.rows, cfg, bins>>)
Said(k) == C("the report shows what is in force", Row(k) /\ E.rows[k] = cfg[k], <<k, E.rows, cfg, bins>>)
TInfo ==
  /\ E.e = "info"
  /\ w # "nn" => Shown("bins", MaxBins) /\ Shown("depth", cfg["depth"])
  /\ w = "dtree" => Said("criterion")
  /\ w = "rtree" => Said("loss") /\ C("the report shows what is in force", Row("lambda") /\ IsReal(E.rows["lambda"]) /\ RClose(E.rows["lambda"], cfg["lambda"], "1/1000000000000"), <<E.rows, cfg>>)
  /\ w = "nn" => Shown("batch", cfg["batch"]) /\ Shown("iter", cfg["iter"]) /\ Shown("epoch", cfg["epoch"]) /\ Shown("layers", layers)
  /\ Keep

Near(a, b) == IF ~IsReal(b) THEN a = b ELSE IsReal(a) /\ RNear(a, b, "5001/100000")
SamePicture(p, q) == Len(p) = Len(q) /\ \A k \in 1..Len(p) : Near(p[k][1], q[k][1]) /\ Near(p[k][2], q[k][2])
\* the printed learner
TText ==
  /\ E.e = "text"
  /\ C("the learner prints every feature once", Len(E.feats) = Len(cols) /\ {E.feats[i].j : i \in 1..Len(E.feats)} = 1..Len(cols), E)
  /\ \A i \in 1..Len(E.feats) : LET f == E.feats[i] IN
       /\ C("the learner prints the number of bins of a feature", f.n = bins[f.j], <<f, bins>>)
       /\ C("the bins of a feature have equal width and cover the line", SamePicture(f.bins, Picture(cols[f.j], bins[f.j])),
            <<f, Map(RShow, cols[f.j]), bins>>)
  /\ C("the printed depth is the one in force", REq(E.depth, cfg["depth"]), <<E, cfg>>)
  /\ C("what the printed learner splits by is in force", E.by = (IF w = "dtree" THEN cfg["criterion"] ELSE cfg["loss"]), <<E, cfg>>)
  /\ Keep

Plain == /\ {E.set[i].k : i \in 1..Len(E.set)} = Keys(w) \cup {"bins"}
         /\ \A i \in 1..Len(E.set) :
              LET s == E.set[i] IN
              IF s.k = "bins" THEN s.n = bins[s.j] ELSE s.v = cfg[s.k] \/ (IsReal(s.v) /\ IsReal(cfg[s.k]) /\ REq(s.v, cfg[s.k]))
TTree == /\ E.e = "tree"
         /\ IF ~Plain THEN Report("W07", "harness: the fresh learner is set up differently", R.id, l, <<E.set, cfg, bins>>) /\ FALSE ELSE TRUE
         /\ C("only the last values of the settings matter", E.got = E.fresh, <<cfg, bins, E.got, E.fresh>>)
         /\ Keep
TFailure == /\ E.e = "panic"
            /\ C("a learner is built", ~Ready, E) /\ Excuse("panic") /\ UNCHANGED <<lsvars, phase>>
TNext == More /\ (TNew \/ TCall \/ TInfo \/ TText \/ TTree \/ TFailure)
TSpec == TInit /\ [][TNext]_tvars
TView == <<t, l, phase>>
=============================================================================
