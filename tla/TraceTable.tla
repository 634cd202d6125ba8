----------------------------- MODULE TraceTable -----------------------------
(***************************************************************************)
(* What the real code does with samples is a behaviour of Table (S01-S05,  *)
(* S08).                                                                   *)
(* An operation is followed by an observation of everything that can be    *)
(* looked up; the observation is the table to go on from.                  *)
(***************************************************************************)
EXTENDS Table, TraceBase
VARIABLES src, phase   \* families responsible for the current table; "go" or "see"
tvars == <<tvars0, src, phase, t, l, note>>

ClauseIn(fams, name, cond, info) ==
  IF FAMILY \in fams \cup {"ALL"} \/ "ALL" = FAMILY
  THEN IF cond THEN TRUE ELSE (Report(FAMILY, name, R.id, l, info) /\ FALSE)
  ELSE TRUE
S(fam, name, cond, info) == ClauseIn({fam}, name, cond, info)

TInit == TraceInit /\ TableInit /\ src = {} /\ phase = "go"

\* equal up to the nearest double
Same(a, b) == IsReal(a) /\ RLe(RAbs(RSub(a, b)), RMul("1e-15", RAbs(b)))
SameSeq(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Same(a[i], b[i])
Near(a, b, tol) == IsReal(a) /\ RLe(RAbs(RSub(a, b)), tol)

Observe == phase' = "see" /\ Advance
TRead == /\ phase = "go"
         /\ \/ E.e = "csv" /\ ReadCsv(E.header, E.rows, E.target) /\ src' = {"S01"}
            \/ E.e = "svm" /\ ReadSvm(E.lines) /\ src' = {"S02"}
            \/ E.e = "frame" /\ ReadFrame(E.names, E.cols, E.target) /\ src' = {"S01"}
         /\ Observe
TOp == /\ phase = "go"
       /\ \/ E.e = "target" /\ SetTarget(E.name) /\ UNCHANGED src
          \/ /\ E.e = "rename"
             /\ ClauseIn(src, "renaming returns the old names", E.old = names, <<names, E.old>>)
             /\ Rename(E.names) /\ UNCHANGED src
       /\ Observe

\* a table as the harness saw it
Seen(fams, o, nm, cs, tg, k) ==
  LET C(name, cond, info) == ClauseIn(fams, name, cond, info)
      d == Len(nm)
  IN
  /\ C("number of examples and features", o.shape = <<k, d>>, <<k, d, o.shape>>)
  /\ C("names of the features, in order", o.names = nm, <<nm, o.names>>)
  /\ C("target", SameSeq(o.target, tg), <<tg, o.target>>)
  /\ C("lookup by row", Len(o.at) = k /\ \A i \in 1..k : Len(o.at[i]) = d /\ \A j \in 1..d : Same(o.at[i][j], cs[j][i]), <<cs, o.at>>)
  /\ C("lookup by row gives the target", SameSeq(o.aty, tg), <<tg, o.aty>>)
  /\ C("lookup by feature", Len(o.col) = d /\ \A j \in 1..d : SameSeq(o.col[j], cs[j]), <<cs, o.col>>)
  /\ C("lookup by name", Len(o.byname) = d /\ \A j \in 1..d : SameSeq(o.byname[j], cs[j]), <<cs, o.byname>>)

\* every view of a column tells the cells found by row (S08)
Views == INSTANCE Column WITH kind <- "", title <- "", stored <- <<>>, rows <- 0
Viewed(o) ==
  (FAMILY = "S08" \/ FAMILY = "ALL") =>
  LET k == Len(o.at)  d == Len(o.names)  vs == o.views IN
  /\ S("S08", "every row has every column", Len(vs) = d /\ \A i \in 1..k : Len(o.at[i]) = d, o)
  /\ \A j \in 1..d :
       LET v == vs[j]  col == RSeq([i \in 1..k |-> o.at[i][j]]) IN
       /\ S("S08", "the name", v.name = o.names[j], <<v, o.names>>)
       /\ S("S08", "the cells stored", Views!ListOK(v, col), <<v, col>>)
       /\ S("S08", "how many are stored", Views!CountOK(v) /\ v.flen = v.len /\ v.fnone = v.none, v)
       /\ S("S08", "the zeros", Views!ZerosOK(v, col), <<v, col>>)
       /\ S("S08", "single cells", \A i \in 1..k : Same(o.col[j][i], col[i]) /\ Same(o.byname[j][i], col[i]), <<col, o.col[j], o.byname[j]>>)

TSee == /\ phase = "see" /\ E.e = "obs"
        /\ Viewed(E)
        /\ S("S08", "columns keep their names, or get the new ones", l > 2 => E.names = names, <<names, E.names>>)
        /\ Seen(src, E, names, cols, target, n)
        /\ ClauseIn(src, "the labels", {RNorm(E.uniq[i]) : i \in 1..Len(E.uniq)} = {RNorm(E.target[i]) : i \in 1..Len(E.target)}
                          /\ \A i \in 1..(Len(E.uniq) - 1) : RLt(E.uniq[i], E.uniq[i + 1]), <<E.target, E.uniq>>)
        /\ IF FAMILY \in src THEN UNCHANGED <<names, cols, target, n>>
           ELSE \* judged elsewhere
                /\ names' = E.names /\ target' = Map(RNorm, E.target) /\ n' = Len(E.at)
                /\ cols' = [j \in 1..Len(E.names) |-> [i \in 1..Len(E.at) |-> RNorm(E.at[i][j])]]
        /\ phase' = "go" /\ Advance /\ UNCHANGED <<cv, learned, src>>

-----------------------------------------------------------------------------
MaxAbs(x) == RMax("1e-300", RMaxOf(Map(RAbs, x)))
TStats == /\ phase = "go" /\ E.e = "stats"
          /\ LET wt == Map(RNorm, E.w)
                 d == Len(names)
                 mt(j) == RMul("1e-11", MaxAbs(cols[j]))
                 vt(j) == RMul("1e-11", RSq(MaxAbs(cols[j])))
             IN
             IF E.label = ""
             THEN /\ S("S04", "weighted mean", Len(E.mean) = d /\ \A j \in 1..d : Near(E.mean[j], WMean(cols[j], wt), mt(j)), <<cols, wt, E.mean>>)
                  /\ S("S04", "weighted mean and variance",
                       Len(E.mv) = d /\ \A j \in 1..d : Near(E.mv[j][1], WMean(cols[j], wt), mt(j)) /\ Near(E.mv[j][2], WVar(cols[j], wt), vt(j)), <<cols, wt, E.mv>>)
             ELSE /\ S("S04", "weighted mean for a label",
                       Len(E.mean) = d /\ \A j \in 1..d : Near(E.mean[j], LMean(cols[j], E.label, wt), mt(j)), <<cols, target, wt, E.label, E.mean>>)
                  /\ S("S04", "weighted mean and variance for a label",
                       Len(E.mv) = d /\ \A j \in 1..d : Near(E.mv[j][1], LMean(cols[j], E.label, wt), mt(j)) /\ Near(E.mv[j][2], LVar(cols[j], E.label, wt), vt(j)),
                       <<cols, target, wt, E.label, E.mv>>)
          \* statistics do not depend on the representation either
          /\ S("S03", "the same statistics in every representation",
               Known(E.key) => \A j \in 1..Len(E.mv) : Near(E.mv[j][1], Answer(E.key)[2 * j - 1], RMul("1e-11", MaxAbs(cols[j])))
                                                      /\ Near(E.mv[j][2], Answer(E.key)[2 * j], RMul("1e-11", RSq(MaxAbs(cols[j])))), <<E, cols>>)
          /\ Learn(E.key, [i \in 1..(2 * Len(E.mv)) |-> E.mv[(i + 1) \div 2][IF i % 2 = 1 THEN 1 ELSE 2]])
          /\ Advance /\ UNCHANGED <<src, phase>>

\* the default number of bins of a tree is the largest number of distinct values, at most 255
TBins == /\ phase = "go" /\ E.e = "bins"
         /\ LET ds == {Distinct(cols[j]) : j \in 1..Len(cols)}
                top == CHOOSE x \in ds : \A z \in ds : z <= x
            IN  S("S03", "distinct values of the features", E.n = IF top > 255 THEN 255 ELSE top, <<cols, E.n>>)
         /\ Advance /\ UNCHANGED <<tvars0, src, phase>>

TLearn == /\ phase = "go" /\ E.e = "learn"
          /\ S("S03", "learners answer alike in every representation",
               Known(E.key) => Len(E.ans) = Len(Answer(E.key)) /\ \A i \in 1..Len(E.ans) : IsReal(E.ans[i]) /\ RClose(E.ans[i], Answer(E.key)[i], "1e-7"),
               <<E.key, E.ans, Answer(E.key)>>)
          /\ Learn(E.key, E.ans)
          /\ Advance /\ UNCHANGED <<src, phase>>

\* the table again, in another representation
TTwin == /\ phase = "go" /\ E.e = "twin"
         /\ Seen({"S03"}, E, names, cols, target, n)
         /\ Advance /\ UNCHANGED <<tvars0, src, phase>>

-----------------------------------------------------------------------------
\* the training part has floor(ratio * n) rows
TCV == /\ phase = "go" /\ E.e = "cv"
       /\ LET r == IF E.ratio = "" THEN "0.8" ELSE E.ratio
              f == IF E.folds = 0 THEN 5 ELSE E.folds
              tr == RFloor(RAdd(RMul(r, n), "1e-9"))
              test == CHOOSE k \in 0..n : REq(RAdd(tr, k), n)
          IN StartCV(f, test)
       /\ Advance /\ UNCHANGED <<src, phase>>

PartRows(o) == [i \in 1..Len(o.at) |-> <<Map(RNorm, o.at[i]), RNorm(o.aty[i])>>]
PartCols(o) == [j \in 1..Len(names) |-> [i \in 1..Len(o.at) |-> o.at[i][j]]]
TFold == /\ phase = "go" /\ E.e = "fold" /\ cv # <<>>
         /\ S("S05", "no more folds than requested", cv.done < cv.folds, cv)
         /\ LET rt == PartRows(E.train)  rs == PartRows(E.test) IN
            /\ S("S05", "training and test part hold every row once", SameBag(rt \o rs, Rows(cols, target)), <<rt, rs, Rows(cols, target)>>)
            /\ S("S05", "size of the test part", Len(rs) = FoldSize, <<Len(rs), FoldSize>>)
            /\ S("S05", "test parts are disjoint", SubBag(cv.used \o rs, Rows(cols, target)), <<cv.used, rs>>)
            /\ Viewed(E.train) /\ Viewed(E.test)
            /\ Seen({"S05"}, E.train, names, PartCols(E.train), [i \in 1..Len(rt) |-> rt[i][2]], Len(rt))
            /\ Seen({"S05"}, E.test, names, PartCols(E.test), [i \in 1..Len(rs) |-> rs[i][2]], Len(rs))
            /\ Fold(rt, rs)
         /\ Advance /\ UNCHANGED <<src, phase>>
TFolds == /\ phase = "go" /\ E.e = "folds"
          /\ S("S05", "as many folds as requested", cv.done = cv.folds, cv)
          /\ Advance /\ UNCHANGED <<tvars0, src, phase>>
\* go on with a part
TTake == /\ phase = "go" /\ E.e = "take"
         /\ Take(PartRows(E.part)) /\ src' = {"S05"}
         /\ Observe

TPanic == /\ E.e = "panic" /\ ClauseIn(IF E.at = "" THEN src ELSE {E.at}, "no failure", FALSE, E)
          /\ Excuse("failure") /\ UNCHANGED <<tvars0, src, phase>>
TNext == More /\ (TRead \/ TOp \/ TSee \/ TStats \/ TBins \/ TLearn \/ TTwin \/ TCV \/ TFold \/ TFolds \/ TTake \/ TPanic)
TSpec == TInit /\ [][TNext]_tvars
TView == <<t, l, phase>>
=============================================================================
