------------------------------ MODULE MCTable -------------------------------
(***************************************************************************)
(* Every tiny file (CSV with or without header, SVMLight with any sparsity *)
(* pattern and entry order), and every history of up to B operations on    *)
(* the sample read from it.                                                *)
(***************************************************************************)
EXTENDS Table, SequencesExt, Json
CONSTANTS KIND, M, D, VALS, YS, B, RATIOS, FOLDS
VARIABLE ops
mcvars == <<tvars0, ops>>

AsSeq(g, k) == [i \in 1..k |-> g[i]]
Do(o) == ops' = Append(ops, o)
NM(j) == <<"alpha", "b c", "x", "Feat. [1]", "zeta">>[j]

\* entries of a line: a partial function from indices, in either order
Lines == LET Parts == UNION {[S -> VALS] : S \in SUBSET (0..(D - 1))} IN
         {[y |-> y, f |-> LET ks == SeqOf(DOMAIN p)
                              e == [i \in 1..Len(ks) |-> <<ks[i], p[ks[i]]>>]
                          IN  IF r THEN e ELSE [i \in 1..Len(e) |-> e[Len(e) + 1 - i]]]
            : y \in YS, p \in Parts, r \in BOOLEAN}

MCRead ==
  /\ ops = <<>>
  /\ IF KIND = "svm"
     THEN \E ls \in [1..M -> Lines] : ReadSvm(AsSeq(ls, M)) /\ Do([e |-> "svm", lines |-> AsSeq(ls, M)])
     ELSE \E rows \in [1..M -> [1..D -> VALS]], hd \in BOOLEAN, k \in 1..D :
            LET rs == [i \in 1..M |-> AsSeq(rows[i], D)]
                h == IF hd THEN [j \in 1..D |-> NM(j)] ELSE <<>>
                tg == IF hd THEN NM(k) ELSE Default(k)
            IN ReadCsv(h, rs, tg) /\ Do([e |-> "csv", header |-> h, rows |-> rs, target |-> tg])

\* the rows of the training part and of the test part of fold k when ix is the order of the rows
TestRows(ix, s) == SubSeq(ix, s + 1, s + FoldSize)
TrainRows(ix, s) == SubSeq(ix, 1, s) \o SubSeq(ix, s + FoldSize + 1, Len(ix))
Start == LET s == cv.done * cv.test IN IF s > n THEN n ELSE s
Pick(rows, ix) == [i \in 1..Len(ix) |-> rows[ix[i]]]

MCOp ==
  /\ ops # <<>> /\ Len(ops) < B /\ cv = <<>>
  /\ \/ \E j \in 1..Len(names) : SetTarget(names[j]) /\ Do([e |-> "target", name |-> names[j]])
     \/ Len(names) > 0 /\ LET ns == [j \in 1..Len(names) |-> NM(Len(names) + 1 - j)] IN
          ns # names /\ Rename(ns) /\ Do([e |-> "rename", names |-> ns])
     \/ \E r \in RATIOS, k \in FOLDS : n > 0 /\
          LET tr == RFloor(RMul(r, n))
              test == CHOOSE q \in 0..n : REq(RAdd(tr, q), n)
          IN StartCV(k, test) /\ Do([e |-> "cv", ratio |-> r, folds |-> k])
MCFold ==
  /\ cv # <<>>
  /\ IF cv.done < cv.folds
     THEN LET all == Rows(cols, target)
              te == Pick(all, TestRows(Iota(n), Start))
              tr == Pick(all, TrainRows(Iota(n), Start))
          IN Fold(tr, te) /\ UNCHANGED ops
     ELSE cv' = <<>> /\ UNCHANGED <<names, cols, target, n, learned, ops>>
MCInit == TableInit /\ ops = <<>>
MCNext == MCRead \/ MCOp \/ MCFold
MCSpec == MCInit /\ [][MCNext]_mcvars
MCView == <<tvars0, ops>>

-----------------------------------------------------------------------------
WTS == {[i \in 1..n |-> "1"], [i \in 1..n |-> ToString(i)], [i \in 1..n |-> IF i = 1 THEN "1" ELSE "0"]}
Rectangular == Len(cols) = Len(names) /\ (\A j \in 1..Len(cols) : Len(cols[j]) = n) /\ Len(target) = n

\* reading a sparse file is reading the dense table it denotes
SparseIsDense ==
  (Len(ops) = 1 /\ ops[1].e = "svm") =>
    \A i \in 1..n : \A j \in 1..Len(names) :
      LET k == (CHOOSE q \in 0..D : names[j] = Default(q + 1))
          es == {e \in {ops[1].lines[i].f[a] : a \in 1..Len(ops[1].lines[i].f)} : e[1] = k}
      IN  IF es = {} THEN cols[j][i] = "0" ELSE \E e \in es : REq(cols[j][i], e[2])
NoLostColumn == (Len(ops) = 1 /\ ops[1].e = "svm") => Len(names) = Cardinality(Used(ops[1].lines))

\* the law of total expectation and variance
Laws == n > 0 => \A wt \in WTS : \A j \in 1..Len(cols) :
  LET W == Total(wt)
      P(c) == RDiv(Total(For(c, wt)), W)
      ls == SetToSeq({c \in Labels : ~REq(Total(For(c, wt)), "0")})
      mu == WMean(cols[j], wt)
  IN /\ REq(mu, RSum([i \in 1..Len(ls) |-> RMul(P(ls[i]), LMean(cols[j], ls[i], wt))]))
     /\ REq(WVar(cols[j], wt), RSum([i \in 1..Len(ls) |-> RMul(P(ls[i]), RAdd(LVar(cols[j], ls[i], wt), RSq(RSub(LMean(cols[j], ls[i], wt), mu))))]))
     /\ RGe(WVar(cols[j], wt), "0")

\* every fold is a partition, and the test parts together a part, of the rows
FoldsOK == cv # <<>> => /\ SubBag(cv.used, Rows(cols, target))
                        /\ (cv.done < cv.folds =>
                              LET all == Rows(cols, target) IN
                              FoldOK(Pick(all, TrainRows(Iota(n), Start)), Pick(all, TestRows(Iota(n), Start))))
                        /\ ((cv.done = cv.folds /\ cv.folds * cv.test >= n) => SameBag(cv.used, Rows(cols, target)))

Emit == (ops # <<>> /\ cv = <<>> /\ (Len(ops) = B \/ ops[Len(ops)].e = "cv")) => PrintT("@BEH " \o ToJson(ops))
=============================================================================
