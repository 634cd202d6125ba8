----------------------------- MODULE NaiveBayes -----------------------------
(***************************************************************************)
(* Gaussian naive Bayes.  Fitting a weighted table gives every label of    *)
(* positive weight its share of the weight and, per feature, the weighted  *)
(* mean and variance of its examples (a variance is at least FLOOR).  A    *)
(* row is given the label of largest log posterior: logarithm of the share *)
(* plus the Gaussian log densities of the features.                        *)
(***************************************************************************)
EXTENDS RealArith

VARIABLES
  job,    \* [cols, y, w]: a sequence of values per feature, labels, weights
  model,  \* per label [y, prior, mean, var]; <<>> before fitting
  asked   \* rows answered so far: [row, ans]
tvars0 == <<job, model, asked>>

FLOOR == "1e-18"

\* the labels that count, in order of appearance
Seen(j) == SelectSeq([i \in 1..Len(j.y) |-> i],
                     LAMBDA i : /\ \A k \in 1..(i - 1) : ~REq(j.y[k], j.y[i])
                                /\ \E k \in 1..Len(j.y) : REq(j.y[k], j.y[i]) /\ RGt(j.w[k], "0"))
Of(j, lab) == SelectSeq([i \in 1..Len(j.y) |-> i], LAMBDA i : REq(j.y[i], lab))
Pick(s, ix) == [k \in 1..Len(ix) |-> s[ix[k]]]

Fitted(j) ==
  LET first == Seen(j)
      all == RSum(j.w)
      One(lab) ==
        LET ix == Of(j, lab)  w == Pick(j.w, ix)  z == RSum(w)
            mean == TLCEval([f \in 1..Len(j.cols) |-> RDiv(RDot(w, Pick(j.cols[f], ix)), z)])
            var(f) == RDiv(RDot(w, [k \in 1..Len(ix) |-> RSq(RSub(j.cols[f][ix[k]], mean[f]))]), z)
        IN  [y |-> RNorm(lab), prior |-> RDiv(z, all), mean |-> mean, var |-> TLCEval([f \in 1..Len(j.cols) |-> RMax(FLOOR, var(f))])]
  IN  [k \in 1..Len(first) |-> One(j.y[first[k]])]

\* twice the log posterior up to a constant that no label changes
Terms(c, row) == [f \in 1..Len(row) |-> RAdd(RDiv(RSq(RSub(row[f], c.mean[f])), c.var[f]), RLn(c.var[f]))]
Post(c, row) == RSub(RMul("2", RLn(c.prior)), RSum(Terms(c, row)))
\* the size of what is added up, for rounding errors
Size(c, row) == RAdd(RMul("2", RAbs(RLn(c.prior))), RSum(Map(RAbs, Terms(c, row))))

BestPost(m, row) == RMaxOf([k \in 1..Len(m) |-> Post(m[k], row)])
Answers(m, row) == LET b == BestPost(m, row) IN {m[k].y : k \in {i \in 1..Len(m) : REq(Post(m[i], row), b)}}

-----------------------------------------------------------------------------
NBInit == job = <<>> /\ model = <<>> /\ asked = <<>>
Fit(j) == job' = j /\ model' = Fitted(j) /\ asked' = <<>>
Answer(row, ans) == /\ model # <<>>
                    /\ asked' = Append(asked, [row |-> row, ans |-> ans])
                    /\ UNCHANGED <<job, model>>
=============================================================================
