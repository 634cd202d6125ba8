---------------------------- MODULE MCNaiveBayes ----------------------------
(***************************************************************************)
(* Naive Bayes on every small table, labelling and weighting, asked for    *)
(* rows over QS.                                                           *)
(***************************************************************************)
EXTENDS NaiveBayes, Json
CONSTANTS M, D, VALS, YS, WTS, QS
mcvars == tvars0

AsSeq(g, k) == [i \in 1..k |-> g[i]]
MCInit == NBInit
MCNext ==
  \/ /\ model = <<>>
     /\ \E g \in [1..D -> [1..M -> VALS]], y \in [1..M -> YS], w \in [1..M -> WTS] :
          /\ \E i \in 1..M : RGt(w[i], "0")
          /\ Fit([cols |-> [f \in 1..D |-> AsSeq(g[f], M)], y |-> AsSeq(y, M), w |-> AsSeq(w, M)])
  \/ /\ model # <<>> /\ Len(asked) = 0
     /\ \E q \in [1..D -> QS] : \E a \in Answers(model, AsSeq(q, D)) : Answer(AsSeq(q, D), a)
MCSpec == MCInit /\ [][MCNext]_mcvars

-----------------------------------------------------------------------------
Priors == model # <<>> => REq(RSum([k \in 1..Len(model) |-> model[k].prior]), "1")
\* a mean lies between the values of its label, and the mean of all is the mean of means
Means == model # <<>> => \A f \in 1..D :
  /\ \A k \in 1..Len(model) : LET x == Pick(job.cols[f], Of(job, model[k].y)) IN RLe(RMinOf(x), model[k].mean[f]) /\ RLe(model[k].mean[f], RMaxOf(x))
  /\ REq(RSum([k \in 1..Len(model) |-> RMul(model[k].prior, model[k].mean[f])]), RDiv(RDot(job.w, job.cols[f]), RSum(job.w)))
\* an answer is a label of positive weight
Fair == \A k \in 1..Len(asked) : \E i \in 1..M : REq(job.y[i], asked[k].ans) /\ RGt(job.w[i], "0")

\* the answers do not depend on the unit and origin of a feature, on the
\* order of the features, on a feature that is the same for every label,
\* on the scale of the weights, or on splitting an example in two
Answered(j, row) == Answers(Fitted(j), row)
\* (logarithms have 50 digits: a tie may break either way)
Tie == LET b == BestPost(model, asked[1].row) IN \E k, i \in 1..Len(model) : k # i /\ RNear(Post(model[k], asked[1].row), b, "1e-40") /\ RNear(Post(model[i], asked[1].row), b, "1e-40")
Near(a, b, row) == a = b \/ Tie
Wide == \A k \in 1..Len(model) : \A f \in 1..D : RGt(model[k].var[f], FLOOR)
Same == (asked # <<>> /\ Wide) =>
  LET row == asked[1].row
      here == Answered(job, row)
      unit(v) == RAdd("7", RMul("3", v))
      moved == [job EXCEPT !.cols = [f \in 1..D |-> IF f = 1 THEN Map(unit, job.cols[f]) ELSE job.cols[f]]]
      back == [job EXCEPT !.cols = [f \in 1..D |-> job.cols[D + 1 - f]]]
      heavy == [job EXCEPT !.w = RScale("5", job.w)]
      halves == [cols |-> [f \in 1..D |-> Append(job.cols[f], job.cols[f][1])], y |-> Append(job.y, job.y[1]),
                 w |-> [i \in 1..(M + 1) |-> IF i \in {1, M + 1} THEN RDiv(job.w[1], "2") ELSE job.w[i]]]
      flip == [job EXCEPT !.y = [i \in 1..M |-> RNeg(job.y[i])]]
  IN  /\ Near(Answered(moved, [f \in 1..D |-> IF f = 1 THEN unit(row[f]) ELSE row[f]]), here, row)
      /\ Near(Answered(back, [f \in 1..D |-> row[D + 1 - f]]), here, row)
      /\ Near(Answered(heavy, row), here, row)
      /\ Near(Answered(halves, row), here, row)
      /\ Near({RNeg(v) : v \in Answered(flip, row)}, here, row)
\* with one label of weight, that label is the answer
Only == (asked # <<>> /\ Len(model) = 1) => asked[1].ans = model[1].y
\* labels with the same shares and variances: the nearer mean (in units of the deviations) wins
Nearest == asked # <<>> =>
  \A a, b \in 1..Len(model) :
    (/\ REq(model[a].prior, model[b].prior) /\ model[a].var = model[b].var
     /\ LET d(k) == RSum([f \in 1..D |-> RDiv(RSq(RSub(asked[1].row[f], model[k].mean[f])), model[k].var[f])]) IN RLt(d(a), d(b)))
    => asked[1].ans # model[b].y
Emit == asked # <<>> => PrintT("@BEH " \o ToJson([cols |-> job.cols, y |-> job.y, w |-> job.w, row |-> asked[1].row]))
=============================================================================
