------------------------------- MODULE Table --------------------------------
(***************************************************************************)
(* A sample: named columns of numbers and a target column, read from a CSV *)
(* file, an SVMLight file or a data frame, renamed, re-targeted, split for *)
(* cross validation, and summarised by weighted means and variances.       *)
(* How the numbers are stored (densely or sparsely) is not part of the     *)
(* state: nothing a user sees may depend on it.  In particular what a      *)
(* learner learns from a table is a function of the table (`learned').     *)
(***************************************************************************)
EXTENDS RealArith

VARIABLES
  names,    \* names of the features
  cols,     \* their columns
  target,   \* the target column (<<>>: not specified)
  n,        \* number of examples
  cv,       \* cross validation under way: [folds, test, done, used] or <<>>
  learned   \* answers of learners, by learner and weights
tvars0 == <<names, cols, target, n, cv, learned>>

Default(i) == "Feat. [" \o ToString(i) \o "]"
Drop(s, k) == [i \in 1..(Len(s) - 1) |-> IF i < k THEN s[i] ELSE s[i + 1]]
At(s, ix) == [i \in 1..Len(ix) |-> s[ix[i]]]
Iota(k) == [i \in 1..k |-> i]
IndexOf(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x /\ \A j \in 1..(i - 1) : s[j] # x
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A z \in S : x <= z IN <<x>> \o SeqOf(S \ {x})

Set(nm, cs, tg, k) == names' = nm /\ cols' = cs /\ target' = tg /\ n' = k /\ cv' = <<>> /\ learned' = <<>>

TableInit == names = <<>> /\ cols = <<>> /\ target = <<>> /\ n = 0 /\ cv = <<>> /\ learned = <<>>

-----------------------------------------------------------------------------
(* reading *)
Column(rows, j) == [i \in 1..Len(rows) |-> RNorm(rows[i][j])]

\* rows: the data lines, one sequence of cells each; header: <<>> when there is none
ReadCsv(header, rows, tgt) ==
  LET all == IF header # <<>> THEN header ELSE [j \in 1..Len(rows[1]) |-> Default(j)]
      k == IndexOf(all, tgt)
      cs == [j \in 1..Len(all) |-> Column(rows, j)]
  IN  Set(Drop(all, k), Drop(cs, k), cs[k], Len(rows))

\* lines: [y, f] with f a sequence of <<index, value>>
Used(lines) == UNION {{e[1] : e \in {lines[i].f[k] : k \in 1..Len(lines[i].f)}} : i \in 1..Len(lines)}
Entry(f, k) == IF \E j \in 1..Len(f) : f[j][1] = k THEN RNorm(f[CHOOSE j \in 1..Len(f) : f[j][1] = k][2]) ELSE "0"
ReadSvm(lines) ==
  LET ks == SeqOf(Used(lines)) IN
  Set([j \in 1..Len(ks) |-> Default(ks[j] + 1)],
      [j \in 1..Len(ks) |-> [i \in 1..Len(lines) |-> Entry(lines[i].f, ks[j])]],
      [i \in 1..Len(lines) |-> RNorm(lines[i].y)], Len(lines))

ReadFrame(nm, cs, tg) == Set(nm, [j \in 1..Len(cs) |-> Map(RNorm, cs[j])], Map(RNorm, tg), Len(tg))

-----------------------------------------------------------------------------
(* naming and targets *)
SetTarget(nm) ==
  /\ \E j \in 1..Len(names) : names[j] = nm
  /\ LET k == IndexOf(names, nm) IN Set(Drop(names, k), Drop(cols, k), cols[k], n)

Rename(ns) == Len(ns) = Len(names) /\ Set(ns, cols, target, n)

-----------------------------------------------------------------------------
(* statistics under weights wt *)
Total(wt) == RSum(wt)
WMean(x, wt) == RDiv(RDot(wt, x), Total(wt))
WVar(x, wt) == LET mu == WMean(x, wt) IN RDiv(RDot(wt, [i \in 1..Len(x) |-> RSq(RSub(x[i], mu))]), Total(wt))
\* the weights of the examples labelled c
For(c, wt) == [i \in 1..Len(wt) |-> IF REq(target[i], c) THEN wt[i] ELSE "0"]
LMean(x, c, wt) == WMean(x, For(c, wt))
LVar(x, c, wt) == WVar(x, For(c, wt))

Distinct(x) == Cardinality({RNorm(x[i]) : i \in 1..Len(x)})
Labels == {RNorm(target[i]) : i \in 1..n}

-----------------------------------------------------------------------------
(* cross validation *)
Row(cs, tg, i) == <<[j \in 1..Len(cs) |-> RNorm(cs[j][i])], RNorm(tg[i])>>
Rows(cs, tg) == [i \in 1..Len(tg) |-> Row(cs, tg, i)]
Count(rows, r) == Cardinality({i \in 1..Len(rows) : rows[i] = r})
Bag(a) == {a[i] : i \in 1..Len(a)}
\* a sequence without repetitions is told by the set of its members
SameBag(a, b) == /\ Len(a) = Len(b)
                 /\ LET A == Bag(a)  B == Bag(b) IN
                    IF Cardinality(A) = Len(a) /\ Cardinality(B) = Len(b) THEN A = B
                    ELSE \A i \in 1..Len(a) : Count(a, a[i]) = Count(b, a[i])
SubBag(a, b) == LET A == Bag(a) IN
                IF Cardinality(A) = Len(a) THEN A \subseteq Bag(b)
                ELSE \A i \in 1..Len(a) : Count(a, a[i]) <= Count(b, a[i])

\* test: rows per test part (the last ones may get fewer)
StartCV(folds, test) == cv' = [folds |-> folds, test |-> test, done |-> 0, used |-> <<>>]
                        /\ UNCHANGED <<names, cols, target, n, learned>>
\* rows of the next fold's test part
FoldSize == LET left == n - cv.done * cv.test IN
            IF left <= 0 THEN 0 ELSE IF left < cv.test THEN left ELSE cv.test
\* train and test: sequences of rows
FoldOK(train, test) ==
  /\ SameBag(train \o test, Rows(cols, target))
  /\ Len(test) = FoldSize
  /\ SubBag(cv.used \o test, Rows(cols, target))
Fold(train, test) == /\ cv' = [cv EXCEPT !.done = @ + 1, !.used = @ \o test]
                     /\ UNCHANGED <<names, cols, target, n, learned>>
\* go on with a part of a fold: the rows ix of the table
Take(rows) == Set(names, [j \in 1..Len(names) |-> [i \in 1..Len(rows) |-> rows[i][1][j]]],
                  [i \in 1..Len(rows) |-> rows[i][2]], Len(rows))

-----------------------------------------------------------------------------
(* learning: the answers ans to the question key are those given before *)
Known(key) == \E k \in 1..Len(learned) : learned[k][1] = key
Answer(key) == learned[CHOOSE k \in 1..Len(learned) : learned[k][1] = key][2]
Learn(key, ans) == /\ learned' = IF Known(key) THEN learned ELSE Append(learned, <<key, ans>>)
                   /\ UNCHANGED <<names, cols, target, n, cv>>
=============================================================================
