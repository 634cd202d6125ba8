---------------------------- MODULE TracePrepare -----------------------------
(***************************************************************************)
(* Sessions with the real SampleReader and CrossValidation are behaviours  *)
(* of Prepare (S07).  Rows of the samples differ from each other, so that  *)
(* a row tells its number.                                                 *)
(***************************************************************************)
EXTENDS Prepare, TraceBase
VARIABLE parts   \* row numbers of the parts of the fold drawn last
tvars == <<pvars, t, l, note, parts>>
C(name, cond, info) == Clause("S07", name, cond, R.id, l, info)
TInit == TraceInit /\ PInit /\ parts = <<>>

NormRow(r) == <<Map(RNorm, r[1]), RNorm(r[2])>>
Present(rows) == LET all == Rows(cols, target) IN \A i \in 1..Len(rows) : \E k \in 1..n : all[k] = NormRow(rows[i])
Numbers(rows) == LET all == Rows(cols, target) IN [i \in 1..Len(rows) |-> CHOOSE k \in 1..n : all[k] = NormRow(rows[i])]

TFiles == /\ \/ E.e = "write" /\ Write(E.f, E.doc)
             \/ E.e = "remove" /\ Remove(E.f)
          /\ UNCHANGED parts
TReader == /\ \/ E.e = "reader" /\ NewReader
              \/ E.e = "file" /\ File(E.f, E.ext)
              \/ E.e = "header" /\ Header(E.v)
              \/ E.e = "target" /\ TargetColumn(E.v)
           /\ UNCHANGED parts
TRead == /\ E.e = "read" /\ Have(reader)
         /\ C("a usable file is read, an unusable one is not", (E.r = "ok") <=> (Outcome = "ok"), <<Outcome, reader, E.r, DOMAIN disk>>)
         /\ C("a missing file is reported", Outcome = "error" => E.r = "error", <<reader, E.r>>)
         /\ IF Outcome = "ok" THEN ReadOk ELSE ReadNot
         /\ (Outcome = "ok") =>
              /\ C("names of the features", E.names = names', <<names', E.names>>)
              /\ C("cells and targets", [i \in 1..Len(E.rows) |-> NormRow(E.rows[i])] = Rows(cols', target'), <<cols', target', E.rows>>)
         /\ parts' = <<>>
TWork == /\ \/ E.e = "cv" /\ NewWork
            \/ E.e = "ratio" /\ SetWork("ratio", E.v)
            \/ E.e = "folds" /\ SetWork("folds", E.v)
            \/ E.e = "seed" /\ SetWork("seed", E.v)
            \/ E.e = "verbose" /\ SetWork("verbose", E.v)
            \/ E.e = "shuffle" /\ Shuffle
         /\ UNCHANGED parts
TDraw ==
  /\ E.e = "next" /\ Have(work)
  /\ C("as many folds as asked for", (E.fold = 1) <=> More1, <<work, E.fold>>)
  /\ IF More1
     THEN /\ C("parts hold rows of the sample", Present(E.train) /\ Present(E.test), <<work, E.train, E.test>>)
          /\ LET train == Numbers(E.train)
                 test == Numbers(E.test) IN
             /\ C("sizes of the parts", Sizes(train, test), <<work, n, TestSize, train, test>>)
             /\ C("every row is in one part", Perm(Shown(train, test)), <<work, train, test>>)
             /\ C("the order is that of the calls", AsKnown(train, test), <<work, train, test>>)
             /\ C("shuffling moves rows, depending on the seed", Mixed(train, test), <<work, train, test>>)
             /\ C("what is printed", E.said = Says(train, test), <<work, E.said, Len(train), Len(test)>>)
             /\ Draw(train, test)
             /\ parts' = [train |-> train, test |-> test]
     ELSE /\ C("nothing is printed without a fold", E.said = <<>>, E.said)
          /\ DrawNone /\ UNCHANGED parts
TTake == E.e = "take" /\ parts # <<>> /\ TakePart(parts[E.part]) /\ parts' = <<>>
\* the sample at hand, looked at again
TLook == /\ E.e = "look"
         /\ C("the sample at hand is unchanged",
              E.names = names /\ [i \in 1..Len(E.rows) |-> NormRow(E.rows[i])] = Rows(cols, target), <<names, cols, target, E>>)
         /\ UNCHANGED <<pvars, parts>>
TPanic == E.e = "panic" /\ C("no failure", FALSE, E) /\ Excuse("failure") /\ UNCHANGED <<pvars, parts>>
TOps == (TFiles \/ TReader \/ TRead \/ TWork \/ TDraw \/ TTake \/ TLook) /\ Advance
TNext == More /\ (TOps \/ TPanic)
TSpec == TInit /\ [][TNext]_tvars
TView == <<t, l>>
=============================================================================
