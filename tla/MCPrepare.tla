----------------------------- MODULE MCPrepare ------------------------------
(***************************************************************************)
(* Every session of B calls: from an empty start with files and a reader   *)
(* (MODE read), or with a sample of M rows at hand (MODE cv).  Shuffling   *)
(* with seed s moves every row s places on (3, when s is 1234).            *)
(***************************************************************************)
EXTENDS Prepare
CONSTANTS B, M, MODES
FOUR == 4
VARIABLES ops, mode
mcvars == <<pvars, ops, mode>>

A == [kind |-> "csv", lines |-> <<<<"1", "2">>, <<"3", "4">>, <<"5", "6">>>>]
H == [kind |-> "csv", lines |-> <<<<"x", "1">>, <<"7", "8">>, <<"9", "10">>>>]
V == [kind |-> "svm", lines |-> <<[y |-> "1", f |-> <<<<1, "2">>>>], [y |-> "-1", f |-> <<<<2, "3">>>>]>>]
DOCS == [A |-> A, H |-> H, V |-> V]
EXT == ("p.csv" :> "csv") @@ ("q.svm" :> "svm")
Do(o, a) == ops' = Append(ops, <<o, a>>) /\ UNCHANGED mode

MCInit ==
  /\ mode \in MODES /\ ops = <<>> /\ work = <<>> /\ order = <<>> /\ cv = <<>> /\ learned = <<>>
  /\ IF mode = "read"
     THEN /\ names = <<>> /\ cols = <<>> /\ target = <<>> /\ n = 0 /\ reader = NoReader
          /\ disk = ("p.csv" :> A)
     ELSE /\ names = <<"id">> /\ n = M /\ cols = <<[i \in 1..M |-> ToString(i)]>> /\ target = [i \in 1..M |-> "1"]
          /\ reader = <<>> /\ disk = <<>>

ReadOps ==
  \/ \E f \in {"p.csv", "q.svm"}, d \in {"A", "H", "V"} : Write(f, DOCS[d]) /\ Do("write", f \o "=" \o d)
  \/ \E f \in {"p.csv", "q.svm"} : Remove(f) /\ Do("remove", f)
  \/ reader = <<>> /\ NewReader /\ Do("reader", "")
  \/ \E f \in {"p.csv", "q.svm"} : File(f, EXT[f]) /\ Do("file", f)
  \/ \E b \in {0, 1} : Header(b) /\ Do("header", ToString(b))
  \/ \E c \in {"Feat. [1]", "1", "x"} : TargetColumn(c) /\ Do("target", c)
  \/ Have(reader) /\ (ReadOk \/ ReadNot) /\ Do("read", Outcome)

\* the fold that comes next, with rows moved on by the seeds in force when shuffled
RECURSIVE SumS(_)
SumS(s) == IF s = <<>> THEN 0 ELSE (IF Head(s) = "1234" THEN 3 ELSE Nat2(Head(s), 0)) + SumS(Tail(s))
True == [i \in 1..n |-> ((i - 1 + SumS(work.seeds)) % n) + 1]
Test == SubSeq(True, From + 1, To)
Train == SubSeq(True, 1, From) \o SubSeq(True, To + 1, n)
WorkOps ==
  \/ ~Have(work) /\ NewWork /\ Do("cv", "")
  \/ \E x \in {"1/2", "2/3"} : SetWork("ratio", x) /\ Do("ratio", x)
  \/ \E k \in {1, 3} : SetWork("folds", k) /\ Do("folds", ToString(k))
  \/ \E s \in {"1", "2"} : SetWork("seed", s) /\ Do("seed", s)
  \/ \E b \in {0, 1} : SetWork("verbose", b) /\ Do("verbose", ToString(b))
  \/ Have(work) /\ Shuffle /\ Do("shuffle", "")
  \/ Have(work) /\ More1 /\ Draw(Train, Test) /\ Do("next", "")
  \/ Have(work) /\ DrawNone /\ Do("next", "")
  \/ Have(work) /\ work.done > 0 /\ Len(Train) > 0 /\ TakePart(Train) /\ Do("take", "train")
MCNext == Len(ops) < B /\ IF mode = "read" THEN ReadOps ELSE WorkOps
MCSpec == MCInit /\ [][MCNext]_mcvars

-----------------------------------------------------------------------------
\* calls since the object at hand was made
Since(k) == LET S == {i \in 1..Len(ops) : ops[i][1] = k} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
LastOf(k, from, dflt) == LET S == {i \in (from + 1)..Len(ops) : ops[i][1] = k}
                         IN  IF S = {} THEN dflt ELSE ops[CHOOSE i \in S : \A j \in S : j <= i][2]
\* the value given last counts, whatever was called in between
LastWins ==
  /\ Have(reader) => LET s == Since("reader") IN
       /\ (IF reader.file = <<>> THEN "" ELSE reader.file[1]) = LastOf("file", s, "")
       /\ ToString(reader.header) = LastOf("header", s, "0")
       /\ (IF reader.target = <<>> THEN "" ELSE reader.target[1]) = LastOf("target", s, "")
  /\ Have(work) => LET s == Since("cv") IN
       /\ work.ratio = LastOf("ratio", s, "4/5") /\ ToString(work.folds) = LastOf("folds", s, "5")
       /\ work.seed = LastOf("seed", s, "1234") /\ ToString(work.verbose) = LastOf("verbose", s, "0")
\* a seed given after shuffling has no effect on the order
SeedsThen == Have(work) => LET s == Since("cv") IN
  work.seeds = LET S == SelectSeq([i \in 1..(Len(ops) - s) |-> <<ops[s + i][1], IF ops[s + i][1] = "shuffle" THEN s + i ELSE 0>>], LAMBDA x : x[1] = "shuffle")
               IN  [k \in 1..Len(S) |-> LET Q == {i \in (s + 1)..S[k][2] : ops[i][1] = "seed"}
                                        IN  IF Q = {} THEN "1234" ELSE ops[CHOOSE i \in Q : \A j \in Q : j <= i][2]]
\* files, settings and folds drawn leave the sample at hand alone
Alone == [][(ops' # ops /\ ops'[Len(ops')][1] \notin {"read", "take"}) => UNCHANGED table]_mcvars
\* a failed read leaves it alone as well, and a read depends on nothing but the file as it is and the last calls
Denotes == (ops # <<>> /\ ops[Len(ops)][1] = "read" /\ ops[Len(ops)][2] = "ok") =>
  LET F == [i \in 1..Len(ops) |-> ops[i][1]]
      s == LET S == {i \in 1..(Len(ops) - 1) : F[i] = "reader"} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
      f == LastOf("file", s, "") IN
  /\ f \in DOMAIN disk
  /\ n = IF f = "q.svm" THEN 2 ELSE IF LastOf("header", s, "0") = "1" THEN 2 ELSE 3
  /\ f = "p.csv" => LastOf("target", s, "") \notin {names[j] : j \in 1..Len(names)} /\ Len(names) = 1
\* without changes in between, test parts do not meet, and cover all rows in the end
Plain == \A i \in 1..Len(ops) : ops[i][1] \in {"cv", "next", "verbose", "seed"}
Disjoint == (mode = "cv" /\ Have(work) /\ Plain /\ TestSize > 0) =>
  /\ (More1 => From = MinI(work.done * TestSize, n))
  /\ (work.done * TestSize >= n => From = n)
OrderKnown == \A k \in DOMAIN order : {order[k][i] : i \in 1..Len(order[k])} = 1..k[1]
\* once known, an order does not change
Firm == [][\A k \in DOMAIN order : k \in DOMAIN order' /\ order'[k] = order[k]]_mcvars
Ends == Have(work) => work.done <= 5
Emit == (Len(ops) = B /\ ops[B][1] \in {"read", "next"}) => PrintT("@BEH " \o ToString(<<mode, ops>>))
=============================================================================
