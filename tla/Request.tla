------------------------------ MODULE Request -------------------------------
(***************************************************************************)
(* A session: requests to load, rename, re-target, split, summarise and    *)
(* learn from a sample.  Each is accepted or refused.  A refused request   *)
(* changes nothing; an accepted one acts on the table as Table says.       *)
(*                                                                         *)
(* A request to boost is refused before the weak learner is asked anything *)
(* unless every example has a label, the labels are integers of exactly    *)
(* two kinds, and the parameters are legal.                                *)
(***************************************************************************)
EXTENDS Table

VARIABLES size,    \* rows of the table (n of Table counts the labels)
          verdict  \* of the last request: "", "accepted" or "refused"
rqvars == <<tvars0, size, verdict>>

\* a label may be no number at all
Norm(x) == IF IsReal(x) THEN RNorm(x) ELSE "NaN"
Integer(x) == IsReal(x) /\ RInt(x)
Kinds(tg) == Cardinality({Norm(tg[i]) : i \in 1..Len(tg)})

Within(x, lo, hi) == IsReal(x) /\ RLe(lo, x) /\ RLe(x, hi)

Numbers(s) == \A i \in 1..Len(s) : IsReal(s[i])
Rect(header, rows) ==
  /\ header # <<>> \/ rows # <<>>
  /\ \A i \in 1..Len(rows) : Numbers(rows[i]) /\ Len(rows[i]) = Len(IF header # <<>> THEN header ELSE rows[1])
CsvNames(header, rows) == IF header # <<>> THEN header ELSE [j \in 1..Len(rows[1]) |-> Default(j)]

BinaryOK == Len(target) = size /\ (\A i \in 1..Len(target) : Integer(target[i])) /\ Kinds(target) = 2

(* parameters of a booster: [b, nu, gamma, kappa], "" where not set *)
Capped == {"lpboost", "erlpboost", "softboost", "cerlpboost", "mlpboost"}
ParamsOK(q) ==
  /\ (q.b \in Capped /\ q.nu # "") => Within(q.nu, "1", size)
  /\ q.b = "smoothboost" => /\ q.gamma # "" => (Within(q.gamma, "0", "1/2") /\ ~REq(q.gamma, "1/2"))
                            /\ q.kappa # "" => (Within(q.kappa, "0", "1") /\ ~REq(q.kappa, "0") /\ ~REq(q.kappa, "1"))

-----------------------------------------------------------------------------
\* may the request be accepted?
OK(q) ==
  CASE q.op = "csv"     -> /\ Rect(q.header, q.rows) /\ q.target # ""
                           /\ \E j \in 1..Len(CsvNames(q.header, q.rows)) : CsvNames(q.header, q.rows)[j] = q.target
    [] q.op = "missing" -> FALSE
    [] q.op = "nofile"  -> FALSE
    \* index -1: something that is no index
    [] q.op = "svm"     -> \A i \in 1..Len(q.lines) : IsReal(q.lines[i].y)
                              /\ \A j \in 1..Len(q.lines[i].f) : q.lines[i].f[j][1] >= 0 /\ IsReal(q.lines[i].f[j][2])
    [] q.op = "frame"   -> TRUE
    [] q.op = "dummy"   -> TRUE
    [] q.op = "target"  -> \E j \in 1..Len(names) : names[j] = q.name
    [] q.op = "rename"  -> Len(q.names) = Len(names)
    [] q.op = "boost"   -> IF q.b = "gbm" THEN TRUE ELSE BinaryOK /\ ParamsOK(q)
    [] q.op = "score"   -> Within(q.nu, "1", size)
    [] q.op = "bad"     -> Within(q.nu, "1", size)
    [] q.op = "cv"      -> Within(q.ratio, "0", "1") /\ ~REq(q.ratio, "0") /\ ~REq(q.ratio, "1")
    [] q.op = "tree"    -> q.depth >= 1 /\ (q.bins = "" \/ \E j \in 1..Len(names) : names[j] = q.bins)
\* what a table without rows or features is good for is left open
Odd == size = 0 \/ names = <<>>
Open(q) == \/ q.op = "frame" /\ Len(q.target) # Len(q.cols[1])   \* labels that do not fit can be refused at once, or later
           \/ q.op = "boost" /\ q.b = "gbm" /\ (Odd \/ Len(target) # size)
           \/ q.op \in {"boost", "score", "tree"} /\ size > 0 /\ names = <<>>
           \/ q.op = "tree" /\ size = 0
           \/ q.op \in {"score", "boost"} /\ (q.op = "boost" => q.b = "gbm") /\ ~AllReal(target)
           \/ q.op = "score" /\ Len(target) # size
\* may it be refused?
MayRefuse(q) == ~OK(q) \/ Open(q)

DummyLabels(k) == [i \in 1..k |-> IF 2 * i <= k THEN "1" ELSE "-1"]
Put(nm, cs, tg, k) == Set(nm, cs, tg, Len(tg)) /\ size' = k

Act(q) ==
  CASE q.op = "csv"    -> ReadCsv(q.header, q.rows, q.target) /\ size' = Len(q.rows)
    [] q.op = "svm"    -> ReadSvm(q.lines) /\ size' = Len(q.lines)
    [] q.op = "frame"  -> Put(q.names, [j \in 1..Len(q.cols) |-> Map(RNorm, q.cols[j])], Map(Norm, q.target), Len(q.cols[1]))
    [] q.op = "dummy"  -> Put(<<"dummy">>, <<RConst("0", q.n)>>, DummyLabels(q.n), q.n)
    [] q.op = "target" -> LET k == IndexOf(names, q.name) IN Put(Drop(names, k), Drop(cols, k), cols[k], size)
    [] q.op = "rename" -> Set(q.names, cols, target, n) /\ UNCHANGED size
    [] OTHER           -> UNCHANGED <<tvars0, size>>

Accept(q) == OK(q) /\ verdict' = "accepted" /\ Act(q)
Refuse(q) == MayRefuse(q) /\ verdict' = "refused" /\ UNCHANGED <<tvars0, size>>
Handle(q) == Accept(q) \/ Refuse(q)
RInit == TableInit /\ size = 0 /\ verdict = ""
=============================================================================
