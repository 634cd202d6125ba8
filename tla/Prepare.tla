------------------------------ MODULE Prepare -------------------------------
(***************************************************************************)
(* Preparing data: files come and go, a reader is configured and reads one *)
(* of them, a cross validation of what was read is configured and drawn    *)
(* fold by fold.  Calls come in any order; what counts is the value given  *)
(* last (defaults if none), the file as it is when read, and the seed in   *)
(* force when the rows are shuffled.                                       *)
(***************************************************************************)
EXTENDS Table

VARIABLES
  disk,     \* the contents of the files that exist, by name
  reader,   \* the reader under construction: [file, header, target], or <<>>
  work,     \* the cross validation at hand, or <<>>
  order     \* order of n rows shuffled with seeds, as known so far: <<n, seeds>> -> rows
pvars == <<tvars0, disk, reader, work, order>>
table == <<names, cols, target, n>>

Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
NoReader == [file |-> <<>>, header |-> 0, target |-> <<>>]
PInit == TableInit /\ disk = <<>> /\ reader = <<>> /\ work = <<>> /\ order = <<>>

-----------------------------------------------------------------------------
(* files *)
Write(f, doc) == disk' = Upd(disk, f, doc) /\ UNCHANGED <<tvars0, reader, work, order>>
Remove(f) == /\ f \in DOMAIN disk
             /\ disk' = [x \in DOMAIN disk \ {f} |-> disk[x]] /\ UNCHANGED <<tvars0, reader, work, order>>

(* the reader *)
NewReader == reader' = NoReader /\ UNCHANGED <<tvars0, disk, work, order>>
Have(r) == r # <<>>
SetReader(k, v) == Have(reader) /\ reader' = [reader EXCEPT ![k] = v] /\ UNCHANGED <<tvars0, disk, work, order>>
\* a file: its name and its extension
File(name, ext) == SetReader("file", <<name, ext>>)
Header(b) == SetReader("header", b)
TargetColumn(nm) == SetReader("target", <<nm>>)

Numeric(lines) == \A i \in 1..Len(lines) : Len(lines[i]) = Len(lines[1]) /\ AllReal(lines[i])
Heads(doc, hd) == IF hd = 1 THEN doc.lines[1] ELSE [j \in 1..Len(doc.lines[1]) |-> Default(j)]
Body(doc, hd) == IF hd = 1 THEN Tail(doc.lines) ELSE doc.lines
\* what reading leads to: "ok", "error" (reported), or "refused" (reported or by a panic)
Outcome ==
  IF reader.file = <<>> THEN "refused"
  ELSE LET name == reader.file[1]
           csv == reader.file[2] = "csv" IN
       IF csv /\ reader.target = <<>> THEN "refused"
       ELSE IF name \notin DOMAIN disk THEN "error"
       ELSE LET doc == disk[name] IN
            IF ~csv THEN IF doc.kind = "svm" THEN "ok" ELSE "refused"
            ELSE IF /\ doc.kind = "csv" /\ Numeric(Body(doc, reader.header))
                    /\ Len(Body(doc, reader.header)[1]) = Len(Heads(doc, reader.header))
                    /\ reader.target[1] \in {Heads(doc, reader.header)[j] : j \in 1..Len(doc.lines[1])}
                 THEN "ok" ELSE "refused"
\* the reader is used up; a read that fails leaves the sample at hand alone
ReadOk == /\ Have(reader) /\ Outcome = "ok"
          /\ LET doc == disk[reader.file[1]] IN
             IF reader.file[2] = "csv"
             THEN ReadCsv(IF reader.header = 1 THEN doc.lines[1] ELSE <<>>, Body(doc, reader.header), reader.target[1])
             ELSE ReadSvm(doc.lines)
          /\ reader' = <<>> /\ work' = <<>> /\ UNCHANGED <<disk, order>>
ReadNot == /\ Have(reader) /\ Outcome # "ok"
           /\ reader' = <<>> /\ UNCHANGED <<tvars0, disk, work, order>>

-----------------------------------------------------------------------------
(* cross validation; ratio: of the rows, for training *)
NewWork == /\ n > 0
           /\ work' = [ratio |-> "4/5", folds |-> 5, seed |-> "1234", verbose |-> 0, seeds |-> <<>>, done |-> 0]
           /\ UNCHANGED <<tvars0, disk, reader, order>>
SetWork(k, v) == Have(work) /\ work' = [work EXCEPT ![k] = v] /\ UNCHANGED <<tvars0, disk, reader, order>>
\* the rows are put in another order, which the seed in force decides
Shuffle == SetWork("seeds", Append(work.seeds, work.seed))

\* an integer of TLA+ from a number known to be one
RECURSIVE Nat2(_, _)
Nat2(a, k) == IF REq(a, ToString(k)) THEN k ELSE Nat2(a, k + 1)
TestSize == n - Nat2(RFloor(RAdd(RMul(work.ratio, ToString(n)), "1e-9")), 0)
MinI(a, b) == IF a < b THEN a ELSE b
From == MinI(work.done * TestSize, n)
To == MinI((work.done + 1) * TestSize, n)
More1 == work.done < work.folds

Known2 == work.seeds = <<>> \/ <<n, work.seeds>> \in DOMAIN order
Order == IF work.seeds = <<>> THEN Iota(n) ELSE order[<<n, work.seeds>>]
\* the order that parts of the fold at hand (sequences of row numbers) show
Shown(train, test) == SubSeq(train, 1, From) \o test \o SubSeq(train, From + 1, Len(train))
Sizes(train, test) == Len(test) = To - From /\ Len(train) = n - (To - From)
Perm(ix) == Len(ix) = n /\ {ix[i] : i \in 1..Len(ix)} = 1..n
AsKnown(train, test) == Known2 => Shown(train, test) = Order
\* shuffling many rows moves some, and differently for different seeds
MANY == 12
Mixed(train, test) ==
  (~Known2 /\ n >= MANY /\ Len(work.seeds) = 1) =>
     /\ Shown(train, test) # Iota(n)
     /\ \A k \in DOMAIN order : (k[1] = n /\ Len(k[2]) = 1) => order[k] # Shown(train, test)
Draw(train, test) ==
  /\ Have(work) /\ More1
  /\ Sizes(train, test) /\ Perm(Shown(train, test)) /\ AsKnown(train, test) /\ Mixed(train, test)
  /\ order' = IF Known2 THEN order ELSE Upd(order, <<n, work.seeds>>, Shown(train, test))
  /\ work' = [work EXCEPT !.done = @ + 1]
  /\ UNCHANGED <<tvars0, disk, reader>>
DrawNone == Have(work) /\ ~More1 /\ UNCHANGED pvars
\* what is printed for the fold
Says(train, test) == IF work.verbose = 1 THEN <<<<work.done + 1, Len(train), Len(test)>>>> ELSE <<>>
\* go on with the rows ix of the sample at hand, a part of a fold
TakePart(ix) == /\ Take(At(Rows(cols, target), ix)) /\ work' = <<>> /\ UNCHANGED <<disk, reader, order>>
=============================================================================
