----------------------------- MODULE Hypothesis -----------------------------
(***************************************************************************)
(* Trained hypotheses as values.  A program holds hypotheses under handles *)
(* and stored documents; it copies, drops, stores and loads them and asks  *)
(* for answers on rows of any sample.  Which function a handle stands for  *)
(* is settled when it is trained; the answer on a row is settled by the    *)
(* function and the cells of the row.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

VARIABLES
  fn,    \* the function of each handle, in order of creation; 0: dropped
  docs,  \* the function each document was stored from
  said   \* answers so far: <<function, cells>> -> answer
hvars == <<fn, docs, said>>

NoAnswers == [k \in {} |-> ""]
HInit == fn = <<>> /\ docs = <<>> /\ said = NoAnswers

Held(h) == h \in 1..Len(fn) /\ fn[h] # 0
Train(f) == fn' = Append(fn, f) /\ UNCHANGED <<docs, said>>
Copy(h) == Held(h) /\ fn' = Append(fn, fn[h]) /\ UNCHANGED <<docs, said>>
Drop(h) == Held(h) /\ fn' = [fn EXCEPT ![h] = 0] /\ UNCHANGED <<docs, said>>
Save(h) == Held(h) /\ docs' = Append(docs, fn[h]) /\ UNCHANGED <<fn, said>>
Load(d) == d \in 1..Len(docs) /\ fn' = Append(fn, docs[d]) /\ UNCHANGED <<docs, said>>

\* the answers ans[i] on rows with cells rows[i] do not contradict
\* each other or anything said before
Agrees(h, rows, ans) ==
  /\ Len(ans) = Len(rows)
  /\ \A i \in 1..Len(rows) : <<fn[h], rows[i]>> \in DOMAIN said => said[<<fn[h], rows[i]>>] = ans[i]
  /\ \A i, j \in 1..Len(rows) : rows[i] = rows[j] => ans[i] = ans[j]
Learned(h, rows, ans) ==
  LET new == {<<fn[h], rows[i]>> : i \in 1..Len(rows)}
      at(k) == CHOOSE i \in 1..Len(rows) : rows[i] = k[2]
  IN  [k \in DOMAIN said \cup new |-> IF k \in DOMAIN said THEN said[k] ELSE ans[at(k)]]
Ask(h, rows, ans) == /\ Held(h) /\ Agrees(h, rows, ans)
                     /\ said' = Learned(h, rows, ans) /\ UNCHANGED <<fn, docs>>
=============================================================================
