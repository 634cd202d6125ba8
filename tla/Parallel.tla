------------------------------ MODULE Parallel ------------------------------
(***************************************************************************)
(* Work is spread over threads: a question about a fixed table is answered *)
(* by cutting its values into pieces, evaluating the pieces in any order   *)
(* on any number of threads, and joining neighbours in any order; several  *)
(* askers may be under way at once.  What is answered must be what one     *)
(* asker alone on one thread answers: it is a function of the question.    *)
(***************************************************************************)
EXTENDS RealArith

VARIABLES
  jobs,   \* what each asker is doing: <<question, pieces>>, or <<>>
  said    \* the answers given so far, by question
parvars == <<jobs, said>>

ParInit(askers) == jobs = [a \in askers |-> <<>>] /\ said = <<>>
Idle(a) == jobs[a] = <<>>
Asked(a) == jobs[a][1]
Pieces(a) == jobs[a][2]

-----------------------------------------------------------------------------
(* one question *)
Begin(a, q, pieces) == Idle(a) /\ jobs' = [jobs EXCEPT ![a] = <<q, pieces>>] /\ UNCHANGED said
Agrees(q, ans, Same(_, _)) == q \in DOMAIN said => Same(said[q], ans)
Finish(a, ans) ==
  /\ ~Idle(a)
  /\ said' = [q \in DOMAIN said \cup {Asked(a)} |-> IF q \in DOMAIN said THEN said[q] ELSE ans]
  /\ jobs' = [jobs EXCEPT ![a] = <<>>]

-----------------------------------------------------------------------------
(* how it is spread: pieces [lo, hi, val] of the values, val = <<>> until   *)
(* the piece is evaluated; joining must be associative, that is all         *)
Whole(n) == <<[lo |-> 1, hi |-> n, val |-> <<>>]>>
Inject(op, s, i) == IF op = "sum" THEN RNorm(s[i]) ELSE IF op = "list" THEN <<s[i]>> ELSE <<RNorm(s[i]), i>>
Join(op, x, y) ==
  IF op = "sum" THEN RAdd(x, y)
  ELSE IF op = "list" THEN x \o y
  ELSE IF op = "least" THEN IF RLe(x[1], y[1]) THEN x ELSE y       \* the first of equals
  ELSE IF RGt(x[1], y[1]) THEN x ELSE y                            \* "greatest": the last of equals
RECURSIVE Alone(_, _, _, _)
\* from left to right, on one thread
Alone(op, s, lo, hi) == IF lo = hi THEN Inject(op, s, lo) ELSE Join(op, Alone(op, s, lo, hi - 1), Inject(op, s, hi))

Sub(s, i, j, x) == SubSeq(s, 1, i - 1) \o x \o SubSeq(s, j + 1, Len(s))
SetPieces(a, ps) == jobs' = [jobs EXCEPT ![a][2] = ps] /\ UNCHANGED said
Cut(a, i, k) ==
  /\ ~Idle(a) /\ i \in 1..Len(Pieces(a))
  /\ LET p == Pieces(a)[i] IN
     /\ p.val = <<>> /\ p.lo <= k /\ k < p.hi
     /\ SetPieces(a, Sub(Pieces(a), i, i, <<[p EXCEPT !.hi = k], [p EXCEPT !.lo = k + 1]>>))
Eval(a, i, op, s) ==
  /\ ~Idle(a) /\ i \in 1..Len(Pieces(a))
  /\ LET p == Pieces(a)[i] IN
     p.val = <<>> /\ SetPieces(a, [Pieces(a) EXCEPT ![i].val = <<Alone(op, s, p.lo, p.hi)>>])
Merge(a, i, op) ==
  /\ ~Idle(a) /\ i \in 1..(Len(Pieces(a)) - 1)
  /\ LET p == Pieces(a)[i]
         r == Pieces(a)[i + 1] IN
     /\ p.val # <<>> /\ r.val # <<>>
     /\ SetPieces(a, Sub(Pieces(a), i, i + 1, <<[lo |-> p.lo, hi |-> r.hi, val |-> <<Join(op, p.val[1], r.val[1])>>]>>))
Ready(a) == ~Idle(a) /\ Len(Pieces(a)) = 1 /\ Pieces(a)[1].val # <<>>
=============================================================================
