------------------------------ MODULE MCGame --------------------------------
(***************************************************************************)
(* The boosting game with a booster that may query ANY capped distribution *)
(* over a grid and a weak learner that may answer ANY margin vector.  What *)
(* holds here holds for every booster; the maximal behaviours are the      *)
(* weak-learner strategies replayed on the real boosters.                  *)
(***************************************************************************)
EXTENDS Game

CONSTANTS
  M, B, VALS,
  GRID,    \* distributions have denominator GRID
  NU       \* capping parameter, an integer dividing GRID

VARIABLES moves, gamenr

mcvars == <<gvars, moves, gamenr>>

MOVES == [1..M -> VALS]
AsVec(mv) == [i \in 1..M |-> mv[i]]

RECURSIVE SumInt(_, _)
SumInt(f, i) == IF i = 0 THEN 0 ELSE f[i] + SumInt(f, i - 1)
Dists == {f \in [1..M -> 0..(GRID \div NU)] : SumInt(f, M) = GRID}
DVec(f) == [i \in 1..M |-> RDiv(f[i], GRID)]

MCInit == GInit /\ moves = <<>> /\ gamenr = 0

MCNext ==
  \/ Preprocess /\ gamenr < 1 /\ gamenr' = gamenr + 1 /\ UNCHANGED moves
  \/ \E f \in Dists, mv \in MOVES :
        /\ round < B
        /\ Ask(DVec(f), AsVec(mv), round)
        /\ moves' = Append(moves, AsVec(mv)) /\ UNCHANGED gamenr
  \/ Continue /\ UNCHANGED <<moves, gamenr>>
  \/ round > 0 /\ Quit /\ UNCHANGED <<moves, gamenr>>
  \/ Stop /\ UNCHANGED <<moves, gamenr>>
  \/ Postprocess /\ UNCHANGED <<moves, gamenr>>

MCSpec == MCInit /\ [][MCNext]_mcvars

-----------------------------------------------------------------------------
TypeOK == phase \in {"idle", "ready", "asked", "stopped"} /\ round \in 0..(B + 1)

\* one query per round at most
OneQuery == Len(hist) <= round /\ round <= Len(hist) + 1

\* a stop is final: the only step after it is postprocess
QueriesAreDists == \A k \in 1..Len(hist) : IsDist(hist[k].d, M, "0") /\ Capped(hist[k].d, NU, "0")

(* Weak duality, the basis of every optimality certificate: the soft       *)
(* margin of a convex vote is at most the largest edge under any capped    *)
(* distribution.  Votes: the uniform vote over the hypotheses seen.        *)
UniformVote == [k \in 1..Len(hist) |-> RDiv("1", Len(hist))]
Us == [k \in 1..Len(hist) |-> hist[k].u]
MaxEdge(dd) == RMaxOf([k \in 1..Len(hist) |-> Edge(dd, hist[k].u)])
WeakDuality ==
  (hist # <<>>) =>
    LET g  == VoteMargins(UniformVote, Us, M)
        sm == SoftMargin(g, NU)
    IN  /\ RLe(HardMargin(g), sm)
        /\ \A k \in 1..Len(hist) : RLe(sm, MaxEdge(hist[k].d))

(* SoftMargin is the least expected margin over capped distributions: no   *)
(* grid distribution does better, and the grid contains the minimiser when *)
(* GRID is a multiple of NU.                                               *)
SoftMarginIsLeast ==
  (hist # <<>>) =>
    LET g  == VoteMargins(UniformVote, Us, M)
        sm == SoftMargin(g, NU)
    IN  /\ \A f \in Dists : RLe(sm, RDot(DVec(f), g))
        /\ \E f \in Dists : REq(sm, RDot(DVec(f), g))

\* only the answers matter for the emitted strategy
MCView == <<phase, round, hist, gamenr>>
Emit == (phase = "stopped" /\ hist # <<>>) => PrintT("@BEH " \o ToString(moves))
=============================================================================
