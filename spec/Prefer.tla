------------------------------ MODULE Prefer ------------------------------
(* What makes one exercise of a mastery window a better choice than another: *)
(* it is more urgent, lies deeper in the library, is a place where the way   *)
(* ahead is blocked, covers more of what else could be practiced, is covered *)
(* less by it, or is not going backwards. An exercise that is clearly better *)
(* in one respect and no worse in any other is to be shown more often.       *)
EXTENDS Knock

(* The number of units passed on the way to a unit, when there is one way.   *)
RECURSIVE Hops(_, _)
Hops(D, u) == IF D.deps[u] \cap D.us = {} THEN 0 ELSE 1 + Hops(D, CHOOSE v \in D.deps[u] \cap D.us : TRUE)
OneWay(D) == \A u \in D.us : Cardinality(D.deps[u]) <= 1

(* Weights of declared relations, in thousandths; relations between them are *)
(* not followed (see Plain).                                                 *)
EdgesOut(E, u) == {e \in (IF u \in DOMAIN E THEN E[u] ELSE {}) : e[2] /= 0}
Plain(E) == \A u \in DOMAIN E : \A e \in EdgesOut(E, u) : EdgesOut(E, e[1]) = {}
CoversOf(E, u, pool) == SumF([v \in pool |-> SumF([e \in EdgesOut(E, u) |-> IF e[1] = v THEN e[2] ELSE 0], EdgesOut(E, u))], pool)
CoveredOf(E, u, pool) == SumF([v \in pool |-> SumF([e \in EdgesOut(E, v) |-> IF e[1] = u THEN e[2] ELSE 0], EdgesOut(E, v))], pool)

(* How an exercise is going: forwards is better than backwards; for one that *)
(* is not mastered, nowhere is better than backwards, too, as it needs the   *)
(* attention, and for one that is mastered forwards is better than nowhere.  *)
(* Others are not compared. sc in millionths, ve in thousandths of a grade a *)
(* day.                                                                      *)
Going(sc, ve) ==
  CASE ve = <<>> -> "unsaid"
    [] sc > 3900000 /\ sc < 4100000 -> "neither"
    [] ve[1] <= -300 -> IF sc < 4000000 THEN "weak backwards" ELSE "strong backwards"
    [] ve[1] >= -150 /\ ve[1] <= 150 -> IF sc < 4000000 THEN "weak nowhere" ELSE "strong nowhere"
    [] ve[1] >= 300 -> IF sc < 4000000 THEN "weak forwards" ELSE "strong forwards"
    [] OTHER -> "neither"
GoesBetter(a, b) ==
  <<a, b>> \in {<<"weak forwards", "weak backwards">>, <<"weak nowhere", "weak backwards">>,
               <<"strong forwards", "strong backwards">>, <<"strong forwards", "strong nowhere">>}

(* Two exercises as records of these measures; is a a clearly better choice? *)
NoWorse(a, b) ==
  /\ a.going /= "neither" /\ (a.going = b.going \/ GoesBetter(a.going, b.going))
  /\ a.ur + 1000 >= b.ur /\ a.hops >= b.hops /\ (b.dead => a.dead)
  /\ a.covers >= b.covers /\ a.covered <= b.covered
Clearly(a, b) ==
  \/ a.ur >= 2 * b.ur /\ b.ur > 50000
  \/ a.hops >= 5 + 2 * b.hops
  \/ a.dead /\ ~b.dead
  \/ a.covers >= 4000 + 3 * b.covers
  \/ b.covered >= 4000 + 3 * a.covered
  \/ GoesBetter(a.going, b.going)
Better(a, b) == NoWorse(a, b) /\ Clearly(a, b)
=============================================================================
