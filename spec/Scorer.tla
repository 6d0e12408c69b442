------------------------------- MODULE Scorer -------------------------------
(* The laws the score of an exercise obeys, stated on families of            *)
(* evaluations. Scores, urgencies and rates are in millionths; a history is *)
(* a sequence of <<grade, time>>, newest first, times in seconds.           *)
EXTENDS Integers, Sequences, FiniteSets

Eps == 20
DayS == 86400
Floor34(x) == (x \div 4) * 3
Max2(a, b) == IF a > b THEN a ELSE b
Grades(h) == {h[i][1] : i \in DOMAIN h}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : y >= x

InRange(g) == g.v >= 0 /\ g.v <= 5000000 /\ g.u >= 0 /\ g.u <= 1000000
Sorted(h) == \A i \in 1..(Len(h) - 1) : h[i][2] >= h[i + 1][2]

(* Waiting longer never raises the score, except up to the floor of an old  *)
(* exercise done well: `mean` is the score right after the last trial       *)
(* without deltas, i.e. the weighted mean of the grades.                    *)
OldGood(h, mean, wait) == Len(h) >= 2 /\ mean >= 4000000 - Eps /\ wait >= 50 * DayS
SurelyOldGood(h, mean, wait) == Len(h) >= 2 /\ mean >= 4000000 + Eps /\ wait >= 50 * DayS
Boost(ds) == IF ds = <<>> THEN 0 ELSE Max2(0, MaxOf({ds[i][1] : i \in DOMAIN ds})) * 250
WaitOk(h, ds, mean, waits, got) ==
  \A i \in DOMAIN waits : \A j \in DOMAIN waits :
    waits[i] < waits[j] =>
      \/ got[j].v <= got[i].v + Eps
      \/ /\ OldGood(h, mean, waits[j]) /\ ~OldGood(h, mean, waits[i])
         /\ got[j].v <= Floor34(mean + Boost(ds)) + Eps
FloorOk(h, ds, mean, waits, got) ==
  \A i \in DOMAIN waits : SurelyOldGood(h, mean, waits[i]) /\ ds = <<>> => got[i].v >= Floor34(mean) - Eps
MeanOk(h, mean) == mean >= (MinOf(Grades(h)) * 1000000) - Eps /\ mean <= (MaxOf(Grades(h)) * 1000000) + Eps

NotFalling(got) == \A i \in 1..(Len(got) - 1) : got[i].v <= got[i + 1].v + Eps
(* Pairs: the first of each forgets no slower than the second.              *)
NeverFaster(got) == \A i \in 1..(Len(got) \div 2) : got[2 * i].u <= got[(2 * i) - 1].u + Eps
(* From the point where a declarative exercise has the documented           *)
(* retrievability of its stability on, a procedural one is not forgotten    *)
(* faster.                                                                  *)
TypesOk(got) == \A i \in 1..(Len(got) \div 2) :
                  got[(2 * i) - 1].u >= 100000 + Eps => got[2 * i].u <= got[(2 * i) - 1].u + Eps
Near(x, y, e) == x - y <= e /\ y - x <= e
(* The memory itself only fades: there is no floor for the urgency.         *)
MoreUrgent(waits, got) ==
  \A i \in DOMAIN waits : \A j \in DOMAIN waits : waits[i] < waits[j] => got[j].u >= got[i].u - Eps
(* An immediate repetition with a grade of the same class is no spaced one. *)
NoCramming(got) == \A i \in 1..(Len(got) \div 2) : Near(got[2 * i].u, got[(2 * i) - 1].u, Eps)
(* Pairs: the first of each, a single trial, is forgotten clearly faster    *)
(* (slower) than a history of spaced successes (failures).                  *)
Clearly == 1000
Strengthens(got) == \A i \in 1..(Len(got) \div 2) : got[2 * i].u <= got[(2 * i) - 1].u - Clearly
Weakens(got) == \A i \in 1..(Len(got) \div 2) : got[2 * i].u >= got[(2 * i) - 1].u + Clearly
AllEqual(got) == \A i \in DOMAIN got : got[i] = got[1]
=============================================================================
