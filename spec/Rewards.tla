------------------------------ MODULE Rewards ------------------------------
(* Rewards: how the practice of one unit is passed on to related units, and *)
(* how a reward shifts the score of an exercise. Values and weights are in  *)
(* millionths unless they are called "4", which are ten-thousandths.        *)
EXTENDS UnitLib

(* ---- the encompassing relation ---------------------------------------- *)
(* Declared entries are pairs <<unit, weight in thousandths>>; dependencies *)
(* that are not listed count with weight 1. A library in which nothing is   *)
(* declared uses its dependencies.                                          *)
EncRec(L, u) == IF u \in DOMAIN L.courses THEN L.courses[u] ELSE L.lessons[u]
EncEdges(L, u) ==
  LET r == EncRec(L, u)
      listed == {r.enc[i][1] : i \in DOMAIN r.enc}
  IN {<<r.enc[i][1], r.enc[i][2]>> : i \in DOMAIN r.enc}
       \cup {<<d, 1000>> : d \in Rng(r.deps) \ listed}
EncUnits(L) == DOMAIN L.courses \cup DOMAIN L.lessons
EncUp(L) == [u \in EncUnits(L) |-> EncEdges(L, u)]
EncDown(L) ==
  LET f == EncUp(L)
      all == UNION {{e[1] : e \in f[u]} : u \in DOMAIN f} \cup DOMAIN f
  IN [v \in all |-> UNION {{<<u, e[2]>> : e \in {x \in f[u] : x[1] = v}} : u \in DOMAIN f}]

InitialReward(g) == CASE g = 5 -> 800000 [] g = 4 -> 400000 [] g = 3 -> -300000
                      [] g = 2 -> -500000 [] g = 1 -> -1000000

Stop(v, w) == AbsI(v) < 200000 \/ w < 200000
NearStop(v, w) == AbsI(AbsI(v) - 200000) < 10 \/ AbsI(w - 200000) < 10

(* One step along an edge of weight e (thousandths). *)
StepV(v, e) == (((v * 9) \div 10) * e) \div 1000
StepW(w, e) == (((w * 8) \div 10) * e) \div 1000

(* All paths from the practiced lesson and course, as <<unit, value, weight>>. *)
RECURSIVE Paths(_, _, _)
Paths(E, todo, seen) ==
  IF todo = {} THEN seen
  ELSE LET nx == UNION {{<<e[1], StepV(p[2], e[2]), StepW(p[3], e[2])>> :
                           e \in (IF p[1] \in DOMAIN E THEN E[p[1]] ELSE {})} : p \in todo}
           go == {p \in nx : ~Stop(p[2], p[3])}
       IN Paths(E, go \ (seen \cup todo), seen \cup todo)

Edges(L, g) == IF InitialReward(g) > 0 THEN TLCEval(EncUp(L)) ELSE TLCEval(EncDown(L))

FirstPaths(E, l, c, g) ==
  {p \in {<<e[1], (InitialReward(g) * e[2]) \div 1000, e[2] * 1000>> :
            e \in (IF l \in DOMAIN E THEN E[l] ELSE {}) \cup (IF c \in DOMAIN E THEN E[c] ELSE {})} :
     ~Stop(p[2], p[3])}

(* The rewards of one trial: per unit reached, the paths with the strongest *)
(* value. Only the weight can differ between equally strong paths.          *)
Propagated(L, l, c, g) == Paths(Edges(L, g), FirstPaths(Edges(L, g), l, c, g), {})
StrongestOf(P, u) ==
  LET Q == {p \in P : p[1] = u}
      top == CHOOSE v \in {AbsI(p[2]) : p \in Q} : \A p \in Q : AbsI(p[2]) <= v
  IN {p \in Q : AbsI(AbsI(p[2]) - top) <= 5}

(* ---- the effect of rewards on a score --------------------------------- *)
Dec14 == <<10000, 9517, 9057, 8620, 8203, 7807, 7430, 7071, 6730, 6404, 6095, 5801, 5520, 5254>>
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
(* The share left after some days, with a half-life of 14 days. *)
Dec4(days) == IF days >= 280 THEN 0 ELSE Dec14[(days % 14) + 1] \div Pow2(days \div 14)

Days(secs) == IF secs <= 0 THEN 0 ELSE secs \div 86400

(* rs is a sequence of <<value, weight, age in seconds>>. *)
Eff(r) == LET d == Dec4(Days(r[3]))
          IN <<((r[1] \div 100) * d) \div 10000, ((r[2] \div 100) * d) \div 10000>>
Heavy(rs) == {i \in DOMAIN rs : Eff(rs[i])[2] >= 500}
AvgReward4(rs) ==
  LET H == Heavy(rs)
      den == SumF([i \in H |-> Eff(rs[i])[2]], H)
  IN IF den = 0 THEN 0 ELSE SumF([i \in H |-> Eff(rs[i])[1] * Eff(rs[i])[2]], H) \div den

Reward4(lrs, crs) ==
  CASE lrs = <<>> /\ crs = <<>> -> 0
    [] crs = <<>> -> AvgReward4(lrs)
    [] lrs = <<>> -> AvgReward4(crs)
    [] OTHER -> (AvgReward4(crs) * 3 + AvgReward4(lrs) * 7) \div 10

(* o is the observation of an exercise: n trials, s3 the sum of the last    *)
(* three grades times ten, la the age of the last trial.                    *)
AppliesReward(o, rw) ==
  /\ o.n > 2
  /\ ~(rw > 0 /\ o.s3 < 90 /\ o.la < 604800)
  /\ ~(rw < 0 /\ o.s3 > 105 /\ o.la < 604800)

Clamp(v) == IF v < 0 THEN 0 ELSE IF v > 5000000 THEN 5000000 ELSE v
Rewarded(o, rw4) == IF AppliesReward(o, rw4) THEN Clamp(o.base + rw4 * 100) ELSE o.base

(* A reward whose sign, weight or age sits on an edge is not judged. *)
EdgyReward(o, lrs, crs) ==
  LET edgy(r) == \/ AbsI(Eff(r)[2] - 500) <= 4
                 \/ (r[3] > 0 /\ (r[3] % 86400 > 86100 \/ (r[3] > 43200 /\ r[3] % 86400 < 300)))
      rw == Reward4(lrs, crs)
  IN \/ \E i \in DOMAIN lrs : edgy(lrs[i])
     \/ \E i \in DOMAIN crs : edgy(crs[i])
     \/ (rw /= 0 /\ AbsI(rw) <= 3)
     \/ (rw = 0 /\ (Heavy(lrs) \cup Heavy(crs)) /= {} )
     \/ (rw /= 0 /\ AbsI(o.la - 604800) < 300)
=============================================================================
