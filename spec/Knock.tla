------------------------------- MODULE Knock -------------------------------
(* Which exercises are covered by the practice of the others in the pool:   *)
(* every lesson and course of the pool passes its cover on along the        *)
(* encompassing relation, and an exercise is covered by what reaches its    *)
(* lesson and its course. Exercises with a high score that are covered by   *)
(* ten others are left out; those covered by five count as mastered.        *)
(*                                                                          *)
(* Weights are in thousandths here. The walk visits each unit once, in an   *)
(* order that is left open, with a reward and a weight that fade with every *)
(* step; where the order decides how far a walk gets, the cover is only     *)
(* known to lie between two bounds.                                         *)
EXTENDS Rewards

(* What a walk may do next from <<unit, reward, weight>>. *)
Fade(p, e, u) == <<u, (p[2] * 9) \div 10, (((p[3] \div 10) * 8) * e[2]) \div 1000>>
Onward(L, E, p) ==
  IF p[1] \notin DOMAIN E \/ (Stop(p[2], p[3]) /\ ~NearStop(p[2], p[3])) THEN {}
  ELSE UNION {{Fade(p, e, e[1])} \cup (IF e[1] \in DOMAIN L.lessons THEN {Fade(p, e, L.lessons[e[1]].course)} ELSE {})
              : e \in {x \in E[p[1]] : x[2] /= 0}}
RECURSIVE Walks(_, _, _, _)
Walks(L, E, todo, seen) ==
  IF todo = {} THEN seen
  ELSE LET nx == UNION {Onward(L, E, p) : p \in todo}
       IN Walks(L, E, nx \ (seen \cup todo), seen \cup todo)

Next1(L, E, v) ==
  IF v \notin DOMAIN E THEN {}
  ELSE UNION {{e[1]} \cup (IF e[1] \in DOMAIN L.lessons THEN {L.lessons[e[1]].course} ELSE {}) : e \in {x \in E[v] : x[2] /= 0}}
RECURSIVE Surely(_, _, _, _, _)
Surely(L, E, ok, todo, seen) ==
  IF todo = {} THEN seen
  ELSE LET nx == UNION {Next1(L, E, v) : v \in todo \cap ok}
       IN Surely(L, E, ok, nx \ (seen \cup todo), seen \cup todo)

(* The units from which the walk from s passes cover on: all that may, and  *)
(* those that must.                                                         *)
Passers(L, E, s) ==
  LET A == TLCEval(Walks(L, E, {<<s, 1000000, 1000000>>}, {}))
      all == {p[1] : p \in A}
      may == {v \in all : \E p \in A : p[1] = v /\ (~Stop(p[2], p[3]) \/ NearStop(p[2], p[3]))}
      ok == {v \in all : \A p \in A : p[1] = v => ~Stop(p[2], p[3]) /\ ~NearStop(p[2], p[3])}
  IN [may |-> may, must |-> Surely(L, E, ok, {s}, {}) \cap ok]

(* The cover of every unit of the library, as a pair of bounds.             *)
Cover(L, sources) ==
  LET E == TLCEval(EncUp(L))
      P == TLCEval([s \in sources |-> Passers(L, E, s)])
      into(u, v) == LET x == {e \in (IF v \in DOMAIN E THEN E[v] ELSE {}) : e[1] = u}
                    IN IF x = {} THEN 0 ELSE (CHOOSE e \in x : TRUE)[2]
      sum(u, k) == SumF([s \in sources |-> LET V == IF k = 1 THEN P[s].must ELSE P[s].may
                                           IN SumF([v \in V |-> into(u, v)], V)], sources)
  IN [u \in EncUnits(L) |-> <<sum(u, 1), sum(u, 2)>>]
=============================================================================
