------------------------------ MODULE Scores ------------------------------
(* How the scores of exercises, lessons and courses follow from the stored  *)
(* history. All scores are in millionths; None stands for "has no score".   *)
(*                                                                          *)
(* The state S of a student has the fields                                  *)
(*   bl  : the set of blacklisted units                                     *)
(*   x   : exercise -> [n (trials), sc (final score), xi (whole number)]    *)
(*   o   : the options, with scores and averages in thousandths             *)
(*   eps : how close to a threshold a computed score is undecided           *)
EXTENDS UnitLib

None == -1
FullScore == 4000000

ValidEx(D, S, l) ==
  IF l \in S.bl \/ D.courseOf[l] \in S.bl THEN {} ELSE D.exsOf[l] \ S.bl

AllValid(D, S, u) ==
  CASE u \in D.es -> {u} \ S.bl
    [] u \in D.ls -> ValidEx(D, S, u)
    [] u \in D.cs -> IF u \in S.bl THEN {}
                     ELSE UNION {ValidEx(D, S, l) : l \in D.lessonsOf[u]}
    [] OTHER -> {}

Mean(f, X) == IF X = {} THEN None ELSE SumF(f, X) \div Cardinality(X)

RECURSIVE UnitSc(_, _, _), SupSet(_, _, _), IsSupBy(_, _, _, _)

(* Is u superseded by the set of units sups? *)
IsSupBy(D, S, u, sups) ==
  /\ sups /= {}
  /\ \A e \in AllValid(D, S, u) : S.x[e].sc > 0
  /\ \A v \in sups : LET sc == UnitSc(D, S, v)
                     IN sc = None \/ sc >= S.o.sup * 1000

(* The units that supersede those in ids, after replacing the ones that are *)
(* superseded themselves.                                                   *)
SupSet(D, S, ids) ==
  UNION {IF D.supBy[v] /= {} /\ IsSupBy(D, S, v, D.supBy[v])
         THEN SupSet(D, S, D.supBy[v]) ELSE {v} : v \in ids}

Sup(D, S, u) == IsSupBy(D, S, u, SupSet(D, S, D.supBy[u]))

UnitSc(D, S, u) ==
  CASE u \in D.es -> S.x[u].sc
    [] u \in D.ls ->
         IF u \in S.bl \/ Sup(D, S, u) THEN None
         ELSE Mean([e \in D.exsOf[u] |-> S.x[e].sc], D.exsOf[u] \ S.bl)
    [] u \in D.cs ->
         IF u \in S.bl \/ Sup(D, S, u) THEN None
         ELSE LET sc == TLCEval([l \in D.lessonsOf[u] |-> UnitSc(D, S, l)])
              IN Mean(sc, {l \in D.lessonsOf[u] : sc[l] /= None})

(* The average number of trials, in millionths. *)
LessonTrials(D, S, l) == Mean([e \in D.exsOf[l] |-> S.x[e].n * 1000000], D.exsOf[l] \ S.bl)
CourseTrials(D, S, c) ==
  LET ok == {l \in D.lessonsOf[c] : l \notin S.bl /\ ~Sup(D, S, l)}
      t == TLCEval([l \in ok |-> LessonTrials(D, S, l)])
  IN Mean(t, {l \in ok : t[l] /= None})
AvgTrials(D, S, u) == IF u \in D.ls THEN LessonTrials(D, S, u) ELSE CourseTrials(D, S, u)

(* The average of the exercises of a lesson that can be scheduled. *)
CandAvg(D, S, l) == LET V == ValidEx(D, S, l) IN Mean([e \in V |-> S.x[e].sc], V)

PassesThr(S, avg, trials) ==
  avg = None \/ trials = None
    \/ (avg >= S.o.min_score * 1000 /\ trials >= S.o.min_trials * 1000)

(* The same scores for all units at once, each computed from the ones it    *)
(* depends on. The recursion above follows every chain of superseding units *)
(* separately; there can be exponentially many (MCCache checks that the two *)
(* agree). m has, of the units done, their score, whether they count as     *)
(* superseded by the units declared, the units that replace them if so, and *)
(* whether they are superseded.                                             *)
SupByM(D, S, m, u, sups) ==
  /\ sups /= {}
  /\ \A e \in AllValid(D, S, u) : S.x[e].sc > 0
  /\ \A v \in sups : m[v].sc = None \/ m[v].sc >= S.o.sup * 1000
SolveOne(D, S, m, u) ==
  LET by == D.supBy[u]
      chain == TLCEval(UNION {IF D.supBy[v] /= {} /\ m[v].raw THEN m[v].chain ELSE {v} : v \in by})
      sup == SupByM(D, S, m, u, chain)
      ok == {l \in D.lessonsOf[u] : m[l].sc /= None}
  IN [ raw |-> SupByM(D, S, m, u, by), chain |-> chain, sup |-> sup,
       sc |-> IF u \in S.bl \/ sup THEN None
              ELSE IF u \in D.ls THEN Mean([e \in D.exsOf[u] |-> S.x[e].sc], D.exsOf[u] \ S.bl)
              ELSE Mean([l \in ok |-> m[l].sc], ok) ]
RECURSIVE Solve(_, _, _, _)
Solve(D, S, m, todo) ==
  LET ready == {u \in todo : (D.supBy[u] \cup (IF u \in D.cs THEN D.lessonsOf[u] ELSE {})) \cap todo = {}}
      \* nothing ready: the units depend on each other, and only the recursion can tell
      now == IF ready = {} THEN todo ELSE ready
      new == TLCEval([u \in now |-> IF ready = {}
                                    THEN [raw |-> IsSupBy(D, S, u, D.supBy[u]), chain |-> SupSet(D, S, D.supBy[u]),
                                          sup |-> Sup(D, S, u), sc |-> UnitSc(D, S, u)]
                                    ELSE SolveOne(D, S, m, u)])
  IN IF todo = {} THEN m ELSE Solve(D, S, new @@ m, todo \ now)
Solved(D, S) == Solve(D, S, <<>>, D.us)

(* Everything the rest of the specification needs to know about the scores, *)
(* computed once per state.                                                 *)
Summary(D, S) ==
  LET m == TLCEval(Solved(D, S))
      sc == TLCEval([u \in D.us |-> m[u].sc])
      sup == TLCEval([u \in D.us |-> m[u].sup])
      trials(c) == LET ok == {l \in D.lessonsOf[c] : l \notin S.bl /\ ~sup[l]}
                       t == TLCEval([l \in ok |-> LessonTrials(D, S, l)])
                   IN Mean(t, {l \in ok : t[l] /= None})
      tr == TLCEval([u \in D.us |-> IF u \in D.ls THEN LessonTrials(D, S, u) ELSE trials(u)])
      cand == TLCEval([l \in D.ls |-> CandAvg(D, S, l)])
      lessonSat(u) == u \in D.ls /\ D.courseOf[u] \in S.bl
  IN [ sc |-> sc, tr |-> tr, sup |-> sup, cand |-> cand,
       \* a unit of the library that counts as mastered for its dependents
       satEff |-> TLCEval([u \in D.us |-> \/ u \in S.bl \/ lessonSat(u) \/ sup[u]
                                          \/ PassesThr(S, sc[u], tr[u])]),
       skip |-> TLCEval([l \in D.ls |-> \/ l \in S.bl \/ sup[l] \/ sup[D.courseOf[l]]]),
       passes |-> TLCEval([l \in D.ls |-> PassesThr(S, cand[l], tr[l])]),
       valid |-> TLCEval([l \in D.ls |-> ValidEx(D, S, l)]) ]

(* The implementation computes with 32-bit floats: a state in which some    *)
(* average is so close to a threshold that rounding decides is not judged.  *)
(* Averages of whole numbers are exact.                                     *)
NearV(S, v, thr, exact) == v /= None /\ AbsI(v - thr) <= S.eps /\ ~(v = thr /\ exact)
NearSc(S, v, exact) ==
  \/ NearV(S, v, S.o.min_score * 1000, exact)
  \/ NearV(S, v, S.o.sup * 1000, exact)
  \/ NearV(S, v, FullScore, exact)
Ambiguous(D, S, Y) ==
  LET lx(l) == \A e \in D.exsOf[l] : S.x[e].xi
      cx(c) == \A l \in D.lessonsOf[c] : lx(l)
      qx(c) == \A l \in D.lessonsOf[c] : Y.sc[l] = None \/ Y.sc[l] % 250000 = 0
      qt(c) == \A l \in D.lessonsOf[c] : Y.tr[l] = None \/ Y.tr[l] % 250000 = 0
  IN \/ \E l \in D.ls : NearSc(S, Y.sc[l], lx(l)) \/ NearSc(S, Y.cand[l], lx(l))
     \/ \E c \in D.cs : NearSc(S, Y.sc[c], cx(c) /\ qx(c))
     \/ \E e \in D.es : NearSc(S, S.x[e].sc, S.x[e].xi)
     \/ \E c \in D.cs : NearV(S, Y.tr[c], S.o.min_trials * 1000, qt(c))
     \/ \E l \in D.ls : Y.tr[l] /= None /\ S.o.min_trials % 100 /= 0
                         /\ NearV(S, Y.tr[l], S.o.min_trials * 1000, FALSE)
=============================================================================
