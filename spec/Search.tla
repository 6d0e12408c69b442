------------------------------ MODULE Search ------------------------------
(* Which exercises are eligible for a batch: the least fixpoint of the      *)
(* traversal rules, for every kind of filter. The order in which the real   *)
(* search visits units is random; the set it ends up with is not (see       *)
(* MCSearch, which checks exactly that).                                    *)
EXTENDS Scores

(* ---- metadata filters ------------------------------------------------- *)
HasKV(meta, k, v) == k \in DOMAIN meta /\ v \in Rng(meta[k])

RECURSIVE KVLesson(_, _, _, _), KVCourse(_, _, _)
(* Does the filter select the lesson l? *)
KVLesson(D, f, c, l) ==
  CASE f.t = "c" -> HasKV(D.meta[c], f.k, f.v) = f.inc
    [] f.t = "l" -> HasKV(D.meta[l], f.k, f.v) = f.inc
    [] f.t = "all" -> \A i \in DOMAIN f.fs : KVLesson(D, f.fs[i], c, l)
    [] f.t = "any" -> \E i \in DOMAIN f.fs : KVLesson(D, f.fs[i], c, l)
(* Does the filter select the course c as a whole? Conditions on lessons    *)
(* cannot be decided for a course, which is then passed over in favour of   *)
(* its lessons.                                                             *)
KVCourse(D, f, c) ==
  CASE f.t = "c" -> HasKV(D.meta[c], f.k, f.v) = f.inc
    [] f.t = "l" -> FALSE
    [] f.t = "all" -> \A i \in DOMAIN f.fs : KVCourse(D, f.fs[i], c)
    [] f.t = "any" -> /\ \A i \in DOMAIN f.fs : f.fs[i].t = "c"
                      /\ \E i \in DOMAIN f.fs : KVCourse(D, f.fs[i], c)

PassSet(D, f) == {c \in D.cs : KVCourse(D, f, c)}
                   \cup {l \in D.ls : KVLesson(D, f, D.courseOf[l], l)}

(* ---- study sessions ---------------------------------------------------- *)
(* The index of the part in force after some whole minutes.                 *)
RECURSIVE PartAt(_, _, _)
PartAt(durs, i, mins) ==
  IF i >= Len(durs) \/ mins < durs[i] THEN i ELSE PartAt(durs, i + 1, mins - durs[i])

(* ---- satisfied dependencies ------------------------------------------- *)
LastMatching(D, P, c) ==
  LET M == D.lessonsOf[c] \cap P IN {l \in M : D.dependents[l] \cap M = {}}

(* What gates in place of d, if units outside P are passed over. *)
RECURSIVE Resolve(_, _, _, _)
Resolve(D, P, todo, seen) ==
  IF todo = {} THEN {}
  ELSE LET pass == todo \cap P
           out == (todo \cap D.us) \ P
           last == UNION {LastMatching(D, P, c) : c \in out \cap D.cs}
           nextC == UNION {D.deps[c] : c \in {c \in out \cap D.cs : LastMatching(D, P, c) = {}}}
           nextL == UNION {D.deps[l] \cup (IF l \in D.starting[D.courseOf[l]]
                                           THEN D.deps[D.courseOf[l]] ELSE {})
                           : l \in out \cap D.ls}
       IN pass \cup last \cup Resolve(D, P, (nextC \cup nextL) \ (seen \cup todo), seen \cup todo)

(* The gate structure under the set P of units that pass the filter. *)
Gates(D, Y, P) ==
  LET sat == TLCEval([d \in D.us \cup D.missing |->
               IF d \in D.us
               THEN \A t \in Resolve(D, P, {d}, {}) : Y.satEff[t]
               ELSE TRUE])
      open == TLCEval([u \in D.us |-> \A d \in D.deps[u] : sat[d]])
      home(u) == IF u \in D.ls THEN D.courseOf[u] ELSE u
      \* entering a course through one of its lessons needs the course's dependencies too
      enter(v, u) == v \in D.ls /\ D.courseOf[v] /= home(u) => open[D.courseOf[v]]
  IN [ open |-> open,
       vsl |-> TLCEval([c \in D.cs |-> {l \in D.starting[c] : open[l]}]),
       next |-> TLCEval([u \in D.us |-> {v \in D.dependents[u] : open[v] /\ enter(v, u)}]) ]

SkipLesson(Y, P, l) == Y.skip[l] \/ l \notin P

(* ---- the traversal ---------------------------------------------------- *)
Succ(D, S, Y, G, P, u, R) ==
  IF u \in D.cs
  THEN G.vsl[u] \cup
       (IF u \in S.bl \/ u \notin P \/ D.lessonsOf[u] \subseteq R \/ Y.sup[u]
        THEN G.next[u] ELSE {})
  ELSE (IF D.lessonsOf[D.courseOf[u]] \subseteq R THEN {D.courseOf[u]} ELSE {})
       \cup (IF SkipLesson(Y, P, u) \/ Y.passes[u] THEN G.next[u] ELSE {})

RECURSIVE Visit(_, _, _, _, _, _)
Visit(D, S, Y, G, P, R) ==
  LET R2 == R \cup UNION {Succ(D, S, Y, G, P, u, R) : u \in R}
  IN IF R2 = R THEN R ELSE Visit(D, S, Y, G, P, R2)

InitStack(D, G) ==
  UNION { IF u \in D.cs /\ G.vsl[u] /= {} THEN G.vsl[u]
          ELSE IF u \in D.ls /\ ~G.open[D.courseOf[u]] THEN {}
          ELSE {u} : u \in StartUnits(D) }

(* The lessons whose exercises are eligible after a search of the graph. *)
GraphLessons(D, S, Y, P, start) ==
  LET G == Gates(D, Y, P)
      R == Visit(D, S, Y, G, P, start)
  IN {l \in R \cap D.ls : ~SkipLesson(Y, P, l)}

(* A search restricted to the courses in cs, from all their first lessons. *)
RECURSIVE VisitIn(_, _, _, _, _)
VisitIn(D, Y, G, A, R) ==
  LET R2 == R \cup UNION {IF Y.skip[l] \/ Y.passes[l] THEN G.next[l] \cap A ELSE {} : l \in R}
  IN IF R2 = R THEN R ELSE VisitIn(D, Y, G, A, R2)
CourseLessons(D, Y, cs) ==
  LET G == Gates(D, Y, D.us)
      ok == cs \cap D.cs
      A == UNION {D.lessonsOf[c] : c \in ok}
  IN {l \in VisitIn(D, Y, G, A, UNION {D.starting[c] : c \in ok}) : ~Y.skip[l]}

RECURSIVE DepsAt(_, _, _)
DepsAt(D, us, k) ==
  IF k = 0 THEN us \cap D.us
  ELSE LET stop == {u \in us : u \notin D.us \/ D.deps[u] = {}}
       IN (stop \cap D.us) \cup
          (IF us \ stop = {} THEN {} ELSE DepsAt(D, UNION {D.deps[u] : u \in us \ stop}, k - 1))

AllUnits(D) == D.us
(* The eligible lessons and, for the review list, single exercises. *)
PoolOf(D, S, Y, review, f) ==
  LET nof == [ls |-> {}, es |-> {}]
      graph(start) == GraphLessons(D, S, Y, D.us, start)
  IN CASE f.t = "none" ->
            [nof EXCEPT !.ls = graph(InitStack(D, Gates(D, Y, D.us)))]
       [] f.t = "course" -> [nof EXCEPT !.ls = CourseLessons(D, Y, Rng(f.ids))]
       [] f.t = "lesson" -> [nof EXCEPT !.ls = Rng(f.ids) \cap D.ls]
       [] f.t = "meta" ->
            LET P == PassSet(D, f.f)
            IN [nof EXCEPT !.ls = GraphLessons(D, S, Y, P, InitStack(D, Gates(D, Y, P)))]
       [] f.t = "review" ->
            [ls |-> (UNION {CourseLessons(D, Y, {c}) : c \in review \cap D.cs})
                      \cup (review \cap D.ls),
             es |-> {e \in review \cap D.es :
                       {e, D.lessonOf[e], D.courseOf[D.lessonOf[e]]} \cap S.bl = {}}]
       [] f.t = "dependents" -> [nof EXCEPT !.ls = graph(Rng(f.ids) \cap D.us)]
       [] f.t = "deps" -> [nof EXCEPT !.ls = graph(DepsAt(D, Rng(f.ids), f.depth))]

PoolIds(Y, p) == p.es \cup UNION {Y.valid[l] : l \in p.ls}
=============================================================================
