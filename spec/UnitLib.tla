------------------------------ MODULE UnitLib ------------------------------
(* The course library as declared: courses, lessons, exercises and the      *)
(* relations between them, and everything that is derived from them before  *)
(* any practice takes place. A library is a record                          *)
(*   courses : id -> [deps, sup, enc, meta, lessons]                        *)
(*   lessons : id -> [course, deps, sup, enc, meta, exs]                    *)
(*   exs     : id -> [lesson, type]                                         *)
(* in which list-like fields are sequences.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Rng(f) == {f[x] : x \in DOMAIN f}
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
AbsI(a) == IF a < 0 THEN -a ELSE a

RECURSIVE SumF(_, _)
(* The sum of f[x] for x in the set X. *)
SumF(f, X) == IF X = {} THEN 0
              ELSE LET x == CHOOSE y \in X : TRUE IN f[x] + SumF(f, X \ {x})

(* Is p a prefix of the identifier s? *)
IsPre(p, s) == /\ Len(p) <= Len(s)
               /\ SubSeq(s, 1, Len(p)) = p

Derive(L) ==
  LET Cs == DOMAIN L.courses
      Ls == DOMAIN L.lessons
      Es == DOMAIN L.exs
      U == Cs \cup Ls
      Rec(u) == IF u \in Cs THEN L.courses[u] ELSE L.lessons[u]
      deps == TLCEval([u \in U |-> Rng(Rec(u).deps)])
      sups == TLCEval([u \in U |-> Rng(Rec(u).sup)])
      All == U \cup UNION {deps[u] : u \in U}
      lessonsOf == TLCEval([c \in Cs |-> {l \in Ls : L.lessons[l].course = c}])
  IN [ cs |-> Cs, ls |-> Ls, es |-> Es, us |-> U,
       missing |-> All \ U,
       deps |-> deps,
       dependents |-> TLCEval([v \in All |-> {u \in U : v \in deps[u]}]),
       supersedes |-> sups,
       supBy |-> TLCEval([u \in U |-> {v \in U : u \in sups[v]}]),
       lessonsOf |-> lessonsOf,
       courseOf |-> TLCEval([l \in Ls |-> L.lessons[l].course]),
       exsOf |-> TLCEval([l \in Ls |-> {e \in Es : L.exs[e].lesson = l}]),
       lessonOf |-> TLCEval([e \in Es |-> L.exs[e].lesson]),
       starting |-> TLCEval([c \in Cs |->
                      {l \in lessonsOf[c] : deps[l] \cap lessonsOf[c] = {}}]),
       meta |-> TLCEval([u \in U |-> Rec(u).meta]) ]

(* A course is not a place to start from if all the ways into it (its       *)
(* starting lessons) wait for other units of the library.                   *)
EntryBlocked(D, c) ==
  /\ D.starting[c] /= {}
  /\ \A l \in D.starting[c] : D.deps[l] /= {} /\ D.deps[l] \subseteq D.us

(* Where every walk of the library begins: courses without dependencies,    *)
(* and the units all of whose dependencies are missing from the library.    *)
Sinks(D) == {c \in D.cs : D.deps[c] = {} /\ ~EntryBlocked(D, c)} \cup D.missing

StartUnits(D) ==
  LET R == (Sinks(D) \cap D.us)
             \cup UNION {D.dependents[m] : m \in Sinks(D) \ D.us}
  IN {u \in R : D.deps[u] \cap D.us = {}}

(* The combined "must come before" relation: a lesson waits for its own     *)
(* dependencies and those of its course, a course is mastered through its   *)
(* lessons. Progress is only promised when this relation has no cycle.      *)
Before(D, u) ==
  (D.deps[u] \cap D.us)
     \cup (IF u \in D.ls THEN D.deps[D.courseOf[u]] \cap D.us ELSE D.lessonsOf[u])

RECURSIVE ReachFix(_, _, _)
(* Everything reachable from the frontier through f, including seen. *)
ReachFix(f, frontier, seen) ==
  IF frontier = {} THEN seen
  ELSE LET nx == (UNION {f[u] : u \in frontier}) \ (seen \cup frontier)
       IN ReachFix(f, nx, seen \cup frontier)

AcyclicRel(f) == \A u \in DOMAIN f : u \notin ReachFix(f, f[u], {})
ProgressWellFounded(D) == AcyclicRel(TLCEval([u \in D.us |-> Before(D, u)]))
=============================================================================
