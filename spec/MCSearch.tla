----------------------------- MODULE MCSearch -----------------------------
(* The search of the graph as the stack machine it is, over every library   *)
(* of a small shape: every acyclic set of dependencies among its units and  *)
(* on one missing unit, every choice of mastered lessons, blacklisted,      *)
(* superseding and filtered units.                                          *)
(*                                                                          *)
(* The order in which units leave the stack is arbitrary here (in the code  *)
(* it is a random one of these orders). The search must end with the set of *)
(* lessons that Search!Visit defines, whatever the order; and what it finds *)
(* must be what the student is promised, said without mention of a search.  *)
EXTENDS Search, Json, IOUtils, FiniteSetsExt

(* The shape: how many lessons each course has.                             *)
Shape == CASE IOEnv.SHAPE = "2-1" -> <<2, 1>>
           [] IOEnv.SHAPE = "1-1" -> <<1, 1>>
           [] IOEnv.SHAPE = "3" -> <<3>>
           [] IOEnv.SHAPE = "1-0-1" -> <<1, 0, 1>>
           [] IOEnv.SHAPE = "1-1-1" -> <<1, 1, 1>>
           [] IOEnv.SHAPE = "2-0" -> <<2, 0>>
           [] IOEnv.SHAPE = "4" -> <<4>>
MaxEdges == atoi(IOEnv.EDGES)
Mode == IOEnv.MODE          \* "plain", "missing", "black", "filter", "super"
(* One rule of the search taken away, to see that the rest depends on it:   *)
(* "return" (a course is not returned to after its last lesson), "enter" (a *)
(* lesson of another course is entered past its course's dependencies).     *)
Without == IOEnv.WITHOUT

CName == <<"A", "B", "C">>
LName(c, i) == CName[c] \o "::" \o <<"1", "2", "3", "4">>[i]
CIds == {CName[c] : c \in DOMAIN Shape}
LIds == UNION {{LName(c, i) : i \in 1..Shape[c]} : c \in DOMAIN Shape}
Us == CIds \cup LIds
HomeOf(l) == SubSeq(l, 1, 1)
Own(u, v) == (u \in LIds /\ HomeOf(u) = v) \/ (v \in LIds /\ HomeOf(v) = u)
AllEdges == {e \in Us \X Us : e[1] /= e[2] /\ ~Own(e[1], e[2])}
EdgesOf == {E \in UNION {kSubset(k, AllEdges) : k \in 0..MinI(MaxEdges, Cardinality(AllEdges))} :
              AcyclicRel([u \in Us |-> {e[2] : e \in {x \in E : x[1] = u}}])}

SetSeq(S) == LET RECURSIVE F(_)
                 F(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE y \in X : TRUE IN <<x>> \o F(X \ {x})
             IN F(S)
Deps(E, W, u) == SetSeq({e[2] : e \in {x \in E : x[1] = u}} \cup (IF u \in W THEN {"ghost"} ELSE {}))
Lib(E, W, Z) ==
  [ courses |-> [c \in CIds |-> [deps |-> Deps(E, W, c), sup |-> SetSeq({s[2] : s \in {x \in Z : x[1] = c}}), enc |-> <<>>, meta |-> [k |-> <<>>],
                                 lessons |-> SetSeq({l \in LIds : HomeOf(l) = c})]],
    lessons |-> [l \in LIds |-> [course |-> HomeOf(l), deps |-> Deps(E, W, l), sup |-> SetSeq({s[2] : s \in {x \in Z : x[1] = l}}),
                                 enc |-> <<>>, meta |-> [k |-> <<>>], exs |-> <<l \o "::x">>]],
    exs |-> [x \in {l \o "::x" : l \in LIds} |-> [lesson |-> SubSeq(x, 1, 4), type |-> "D"]] ]

Opts == [min_score |-> 3000, min_trials |-> 1800, sup |-> 4000]
Stud(m, b) == [ bl |-> b, o |-> Opts, eps |-> 0,
                x |-> [x \in {l \o "::x" : l \in LIds} |->
                         IF SubSeq(x, 1, 4) \in m THEN [n |-> 4, sc |-> 5000000, xi |-> TRUE]
                         ELSE [n |-> 0, sc |-> 0, xi |-> TRUE]] ]

VARIABLES phase, lib, k, stack, visited
vars == <<phase, lib, k, stack, visited>>

Init ==
  /\ \E E \in EdgesOf : lib = [e |-> E]
  /\ phase = "library" /\ k = <<>> /\ stack = {} /\ visited = {}

Small(S, n) == {X \in SUBSET S : Cardinality(X) <= n}
(* What a filter can select: whole courses, or lessons of any courses.      *)
Selections == SUBSET LIds \cup {c \cup {l \in LIds : HomeOf(l) \in c} : c \in SUBSET CIds \ {CIds}}
Choose ==
  /\ phase = "library"
  /\ \E m \in SUBSET LIds :
     \E w \in (IF Mode = "missing" THEN SUBSET Us \ {{}} ELSE {{}}) :
     \E b \in (IF Mode = "black" THEN Small(Us, 2) \ {{}} ELSE {{}}) :
     \E p \in (IF Mode = "filter" THEN Selections ELSE {Us}) :
     \E s \in (IF Mode = "super" THEN {{e} : e \in {x \in Us \X Us : x[1] /= x[2] /\ ~Own(x[1], x[2])}} ELSE {{}}) :
       LET L == TLCEval(Lib(lib.e, w, s))
           D == Derive(L)
           S == Stud(m, b)
           Y == TLCEval(Summary(D, S))
           G0 == TLCEval(Gates(D, Y, p))
           G == IF Without /= "enter" THEN G0
                ELSE [G0 EXCEPT !.next = [u \in D.us |-> {v \in D.dependents[u] : G0.open[v]}]]
       IN /\ lib' = [e |-> lib.e, m |-> m, w |-> w, b |-> b, p |-> p, s |-> s]
          /\ k' = TLCEval([D |-> D, S |-> S, Y |-> Y, G |-> G])
          /\ stack' = InitStack(D, G)
  /\ phase' = "search" /\ UNCHANGED visited

KD == k.D
Pop(u) ==
  /\ phase = "search" /\ u \in stack
  /\ UNCHANGED <<phase, lib, k>>
  /\ LET v2 == visited \cup {u}
         pending(c) == KD.lessonsOf[c] \ v2
     IN IF u \in visited THEN stack' = stack \ {u} /\ UNCHANGED visited
        ELSE IF u \in KD.cs
        THEN LET over == u \in k.S.bl \/ u \notin lib.p \/ pending(u) = {} \/ k.Y.sup[u]
             IN /\ visited' = IF over THEN v2 ELSE visited
                /\ stack' = (stack \ {u}) \cup k.G.vsl[u] \cup (IF over THEN k.G.next[u] ELSE {})
        ELSE /\ visited' = v2
             /\ stack' = (stack \ {u})
                           \cup (IF pending(KD.courseOf[u]) = {} /\ Without /= "return" THEN {KD.courseOf[u]} ELSE {})
                           \cup (IF SkipLesson(k.Y, lib.p, u) \/ k.Y.passes[u] THEN k.G.next[u] ELSE {})
Over == phase = "search" /\ stack = {} /\ UNCHANGED vars
Next == Choose \/ Over \/ \E u \in stack : Pop(u)
Spec == Init /\ [][Next]_vars

Done == phase = "search" /\ stack = {}

(* ---- what must hold ------------------------------------------------------ *)
(* Whatever the order, the search ends with the same lessons.               *)
OrderFree == Done => visited \cap LIds = Visit(KD, k.S, k.Y, k.G, lib.p, InitStack(KD, k.G)) \cap LIds
(* Nothing is visited before the units it and its course wait for.          *)
Sat(d) == d \notin Us \/ k.Y.satEff[d]
Gated == phase = "search" /\ lib.p = Us =>
           \A l \in visited \cap LIds : /\ \A d \in KD.deps[l] : Sat(d)
                                        /\ \A d \in KD.deps[KD.courseOf[l]] : Sat(d)
(* A lesson all of whose prerequisites are mastered, down to the last one,  *)
(* is found.                                                                *)
Ahead(u) == ReachFix([v \in Us |-> Before(KD, v)], Before(KD, u), {})
Unlocked(l) == \A u \in Ahead(l) : Sat(u)
Reached == Done /\ lib.p = Us /\ ProgressWellFounded(KD) => \A l \in LIds : Unlocked(l) => l \in visited
(* While something is left to learn, there is something to practice.        *)
Left == {l \in LIds : ~k.Y.skip[l] /\ ~k.Y.passes[l]}
Progress == Done /\ lib.p = Us /\ Left /= {} /\ ProgressWellFounded(KD) => visited \cap Left /= {}
Emit == phase /= "search" \/ visited /= {} \/ PrintT(<<"RUN", ToJson([us |-> Us, e |-> lib.e, m |-> lib.m, w |-> lib.w, b |-> lib.b, p |-> lib.p, s |-> lib.s])>>)
=============================================================================
