----------------------------- MODULE MCCache -----------------------------
(* Which remembered scores may be kept when something changes. Every state  *)
(* of a small library (superseding relation, blacklist, what was practised) *)
(* with everything remembered, and every single change followed by the      *)
(* documented forgetting: whatever is still remembered afterwards must be   *)
(* what a fresh computation gives. Because every state is a starting point, *)
(* one step covers histories of any length.                                 *)
EXTENDS Scores, Json, IOUtils, FiniteSetsExt

Shape == CASE IOEnv.SHAPE = "2-1" -> <<2, 1>>
           [] IOEnv.SHAPE = "1-1" -> <<1, 1>>
           [] IOEnv.SHAPE = "2-0" -> <<2, 0>>
           [] IOEnv.SHAPE = "1-1-1" -> <<1, 1, 1>>
MaxSup == atoi(IOEnv.EDGES)
MaxBl == atoi(IOEnv.BL)
(* One rule of forgetting taken away.                                       *)
Without == IOEnv.WITHOUT

CName == <<"A", "B", "C">>
LName(c, i) == CName[c] \o "::" \o <<"1", "2">>[i]
CIds == {CName[c] : c \in DOMAIN Shape}
LIds == UNION {{LName(c, i) : i \in 1..Shape[c]} : c \in DOMAIN Shape}
Us == CIds \cup LIds
XOf(l) == l \o "::x"
XIds == {XOf(l) : l \in LIds}
HomeOf(u) == SubSeq(u, 1, 1)
LessonOfX(x) == SubSeq(x, 1, 4)
All == Us \cup XIds
In(c, l) == c \in CIds /\ l \in LIds /\ HomeOf(l) = c

(* A unit may not supersede what contains it, directly or through others.   *)
SupEdges == {e \in Us \X Us : e[1] /= e[2] /\ ~In(e[2], e[1])}
SupersedesOf(Z) == [u \in Us |-> {e[2] : e \in {x \in Z : x[1] = u}}]
(* Whether u is superseded needs the scores of what supersedes it, the      *)
(* score of a course needs those of its lessons.                            *)
Needs(Z) == [u \in Us |-> {e[1] : e \in {x \in Z : x[2] = u}} \cup {l \in LIds : In(u, l)}]
Sups == {Z \in UNION {kSubset(n, SupEdges) : n \in 0..MinI(MaxSup, Cardinality(SupEdges))} : AcyclicRel(Needs(Z))}

DOf(Z) == [ cs |-> CIds, ls |-> LIds, es |-> XIds, us |-> Us,
            supersedes |-> SupersedesOf(Z),
            supBy |-> TLCEval([u \in Us |-> {e[1] : e \in {x \in Z : x[2] = u}}]),
            lessonsOf |-> TLCEval([c \in CIds |-> {l \in LIds : HomeOf(l) = c}]),
            courseOf |-> TLCEval([l \in LIds |-> HomeOf(l)]),
            exsOf |-> TLCEval([l \in LIds |-> {XOf(l)}]),
            lessonOf |-> TLCEval([x \in XIds |-> LessonOfX(x)]) ]

Levels == {0, 1, 2}
Opts == [min_score |-> 3000, min_trials |-> 1800, sup |-> 4000]
Stud(lv, b) == [ bl |-> b, o |-> Opts, eps |-> 0,
                 x |-> [x \in XIds |-> [n |-> <<0, 1, 4>>[lv[x] + 1], sc |-> <<0, 3000000, 5000000>>[lv[x] + 1], xi |-> TRUE]] ]

(* Everything that is remembered, by what it was computed for.              *)
Fresh(D, S) == [ sc |-> TLCEval([u \in All |-> IF u \in XIds THEN S.x[u].sc ELSE UnitSc(D, S, u)]),
                 tr |-> TLCEval([u \in All |-> IF u \in XIds THEN S.x[u].n ELSE AvgTrials(D, S, u)]) ]

VARIABLES phase, sup, lv, bl, memo, chg
vars == <<phase, sup, lv, bl, memo, chg>>

Small(S, n) == {X \in SUBSET S : Cardinality(X) <= n}
Init == /\ sup \in Sups
        /\ lv \in [XIds -> Levels]
        /\ bl \in Small(All, MaxBl)
        /\ memo = [x \in {} |-> 0] /\ chg = [kind |-> "none"] /\ phase = "state"

(* ---- forgetting ----------------------------------------------------------*)
Rule(r, S) == IF Without = r THEN {} ELSE S
(* What changes with unit u, not counting superseded units.                 *)
Touched(u) ==
  {u} \cup
  CASE u \in XIds -> Rule("lesson of exercise", {LessonOfX(u)}) \cup Rule("course of exercise", {HomeOf(u)})
    [] u \in LIds -> Rule("course of lesson", {HomeOf(u)}) \cup Rule("exercises of lesson", {XOf(u)})
    [] u \in CIds -> Rule("lessons of course", {l \in LIds : In(u, l)})
                       \cup Rule("exercises of course", {XOf(l) : l \in {m \in LIds : In(u, m)}})
(* The units whose superseded units may have changed with u.                *)
Origin(u) ==
  {u} \cup Rule("origin up", (IF u \in XIds THEN {LessonOfX(u)} ELSE {}) \cup (IF u \notin CIds THEN {HomeOf(u)} ELSE {}))
      \cup Rule("origin down", IF u \in CIds THEN {l \in LIds : In(u, l)} ELSE {})
SupStep(u) == LET d == SupersedesOf(sup)[u]
              IN d \cup Rule("course of superseded", {HomeOf(v) : v \in d \cap LIds})
Behind(u) == LET f == TLCEval([v \in Us |-> SupStep(v)])
                 o == Origin(u) \cap Us
             IN IF Without = "superseded" THEN {}
                ELSE IF Without = "superseded of superseded" THEN UNION {f[v] : v \in o}
                ELSE ReachFix(f, UNION {f[v] : v \in o}, {})
Forgotten(u) == Touched(u) \cup Behind(u)

(* The unit itself and what contains it or is contained in it.              *)
Near(u) == {v \in All : IsPre(u, v) \/ IsPre(v, u)}

Change(D, F, kind, ids, lv2, bl2, z) ==
  LET
      F2 == TLCEval(Fresh(D, Stud(lv2, bl2)))
      G == UNION {Forgotten(u) : u \in ids}
      near == UNION {Near(u) : u \in ids}
  IN /\ phase' = "changed" /\ lv' = lv2 /\ bl' = bl2
     /\ memo' = TLCEval([u \in All \ G |-> [sc |-> F.sc[u], tr |-> F.tr[u]]])
     /\ chg' = [kind |-> kind, us |-> ids, z |-> z, lv |-> lv, bl |-> bl,
                 far |-> \E u \in All \ near : F.sc[u] /= F2.sc[u] \/ F.tr[u] /= F2.tr[u]]
     /\ UNCHANGED sup

(* An exercise is practised; a reward moves all the exercises of a lesson or *)
(* of a course; the blacklist is edited.                                    *)
ExsOf(u) == CASE u \in XIds -> {u} [] u \in LIds -> {XOf(u)} [] OTHER -> {XOf(l) : l \in {m \in LIds : In(u, m)}}
Move(D, F, u) == \E z \in Levels : /\ \E x \in ExsOf(u) : lv[x] /= z
                             /\ Change(D, F, IF u \in XIds THEN "practice" ELSE "reward", {u}, [x \in XIds |-> IF x \in ExsOf(u) THEN z ELSE lv[x]], bl, z)
Block(D, F, u) == u \notin bl /\ Change(D, F, "block", {u}, lv, bl \cup {u}, 0)
Unblock(D, F, u) == u \in bl /\ Change(D, F, "unblock", {u}, lv, bl \ {u}, 0)
UnblockAll(D, F) == Cardinality(bl) > 1 /\ Change(D, F, "clear", bl, lv, {}, 0)
Over == phase = "changed" /\ UNCHANGED vars
Next == Over \/ (phase = "state" /\ \E D \in {TLCEval(DOf(sup))} : \E F \in {TLCEval(Fresh(D, Stud(lv, bl)))} :
                   UnblockAll(D, F) \/ \E u \in All : Move(D, F, u) \/ Block(D, F, u) \/ Unblock(D, F, u))
Spec == Init /\ [][Next]_vars

(* ---- what must hold ------------------------------------------------------ *)
NeverStale ==
  phase = "changed" =>
    LET F == Fresh(DOf(sup), Stud(lv, bl)) IN \A u \in DOMAIN memo : memo[u].sc = F.sc[u] /\ memo[u].tr = F.tr[u]

(* The scores computed for all units at once are the ones of the recursion. *)
SolvedRight ==
  phase = "state" =>
    LET D == DOf(sup)
        S == Stud(lv, bl)
        m == TLCEval(Solved(D, S))
    IN \A u \in Us : m[u].sc = UnitSc(D, S, u) /\ m[u].sup = Sup(D, S, u)

(* Changes that reach further than the unit and what contains it: worth      *)
(* trying on the real code.                                                 *)
Emit == phase /= "changed" \/ ~chg.far \/ PrintT(<<"RUN", ToJson([s |-> sup, chg |-> chg])>>)
=============================================================================
