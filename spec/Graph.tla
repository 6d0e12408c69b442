------------------------------- MODULE Graph -------------------------------
(* The unit graph: what has been declared so far, what a declaration does,  *)
(* and the answer to every query. A declaration is a record with field op:  *)
(*   course(u), lesson(u, p), exercise(u, p)   p is the parent              *)
(*   rel(u, deps, enc)   dependencies and encompassed units with weights    *)
(*   enc(u, enc), sup(u, sup), eq              (eq: no encompassed units)   *)
(* Weights are thousandths.                                                 *)
EXTENDS UnitLib

Empty(U) == [type |-> [u \in U |-> "none"], parent |-> [u \in U |-> "none"],
             deps |-> {}, sup |-> {}, enc |-> {}]

Rejected(g) == [ok |-> FALSE, g |-> g]
Accepted(g) == [ok |-> TRUE, g |-> g]
TypeOk(g, u, t) == g.type[u] \in {"none", t}

PairsOf(s) == {<<s[i][1], s[i][2]>> : i \in DOMAIN s}
(* The encompassed units of u: those listed, and the other dependencies.    *)
FullEnc(deps, enc) ==
  PairsOf(enc) \cup {<<d, 1000>> : d \in Rng(deps) \ {p[1] : p \in PairsOf(enc)}}

AddUnit(g, u, t) == [g EXCEPT !.type[u] = t]
AddUnder(g, u, t, p, pt) ==
  IF g.type[u] /= "none" \/ u = p \/ ~TypeOk(g, p, pt) THEN Rejected(g)
  ELSE Accepted([g EXCEPT !.type[u] = t, !.type[p] = pt, !.parent[u] = p])

Declare(g, e) ==
  CASE e.op = "course" -> IF g.type[e.u] /= "none" THEN Rejected(g) ELSE Accepted(AddUnit(g, e.u, "course"))
    [] e.op = "lesson" -> AddUnder(g, e.u, "lesson", e.p, "course")
    [] e.op = "exercise" -> AddUnder(g, e.u, "exercise", e.p, "lesson")
    [] e.op = "rel" ->
         IF g.type[e.u] \in {"none", "exercise"} \/ e.u \in Rng(e.deps) THEN Rejected(g)
         ELSE Accepted([g EXCEPT !.deps = @ \cup {<<e.u, v>> : v \in Rng(e.deps)},
                                 !.enc = @ \cup {<<e.u, p[1], p[2]>> : p \in FullEnc(e.deps, e.enc)}])
    [] e.op = "enc" ->
         IF \E i \in DOMAIN e.enc : e.enc[i][2] < 0 \/ e.enc[i][2] > 1000 THEN Rejected(g)
         ELSE Accepted([g EXCEPT !.enc = @ \cup {<<e.u, p[1], p[2]>> : p \in PairsOf(e.enc)}])
    [] e.op = "sup" -> Accepted([g EXCEPT !.sup = @ \cup {<<e.u, v>> : v \in Rng(e.sup)}])
    [] e.op = "eq" -> Accepted([g EXCEPT !.enc = {}])

(* ---- queries ----------------------------------------------------------- *)
Fwd(rel, u) == {p[2] : p \in {q \in rel : q[1] = u}}
Bwd(rel, u) == {p[1] : p \in {q \in rel : q[2] = u}}
Children(g, u) == {v \in DOMAIN g.parent : g.parent[v] = u}
EncRel(g) == IF g.enc = {} THEN {<<p[1], p[2], 1000>> : p \in g.deps} ELSE g.enc
Encompasses(g, u) == {<<p[2], p[3]>> : p \in {q \in EncRel(g) : q[1] = u}}
EncompassedBy(g, u) == {<<p[1], p[3]>> : p \in {q \in EncRel(g) : q[2] = u}}

StartingOf(g, c) == {l \in Children(g, c) : Fwd(g.deps, l) \cap Children(g, c) = {}}

(* Where a walk of the graph begins: courses without dependencies, except   *)
(* those all of whose starting lessons wait for other known units, and      *)
(* units that are only mentioned as dependencies.                           *)
Blocked(g, c) ==
  LET s == StartingOf(g, c)
  IN s /= {} /\ \A l \in s : Fwd(g.deps, l) /= {} /\ \A d \in Fwd(g.deps, l) : g.type[d] /= "none"
Mentioned(g) == {p[2] : p \in g.deps}
SinksOf(g) ==
  {c \in DOMAIN g.type : g.type[c] = "course" /\ Fwd(g.deps, c) = {} /\ ~Blocked(g, c)}
     \cup {u \in Mentioned(g) : g.type[u] = "none"}

(* ---- cycles ------------------------------------------------------------ *)
CycleIn(rel, U) == ~AcyclicRel(TLCEval([u \in U |-> Fwd(rel, u)]))
(* The score of a unit depends on those of the units superseding it, that   *)
(* of a course on those of its lessons.                                     *)
ScoreRel(g) == {<<p[2], p[1]>> : p \in g.sup}
                 \cup {<<g.parent[l], l>> : l \in {x \in DOMAIN g.type : g.type[x] = "lesson"}}
Cyclic(g) ==
  LET U == DOMAIN g.type
  IN \/ CycleIn(g.deps, U)
     \/ CycleIn(g.sup, U)
     \/ CycleIn({<<p[1], p[2]>> : p \in EncRel(g)}, U)
     \/ CycleIn(ScoreRel(g), U)

(* ---- the picture of the graph ------------------------------------------ *)
DotNodes(g, coursesOnly) ==
  LET cs == {c \in DOMAIN g.type : g.type[c] = "course" /\ Children(g, c) /= {}}
  IN {<<c, "red">> : c \in cs}
       \cup (IF coursesOnly THEN {} ELSE {<<l, "blue">> : l \in UNION {Children(g, c) : c \in cs}})
DotEdges(g, coursesOnly) ==
  LET nodes == {n[1] : n \in DotNodes(g, coursesOnly)}
      next(u) == Bwd(g.deps, u)
                   \cup (IF g.type[u] = "course" THEN StartingOf(g, u) ELSE {})
  IN UNION {{<<u, v>> : v \in IF coursesOnly THEN {x \in Bwd(g.deps, u) : g.type[x] = "course"}
                              ELSE next(u)} : u \in nodes}
=============================================================================
