--------------------------- MODULE TraceLibrary ---------------------------
(* A directory opened as a library, and again from its serialized form:     *)
(* whether it opened, what was loaded, the answers to every query.          *)
EXTENDS Generators, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
N == Len(Traces)
VARIABLES tid, pc
vars == <<tid, pc>>

Tr == Traces[tid]
Report(tag, x) == PrintT(<<"VIOL", tid, pc, tag, ToString(x)>>)
Expect(cond, tag, x) == cond \/ Report(tag, x)
Stat(name, n) == n = 0 \/ PrintT(<<"STAT", name, n>>)

U == Rng(Tr.univ)
Fs == Rng(Tr.files)
(* Identifiers in ascending order.                                          *)
RECURSIVE InOrder(_, _)
InOrder(univ, S) == IF univ = <<>> THEN <<>>
                    ELSE (IF Head(univ) \in S THEN <<Head(univ)>> ELSE <<>>) \o InOrder(Tail(univ), S)
Some(b, v) == [some |-> b, v |-> v]

OfType(g, t) == {u \in U : g.type[u] = t}
ExercisesOf(g, u) ==
  CASE g.type[u] = "course" -> UNION {Children(g, l) : l \in Children(g, u)}
    [] g.type[u] = "lesson" -> Children(g, u)
    [] g.type[u] = "exercise" -> {u}
    [] OTHER -> {}

(* The answers a of an instance to the queries of the library: what was     *)
(* read from manifests as it is written there, what was generated as the    *)
(* configuration of the course has it.                                      *)
Written(f) == "want" \notin DOMAIN f /\ "gen" \notin DOMAIN f
Manifests(a, o, tag) ==
  LET cw == {<<f.m.id, Loaded(f)>> : f \in {x \in o.cs : Written(x)}}
      lw == {<<x[2].m.id, Loaded(x[2])>> : x \in {y \in o.ls : Written(y[2])}}
      ew == {<<x[3].m.id, Loaded(x[3])>> : x \in {y \in o.es : Written(y[3])}}
      cg == {f \in o.cs : ~Written(f)}
      lg == {x[2] : x \in {y \in o.ls : ~Written(y[2])}}
      eg == {x[3] : x \in {y \in o.es : ~Written(y[3])}}
      rest(q, g) == LET gids == {f.m.id : f \in g} IN {x \in Rng(q) : x[1] \notin gids}
      bad(q, g, ok(_, _)) == {f \in g : ~\E i \in DOMAIN q : q[i][1] = f.m.id /\ ok(f, q[i][2])}
      of(q, id) == SelectSeq(q, LAMBDA x : x[1] = id)
      bc == TLCEval(bad(a.cm, cg, LAMBDA f, m : CourseMatches(Fs, f, m)))
      bl == TLCEval(bad(a.lm, lg, LAMBDA f, m : LessonMatches(f, m, a.mk[f.m.id])))
      be == TLCEval(bad(a.em, eg, LAMBDA f, m : ExerciseMatches(f, m, a.mk[f.m.id])))
      show(q, g) == {<<f, of(q, f.m.id), IF f.m.id \in DOMAIN a.mk THEN a.mk[f.m.id] ELSE <<>> >> : f \in g}
  IN /\ Expect(rest(a.cm, cg) = cw, tag, <<"courses", rest(a.cm, cg), cw>>)
     /\ Expect(rest(a.lm, lg) = lw, tag, <<"lessons", rest(a.lm, lg), lw>>)
     /\ Expect(rest(a.em, eg) = ew, tag, <<"exercises", rest(a.em, eg), ew>>)
     /\ Expect(bc = {}, tag, <<"generated courses", show(a.cm, bc)>>)
     /\ Expect(bl = {}, tag, <<"generated lessons", show(a.lm, bl)>>)
     /\ Expect(be = {}, tag, <<"generated exercises", show(a.em, be)>>)
Listings(a, g, tag) ==
  LET ord(S) == InOrder(Tr.univ, S)
      badL == {u \in U : a.units[u].lessons /= IF g.type[u] = "course" THEN Some(TRUE, ord(Children(g, u))) ELSE Some(FALSE, <<>>)}
      badE == {u \in U : a.units[u].exs /= IF g.type[u] = "lesson" THEN Some(TRUE, ord(Children(g, u))) ELSE Some(FALSE, <<>>)}
      badA == {u \in U : a.units[u].all /= ord(ExercisesOf(g, u))}
      want(q) == {u \in U : g.type[u] /= "none" /\ (q.t = "any" \/ g.type[u] = q.t) /\ IsPre(q.p, u)}
      badP == {i \in DOMAIN a.pre : Rng(a.pre[i].v) /= want(a.pre[i]) \/ Len(a.pre[i].v) /= Cardinality(want(a.pre[i]))}
      LessonsMissing(u) == g.type[u] = "course" /\ Children(g, u) = {}
  IN /\ Expect(a.courses = ord(OfType(g, "course")), tag, <<"courses", a.courses>>)
     /\ Expect(a.exs = ord(OfType(g, "exercise")), tag, <<"exercises", a.exs>>)
     /\ Expect({u \in badL : ~LessonsMissing(u) \/ a.units[u].lessons.v /= <<>>} = {}, tag, [u \in badL |-> <<"lessons of", a.units[u].lessons>>])
     /\ Expect({u \in badE : ~(g.type[u] = "lesson" /\ Children(g, u) = {} /\ a.units[u].exs.v = <<>>)} = {}, tag,
               [u \in badE |-> <<"exercises of", a.units[u].exs>>])
     /\ Expect(badA = {}, tag, [u \in badA |-> <<"all exercises of", a.units[u].all>>])
     /\ Expect(badP = {}, tag, [i \in badP |-> a.pre[i]])

Same(q, field, want(_), tag) ==
  LET bad == {u \in U : Rng(q[u][field]) /= want(u)}
  IN Expect(bad = {}, tag, [u \in bad |-> <<field, q[u][field], want(u)>>])
SamePairs(q, field, want(_), tag) ==
  LET bad == {u \in U : PairsOf(q[u][field]) /= want(u)}
  IN Expect(bad = {}, tag, [u \in bad |-> <<field, q[u][field], want(u)>>])
Graphs(a, g, tag) ==
  LET q == a.graph
  IN /\ Expect(\A u \in U : q[u].type = g.type[u], tag, [u \in U |-> <<q[u].type, g.type[u]>>])
     /\ Same(q, "lessons", LAMBDA u : IF g.type[u] = "course" THEN Children(g, u) ELSE {}, tag)
     /\ Same(q, "exercises", LAMBDA u : IF g.type[u] = "lesson" THEN Children(g, u) ELSE {}, tag)
     /\ Same(q, "course", LAMBDA u : IF g.type[u] = "lesson" THEN {g.parent[u]} ELSE {}, tag)
     /\ Same(q, "lesson", LAMBDA u : IF g.type[u] = "exercise" THEN {g.parent[u]} ELSE {}, tag)
     /\ Same(q, "starting", LAMBDA u : IF g.type[u] = "course" THEN StartingOf(g, u) ELSE {}, tag)
     /\ Same(q, "deps", LAMBDA u : Fwd(g.deps, u), tag)
     /\ Same(q, "dependents", LAMBDA u : Bwd(g.deps, u), tag)
     /\ Same(q, "sup", LAMBDA u : Fwd(g.sup, u), tag)
     /\ Same(q, "supby", LAMBDA u : Bwd(g.sup, u), tag)
     /\ SamePairs(q, "enc", LAMBDA u : Encompasses(g, u), tag)
     /\ SamePairs(q, "encby", LAMBDA u : EncompassedBy(g, u), tag)
        \* (whether an exercise somebody declared as a dependency is one is left open)
     /\ Expect({u \in Rng(a.sinks) : u \notin U \/ g.type[u] /= "exercise"} = SinksOf(g), tag, <<a.sinks, SinksOf(g)>>)

Answers(a, o, g, tag) ==
  \/ "failed" \in DOMAIN a /\ Report(tag, a.failed)
  \/ "failed" \notin DOMAIN a /\ Manifests(a, o, tag) /\ Listings(a, g, tag) /\ Graphs(a, g, tag)
(* Literacy examples come in the same order each time.                      *)
SameOrder(a, c) ==
  LET f(q) == {<<q[i][1], q[i][2].asset[1].x>> : i \in {k \in DOMAIN q : q[k][2].asset[1].t = "literacy"}}
  IN "failed" \in DOMAIN c \/ f(a.em) = f(c.em)

Judge ==
  LET o == TLCEval(OpeningAll(Fs, Tr.ignored, Tr.instr))
      can == TLCEval(OpenableAll(Fs, o, U, Tr.instr))
      built == Tr.built = <<>> \/ Tr.built[1] = ""
  IN /\ Expect(Tr.panic = "", "PANIC", Tr.panic)
     /\ Expect(Tr.changed = <<>>, "FILES", Tr.changed)
     /\ Tr.built = <<>> \/ Expect(built = (AssetsPresent(Fs, o) /\ ~Tr.clash), "BUILT", Tr.built)
     /\ \/ Tr.built = <<>> \/ ~built \/ Tr.clash
        \/ LET f == Rng(Tr.found)
               w == Rng(Tr.written)
           IN Expect(f = w, "BUILT", <<"not as asked for", f \ w, w \ f>>) /\ Stat("files", Cardinality(w))
     /\ ~built \/ Expect(Tr.opened = can, IF can THEN "REJECTED" ELSE "ACCEPTED",
               <<Tr.err, AllReadable(Fs, o), IF AllReadable(Fs, o) THEN <<Consistent(o), Distinct(o), AssetsPresent(Fs, o)>> ELSE <<>> >>)
     /\ Stat("libraries", 1) /\ Stat("rejected", IF can THEN 0 ELSE 1) /\ Stat("not_built", IF built THEN 0 ELSE 1)
     /\ \/ ~Tr.opened \/ ~can \/ ~built
        \/ LET g == TLCEval(GraphOf(o, U))
           IN /\ Manifests(Tr.a, o, "LOADED") /\ Listings(Tr.a, g, "LISTING") /\ Graphs(Tr.a, g, "GRAPH")
              /\ Stat("units", Cardinality({u \in U : g.type[u] /= "none"}))
              /\ Stat("generated", Cardinality({x \in o.ls : "want" \in DOMAIN x[2]}))
              /\ Stat("ignored", Cardinality(CourseFiles(Fs, <<>>) \ o.cs))
              /\ Tr.same \/ Answers(Tr.b, o, g, "SERIALIZED")
              /\ Tr.again \/ (Answers(Tr.c, o, g, "AGAIN") /\ Expect(SameOrder(Tr.a, Tr.c), "AGAIN", "the order of the examples"))

Init == tid \in 1..N /\ pc = 1
Next == pc = 1 /\ Judge \in BOOLEAN /\ pc' = 2 /\ tid' = tid
Spec == Init /\ [][Next]_vars
=============================================================================
