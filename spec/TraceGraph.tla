---------------------------- MODULE TraceGraph ----------------------------
(* Declarations made to the real unit graph, one by one, and the answers to *)
(* all queries at the end.                                                  *)
EXTENDS Graph, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
N == Len(Traces)
VARIABLES tid, pc, g
vars == <<tid, pc, g>>

Tr == Traces[tid]
U == Rng(Tr.univ)
Report(tag, x) == PrintT(<<"VIOL", tid, pc, tag, ToString(x)>>)
Expect(cond, tag, x) == cond \/ Report(tag, x)
Stat(name, n) == n = 0 \/ PrintT(<<"STAT", name, n>>)

Same(field, want(_)) ==
  LET bad == {u \in U : Rng(Tr.q[u][field]) /= want(u)}
  IN Expect(bad = {}, "QUERY", [u \in bad |-> <<field, Tr.q[u][field], want(u)>>])
SamePairs(field, want(_)) ==
  LET bad == {u \in U : PairsOf(Tr.q[u][field]) /= want(u)}
  IN Expect(bad = {}, "QUERY", [u \in bad |-> <<field, Tr.q[u][field], want(u)>>])

Queries ==
  /\ Expect(\A u \in U : Tr.q[u].type = g.type[u], "QUERY", [u \in U |-> <<Tr.q[u].type, g.type[u]>>])
  /\ Same("lessons", LAMBDA u : IF g.type[u] = "course" THEN Children(g, u) ELSE {})
  /\ Same("exercises", LAMBDA u : IF g.type[u] = "lesson" THEN Children(g, u) ELSE {})
  /\ Same("course", LAMBDA u : IF g.type[u] = "lesson" THEN {g.parent[u]} \ {"none"} ELSE {})
  /\ Same("lesson", LAMBDA u : IF g.type[u] = "exercise" THEN {g.parent[u]} ELSE {})
  /\ Same("deps", LAMBDA u : Fwd(g.deps, u))
  /\ Same("dependents", LAMBDA u : Bwd(g.deps, u))
  /\ Same("sup", LAMBDA u : Fwd(g.sup, u))
  /\ Same("supby", LAMBDA u : Bwd(g.sup, u))
  /\ SamePairs("enc", LAMBDA u : Encompasses(g, u))
  /\ SamePairs("encby", LAMBDA u : EncompassedBy(g, u))
  /\ \/ ~Tr.finish
     \/ /\ Same("starting", LAMBDA u : IF g.type[u] = "course" THEN StartingOf(g, u) ELSE {})
        /\ Expect(Rng(Tr.sinks) = SinksOf(g), "SINKS", <<Tr.sinks, SinksOf(g)>>)
        /\ Expect(PairsOf(Tr.dot.nodes) = DotNodes(g, FALSE), "DOT", <<Tr.dot.nodes, DotNodes(g, FALSE)>>)
        /\ Expect(PairsOf(Tr.dot.edges) = DotEdges(g, FALSE), "DOT", <<Tr.dot.edges, DotEdges(g, FALSE)>>)
        /\ Expect(PairsOf(Tr.cdot.nodes) = DotNodes(g, TRUE), "DOT", <<Tr.cdot.nodes, DotNodes(g, TRUE)>>)
        /\ Expect(PairsOf(Tr.cdot.edges) = DotEdges(g, TRUE), "DOT", <<Tr.cdot.edges, DotEdges(g, TRUE)>>)
  /\ Expect(Tr.acyclic = ~Cyclic(g), "CYCLE", <<Tr.acyclic, g.deps, g.sup, EncRel(g)>>)
  /\ Stat("graphs", 1) /\ Stat("cyclic", IF Cyclic(g) THEN 1 ELSE 0)
  /\ Stat("queries", 12 * Cardinality(U))

Judge == LET r == Declare(g, Tr.ops[pc])
         IN /\ Expect(Tr.ops[pc].ok = r.ok, "DECLARE", Tr.ops[pc])
            /\ Stat("rejected", IF r.ok THEN 0 ELSE 1)

Init == tid \in 1..N /\ pc = 1 /\ g = Empty(Rng(Traces[tid].univ))
Next == /\ pc <= Len(Tr.ops) + 1
        /\ (IF pc <= Len(Tr.ops) THEN Judge ELSE Queries) \in BOOLEAN
        /\ g' = IF pc <= Len(Tr.ops) THEN TLCEval(Declare(g, Tr.ops[pc]).g) ELSE g
        /\ pc' = pc + 1
        /\ tid' = tid
Spec == Init /\ [][Next]_vars
=============================================================================
