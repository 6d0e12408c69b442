--------------------------- MODULE TraceFilters ---------------------------
(* Metadata filters, the parts of a study session, saved filters and saved  *)
(* sessions, as evaluated and listed by the real code.                      *)
EXTENDS Search, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
N == Len(Traces)
VARIABLES tid, pc
vars == <<tid, pc>>

Tr == Traces[tid]
Ev == Tr.ev[pc]
Report(tag, x) == PrintT(<<"VIOL", tid, pc, tag, ToString(x)>>)
Expect(cond, tag, x) == cond \/ Report(tag, x)
Stat(name, n) == n = 0 \/ PrintT(<<"STAT", name, n>>)

(* ---- metadata ---------------------------------------------------------- *)
M(i) == [meta |-> [c |-> Tr.course, l |-> Tr.lessons[i]]]
JudgeKV ==
  LET wantC == KVCourse(M(1), Ev.f, "c")
      wantL == [i \in DOMAIN Tr.lessons |-> KVLesson(M(i), Ev.f, "c", "l")]
  IN /\ Expect(Ev.c = wantC, "KVCOURSE", <<Ev, Tr.course, wantC>>)
     /\ Expect(Ev.l = wantL, "KVLESSON", <<Ev, Tr.course, Tr.lessons, wantL>>)
     /\ Stat("filters", 1)

(* ---- the part of a session --------------------------------------------- *)
JudgePart ==
  LET n == Len(Tr.durs)
      want == PartAt(Tr.durs, 1, Ev.mins)
  IN /\ Expect(Ev.panic = "", "PANIC", Ev)
     /\ Expect(Ev.panic /= "" \/ Ev.mins < 0 \/ IF n = 0 THEN Ev.is = <<>> /\ Ev.zero ELSE want \in Rng(Ev.is), "PART", <<Tr.durs, Ev, want>>)
     /\ Stat("moments", 1)

(* ---- saved filters and sessions ---------------------------------------- *)
RECURSIVE InOrder(_, _)
InOrder(univ, S) == IF univ = <<>> THEN <<>>
                    ELSE (IF Head(univ) \in S THEN <<Head(univ)>> ELSE <<>>) \o InOrder(Tail(univ), S)
In(w) == {i \in DOMAIN Tr.files : Tr.files[i].where = w}
Ids(w) == {Tr.files[i].id : i \in In(w)}
FileOf(w, u) == Tr.files[CHOOSE i \in In(w) : Tr.files[i].id = u]
Loads(w) == /\ \A i \in In(w) : Tr.files[i].ok
            /\ Cardinality(Ids(w)) = Cardinality(In(w))
Listed(w, got) ==
  LET o == InOrder(Tr.univ, Ids(w))
  IN Expect(got = [i \in DOMAIN o |-> <<o[i], FileOf(w, o[i]).desc>>], "LISTED", <<w, got>>)
Fetched(w, got) == Expect(Rng(got) = {<<u, FileOf(w, u).value>> : u \in Ids(w)}, "FETCHED", <<w, got>>)
JudgeSaved ==
  LET can == Loads("filters") /\ Loads("study_sessions")
  IN /\ Expect(Tr.panic = "", "PANIC", Tr.panic)
     /\ Expect(Tr.opened = can, "SAVED_OPEN", <<Tr.opened, Tr.files>>)
     /\ \/ ~Tr.opened \/ ~can
        \/ /\ Listed("filters", Tr.filters) /\ Listed("study_sessions", Tr.sessions)
           /\ Fetched("filters", Tr.gotf) /\ Fetched("study_sessions", Tr.gots)
     /\ Stat("saved", 1) /\ Stat("saved_rejected", IF can THEN 0 ELSE 1)

Init == tid \in 1..N /\ pc = 1
Next == /\ pc <= Len(Tr.ev)
        /\ (CASE Tr.kind = "kv" -> JudgeKV [] Tr.kind = "part" -> JudgePart [] OTHER -> JudgeSaved) \in BOOLEAN
        /\ pc' = pc + 1 /\ tid' = tid
Spec == Init /\ [][Next]_vars
=============================================================================
