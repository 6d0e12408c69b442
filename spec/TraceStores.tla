---------------------------- MODULE TraceStores ----------------------------
(* Sequences of operations on the real stores, with the contents of all of  *)
(* them after each operation. The state is what the stores held before it.  *)
EXTENDS Stores, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
N == Len(Traces)
VARIABLES tid, pc, c, recent, known
vars == <<tid, pc, c, recent, known>>

Tr == Traces[tid]
E == Tr.ev[pc]
A == E.after
U == DOMAIN Tr.units
Report(tag, x) == PrintT(<<"VIOL", tid, pc, tag, ToString(x)>>)
Expect(cond, tag, x) == cond \/ Report(tag, x)
Stat(name, n) == n = 0 \/ PrintT(<<"STAT", name, n>>)

Tag(store) == CASE store = "stats" -> "STATS" [] store = "deltas" -> "DELTAS" [] store = "rewards" -> "REWARDS"
                [] store = "bl" -> "BLACKLIST" [] store = "prefs" -> "PREFS" [] OTHER -> "REVIEW"
Op(o, store) == E.op = o /\ E.store = store
Hit(u) == StartsWith(Tr.units[u], E.p)
Units(list) == {list[i] : i \in DOMAIN list}

(* What the operation records for unit u in a store, oldest call first.     *)
Given(u, f(_)) == LET mine == SelectSeq(E.list, LAMBDA x : x[1] = u) IN [i \in DOMAIN mine |-> f(mine[i])]
Millis(x) == <<x[2], x[3], TRUE>>
Micros(x) == <<x[2] * 1000, x[3], TRUE>>
Reward(x) == <<x[2], x[3], x[4], TRUE>>

SameHist(store, u) == SameBag(A[store][u], c[store][u]) /\ NewestFirst(A[store][u])

Scored == E.op = "score" /\ Tr.units[E.u] \in Units(Tr.exs)

(* ---- trials and deltas ------------------------------------------------- *)
HistOk(store, u) ==
  LET b == c[store][u]
      a == A[store][u]
  IN CASE Op("rec", store) -> SameBag(a, b \o Given(u, LAMBDA x : IF store = "stats" THEN Millis(x) ELSE Micros(x))) /\ NewestFirst(a)
       [] Op("trim", store) -> Newest(a, b, E.n)
       [] Op("rmp", store) -> IF Hit(u) THEN a = <<>> ELSE SameHist(store, u)
       [] Scored /\ E.u = u /\ store = "stats" -> SameBag(a, Append(b, <<E.g * 1000, E.t, TRUE>>)) /\ NewestFirst(a)
       [] Scored /\ E.u = u /\ store = "deltas" ->
            IF c.stats[u] = <<>> THEN SameHist(store, u)
            ELSE /\ NewestFirst(a) /\ Len(a) = Len(b) + 1 /\ SubBag(b, a)
                 /\ \E i \in DOMAIN a : /\ a[i][2] = E.t /\ a[i][3]
                                        /\ Diff(a[i][1], (E.g * 1000000) - E.prev) <= 50
                                        /\ Count(a, a[i]) = Count(b, a[i]) + 1
       [] OTHER -> SameHist(store, u)
HistBad(store) == {u \in U : ~HistOk(store, u)}
JudgeHist(store) ==
  /\ Expect(HistBad(store) = {}, Tag(store), [u \in HistBad(store) |-> <<E.op, c[store][u], A[store][u]>>])
  /\ Op("read", store) => Expect(Newest(E.got, c[store][E.u], E.n), Tag(store), <<"read", E.u, E.n, E.got, c[store][E.u]>>)

(* ---- rewards ----------------------------------------------------------- *)
RewardChoices(u) == Accepted(Given(u, Reward), 1, recent[u], known[u])
Consistent(u, acc) == /\ Newest(A.rewards[u], c.rewards[u] \o acc, Cap)
                      /\ (acc /= <<>>) = (u \in Units(E.upd))
RewardsOk(u) ==
  LET b == c.rewards[u]
      a == A.rewards[u]
  IN CASE Op("rec", "rewards") /\ E.ok -> \E acc \in RewardChoices(u) : Consistent(u, acc)
       [] Op("trim", "rewards") -> Newest(a, b, E.n)
       [] Op("rmp", "rewards") -> IF Hit(u) THEN a = <<>> ELSE SameHist("rewards", u)
       [] E.op = "score" -> NewestFirst(a) /\ Len(a) <= Cap
       [] OTHER -> SameHist("rewards", u)
RewardsBad == {u \in U : ~RewardsOk(u)}
JudgeRewards ==
  /\ Expect(RewardsBad = {}, "REWARDS", [u \in RewardsBad |-> <<E.op, c.rewards[u], A.rewards[u], recent[u], known[u]>>])
  /\ Op("read", "rewards") => Expect(Newest(E.got, c.rewards[E.u], E.n), "REWARDS", <<"read", E.u, E.n, E.got, c.rewards[E.u]>>)

AccOf(u) == IF Op("rec", "rewards") /\ E.ok /\ RewardsOk(u) THEN CHOOSE acc \in RewardChoices(u) : Consistent(u, acc) ELSE <<>>
Forgets == E.op \in {"reopen", "reset"} \/ Op("trim", "rewards") \/ Op("rmp", "rewards") \/ ~E.ok
NextRecent(u) ==
  IF Forgets \/ (E.op = "score" /\ A.rewards[u] /= c.rewards[u]) \/ ~RewardsOk(u) THEN <<>>
  ELSE LastOf(recent[u] \o AccOf(u), Remembered)
NextKnown(u) ==
  CASE Op("trim", "rewards") \/ Op("rmp", "rewards") \/ E.op = "reset" -> Rng(A.rewards[u])
    [] OTHER -> known[u] \cup Rng(AccOf(u)) \cup Rng(A.rewards[u])

(* ---- lists ------------------------------------------------------------- *)
ListAfter(store) ==
  LET b == Units(c[store])
  IN CASE Op("add", store) -> b \cup {E.u}
       [] Op("rm", store) -> b \ {E.u}
       [] Op("rmp", store) -> {u \in b : ~Hit(u)}
       [] OTHER -> b
JudgeList(store) ==
  /\ Expect(Units(A[store]) = ListAfter(store) /\ Cardinality(Units(A[store])) = Len(A[store]), Tag(store),
            <<E.op, c[store], A[store]>>)
  /\ store = "bl" => Expect({u \in U : A.mem[u]} = ListAfter(store), "BLACKLIST", <<"membership", A.mem, ListAfter(store)>>)

(* ---- failed writes ----------------------------------------------------- *)
Hists == {"stats", "deltas", "rewards"}
Lists == {"bl", "rv"}
AllStores == Hists \cup Lists \cup {"prefs"}
SameStore(store, x, y) ==
  CASE store \in Hists -> \A u \in U : SameBag(x[store][u], y[store][u])
    [] store \in Lists -> Units(x[store]) = Units(y[store]) /\ Len(x[store]) = Len(y[store]) /\ (store = "bl" => x.mem = y.mem)
    [] OTHER -> x.prefs = y.prefs
SameAll(x, y) == \A s \in AllStores : SameStore(s, x, y)
Succeeded == E.ok /\ (E.op = "score" => E.accepted)

(* A call during which a write failed either has its effect or reports an   *)
(* error and has none. Scoring an exercise writes to three stores, and each *)
(* of them has its part of the effect or none.                              *)
FaultOk(s) == IF Succeeded \/ ~E.norm.accepted THEN SameStore(s, A, E.norm.dump)
              ELSE SameStore(s, A, c) \/ (E.op = "score" /\ SameStore(s, A, E.norm.dump))
SameScores(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Diff(a[i], b[i]) <= 20
(* Only a trial that is stored changes what waits to be tried again.        *)
PileOk ==
  LET p == {E.pile[i] : i \in DOMAIN E.pile}
  IN CASE E.op /= "score" \/ ~E.norm.accepted \/ E.g > 2 -> p = {}
       [] Succeeded -> IF Len(A.bl) = 0 THEN p = {E.u} ELSE p \subseteq {E.u}
       [] SameStore("stats", A, c) -> p = {}
       [] OTHER -> p \subseteq {E.u}
JudgeFault ==
  LET bad == {s \in AllStores : ~FaultOk(s)}
  IN /\ Expect(bad = {}, "FAULT", <<E.op, E.mode, E.ok, [s \in bad |-> <<c[s], A[s], E.norm.dump[s]>>]>>)
     /\ Expect(SameAll(E.fresh.dump, A), "FAULT_STORED", <<E.op, E.mode, E.ok, A, E.fresh.dump>>)
     /\ Expect(SameScores(E.scores, E.fresh.scores), "FAULT_SCORES", <<E.op, E.mode, E.ok, E.scores, E.fresh.scores>>)
     /\ Expect(PileOk, "FAULT_PILE", <<E.op, E.mode, E.ok, E.pile>>)
     /\ Stat("faults", IF E.fired THEN 1 ELSE 0)
     /\ Stat("faults_failed", IF E.fired /\ ~Succeeded THEN 1 ELSE 0)

(* ---- crashes ----------------------------------------------------------- *)
(* What reopening finds after a kill at some point of the operation: for    *)
(* each store what it held before or what it holds after, the latter once   *)
(* the call has returned.                                                   *)
CrashOk(s) == \/ "error" \notin DOMAIN s /\ s.acked /\ s.redo /\ SameAll(s.dump, A)
              \/ "error" \notin DOMAIN s /\ ~s.acked /\ s.redo
                   /\ \A x \in AllStores : SameStore(x, s.dump, A) \/ SameStore(x, s.dump, c)
JudgeCrash ==
  LET bad == {i \in DOMAIN E.snaps.list : ~CrashOk(E.snaps.list[i])}
  IN /\ Expect(bad = {}, "CRASH", <<E.op, c, A, {E.snaps.list[i] : i \in bad}>>)
     /\ Stat("crashes", E.snaps.count)
     /\ Stat("crash_states", Len(E.snaps.list))

JudgePrefs == Expect(A.prefs = IF Op("set", "prefs") THEN E.v ELSE c.prefs, "PREFS", <<E.op, c.prefs, A.prefs>>)

JudgeOp ==
  /\ Expect(E.ok, IF "store" \in DOMAIN E THEN Tag(E.store) ELSE "STATS", IF E.ok THEN "" ELSE E.error)
  /\ JudgeHist("stats") /\ JudgeHist("deltas") /\ JudgeRewards /\ JudgeList("bl") /\ JudgeList("rv") /\ JudgePrefs
  /\ E.op = "score" => Expect(E.accepted = Scored, "SCORED", E)
  /\ Stat("ops", 1) /\ Stat("reads", IF E.op = "read" THEN 1 ELSE 0)
  /\ Stat("trims", IF E.op = "trim" THEN 1 ELSE 0) /\ Stat("prefixes", IF E.op = "rmp" THEN 1 ELSE 0)
  /\ Stat("scored", IF Scored THEN 1 ELSE 0)
  /\ Stat("deltas_scored", IF Scored /\ c.stats[E.u] /= <<>> THEN 1 ELSE 0)
  /\ Stat("refused", IF Op("rec", "rewards") THEN Cardinality({u \in U : Given(u, Reward) /= <<>> /\ AccOf(u) = <<>>}) ELSE 0)
  /\ Stat("capped", IF Op("rec", "rewards") THEN Cardinality({u \in U : Len(c.rewards[u]) = Cap /\ AccOf(u) /= <<>>}) ELSE 0)

Judge == CASE E.op = "reset" -> TRUE
           [] "fired" \in DOMAIN E -> JudgeFault
           [] OTHER -> JudgeOp /\ ("snaps" \in DOMAIN E => JudgeCrash)

Init == /\ tid \in 1..N /\ pc = 1 /\ c = Traces[tid].before
        /\ recent = [u \in DOMAIN Traces[tid].units |-> <<>>]
        /\ known = [u \in DOMAIN Traces[tid].units |-> {}]
Next == /\ pc <= Len(Tr.ev)
        /\ Judge \in BOOLEAN
        /\ c' = A
        /\ recent' = TLCEval([u \in U |-> NextRecent(u)])
        /\ known' = TLCEval([u \in U |-> NextKnown(u)])
        /\ pc' = pc + 1
        /\ tid' = tid
Spec == Init /\ [][Next]_vars
=============================================================================
