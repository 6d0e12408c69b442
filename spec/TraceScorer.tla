---------------------------- MODULE TraceScorer ----------------------------
(* Families of evaluations of the real scorer against the laws of Scorer.   *)
EXTENDS Scorer, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
N == Len(Traces)
VARIABLES tid, pc
vars == <<tid, pc>>

Tr == Traces[tid]
E == Tr.ev[pc]
I == E.info
G == E.got
Report(tag, x) == PrintT(<<"VIOL", tid, pc, tag, ToString(x)>>)
Expect(cond, tag, x) == cond \/ Report(tag, x)
Stat(name, n) == n = 0 \/ PrintT(<<"STAT", name, n>>)

Law ==
  CASE E.law = "wait" ->
         LET mean == G[1].v
             got == Tail(G)
         IN /\ Expect(WaitOk(I.trials, I.deltas, mean, I.waits, got), "WAIT", E)
            /\ Expect(FloorOk(I.trials, I.deltas, mean, I.waits, got), "FLOOR", E)
            /\ Expect(MeanOk(I.trials, mean), "MEAN", E)
            /\ Expect(MoreUrgent(I.waits, got), "WAIT", E)
    [] E.law = "grade" -> Expect(NotFalling(G), "GRADE", E)
    [] E.law = "streak" -> Expect(NeverFaster(G), "STREAK", E)
    [] E.law = "cram" -> Expect(NoCramming(G), "STREAK", E)
    [] E.law = "grow" -> Expect(Strengthens(G), "STREAK", E)
    [] E.law = "fade" -> Expect(Weakens(G), "STREAK", E)
    [] E.law = "type" -> Expect(TypesOk(G), "TYPE", E)
    [] E.law = "shift" -> Expect(AllEqual(G), "SHIFT", E)
    [] E.law = "delta" ->
         LET ds == {I.deltas[i][1] : i \in DOMAIN I.deltas}
         IN /\ Expect(Cardinality(DOMAIN I.deltas) >= 2 \/ G[1] = G[2], "DELTA", E)
            /\ Expect((\A d \in ds : d >= 0) => G[2].v >= G[1].v - Eps, "DELTA", E)
            /\ Expect((\A d \in ds : d <= 0) => G[2].v <= G[1].v + Eps, "DELTA", E)
            /\ Expect(G[3].v >= G[2].v - Eps, "DELTA", E)
    [] E.law = "first" -> \A i \in DOMAIN G : Expect(Near(G[i].u, 100000, 200), "TYPE", E)
    [] E.law = "trend" ->
         \A i \in DOMAIN G : Expect(IF Len(I.trials) < 2 THEN G[i].t = <<>>
                                    ELSE Len(G[i].t) = 1 /\ CASE I.dir = 1 -> G[i].t[1] > 0
                                                             [] I.dir = -1 -> G[i].t[1] < 0
                                                             [] OTHER -> Near(G[i].t[1], 0, 50), "TREND", E)
    [] E.law = "empty" -> \A i \in DOMAIN G : Expect(G[i].v = 0 /\ G[i].u = 1000000, "EMPTY", E)
    [] OTHER -> TRUE
Judge ==
  /\ \A i \in DOMAIN G :
       /\ Expect("panic" \notin DOMAIN G[i], "PANIC", E)
       /\ Expect(G[i].err = (E.law = "order" /\ ~Sorted(I.trials)), "ORDER", E)
       /\ Expect(G[i].err \/ InRange(G[i]), "RANGE", E)
  /\ Law
  /\ Stat(E.law, 1) /\ Stat("evaluations", Len(G))
  /\ Stat("unsorted", IF E.law = "order" /\ ~Sorted(I.trials) THEN 1 ELSE 0)
  /\ Stat("floors", IF E.law = "wait" /\ \E i \in DOMAIN I.waits : SurelyOldGood(I.trials, G[1].v, I.waits[i]) THEN 1 ELSE 0)

Init == tid \in 1..N /\ pc = 1
Next == /\ pc <= Len(Tr.ev)
        /\ Judge \in BOOLEAN
        /\ pc' = pc + 1
        /\ tid' = tid
Spec == Init /\ [][Next]_vars
=============================================================================
