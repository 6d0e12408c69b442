---------------------------- MODULE TraceWorld ----------------------------
(* Trace validation: every behaviour recorded from the real code (a library *)
(* on disk, an open instance, a sequence of user-level operations with what *)
(* the instance answered and what its stores hold) is replayed against the  *)
(* specification. The state is what the student and the instance are        *)
(* supposed to remember; each event is judged in the state before it.       *)
(*                                                                          *)
(* Judgements are printed, one line each, as <<"VIOL", trace, event, tag,   *)
(* text>>; the tags are mapped to properties by check.py. <<"STAT", ...>>   *)
(* lines count what was really compared.                                    *)
EXTENDS Search, Prefer, Arrange, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
N == Len(Traces)
Ds == TLCEval([i \in 1..N |-> Derive(Traces[i].lib)])

VARIABLES tid, pc, st
vars == <<tid, pc, st>>

Tr == Traces[tid]
D == Ds[tid]
Ev == Tr.ev[pc]
Has(r, f) == f \in DOMAIN r

Report(tag, x) == PrintT(<<"VIOL", tid, pc, tag, ToString(x)>>)
Expect(cond, tag, x) == cond \/ Report(tag, x)
Stat(name, n) == n = 0 \/ PrintT(<<"STAT", name, n>>)

Defaults == [batch |-> 50, relearn |-> 100, min_score |-> 3000, min_trials |-> 1800,
             min_frac |-> 500, sup |-> 4000, num_trials |-> 20, num_deltas |-> 10,
             num_rewards |-> 10, max_prog |-> 10, pct |-> <<200, 200, 300, 200, 100>>,
             cuts |-> <<100, 2500, 3750, 4500>>]

(* ---- the student's state as the events observe it ---------------------- *)
AnyReward(e) == \E u \in DOMAIN e.rws : e.rws[u] /= <<>>
Rws(e, u) == IF u \in DOMAIN e.rws THEN e.rws[u] ELSE <<>>
ExFinal(e, x) ==
  LET o == e.obs[x]
      l == D.lessonOf[x]
  IN Rewarded(o, Reward4(Rws(e, l), Rws(e, D.courseOf[l])))
Student(e) ==
  LET rw == AnyReward(e)
  IN [ bl |-> st.bl, o |-> st.o, eps |-> IF rw THEN 3000 ELSE 60,
       x |-> TLCEval([x \in D.es |->
               [n |-> e.obs[x].n, sc |-> IF rw THEN ExFinal(e, x) ELSE e.obs[x].base,
                xi |-> e.obs[x].xi /\ ~rw]]) ]
Edgy(e) ==
  \/ \E x \in D.es : ~e.obs[x].ok
  \/ AnyReward(e) /\ \E x \in D.es :
       e.obs[x].n > 2 /\ EdgyReward(e.obs[x], Rws(e, D.lessonOf[x]), Rws(e, D.courseOf[D.lessonOf[x]]))

BlockedEx(x) == {x, D.lessonOf[x], D.courseOf[D.lessonOf[x]]} \cap st.bl /= {}

(* ---- filters ----------------------------------------------------------- *)
(* The part of a session in force after some whole minutes. *)
PartNow(parts, mins) ==
  IF parts = <<>> THEN [k |-> "none", dur |-> 0]
  ELSE parts[PartAt([i \in DOMAIN parts |-> parts[i].dur], 1, mins)]

NoFilter == [t |-> "none"]
SavedIds == {Tr.saved[i].id : i \in DOMAIN Tr.saved}
SavedF(id) == LET i == CHOOSE i \in DOMAIN Tr.saved : Tr.saved[i].id = id IN Tr.saved[i].f
PartOk(p) == p.k /= "saved" \/ p.id \in SavedIds
PartFilter(p) == CASE p.k = "none" -> NoFilter
                   [] p.k = "unit" -> p.f
                   [] OTHER -> SavedF(p.id)
TheFilter(f) == IF f.t = "session"
                THEN LET p == PartNow(f.parts, f.elapsed \div 60)
                     IN IF PartOk(p) THEN PartFilter(p) ELSE [t |-> "missing"]
                ELSE f

(* ---- how many exercises of a lesson are picked -------------------------- *)
(* Lessons that just pass offer a part of their exercises.                  *)
Frac5(a, o) ==      \* in hundred-thousandths
  o.min_frac * 100 + (((a \div 100) - o.min_score * 10) * (1000 - o.min_frac) * 10)
                       \div (4000 - o.min_score)
PartSel(a, o) == o.min_frac < 1000 /\ a /= None /\ a >= o.min_score * 1000 /\ a < FullScore
SelLo(n, a, o) == IF PartSel(a, o)
                  THEN MaxI(IF Frac5(a, o) - 40 > 0 THEN 1 ELSE 0, (n * (Frac5(a, o) - 40)) \div 100000) ELSE n
SelHi(n, a, o) == IF PartSel(a, o)
                  THEN MaxI(1, (n * (Frac5(a, o) + 40)) \div 100000) ELSE n

(* A lesson exactly at the passing score may offer none, if the options say so. *)
Dropped(Y, x) == LET l == D.lessonOf[x] IN SelLo(Cardinality(Y.valid[l]), Y.cand[l], st.o) = 0
(* Exercises that may be left out because others in the pool cover them.    *)
InEdges(u) == Cardinality({v \in D.us : \E p \in EncEdges(Tr.lib, v) : p[1] = u})
(* Those that could be, judging by the score and the edges alone.           *)
Coverable(S, x, sc, n) ==
  /\ S.x[x].sc >= sc
  /\ Cardinality(D.us) * (InEdges(D.lessonOf[x]) + InEdges(D.courseOf[D.lessonOf[x]])) >= n
(* What is certainly and what is possibly left out (gone) or counted as     *)
(* mastered (easy) of a pool, if all of it takes part.                      *)
RoundWeights == \A u \in D.us : \A e \in EncEdges(Tr.lib, u) : e[2] \in {0, 500, 1000}
Knocks(S, Y, p, pool, all) ==
  LET crude == {x \in pool : Coverable(S, x, 3740000, 5)}
      none == [gone |-> {}, maygone |-> {}, easy |-> {}, mayeasy |-> {}]
      ls == {l \in p.ls : Y.valid[l] /= {}} \cup {D.lessonOf[x] : x \in p.es}
      tol == IF RoundWeights THEN 0 ELSE 10
  IN IF crude = {} THEN none
     ELSE LET C == TLCEval(Cover(Tr.lib, ls \cup {D.courseOf[l] : l \in ls}))
              cov(x, k) == C[D.lessonOf[x]][k] + C[D.courseOf[D.lessonOf[x]]][k]
              sc(x) == S.x[x].sc
              sure(x, v, n) == all /\ sc(x) >= v + S.eps /\ cov(x, 1) >= n + tol
              may(x, v, n) == sc(x) >= v - S.eps /\ cov(x, 2) >= n - tol
              gone == {x \in crude : sure(x, 4500000, 10000)}
              maygone == {x \in crude : may(x, 4500000, 10000)}
          IN [gone |-> gone, maygone |-> maygone,
              easy |-> {x \in crude \ maygone : sure(x, 3750000, 5000)},
              mayeasy |-> {x \in crude \ gone : may(x, 3750000, 5000)}]

(* ---- the relearning pile ----------------------------------------------- *)
PileCap(o) == (o.batch * o.relearn) \div 1000
PileCapLo(o) == IF (o.batch * o.relearn) % 1000 = 0 THEN MaxI(PileCap(o) - 1, 0) ELSE PileCap(o)
May == {x \in st.may : ~BlockedEx(x)}
Must == {x \in st.must : ~BlockedEx(x)}

(* ---- the windows of a batch --------------------------------------------- *)
AdjPct(o) ==
  LET tot == st.good + st.bad
      sh == CASE tot = 0 \/ st.good * 100 > 90 * tot -> 50
              [] st.good * 100 >= 75 * tot -> 0
              [] st.good * 100 >= 50 * tot -> -50
              [] OTHER -> -100
      cl(x) == MaxI(50, MinI(500, x))
      n == cl(o.pct[1] + sh)
      t == cl(o.pct[2] + sh)
      e == cl(o.pct[4] - sh)
      m == cl(o.pct[5] - sh)
  IN IF sh = 0 THEN o.pct ELSE <<n, t, MaxI(50, 1000 - (n + t + e + m)), e, m>>
DynBatch(b, n) == IF b < 10 THEN b ELSE IF n < 3 * b THEN MaxI(10, n \div 3) ELSE b
(* The possible sizes of window i: rounding may take one off a whole share.  *)
Caps(b, p) == {MaxI(1, (b * p) \div 1000)}
                \cup (IF (b * p) % 1000 = 0 THEN {MaxI(1, (b * p) \div 1000 - 1)} ELSE {})
WindowOf(o, v) ==
  IF v < o.cuts[1] * 1000 THEN 1 ELSE IF v < o.cuts[2] * 1000 THEN 2
  ELSE IF v < o.cuts[3] * 1000 THEN 3 ELSE IF v < o.cuts[4] * 1000 THEN 4 ELSE 5
(* cnt and cap are tuples per window; the result is the number taken of each. *)
Mix(b, cnt, cap) ==
  LET sel == [i \in 1..5 |-> MinI(cnt[i], cap[i])]
      tot(f) == f[1] + f[2] + f[3] + f[4] + f[5]
      fill(f, w, most) ==
        IF tot(f) >= (b * 3) \div 4 THEN f
        ELSE [f EXCEPT ![w] = @ + MinI(cnt[w] - sel[w], MinI(b - tot(f), most))]
      base == MaxI(b \div 10, 1)
      f1 == fill(sel, 3, 1000000)
      f2 == fill(f1, 1, 5 * base)
      f3 == fill(f2, 2, 3 * base)
      f4 == fill(f3, 4, 1000000)
  IN fill(f4, 5, 1000000)
SizeBound(o) == o.batch + PileCap(o) + 5
SizeCeil(o) == LET p == AdjPct(o)
               IN MaxI(o.batch, SumF([i \in 1..5 |-> MaxI(1, (o.batch * p[i]) \div 1000)], 1..5)) + PileCap(o)

(* ---- judging a batch ---------------------------------------------------- *)
PoolTag(f, kind) == IF f.t = "none" THEN IF kind = "extra" THEN "POOL_EXTRA" ELSE "POOL_MISSING"
                    ELSE IF kind = "extra" THEN "FPOOL_EXTRA" ELSE "FPOOL_MISSING"

JudgeShape(e, ids) ==
  /\ Expect(e.panic = "", "PANIC", e.panic)
  /\ Stat("batches", 1) /\ Stat("piles", IF Must = {} THEN 0 ELSE 1)
  /\ Expect(Cardinality(ids) = Len(e.ids), "DUP", e.ids)
  /\ Expect(ids \subseteq D.es, "UNKNOWN_EX", ids \ D.es)
  /\ Expect(e.same, "MANIFEST", ids)
  /\ Tr.backend = "parts" \/ Expect(Len(e.ids) <= SizeCeil(st.o), "SIZE", <<Len(e.ids), SizeCeil(st.o)>>)
  /\ Expect(\A x \in ids \cap D.es : ~BlockedEx(x), "BLACKLISTED", {x \in ids \cap D.es : BlockedEx(x)})
  /\ Expect(Cardinality(ids \cap May) >= MinI(PileCapLo(st.o), Cardinality(Must)), "PILE_MISSING",
            <<ids \cap May, Must, PileCapLo(st.o)>>)

(* A lesson listed twice in a filter is asked for its share twice.           *)
OneEach(ids) == Cardinality(Rng(ids)) = Len(ids)
(* The pool is compared lesson by lesson.                                    *)
JudgePool(e, ids, f, S, Y) ==
  LET o == st.o
      p == PoolOf(D, S, Y, st.rv, f)
      pool == PoolIds(Y, p)
      extra == (ids \ pool) \ May
      searched == f.t \in {"none", "meta", "dependents", "deps", "course"}
      inprog(l) == Y.cand[l] /= None /\ Y.cand[l] <= o.cuts[2] * 1000
      prog == {l \in p.ls : inprog(l) /\ Y.valid[l] /= {}}
      shown(l) == Y.valid[l] \cap ids
      limited == searched /\ Cardinality(prog) > o.max_prog
      started == {l \in prog : shown(l) \ May /= {}}
      K == TLCEval(Knocks(S, Y, p, pool, ~limited /\ \A x \in pool : ~Dropped(Y, x)))
      few(l) == Cardinality(shown(l)) <
                  SelLo(Cardinality(Y.valid[l]), Y.cand[l], o)
                    - Cardinality(Y.valid[l] \cap K.maygone)
      many(l) == Cardinality(shown(l) \ May) > SelHi(Cardinality(Y.valid[l]), Y.cand[l], o)
      short == {l \in p.ls : few(l) /\ ~(limited /\ l \in prog)}
  IN /\ Expect(extra = {}, PoolTag(f, "extra"), extra)
     /\ Expect(short = {}, PoolTag(f, "missing"), [l \in short |-> Y.valid[l] \ ids])
     /\ Expect(p.es \ ids \subseteq K.maygone, PoolTag(f, "missing"), p.es \ ids)
     /\ Expect(f.t = "review" \/ (f.t = "lesson" /\ ~OneEach(f.ids)) \/ \A l \in p.ls : ~many(l), "SELECT_MANY", {l \in p.ls : many(l)})
     /\ Expect(pool = {} \/ ids /= {} \/ \A x \in pool : x \in K.maygone \/ Dropped(Y, x), "EMPTY", pool)
     /\ Expect(K.gone \cap ids \subseteq May, "COVERED", K.gone \cap ids)
     /\ Stat("covered", Cardinality(K.gone)) /\ Stat("pools_covered", IF K.gone = {} THEN 0 ELSE 1)
     /\ Stat("coverable", IF K.maygone = {} /\ K.mayeasy /= {} THEN 1 ELSE 0)
     /\ Expect(~limited \/ Cardinality(started) <= o.max_prog, "PROGRESS_MANY", started)
     /\ Expect(~limited \/ Cardinality({l \in prog : shown(l) /= {}}) >= o.max_prog, "PROGRESS_FEW", started)
     /\ Stat("pools", 1) /\ Stat("pool_exercises", Cardinality(pool))
     /\ Stat("pools_nonempty", IF pool = {} THEN 0 ELSE 1)
     /\ Stat("pools_gated", IF ids \subseteq pool /\ PoolIds(Y, p) /= D.es THEN 1 ELSE 0)
     /\ Stat("pools_limited", IF limited THEN 1 ELSE 0)
     /\ Stat("pools_superseded", IF \E u \in D.us : Y.sup[u] THEN 1 ELSE 0)
     /\ Stat("pools_blacklist", IF st.bl /= {} THEN 1 ELSE 0)
     /\ Stat("pools_pile", IF Must /= {} THEN 1 ELSE 0)

(* Facade batches only show a sample of the pool.                            *)
JudgeSample(e, ids, f, S, Y) ==
  LET p == PoolOf(D, S, Y, st.rv, f)
      pool == PoolIds(Y, p)
      extra == (ids \ pool) \ May
      over == Cardinality((ids \ pool) \cap May) > PileCap(st.o)
      K == TLCEval(Knocks(S, Y, p, pool, FALSE))
  IN /\ Expect(extra = {}, PoolTag(f, "extra"), extra)
     /\ Expect(~over, "PILE_MANY", ids \ pool)
     /\ Expect(pool = {} \/ ids /= {} \/ \A x \in pool : x \in K.maygone \/ Dropped(Y, x), "EMPTY", pool)
     /\ Stat("samples", 1)

(* The mix of a batch, where the pool is known exactly.                      *)
JudgeMix(e, ids, f, S, Y) ==
  LET o == st.o
      p == PoolOf(D, S, Y, st.rv, f)
      found == PoolIds(Y, p)
      K == TLCEval(Knocks(S, Y, p, found, TRUE))
      pool == found \ K.gone
      w == TLCEval([x \in pool |-> IF x \in K.easy THEN 5 ELSE WindowOf(o, S.x[x].sc)])
      cnt == TLCEval([i \in 1..5 |-> Cardinality({x \in pool : w[x] = i})])
      got == TLCEval([i \in 1..5 |-> Cardinality({x \in pool \cap ids : w[x] = i})])
      pct == AdjPct(o)
      b == DynBatch(o.batch, Cardinality(pool))
      near == \E x \in pool : \E i \in 1..4 : AbsI(S.x[x].sc - o.cuts[i] * 1000) <= S.eps
                                               /\ ~(S.x[x].xi /\ S.x[x].sc = o.cuts[i] * 1000)
      ok == \E c1 \in Caps(b, pct[1]), c2 \in Caps(b, pct[2]), c3 \in Caps(b, pct[3]),
               c4 \in Caps(b, pct[4]), c5 \in Caps(b, pct[5]) :
              \A i \in 1..5 : got[i] = Mix(b, cnt, <<c1, c2, c3, c4, c5>>)[i]
      open == K.gone /= K.maygone \/ K.easy /= K.mayeasy
  IN IF near \/ open \/ Must /= {} \/ May /= {} \/ Cardinality(found) >= 10 * o.batch
     THEN Stat("mix_skipped", 1)
     ELSE /\ Stat("mixes_covered", IF K.easy = {} THEN 0 ELSE 1) /\ Expect(K.gone \cap ids = {}, "COVERED", K.gone \cap ids)
          /\ Expect(ok, "MIX", <<got, cnt, pct, b, <<st.good, st.bad>>>>)
          /\ Stat("mixes", 1)

(* The same request many times, between exercises with nothing to tell them  *)
(* apart: those shown less often so far are preferred, so that the numbers   *)
(* of times they are shown scatter much less than they would by chance.      *)
JudgeEven(e) ==
  LET X == D.es
      n == Cardinality(X)
      f == TLCEval([x \in X |-> IF x \in DOMAIN e.counts THEN e.counts[x] ELSE 0])
      T == SumF(f, X)
      spread == ((n * SumF([x \in X |-> f[x] * f[x]], X) - T * T) * 100) \div T   \* by chance, 100 n (1 - T / (n R))
      chance == ((100 * n) * (n * e.n - T)) \div (n * e.n)
  IN /\ Expect(DOMAIN e.counts \subseteq X /\ T > 3 * n /\ spread * 100 < chance * 70, "EVEN", <<spread, chance, n, T>>)
     /\ Stat("evens", 1) /\ Stat("spread", (spread * 100) \div chance)

(* The same request of many fresh instances, between two groups of exercises *)
(* in one window, where each of the one is a better choice than each of the  *)
(* other.                                                                    *)
JudgePrefer(e) ==
  LET S == Student(e)
      Y == Summary(D, S)
      f == TheFilter(e.f)
      p == PoolOf(D, S, Y, st.review, f)
      pool == PoolIds(Y, p)
      ls == {D.lessonOf[x] : x \in pool}
      E == TLCEval(EncUp(Tr.lib))
      m == TLCEval([l \in ls |-> [hops |-> IF OneWay(D) THEN Hops(D, l) ELSE 0, dead |-> ~Y.passes[l],
                                 covers |-> CoversOf(E, l, ls), covered |-> CoveredOf(E, l, ls)]])
      of(x) == [hops |-> m[D.lessonOf[x]].hops, dead |-> m[D.lessonOf[x]].dead, covers |-> m[D.lessonOf[x]].covers,
                covered |-> m[D.lessonOf[x]].covered, ur |-> e.obs[x].ur, going |-> Going(S.x[x].sc, e.obs[x].ve)]
      w(x) == WindowOf(st.o, S.x[x].sc)
      good == Rng(e.good)
      rest == Rng(e.rest)
      n(X) == SumF([x \in X |-> IF x \in DOMAIN e.counts THEN e.counts[x] ELSE 0], X)
      a == n(good)
      b == n(rest)
      V == TLCEval([x \in good \cup rest |-> of(x)])
      \* what tells every exercise of the one group from every one of the other
      clear == /\ good /= {} /\ Cardinality(good) = Cardinality(rest) /\ good \cup rest \subseteq pool
               /\ OneWay(D) \/ \A l, k \in ls : m[l].hops = m[k].hops
               /\ Plain(E) /\ Cardinality(pool) < 10 * st.o.batch /\ Must \cup May = {}
               /\ Cardinality({w(x) : x \in good \cup rest}) = 1
      better == \A p1 \in {V[x] : x \in good} : \A p2 \in {V[x] : x \in rest} : Better(p1, p2)
  IN IF Edgy(e) \/ Ambiguous(D, S, Y) \/ ~clear \/ ~better \/ a + b < 1500 THEN Stat("prefers_skipped", 1)
     ELSE /\ Expect(20 * a > 21 * b, "PREFERRED", <<a, b, V[e.good[1]], V[e.rest[1]]>>)
          /\ Stat("prefers", 1) /\ Stat("preferred", (100 * a) \div (a + b)) /\ Stat("prefers_" \o e.why, 1) /\ Stat("preferred_" \o e.why, (100 * a) \div (a + b))

(* More failed exercises than a batch has room for, over many batches: each  *)
(* batch has its share of them, and all of them get their turn.              *)
JudgeTurns(e) ==
  LET f == TLCEval([x \in Must |-> IF x \in DOMAIN e.counts THEN e.counts[x] ELSE 0])
      n == Cardinality(Must)
      low == MinI(n, PileCapLo(st.o))
  IN /\ Expect(n = 0 \/ 4 * low < n \/ e.n < 60 \/ \A x \in Must : f[x] > 0, "PILE_TURNS", f)
     /\ Expect(SumF(f, Must) >= e.n * low, "PILE_MISSING", <<f, low>>)
     /\ Stat("turns", IF n > PileCap(st.o) THEN 1 ELSE 0)

(* The order of a batch: weak exercises of one course in groups.             *)
WeakBelow == st.o.cuts[2] * 1000
Unclear(S, ids) == \E x \in ids : ~(S.x[x].xi /\ S.x[x].sc = WeakBelow) /\ AbsI(S.x[x].sc - WeakBelow) <= S.eps
KindOf(S, x) == IF S.x[x].sc <= WeakBelow THEN D.courseOf[D.lessonOf[x]] ELSE ""
JudgeArranged(S, ids) ==
  LET kind == TLCEval([i \in 1..Len(ids) |-> KindOf(S, ids[i])])
  IN /\ Expect(Arranged(kind), "ARRANGED", kind)
     /\ Stat("arranged", IF \E i \in DOMAIN kind : StartsRun(kind, i) /\ RunEnd(kind, i) > i THEN 1 ELSE 0)

(* The orders of many batches between exercises never attempted and well     *)
(* known ones: the former tend to come later, and any order may come up.     *)
JudgeOrder(e) ==
  LET S == Student(e)
      X == DOMAIN e.counts
      Qs == DOMAIN e.seqs
      new == TLCEval({x \in X : S.x[x].sc = 0})
      known == TLCEval({x \in X : S.x[x].sc > WeakBelow})
      at == TLCEval([q \in Qs |-> [x \in X |-> IF x \in Rng(e.seqs[q]) THEN CHOOSE i \in DOMAIN e.seqs[q] : e.seqs[q][i] = x ELSE 0]])
      both(x, y) == {q \in Qs : at[q][x] > 0 /\ at[q][y] > 0}
      before(x, y) == Cardinality({q \in both(x, y) : at[q][x] < at[q][y]})
      pairs == new \X known
      all == SumF(TLCEval([p \in pairs |-> Cardinality(both(p[1], p[2]))]), pairs)
      early == SumF(TLCEval([p \in pairs |-> before(p[1], p[2])]), pairs)
      fixed == {p \in (new \X new) \cup (known \X known) : p[1] /= p[2] /\ Cardinality(both(p[1], p[2])) >= 40 /\ before(p[1], p[2]) = 0}
      kinds == TLCEval([q \in Qs |-> [i \in 1..Len(e.seqs[q]) |-> KindOf(S, e.seqs[q][i])]])
      of(q, c) == {i \in DOMAIN kinds[q] : kinds[q][i] = c}
      splittable(q, c) == Cardinality(of(q, c)) > GroupSize /\ Len(kinds[q]) >= 4 + 2 * Cardinality(of(q, c))
      whole(q, c) == \E i \in of(q, c) : StartsRun(kinds[q], i) /\ (RunEnd(kinds[q], i) + 1) - i = Cardinality(of(q, c))
      lumped == {c \in D.cs : LET s == {q \in Qs : splittable(q, c)} IN Cardinality(s) >= 40 /\ \A q \in s : whole(q, c)}
  IN IF Edgy(e) \/ Unclear(S, X) \/ X /= new \cup known THEN Stat("orders_skipped", 1)
     ELSE /\ \A q \in Qs : JudgeArranged(S, e.seqs[q])
          /\ Expect(fixed = {}, "UNVARIED", fixed)
          /\ Expect(lumped = {}, "UNVARIED", lumped)
          /\ Expect(all < 1000 \/ (early * 100 > all * 14 /\ early * 100 < all * 42), "NEW_LATER", <<early, all>>)
          /\ Stat("orders", 1) /\ Stat("orders_split", IF \E q \in Qs : \E c \in D.cs : splittable(q, c) THEN 1 ELSE 0)
          /\ Stat("orders_biased", IF all < 1000 THEN 0 ELSE 1) /\ Stat("early", IF all < 1000 THEN 0 ELSE (early * 100) \div all)

JudgeBatch(e) ==
  LET f == TheFilter(e.f)
      ids == Rng(e.ids)
      fails == f.t = "missing"
      S == Student(e)
      Y == Summary(D, S)
      amb == Edgy(e) \/ Ambiguous(D, S, Y)
  IN IF fails
     THEN /\ Expect(~e.ok /\ e.panic = "", "SESSION_MISSING", e)
          /\ Expect(~Has(e, "freq0") \/ e.ok \/ e.freq0 = e.freq1, "SESSION_EFFECT", <<e.freq0, e.freq1>>)
          /\ Stat("failed_batches", 1)
     ELSE /\ Expect(e.ok, "BATCH_ERROR", <<e.err, e.panic>>)
          /\ ~e.ok \/ JudgeShape(e, ids)
          /\ ~e.ok \/ Edgy(e) \/ May /= {} \/ Unclear(S, ids \cap D.es) \/ ~(ids \subseteq D.es) \/ JudgeArranged(S, e.ids)
          /\ \/ ~e.ok
             \/ amb /\ Stat("ambiguous", 1)
             \/ /\ ~amb
                /\ IF Has(e, "mix") THEN JudgeMix(e, ids, f, S, Y)
                   ELSE IF Tr.backend = "parts" THEN JudgePool(e, ids, f, S, Y)
                   ELSE JudgeSample(e, ids, f, S, Y)

(* ---- judging scores ------------------------------------------------------ *)
SameScore(S, u, got, want) ==
  IF want = None \/ got < 0 THEN got = want ELSE AbsI(got - want) <= S.eps
JudgeScores(e) ==
  LET S == Student(e)
      Y == Summary(D, S)
      amb == Edgy(e) \/ Ambiguous(D, S, Y)
      badEx == {x \in D.es : ~SameScore(S, x, e.sc[x], S.x[x].sc)}
      badU == {u \in D.us : ~SameScore(S, u, e.sc[u], Y.sc[u])}
  IN /\ Expect(e.panic = "", "PANIC", e.panic)
     /\ \/ e.panic /= ""
        \/ /\ Expect(e.sc["no_such_unit"] = -2, "UNKNOWN_SCORE", e.sc["no_such_unit"])
           /\ Expect(\A u \in DOMAIN e.sc : e.sc[u] <= 5000000 /\ e.sc[u] >= -2, "RANGE", e.sc)
           /\ Expect(\A u \in D.es \cup D.us : e.sc[u] /= -2, "SCORE_ERROR", e.sc)
           /\ \/ Edgy(e) /\ Stat("ambiguous", 1)
              \/ /\ ~Edgy(e)
                 /\ Expect(badEx = {}, IF AnyReward(e) THEN "RWSCORE" ELSE "EXSCORE",
                           [x \in badEx |-> <<e.sc[x], S.x[x].sc, e.obs[x]>>])
                 /\ Stat("ex_scores", Cardinality(D.es))
                 /\ Stat("rewarded_scores", Cardinality({x \in D.es : S.x[x].sc /= e.obs[x].base}))
                 /\ Stat("to_nothing", Cardinality({x \in D.es : S.x[x].sc = 0 /\ e.obs[x].base > 0}))
           /\ \/ amb /\ Stat("ambiguous", 1)
              \/ /\ ~amb
                 /\ Expect(badU = {}, IF st.fresh THEN "USCORE" ELSE "USCORE_AFTER",
                           [u \in badU |-> <<e.sc[u], Y.sc[u]>>])
                 /\ Expect({u \in badU : Y.sup[u] \/ D.supBy[u] /= {}} = {}, "SUPSCORE", badU)
                 /\ Stat("unit_scores", Cardinality(D.us))
                 /\ Stat("superseded_units", Cardinality({u \in D.us : Y.sup[u]}))

(* ---- judging a trial ------------------------------------------------------ *)
(* Scoring adds exactly the trial; a previously attempted exercise gets one  *)
(* new delta as well. Both lists are kept newest first, so an old trial may  *)
(* land anywhere.                                                            *)
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
JudgeScore(e) ==
  LET known == e.ex \in D.es
      t == <<e.grade * 10, e.ago>>
      added == /\ Len(e.t1) = Len(e.t0) + 1
               /\ \A x \in Rng(e.t1) \cup Rng(e.t0) \cup {t} :
                    Count(e.t1, x) = Count(e.t0, x) + (IF x = t THEN 1 ELSE 0)
               /\ \A i \in 1..(Len(e.t1) - 1) : e.t1[i][2] <= e.t1[i + 1][2]
  IN /\ Expect(e.panic = "", "PANIC", e.panic)
     /\ \/ e.panic /= ""
        \/ known /\ Expect(e.ok, "SCORE_FAILED", e.err)
                 /\ Expect(added, "TRIAL", <<e.t0, e.t1>>)
                 /\ Expect(Len(e.d1) = Len(e.d0) + (IF e.t0 = <<>> THEN 0 ELSE 1), "DELTA", <<e.d0, e.d1>>)
                 /\ Stat("trials", 1)
        \/ ~known /\ Expect(~e.ok, "SCORE_UNKNOWN", e.ex)
                  /\ Expect(e.t1 = e.t0 /\ e.d1 = e.d0, "SCORE_UNKNOWN", <<e.t0, e.t1>>)

(* The rewards a trial hands out: what is new in the stored rewards, against *)
(* what the encompassing relation says. A reward may be missing if a very    *)
(* similar one was stored recently.                                          *)
JudgeRewards(e) ==
  LET l == D.lessonOf[e.ex]
      c == D.courseOf[l]
      P == Propagated(Tr.lib, l, c, e.grade)
      new(u) == {i \in DOMAIN e.rw1[u] : Count(e.rw1[u], e.rw1[u][i]) > Count(e.rw0[u], e.rw1[u][i])}
      reached == {p[1] : p \in P} \cap D.us
      edgy == \E p \in P : NearStop(p[2], p[3])
      \* a weaker path that goes on where a stronger one is cut leaves the order open
      muddled == \E u \in reached : Cardinality({p[2] : p \in {q \in P : q[1] = u}}) > 1
                   /\ \E p, q \in P : p[1] = u /\ q[1] = u /\ AbsI(p[2]) > AbsI(q[2]) /\ p[3] < q[3]
      good(u) == \E i \in new(u), p \in StrongestOf(P, u) :
                   /\ AbsI(e.rw1[u][i][1] - p[2]) <= 20 /\ AbsI(e.rw1[u][i][2] - p[3]) <= 20
                   /\ e.rw1[u][i][3] = e.ago
      similar(u) == \E j \in DOMAIN e.rw0[u] : \E p \in P :
                      p[1] = u /\ AbsI(e.rw0[u][j][1] - p[2]) <= 30
                               /\ AbsI(e.rw0[u][j][3] - e.ago) <= 86500
      full(u) == Len(e.rw0[u]) >= 19
  IN \/ edgy \/ muddled
     \/ /\ Expect(\A u \in D.us \ reached : new(u) = {}, "REWARD_EXTRA", {u \in D.us \ reached : new(u) /= {}})
        /\ Expect(\A u \in reached : Cardinality(new(u)) <= 1, "REWARD_EXTRA", {u \in reached : Cardinality(new(u)) > 1})
        /\ Expect(\A u \in reached : new(u) /= {} => good(u), "REWARD_VALUE",
                  {<<u, e.rw1[u], StrongestOf(P, u)>> : u \in {v \in reached : new(v) /= {} /\ ~good(v)}})
        /\ Expect(\A u \in reached : new(u) = {} => similar(u) \/ full(u), "REWARD_MISSING",
                  {u \in reached : new(u) = {} /\ ~similar(u) /\ ~full(u)})
        /\ Stat("rewards", Cardinality(reached)) /\ Stat("trials_rewarded", IF reached = {} THEN 0 ELSE 1)

JudgeOpts(e) == /\ Expect(e.panic = "", "PANIC", e.panic)
                /\ Expect(e.panic /= "" \/ e.opts = e.want, "OPTIONS", <<e.opts, e.want>>)

(* ---- several threads --------------------------------------------------- *)
(* Calls made at the same time have the effect they would have in some       *)
(* order that keeps the order within each thread.                            *)
Inside(u, x) == x \in D.es /\ (u = x \/ u = D.lessonOf[x] \/ u = D.courseOf[D.lessonOf[x]])
Calls(e) == UNION {Rng(e.th[i]) : i \in DOMAIN e.th}
Touches(c, list, u) == \/ c.op \in {list \o "_add", list \o "_rm"} /\ c.u = u
                       \/ c.op = list \o "_rmp" /\ IsPre(c.u, u)
(* The last calls of the threads that touch entry u: one of them was the     *)
(* last of all.                                                              *)
LastCalls(e, T(_)) == {th[CHOOSE i \in DOMAIN th : T(th[i]) /\ \A j \in DOMAIN th : T(th[j]) => j <= i] : th \in {t \in Rng(e.th) : \E i \in DOMAIN t : T(t[i])}}
ListOk(e, list, u, was, is) ==
  LET L == LastCalls(e, LAMBDA c : c.ok /\ Touches(c, list, u))
  IN IF L = {} THEN is = was ELSE \E c \in L : is = (c.op = list \o "_add")
Unlifted(e) == {u \in st.bl : \A c \in Calls(e) : ~Touches(c, "bl", u) \/ c.op = "bl_add"}
SureBlocked(e, x) == {x, D.lessonOf[x], D.courseOf[D.lessonOf[x]]} \cap Unlifted(e) /= {}
TrialsOf(e, x) == LET n(th) == Cardinality({i \in DOMAIN th : th[i].op = "score" /\ th[i].ok /\ th[i].ex = x})
                  IN SumF([i \in DOMAIN e.th |-> n(e.th[i])], DOMAIN e.th)
SameTrials(e, x, t) == LET n(th) == Cardinality({i \in DOMAIN th : /\ th[i].op = "score" /\ th[i].ok /\ th[i].ex = x
                                                                   /\ t = <<th[i].grade * 10, th[i].ago>>})
                       IN SumF([i \in DOMAIN e.th |-> n(e.th[i])], DOMAIN e.th)
Graded(e, good) == LET n(th) == Cardinality({i \in DOMAIN th : /\ th[i].op = "score" /\ th[i].ok
                                                               /\ (th[i].grade > 2) = good})
                   IN SumF([i \in DOMAIN e.th |-> n(e.th[i])], DOMAIN e.th)
JudgePar(e) ==
  /\ Expect(~e.hang, "HANG", "calls that did not return")
  /\ \/ e.hang
     \/ LET cs == Calls(e)
            listed == st.bl \cup Rng(e.bl) \cup {c.u : c \in {d \in cs : d.op = "bl_add"}}
            reviewed == st.rv \cup Rng(e.rv) \cup {c.u : c \in {d \in cs : d.op = "rv_add"}}
            badBl == {u \in listed : ~ListOk(e, "bl", u, u \in st.bl, u \in Rng(e.bl))}
            badRv == {u \in reviewed : ~ListOk(e, "rv", u, u \in st.rv, u \in Rng(e.rv))}
            bs == {c \in cs : c.op = "batch" /\ c.ok}
        IN /\ Expect(\A c \in cs : c.panic = "", "PAR_PANIC", {c \in cs : c.panic /= ""})
           /\ Expect(\A c \in cs : c.panic /= "" \/ c.ok = (c.op /= "score" \/ c.ex \in D.es),
                     "PAR_ERROR", {c \in cs : ~c.ok})
           /\ Expect(badBl = {} /\ Len(e.bl) = Cardinality(Rng(e.bl)), "PAR_LIST", <<badBl, e.bl>>)
           /\ Expect(badRv = {} /\ Len(e.rv) = Cardinality(Rng(e.rv)), "PAR_LIST", <<badRv, e.rv>>)
           /\ Expect(Tr.backend = "parts" \/ e.opts = e.want, "PAR_LIST", e.opts)
           /\ \A x \in DOMAIN e.h0 :
                LET t0 == e.h0[x].t
                    t1 == e.h1[x].t
                    n == TrialsOf(e, x)
                IN /\ Expect(Len(t1) = Len(t0) + n, "PAR_TRIALS", <<x, n, t0, t1>>)
                   /\ Expect(\A t \in Rng(t0) \cup Rng(t1) : Count(t1, t) = Count(t0, t) + SameTrials(e, x, t),
                             "PAR_TRIALS", <<x, t0, t1>>)
                   /\ Expect(\/ x \notin D.es
                             \/ Len(e.h1[x].d) = Len(e.h0[x].d) + (IF t0 = <<>> THEN MaxI(n - 1, 0) ELSE n),
                             "PAR_DELTAS", <<x, n, e.h0[x], e.h1[x]>>)
                   /\ Stat("par_trials", n)
           /\ Expect(\/ e.rate[1] = <<>>
                     \/ /\ e.rate[2][1] = e.rate[1][1] + Graded(e, TRUE)
                        /\ e.rate[2][2] = e.rate[1][2] + Graded(e, FALSE), "PAR_RATE", e.rate)
           /\ \A c \in bs :
                /\ Expect(Cardinality(Rng(c.ids)) = Len(c.ids) /\ Rng(c.ids) \subseteq D.es /\ c.same, "PAR_BATCH", c)
                /\ Expect(\A x \in Rng(c.ids) \cap D.es : ~SureBlocked(e, x), "PAR_BATCH", c)
           /\ \A c \in {d \in cs : d.op = "read" /\ d.ok} : Expect(c.v >= -1 /\ c.v <= 5000000, "PAR_READ", c)
           /\ Stat("pars", 1) /\ Stat("par_calls", Cardinality(cs)) /\ Stat("par_batches", Cardinality(bs))
           /\ Stat("paused", IF e.mode = "pause" /\ e.gates >= e.k THEN 1 ELSE 0)
ApplyPar(e) ==
  LET last(x) == LastCalls(e, LAMBDA c : c.op = "score" /\ c.ok /\ c.ex = x)
      failed(x) == \E c \in last(x) : c.grade <= 2
      passed(x) == \E c \in last(x) : c.grade > 2
      hit(x) == \E c \in Calls(e) : c.op \in {"bl_add", "bl_rm", "bl_rmp"} /\ \E u \in {x, D.lessonOf[x], D.courseOf[D.lessonOf[x]]} : Touches(c, "bl", u)
      must == {x \in D.es : ~hit(x) /\ (IF last(x) = {} THEN x \in st.must ELSE failed(x) /\ ~passed(x))}
  IN IF e.hang THEN st
     ELSE [st EXCEPT !.bl = Rng(e.bl), !.rv = Rng(e.rv), !.o = e.want, !.fresh = FALSE,
                     !.good = @ + Graded(e, TRUE), !.bad = @ + Graded(e, FALSE),
                     !.may = {x \in D.es : failed(x) \/ (~(passed(x) /\ ~failed(x)) /\ x \in @)},
                     !.must = {x \in must : {x, D.lessonOf[x], D.courseOf[D.lessonOf[x]]} \cap Rng(e.bl) = {}}]

Judge ==
  CASE Ev.op = "batch" -> JudgeBatch(Ev)
    [] Ev.op = "batches" -> IF Has(Ev, "fresh") THEN JudgePrefer(Ev) ELSE IF Has(Ev, "pile") THEN JudgeTurns(Ev) ELSE IF Has(Ev, "order") THEN JudgeOrder(Ev) ELSE JudgeEven(Ev)
    [] Ev.op = "scores" -> JudgeScores(Ev)
    [] Ev.op = "score" -> JudgeScore(Ev) /\ (~Has(Ev, "rw1") \/ Ev.ex \notin D.es \/ ~Ev.ok \/ JudgeRewards(Ev))
    [] Ev.op = "par" -> JudgePar(Ev)
    [] Ev.op \in {"setopts", "resetopts"} -> JudgeOpts(Ev)
    [] Ev.op \in {"bl_add", "bl_rm", "bl_rmp", "rv_add", "rv_rm"} ->
         /\ Expect(Ev.panic = "", "PANIC", Ev.panic)
         /\ Expect(Ev.panic /= "" \/ Ev.ok, "LIST_OP", Ev.err)
    [] OTHER -> Expect(Ev.panic = "", "PANIC", Ev.panic)

(* ---- the effect of an operation ------------------------------------------ *)
Apply ==
  CASE Ev.op = "score" /\ Ev.ok /\ Ev.ex \in D.es ->
         [st EXCEPT !.must = IF Ev.grade <= 2 THEN @ \cup {Ev.ex} ELSE @ \ {Ev.ex},
                    !.may = IF Ev.grade <= 2 THEN @ \cup {Ev.ex} ELSE @ \ {Ev.ex},
                    !.good = @ + (IF Ev.grade <= 2 THEN 0 ELSE 1),
                    !.bad = @ + (IF Ev.grade <= 2 THEN 1 ELSE 0),
                    !.fresh = FALSE]
    [] Ev.op = "bl_add" /\ Ev.ok ->
         [st EXCEPT !.bl = @ \cup {Ev.u}, !.must = {x \in @ : ~Inside(Ev.u, x)}, !.fresh = FALSE]
    [] Ev.op = "bl_rm" /\ Ev.ok -> [st EXCEPT !.bl = @ \ {Ev.u}, !.fresh = FALSE]
    [] Ev.op = "bl_rmp" /\ Ev.ok -> [st EXCEPT !.bl = {u \in @ : ~IsPre(Ev.u, u)}, !.fresh = FALSE]
    [] Ev.op = "rv_add" /\ Ev.ok -> [st EXCEPT !.rv = @ \cup {Ev.u}]
    [] Ev.op = "rv_rm" /\ Ev.ok -> [st EXCEPT !.rv = @ \ {Ev.u}]
    [] Ev.op = "setopts" /\ Has(Ev, "want") -> [st EXCEPT !.o = Ev.want, !.fresh = FALSE]
    [] Ev.op = "resetopts" /\ Has(Ev, "want") -> [st EXCEPT !.o = Defaults, !.fresh = FALSE]
    [] Ev.op = "par" -> ApplyPar(Ev)
    [] Ev.op = "reopen" -> [st EXCEPT !.must = {}, !.good = 0, !.bad = 0, !.fresh = TRUE]
    [] Ev.op = "batch" -> [st EXCEPT !.may = IF Ev.ok THEN May ELSE @, !.must = Must]
    [] Ev.op \in {"st_trim", "st_rmp", "de_trim", "de_rmp", "rw_trim", "rw_rmp", "rec", "rwrec", "recs", "derecs", "rwrecs", "inval", "invalp"} ->
         [st EXCEPT !.fresh = FALSE]
    [] OTHER -> st

Init ==
  /\ tid \in 1..N
  /\ pc = 1
  /\ st = [bl |-> {}, rv |-> {}, must |-> {}, may |-> {}, good |-> 0, bad |-> 0, fresh |-> TRUE,
           o |-> Traces[tid].opts]
  /\ (Traces[tid].opened \/ PrintT(<<"VIOL", tid, 0, "OPEN", Traces[tid].err>>)) \in BOOLEAN

Next ==
  /\ pc <= Len(Tr.ev)
  /\ Judge \in BOOLEAN      \* evaluated as one value, not as alternatives
  /\ st' = TLCEval(Apply)
  /\ pc' = pc + 1
  /\ tid' = tid

Spec == Init /\ [][Next]_vars
=============================================================================
