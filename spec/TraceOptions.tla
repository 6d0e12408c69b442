--------------------------- MODULE TraceOptions ---------------------------
(* Which scheduler options are valid, and how the preferences file takes    *)
(* part in opening a library.                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
N == Len(Traces)
VARIABLES tid, pc, file, opts
vars == <<tid, pc, file, opts>>

Tr == Traces[tid]
E == Tr.ev[pc]
Report(tag, x) == PrintT(<<"VIOL", tid, pc, tag, ToString(x)>>)
Expect(cond, tag, x) == cond \/ Report(tag, x)
Stat(name, n) == n = 0 \/ PrintT(<<"STAT", name, n>>)

(* ---- validation; numbers are in thousandths ---------------------------- *)
Within(x, a, b) == x >= a /\ x <= b
Windows == 1..5
Share(o, w) == o.win[w][1]
From(o, w) == o.win[w][2]
To(o, w) == o.win[w][3]
Valid(o) ==
  /\ o.batch > 0 /\ o.max_prog > 0
  /\ Within(o.relearn, 0, 1000)
  /\ o.min_score >= 0 /\ o.min_score < 4000
  /\ Within(o.min_frac, 0, 1000)
  /\ o.min_trials >= 1000
  /\ Share(o, 1) + Share(o, 2) + Share(o, 3) + Share(o, 4) + Share(o, 5) = 1000
  /\ From(o, 1) = 0 /\ To(o, 5) = 5000
  /\ \A w \in 1..4 : To(o, w) = From(o, w + 1)
JudgeVerify == /\ Expect(E.valid = Valid(E.o), "VALIDATION", E)
               /\ Stat("valid", IF E.valid THEN 1 ELSE 0) /\ Stat("invalid", IF E.valid THEN 0 ELSE 1)

(* ---- preferences ------------------------------------------------------- *)
Default == [batch |-> 50, relearn |-> 100, min_score |-> 3000, min_trials |-> 1800, min_frac |-> 500, sup |-> 4000, num_trials |-> 20,
            num_deltas |-> 10, num_rewards |-> 10, max_prog |-> 10, pct |-> <<200, 200, 300, 200, 100>>, cuts |-> <<100, 2500, 3750, 4500>>]
Override(v) == IF v > 0 THEN Tr.batch[v] ELSE -1
With(v) == IF Override(v) < 0 THEN Default ELSE [Default EXCEPT !.batch = Override(v)]
(* file: the preferences in the file, 0 if there is none, -1 if it is not a *)
(* preferences file. The first of the values is the default.                *)
Opens == file >= 0 /\ Override(file) /= 0
NextFile == CASE E.op = "file" -> E.v
              [] E.op = "nofile" -> 0
              [] E.op = "open" /\ E.opened -> IF file = 0 THEN 1 ELSE file
              [] E.op = "set" /\ E.ok -> E.v
              [] OTHER -> file
NextOpts == CASE E.op = "open" -> With(file)
              [] E.op = "reset" -> Default
              [] E.op = "setopts" -> E.opts
              [] OTHER -> opts
JudgePrefs ==
  /\ Expect("panic" \notin DOMAIN E, "PANIC", E)
  /\ E.op = "open" => Expect(E.opened = Opens, "PREFS_OPEN", <<E, file>>)
  /\ E.opened =>
       /\ E.op = "setopts" => Expect(E.same, "OPTIONS", E)
       /\ Expect(E.opts = NextOpts, "OPTIONS", <<E, NextOpts>>)
       /\ Expect(NextOpts = Default => E.default, "OPTIONS", <<E, "default">>)
       /\ Expect(\E i \in DOMAIN E.is : E.is[i] = NextFile, "PREFS", <<E, NextFile>>)
       /\ E.op = "set" => Expect(E.ok, "PREFS", E)
  /\ Stat("opened", IF E.op = "open" /\ E.opened THEN 1 ELSE 0)
  /\ Stat("not_opened", IF E.op = "open" /\ ~E.opened THEN 1 ELSE 0)
  /\ Stat("overridden", IF E.op = "open" /\ E.opened /\ Override(file) > 0 THEN 1 ELSE 0)

Judge == IF E.op = "verify" THEN JudgeVerify ELSE JudgePrefs
Init == tid \in 1..N /\ pc = 1 /\ file = 0 /\ opts = Default
Next == /\ pc <= Len(Tr.ev)
        /\ Judge \in BOOLEAN
        /\ IF E.op = "verify" THEN UNCHANGED <<file, opts>>
           ELSE file' = NextFile /\ opts' = IF E.opened THEN NextOpts ELSE opts
        /\ pc' = pc + 1
        /\ tid' = tid
Spec == Init /\ [][Next]_vars
=============================================================================
