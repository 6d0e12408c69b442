------------------------------ MODULE MCScorer ------------------------------
(* All histories of up to Depth trials with the given grades and gaps, built *)
(* by a student practicing one exercise. Each is printed to be evaluated by  *)
(* the real scorer; on the way, properties of the laws themselves are       *)
(* checked on an exact model of the mean of the grades.                     *)
EXTENDS Scorer, TLC, Json, IOUtils

Depth == atoi(IOEnv.DEPTH)
Gaps == {0, 3600, DayS, 60 * DayS}
VARIABLE h
Init == h = <<>>
Later(s, gap) == IF s = <<>> THEN 0 ELSE s[1][2] + gap
Next == /\ Len(h) < Depth
        /\ \E g \in 1..5, gap \in (IF h = <<>> THEN {0} ELSE Gaps) : h' = <<<<g, Later(h, gap)>>>> \o h
Spec == Init /\ [][Next]_h

(* Any mean with positive weights lies between the grades, so a history of  *)
(* good grades only is old and good after 50 days; and the floor never      *)
(* exceeds the score the student had right after the last trial.            *)
RECURSIVE SumUp(_, _)
SumUp(s, k) == IF s = <<>> THEN 0 ELSE (Head(s)[1] * k) + SumUp(Tail(s), k + 1)
RECURSIVE Weights(_, _)
Weights(s, k) == IF s = <<>> THEN 0 ELSE k + Weights(Tail(s), k + 1)
Mean(s) == (SumUp(s, 1) * 1000000) \div Weights(s, 1)
Sane == h /= <<>> =>
          /\ Sorted(h)
          /\ MeanOk(h, Mean(h))
          /\ MinOf(Grades(h)) >= 4 /\ Len(h) >= 2 => OldGood(h, Mean(h), 50 * DayS)
          /\ Floor34(Mean(h)) <= Mean(h)
Emit == h = <<>> \/ PrintT(<<"RUN", ToJson(h)>>)
=============================================================================
