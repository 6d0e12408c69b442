----------------------------- MODULE MCFilters -----------------------------
(* The meaning of metadata filters and of the parts of a session: a course  *)
(* selected as a whole has only selected lessons, the two meanings agree on *)
(* plain conditions on courses, and the part in force is the one whose      *)
(* interval contains the time.                                              *)
EXTENDS Search

Leaf == {[t |-> t, k |-> "g", v |-> "a", inc |-> i] : t \in {"c", "l"}, i \in BOOLEAN}
Comb(S) == {[t |-> o, fs |-> x] : o \in {"all", "any"}, x \in {<<>>} \cup {<<a>> : a \in S} \cup {<<a, b>> : a, b \in S}}
F1 == Leaf \cup Comb(Leaf)
F2 == F1 \cup Comb(F1)
Metas == {[g |-> <<>>], [g |-> <<"a">>], [g |-> <<"b", "a">>], [h |-> <<"a">>]}
M(c, l) == [meta |-> [c |-> c, l |-> l]]

VARIABLES f, n
Init == f \in F2 /\ n = 0
Next == n = 0 /\ n' = 1 /\ f' = f
Spec == Init /\ [][Next]_<<f, n>>

OnlyCourse(x) == x.t = "c" \/ (x.t \in {"all", "any"} /\ \A i \in DOMAIN x.fs : x.fs[i].t = "c")
Sound == \A c \in Metas : KVCourse(M(c, c), f, "c") => \A l \in Metas : KVLesson(M(c, l), f, "c", "l")
Agree == OnlyCourse(f) => \A c, l \in Metas : KVCourse(M(c, l), f, "c") = KVLesson(M(c, l), f, "c", "l")

RECURSIVE Upto(_, _)
Upto(d, i) == IF i = 0 THEN 0 ELSE d[i] + Upto(d, i - 1)
Parts == UNION {[1..k -> 0..3] : k \in 1..4}
ASSUME \A d \in Parts : \A m \in 0..13 :
             LET i == PartAt(d, 1, m)
             IN /\ i \in DOMAIN d /\ Upto(d, i - 1) <= m
                /\ m < Upto(d, i) \/ (i = Len(d) /\ m >= Upto(d, Len(d)))
=============================================================================
