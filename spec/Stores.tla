------------------------------ MODULE Stores ------------------------------
(* The practice stores. A history is a sequence of entries, newest first;   *)
(* an entry is a tuple whose last but one field is its time (the last one   *)
(* says that the entry carries the right unit). Entries of the same time    *)
(* may come in any order, so histories are compared as bags.                *)
EXTENDS UnitLib

Time(e) == e[Len(e) - 1]
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SubBag(a, b) == \A i \in DOMAIN a : Count(a, a[i]) <= Count(b, a[i])
SameBag(a, b) == Len(a) = Len(b) /\ SubBag(a, b)
NewestFirst(s) == \A i \in 1..(Len(s) - 1) : Time(s[i]) >= Time(s[i + 1])
Min2(a, b) == IF a < b THEN a ELSE b

(* `kept` consists of the n newest entries of `all`.                        *)
Newest(kept, all, n) ==
  /\ Len(kept) = Min2(n, Len(all))
  /\ NewestFirst(kept) /\ SubBag(kept, all)
  /\ kept /= <<>> =>
       \A i \in DOMAIN all : Time(all[i]) > Time(kept[Len(kept)]) => Count(kept, all[i]) = Count(all, all[i])

StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p

(* ---- rewards: <<value, weight, time, own>> ----------------------------- *)
Cap == 20            \* rewards kept per unit
Remembered == 10     \* rewards per unit among which duplicates are always recognized
Day == 86400
Diff(a, b) == IF a > b THEN a - b ELSE b - a
(* Times may be so far apart that their difference is no 32-bit integer.    *)
CloseTimes(a, b) == IF (a < 0) = (b < 0) THEN Diff(a, b) < Day ELSE Diff(a \div 2, b \div 2) < Day \div 2
Similar(a, b, dw) == a[1] = b[1] /\ CloseTimes(a[3], b[3]) /\ Diff(a[2], b[2]) < dw
MustRefuse(r, recent) == \E i \in DOMAIN recent : Similar(r, recent[i], 99)
MayRefuse(r, known) == \E k \in known : Similar(r, k, 101)
LastOf(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))

(* The sequences of rewards that may be accepted when rs are recorded for a *)
(* unit, one after the other.                                               *)
RECURSIVE Accepted(_, _, _, _)
Accepted(rs, i, recent, known) ==
  IF i > Len(rs) THEN {<<>>}
  ELSE LET r == rs[i]
           yes == IF MustRefuse(r, recent) THEN {}
                  ELSE {<<r>> \o x : x \in Accepted(rs, i + 1, LastOf(Append(recent, r), Remembered), known \cup {r})}
           no == IF MayRefuse(r, known) THEN Accepted(rs, i + 1, recent, known) ELSE {}
       IN yes \cup no
=============================================================================
