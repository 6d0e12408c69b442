----------------------------- MODULE MCArrange -----------------------------
(* Arranging as a machine that puts down one group after the other, and the  *)
(* judgement of Arrange.tla: what the machine can produce is exactly what    *)
(* the judgement accepts. MUTANT: "four" groups of four, "split" a group may *)
(* be put down in two parts, "all" the whole course at once.                 *)
EXTENDS Arrange, TLC, IOUtils
VARIABLES left, row
Kinds == {"a", "b", ""}
Max == 8
Mutant == IF "MUTANT" \in DOMAIN IOEnv THEN IOEnv.MUTANT ELSE "none"
Min2(a, b) == IF a < b THEN a ELSE b
Rep(k, n) == [i \in 1..n |-> k]
Size == IF Mutant = "four" THEN 4 ELSE GroupSize
(* The groups of n exercises of a course: how many whole ones, what is left. *)
Groups(k, n) == IF k = "" THEN [i \in 1..n |-> 1]
                ELSE IF Mutant = "all" THEN (IF n = 0 THEN <<>> ELSE <<n>>)
                ELSE Rep(Size, n \div Size) \o (IF n % Size = 0 THEN <<>> ELSE <<n % Size>>)
Counts == {c \in [Kinds -> 0..Max] : c["a"] + c["b"] + c[""] <= Max}
Init == /\ row = <<>>
        /\ \E c \in Counts : left = [k \in Kinds |-> Groups(k, c[k])]
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Put == \E k \in Kinds : \E i \in DOMAIN left[k] :
          \/ /\ left' = [left EXCEPT ![k] = Without(@, i)]
             /\ row' = row \o Rep(k, left[k][i])
          \/ /\ Mutant = "split" /\ left[k][i] > 1
             /\ left' = [left EXCEPT ![k][i] = @ - 1]
             /\ row' = Append(row, k)
Next == Put
Done == \A k \in Kinds : left[k] = <<>>
Sound == Done => Arranged(row)
(* Every row the judgement accepts can be produced: take it apart.           *)
RECURSIVE Makeable(_, _)
Take(c, k, n) == [c EXCEPT ![k] = Without(@, CHOOSE i \in DOMAIN c[k] : c[k][i] = n)]
Makeable(c, r) ==
  \/ r = <<>> /\ \A k \in Kinds : c[k] = <<>>
  \/ \E n \in 1..Min2(GroupSize, Len(r)) :
       /\ \A i \in 1..n : r[i] = r[1]
       /\ n \in {c[r[1]][i] : i \in DOMAIN c[r[1]]}
       /\ Makeable(Take(c, r[1], n), SubSeq(r, n + 1, Len(r)))
CountOf(r, k) == Cardinality({i \in DOMAIN r : r[i] = k})
Rows == UNION {[1..n -> Kinds] : n \in 0..Max}
ASSUME Mutant /= "none" \/ \A r \in Rows : Arranged(r) <=> Makeable([k \in Kinds |-> Groups(k, CountOf(r, k))], r)
Spec == Init /\ [][Next]_<<left, row>>
=============================================================================
