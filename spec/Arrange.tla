------------------------------ MODULE Arrange ------------------------------
(* How the exercises of a batch are put in order. The weak ones of a course  *)
(* stay together in groups of three, with what is left over in a group of    *)
(* its own; every other exercise is a group by itself. The groups come in    *)
(* any order.                                                                *)
EXTENDS Naturals, Sequences, FiniteSets

GroupSize == 3

(* kind[i] is the course of the i-th exercise if it is weak, and "" if it is *)
(* not. A run of neighbours of one course is made of whole groups, so that   *)
(* at most one run of each course has a length that is not a multiple of     *)
(* the size of a group.                                                      *)
StartsRun(kind, i) == kind[i] /= "" /\ (i = 1 \/ kind[i - 1] /= kind[i])
RunEnd(kind, i) == CHOOSE j \in i..Len(kind) : /\ \A k \in i..j : kind[k] = kind[i]
                                               /\ (j = Len(kind) \/ kind[j + 1] /= kind[i])
Broken(kind) == {i \in 1..Len(kind) : StartsRun(kind, i) /\ ((RunEnd(kind, i) + 1) - i) % GroupSize /= 0}
Arranged(kind) == \A i, j \in Broken(kind) : kind[i] = kind[j] => i = j
=============================================================================
