------------------------------ MODULE MCStores ------------------------------
(* All sequences of Depth operations on one store of a small domain. The    *)
(* model performs them by the rules of Stores; its contents must satisfy    *)
(* the judgements used for the real code, and every sequence is printed so  *)
(* that it can be replayed there.                                           *)
EXTENDS Stores, Json, IOUtils

Kind == IOEnv.KIND
Depth == atoi(IOEnv.DEPTH)
Names == <<"a", "ab", "A">>
U == 1..2
Times == {1, 2}

Recs == CASE Kind = "rewards" -> {[op |-> "rec", store |-> Kind, list |-> <<<<u, 500, w, t>>>>] : u \in U, t \in Times, w \in {300, 1000}}
          [] Kind \in {"bl", "rv"} -> {}
          [] OTHER -> {[op |-> "rec", store |-> Kind, list |-> <<<<u, 1000 * t, t>>>>] : u \in U, t \in Times}
Ops ==
  IF Kind = "bl" \/ Kind = "rv"
  THEN {[op |-> o, store |-> Kind, u |-> u] : o \in {"add", "rm"}, u \in 1..3}
         \cup (IF Kind = "bl" THEN {[op |-> "rmp", store |-> Kind, p |-> p] : p \in {"", "a", "ab", "_", "b"}} ELSE {})
         \cup {[op |-> "reopen"]}
  ELSE Recs \cup {[op |-> "trim", store |-> Kind, n |-> n] : n \in 0..2}
         \cup {[op |-> "rmp", store |-> Kind, p |-> p] : p \in {"", "a", "ab", "_"}}
         \cup {[op |-> "reopen"]}

VARIABLES hist, h, l, recent
vars == <<hist, h, l, recent>>
Init == hist = <<>> /\ h = [u \in 1..3 |-> <<>>] /\ l = {} /\ recent = [u \in 1..3 |-> <<>>]

NewerThan(s, e) == SelectSeq(s, LAMBDA x : Time(x) > Time(e))
NotNewer(s, e) == SelectSeq(s, LAMBDA x : Time(x) <= Time(e))
Insert(s, e) == NewerThan(s, e) \o <<e>> \o NotNewer(s, e)
Cut(s, n) == SubSeq(s, 1, Min2(n, Len(s)))
Entry(x) == IF Kind = "rewards" THEN <<x[2], x[3], x[4], TRUE>> ELSE <<x[2], x[3], TRUE>>
Refused(o) == Kind = "rewards" /\ MustRefuse(Entry(o.list[1]), recent[o.list[1][1]])

H(o) == CASE o.op = "rec" -> LET u == o.list[1][1]
                             IN IF Refused(o) THEN h ELSE [h EXCEPT ![u] = Cut(Insert(@, Entry(o.list[1])), Cap)]
          [] o.op = "trim" -> [u \in 1..3 |-> Cut(h[u], o.n)]
          [] o.op = "rmp" -> [u \in 1..3 |-> IF StartsWith(Names[u], o.p) THEN <<>> ELSE h[u]]
          [] OTHER -> h
L(o) == CASE o.op = "add" -> l \cup {o.u}
          [] o.op = "rm" -> l \ {o.u}
          [] o.op = "rmp" -> {u \in l : ~StartsWith(Names[u], o.p)}
          [] OTHER -> l
Rec(o) == CASE o.op = "rec" /\ ~Refused(o) -> LET u == o.list[1][1] IN [recent EXCEPT ![u] = LastOf(Append(@, Entry(o.list[1])), Remembered)]
            [] o.op \in {"trim", "rmp", "reopen"} -> [u \in 1..3 |-> <<>>]
            [] OTHER -> recent
Next == /\ Len(hist) < Depth
        /\ \E o \in Ops : /\ hist' = Append(hist, o)
                          /\ h' = H(o) /\ l' = L(o) /\ recent' = Rec(o)
Spec == Init /\ [][Next]_vars

(* The judgements agree with the model. *)
Sane ==
  /\ \A u \in 1..3 : NewestFirst(h[u]) /\ \A n \in 0..3 : Newest(Cut(h[u], n), h[u], n)
  /\ \A u \in 1..3 : \A i \in DOMAIN h[u] : Cardinality({j \in DOMAIN h[u] : Newest(<<h[u][j]>>, h[u], 1)}) >= 1
  /\ Kind = "rewards" => \A u \in 1..3 : \A e \in Rng(h[u]) :
       \A acc \in Accepted(<<e>>, 1, recent[u], Rng(h[u])) : Len(acc) <= 1
Emit == Len(hist) < Depth \/ PrintT(<<"RUN", ToJson(hist)>>)
=============================================================================
