------------------------------- MODULE MCConc -------------------------------
(* Threads sharing one instance: how a score is computed, cached, and        *)
(* invalidated, how a trial is recorded, and how the blacklist is edited     *)
(* behind its own lock, at the granularity of lock acquisitions and store    *)
(* accesses. One unit, whose true score is the triple of what it depends on: *)
(* the trials, the deltas, and whether it is blacklisted.                    *)
(*                                                                           *)
(* LOCKED: calls of the scheduler exclude each other (the operation lock).   *)
(* RECURSIVE: a thread already reading the blacklist may read it again even  *)
(* though a writer waits. Both are what the code does; without either the    *)
(* model fails (see check C23), which is how we know it can.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Locked == IOEnv.LOCKED = "1"
Recursive == IOEnv.RECURSIVE = "1"
NT == atoi(IOEnv.NTHREADS)
Len0 == atoi(IOEnv.LENGTH)
Ops == {"read", "score", "edit", "inval"}
Threads == 1..NT

VARIABLES prog, at, pc, lock, readers, writer, waiting, trials, deltas, bl, cache, tmp
vars == <<prog, at, pc, lock, readers, writer, waiting, trials, deltas, bl, cache, tmp>>
NoCache == <<>>
Truth == <<trials, deltas, bl>>

Init ==
  /\ prog \in [Threads -> [1..Len0 -> Ops]]
  /\ at = [t \in Threads |-> 1]
  /\ pc = [t \in Threads |-> "start"]
  /\ lock = 0 /\ readers = [t \in Threads |-> 0] /\ writer = 0 /\ waiting = {}
  /\ trials = 1 /\ deltas = 0 /\ bl = FALSE /\ cache = NoCache
  /\ tmp = [t \in Threads |-> <<0, 0, FALSE>>]

Op(t) == prog[t][at[t]]
Go(t, l) == pc' = [pc EXCEPT ![t] = l]
Set(t, i, v) == tmp' = [tmp EXCEPT ![t][i] = v]
Data == <<trials, deltas, bl, cache>>
Locks == <<lock, readers, writer, waiting>>
Prog == <<prog, at>>

Start(t) ==
  /\ pc[t] = "start" /\ at[t] <= Len0
  /\ Go(t, IF Op(t) = "edit" THEN "ask" ELSE "enter")
  /\ UNCHANGED <<Prog, Locks, Data, tmp>>
Enter(t) ==
  /\ pc[t] = "enter" /\ (~Locked \/ lock = 0)
  /\ lock' = IF Locked THEN t ELSE lock
  /\ Go(t, CASE Op(t) \in {"read", "score"} -> "lookup"
             [] OTHER -> "drop")
  /\ UNCHANGED <<Prog, readers, writer, waiting, Data, tmp>>

(* Computing the score of the unit. *)
Lookup(t) ==
  /\ pc[t] = "lookup"
  /\ Go(t, IF cache = NoCache THEN "outer" ELSE "got")
  /\ UNCHANGED <<Prog, Locks, Data, tmp>>
MayRead(t) == writer = 0 /\ (waiting = {} \/ (Recursive /\ readers[t] > 0))
Outer(t) ==
  /\ pc[t] = "outer" /\ MayRead(t)
  /\ readers' = [readers EXCEPT ![t] = @ + 1]
  /\ Set(t, 3, bl) /\ Go(t, "inner")
  /\ UNCHANGED <<Prog, lock, writer, waiting, Data>>
Inner(t) ==     \* the score of a superseding unit, while the blacklist is being read
  /\ pc[t] = "inner" /\ MayRead(t)
  /\ Go(t, "readtrials")
  /\ UNCHANGED <<Prog, Locks, Data, tmp>>
ReadTrials(t) ==
  /\ pc[t] = "readtrials" /\ Set(t, 1, trials) /\ Go(t, "readdeltas")
  /\ UNCHANGED <<Prog, Locks, Data>>
ReadDeltas(t) ==
  /\ pc[t] = "readdeltas" /\ Set(t, 2, deltas) /\ Go(t, "insert")
  /\ UNCHANGED <<Prog, Locks, Data>>
Insert(t) ==
  /\ pc[t] = "insert"
  /\ cache' = tmp[t]
  /\ readers' = [readers EXCEPT ![t] = 0]
  /\ Go(t, "got")
  /\ UNCHANGED <<Prog, lock, writer, waiting, trials, deltas, bl, tmp>>
Got(t) ==
  /\ pc[t] = "got" /\ Go(t, IF Op(t) = "score" THEN "writedelta" ELSE "leave")
  /\ UNCHANGED <<Prog, Locks, Data, tmp>>

(* Recording a trial. *)
WriteDelta(t) ==
  /\ pc[t] = "writedelta" /\ deltas' = deltas + 1 /\ Go(t, "drop1")
  /\ UNCHANGED <<Prog, Locks, trials, bl, cache, tmp>>
Drop1(t) ==
  /\ pc[t] = "drop1" /\ cache' = NoCache /\ Go(t, "writetrial")
  /\ UNCHANGED <<Prog, Locks, trials, deltas, bl, tmp>>
WriteTrial(t) ==
  /\ pc[t] = "writetrial" /\ trials' = trials + 1 /\ Go(t, "drop")
  /\ UNCHANGED <<Prog, Locks, deltas, bl, cache, tmp>>
Drop(t) ==
  /\ pc[t] = "drop" /\ cache' = NoCache /\ Go(t, "leave")
  /\ UNCHANGED <<Prog, Locks, trials, deltas, bl, tmp>>
Leave(t) ==
  /\ pc[t] = "leave"
  /\ lock' = IF Locked THEN 0 ELSE lock
  /\ at' = [at EXCEPT ![t] = @ + 1] /\ Go(t, "start")
  /\ UNCHANGED <<prog, readers, writer, waiting, Data, tmp>>

(* Editing the blacklist: first the list, then the cache. *)
Ask(t) ==
  /\ pc[t] = "ask" /\ waiting' = waiting \cup {t} /\ Go(t, "write")
  /\ UNCHANGED <<Prog, lock, readers, writer, Data, tmp>>
Write(t) ==
  /\ pc[t] = "write" /\ writer = 0 /\ \A u \in Threads : readers[u] = 0
  /\ waiting' = waiting \ {t} /\ writer' = t /\ Go(t, "edit")
  /\ UNCHANGED <<Prog, lock, readers, Data, tmp>>
Edit(t) ==
  /\ pc[t] = "edit" /\ bl' = ~bl /\ writer' = 0 /\ Go(t, "enter")
  /\ UNCHANGED <<Prog, lock, readers, waiting, trials, deltas, cache, tmp>>

Finished == \A t \in Threads : at[t] > Len0
Next == \/ \E t \in Threads : \/ Start(t) \/ Enter(t) \/ Lookup(t) \/ Outer(t) \/ Inner(t) \/ ReadTrials(t) \/ ReadDeltas(t)
                              \/ Insert(t) \/ Got(t) \/ WriteDelta(t) \/ Drop1(t) \/ WriteTrial(t) \/ Drop(t) \/ Leave(t)
                              \/ Ask(t) \/ Write(t) \/ Edit(t)
        \/ Finished /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

(* ---- what must hold ------------------------------------------------------ *)
Done(op) == Cardinality({<<t, i>> \in Threads \X (1..Len0) : prog[t][i] = op})
CacheFresh == Finished => cache \in {NoCache, Truth}
NothingLost == Finished => /\ trials = 1 + Done("score") /\ deltas = Done("score")
                           /\ bl = ((Done("edit") % 2) = 1)
Released == Finished => lock = 0 /\ writer = 0 /\ waiting = {} /\ \A t \in Threads : readers[t] = 0
(* The calls of each thread are printed to be made on the real code. *)
First == \A t \in Threads : at[t] = 1 /\ pc[t] = "start"
Emit == ~First \/ PrintT(<<"RUN", ToJson(prog)>>)
=============================================================================
