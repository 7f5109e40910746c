------------------------------- MODULE Service -------------------------------
(* An opened database used by several callers at a time, directly or through
   the HTTP service.  Records live in a heap: what a caller got it may change.
   The cache built when the database is opened holds records of some nodes. *)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS Callers, MaxCalls, Share     \* Share: a cached record is handed out itself
VARIABLES heap, cache, st, held, done
vars == <<heap, cache, st, held, done>>

Addrs == {1, 2, 3}
Node == (1 :> "a") @@ (2 :> "a") @@ (3 :> "none")         \* 1 and 2 lie in one network, 3 in none
File == [n \in {"a"} |-> "A"]
Answer(a) == IF Node[a] \in DOMAIN File THEN File[Node[a]] ELSE "error"
Cells == 0..MaxCalls

Init ==
  /\ cache \in [{"a"} -> {0, 99}]                         \* 99: not cached
  /\ heap = [c \in Cells |-> IF c = 0 THEN "A" ELSE "free"]
  /\ st = [p \in Callers |-> [at |-> "idle"]]
  /\ held = [p \in Callers |-> {}]
  /\ done = 0
Fresh == CHOOSE c \in Cells \ {0} : heap[c] = "free"
Ask(p, a) ==
  /\ st[p].at = "idle" /\ done < MaxCalls
  /\ st' = [st EXCEPT ![p] = [at |-> "found", a |-> a, n |-> Node[a]]]
  /\ done' = done + 1
  /\ UNCHANGED <<heap, cache, held>>
Result(p, cell, v) == st' = [st EXCEPT ![p] = [at |-> "result", a |-> st[p].a, cell |-> cell, v |-> v]]
Hit(p) ==
  /\ st[p].at = "found" /\ st[p].n = "a" /\ cache["a"] = 0
  /\ IF Share THEN Result(p, 0, heap[0]) /\ UNCHANGED heap
     ELSE LET c == Fresh IN heap' = [heap EXCEPT ![c] = heap[0]] /\ Result(p, c, heap[0])
  /\ UNCHANGED <<cache, held, done>>
Decode(p) ==
  /\ st[p].at = "found" /\ st[p].n = "a" /\ cache["a"] = 99
  /\ LET c == Fresh IN heap' = [heap EXCEPT ![c] = File["a"]] /\ Result(p, c, File["a"])
  /\ UNCHANGED <<cache, held, done>>
Miss(p) ==
  /\ st[p].at = "found" /\ st[p].n = "none"
  /\ Result(p, 99, "error") /\ UNCHANGED <<heap, cache, held, done>>
(* Handing out: to a caller, or written as a response from the cell's value now. *)
Return(p) ==
  /\ st[p].at = "result"
  /\ held' = [held EXCEPT ![p] = @ \cup ({st[p].cell} \ {99})]
  /\ st' = [st EXCEPT ![p] = [at |-> "idle"]]
  /\ UNCHANGED <<heap, cache, done>>
Change(p, c) ==
  /\ c \in held[p] /\ heap[c] # "changed"
  /\ heap' = [heap EXCEPT ![c] = "changed"]
  /\ UNCHANGED <<cache, st, held, done>>
Next == \E p \in Callers : (\E a \in Addrs : Ask(p, a)) \/ Hit(p) \/ Decode(p) \/ Miss(p) \/ Return(p) \/ (\E c \in held[p] : Change(p, c))
Spec == Init /\ [][Next]_vars

Correct ==
  /\ \A p \in Callers : st[p].at = "result" =>
       /\ st[p].v = Answer(st[p].a)
       /\ st[p].cell # 99 => heap[st[p].cell] = Answer(st[p].a)     \* also when the response is written
  /\ \A p, q \in Callers : p # q => held[p] \cap held[q] = {}
  /\ heap[0] = "A"
=============================================================================
