------------------------------ MODULE DumpWalk ------------------------------
(* The dump as the loop it is: ask for the network holding the marker, emit it,
   continue behind its last address until that is the highest one.  For every
   set of disjoint networks of a small space. *)
EXTENDS Nets, Json
CONSTANT W
VARIABLES D, marker, rows, st
vars == <<D, marker, rows, st>>

RECURSIVE Antichains(_)
Antichains(n) ==
  IF n = 0 THEN {{}, {""}}
  ELSE LET A == Antichains(n - 1)
       IN {{""}} \cup {{"0" \o p : p \in x} \cup {"1" \o p : p \in y} : x \in A, y \in A}

Init == D \in Antichains(W) /\ marker = Zeros(W) /\ rows = <<>> /\ st = "run"
Emit ==
  /\ st = "run" /\ HasNet(D, marker)
  /\ LET p == NetOf(D, marker)
         l == Hi(p, W)
     IN /\ rows' = Append(rows, p)
        /\ IF IsMax(l) THEN st' = "ok" /\ UNCHANGED marker ELSE marker' = Succ(l) /\ UNCHANGED st
  /\ UNCHANGED D
Fail == st = "run" /\ ~HasNet(D, marker) /\ st' = "err" /\ UNCHANGED <<D, marker, rows>>
Next == Emit \/ Fail
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Whole == \A a \in Addrs(W) : HasNet(D, a)
Correct ==
  /\ Disjoint(D)
  /\ Covering(D, W) = Whole
  /\ Walk(D, Zeros(W), <<>>).ok = Whole
  /\ Ascending(rows, W)
  /\ ToSet(rows) \subseteq D
  /\ st = "ok" => Whole /\ ToSet(rows) = D /\ Len(rows) = Cardinality(D) /\ Tiles(rows, Zeros(W), Ones(W))
  /\ st = "err" => ~Whole
Ends == <>(st # "run")
(* every such table is a test *)
Gen == rows # <<>> \/ st # "run" \/ D = {} \/ PrintT("@@SCEN " \o ToJson([w |-> W, nets |-> SetToSeq(D)]))
=============================================================================
