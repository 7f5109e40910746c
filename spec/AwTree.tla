------------------------------- MODULE AwTree -------------------------------
(* The awdb search tree at node level: records are nodes, "nothing" (equal to
   the node count) or data pointers (above it); lookup from the root or, for
   IPv4 in an IPv6 file, from the node Z zero bits down; iteration with an
   explicit stack, as a state machine.  For every set of disjoint networks. *)
EXTENDS Nets
CONSTANTS W, Z
VARIABLES D, within, stack, out, phase
vars == <<D, within, stack, out, phase>>

RECURSIVE Antichains(_)
Antichains(n) ==
  IF n = 0 THEN {{}, {""}}
  ELSE LET A == Antichains(n - 1)
       IN {{""}} \cup {{"0" \o p : p \in x} \cup {"1" \o p : p \in y} : x \in A, y \in A}

(* nodes are named by the prefix they stand for; 16 is the separator *)
IsNode(p) == p = "" \/ \E q \in D : Covers(p, q) /\ q # p
Rec(p) == IF p \in D THEN "data" ELSE IF IsNode(p) THEN "node" ELSE "none"

RECURSIVE Trav(_, _, _)
Trav(p, a, n) == IF n = Len(a) \/ Rec(p) # "node" THEN <<p, n>> ELSE Trav(p \o Bit(a, n + 1), a, n + 1)
Lookup6(a) == LET r == Trav("", a, 0) IN IF Rec(r[1]) = "data" THEN [ok |-> TRUE, net |-> r[1], len |-> r[2]] ELSE [ok |-> FALSE]
V4 == Trav("", Zeros(Z), 0)        \* node the IPv4 tree starts at, and its depth
RECURSIVE Trav4(_, _, _)
Trav4(p, a, n) == IF n = Len(a) \/ Rec(p) # "node" THEN <<p, n>> ELSE Trav4(p \o Bit(a, n + 1), a, n + 1)
Lookup4(a) ==
  LET r == Trav4(V4[1], a, 0)
  IN IF Rec(r[1]) = "data" THEN [ok |-> TRUE, net |-> r[1], len |-> IF V4[2] = Z THEN r[2] ELSE V4[2]] ELSE [ok |-> FALSE]

(* The tree has at least its root node. *)
Init == /\ D \in Antichains(W) \ {{""}}
        /\ within \in Nets(W)
        /\ stack = <<Trav("", within, 0)[1]>>
        /\ out = <<>> /\ phase = "run"
Pop ==
  /\ phase = "run" /\ stack # <<>>
  /\ LET p == stack[Len(stack)]
         rest == SubSeq(stack, 1, Len(stack) - 1)
     IN CASE Rec(p) = "none" -> stack' = rest /\ UNCHANGED out
          [] Rec(p) = "data" -> stack' = rest /\ out' = Append(out, p)
          [] OTHER -> stack' = rest \o <<p \o "1", p \o "0">> /\ UNCHANGED out
  /\ UNCHANGED <<D, within, phase>>
Done == phase = "run" /\ stack = <<>> /\ phase' = "done" /\ UNCHANGED <<D, within, stack, out>>
Next == Pop \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

W4 == W - Z
Correct ==
  /\ \A a \in Addrs(W) :
        LET r == Lookup6(a) IN r.ok = HasNet(D, a) /\ (r.ok => r.net = NetOf(D, a) /\ r.len = Len(NetOf(D, a)))
  /\ \A a \in Addrs(W4) :
        LET r == Lookup4(a)
            k == Zeros(Z) \o a
        IN r.ok = HasNet(D, k) /\ (r.ok => r.net = NetOf(D, k) /\ r.len = IF Len(NetOf(D, k)) >= Z THEN Len(NetOf(D, k)) - Z ELSE Len(NetOf(D, k)))
  /\ Ascending(out, W)
  /\ phase = "done" =>
        LET holder == {p \in D : Covers(p, within)}
        IN ToSet(out) = (IF holder # {} THEN holder ELSE {p \in D : Covers(within, p)})
Ends == <>(phase = "done")
=============================================================================
