------------------------------- MODULE RawAlg -------------------------------
(* Search trees as a file may really hold them: any graph of N nodes, with
   cycles and shared parts.  Values below n are nodes, n is nothing, n+1 is a
   record.  The walk by way of the cache of the first C bits is the plain walk,
   no step reads a node that is not there, and the iteration with its stack
   ends: well, with every network a walk finds, or at a path that is too deep. *)
EXTENDS Nets, Json
CONSTANTS W, C, N
VARIABLES n, tree, stack, out, phase
vars == <<n, tree, stack, out, phase>>

RECURSIVE From(_, _, _)
From(node, a, i) == IF i = Len(a) \/ node >= n THEN <<node, i>> ELSE From(tree[node + 1][IF Bit(a, i + 1) = "0" THEN 1 ELSE 2], a, i + 1)
Plain(a) == From(0, a, 0)
Cached(a) == LET c == Plain(Pre(a, C)) IN IF c[1] > n THEN c ELSE From(c[1], a, c[2])

Init == /\ n \in 0..N
        /\ tree \in [1..n -> (0..(n + 1)) \X (0..(n + 1))]
        /\ stack = <<<<"", 0>>>> /\ out = <<>> /\ phase = "run"
Pop ==
  /\ phase = "run" /\ stack # <<>>
  /\ LET t == stack[Len(stack)]
         rest == SubSeq(stack, 1, Len(stack) - 1)
     IN CASE t[2] = n -> stack' = rest /\ UNCHANGED <<out, phase>>
          [] t[2] > n -> stack' = rest /\ out' = Append(out, t[1]) /\ UNCHANGED phase
          [] OTHER -> IF Len(t[1]) = W THEN phase' = "deep" /\ UNCHANGED <<stack, out>>
                      ELSE stack' = rest \o <<<<t[1] \o "1", tree[t[2] + 1][2]>>, <<t[1] \o "0", tree[t[2] + 1][1]>>>> /\ UNCHANGED <<out, phase>>
  /\ UNCHANGED <<n, tree>>
Done == phase = "run" /\ stack = <<>> /\ phase' = "done" /\ UNCHANGED <<n, tree, stack, out>>
Next == Pop \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Correct ==
  /\ stack = <<<<"", 0>>>> => \A a \in Addrs(W) : Cached(a) = Plain(a)
  /\ Ascending(out, W)
  /\ \A i \in 1..Len(out) : Plain(Lo(out[i], W)) = <<n + 1, Len(out[i])>>
  /\ phase = "done" => \A a \in Addrs(W) : Plain(a)[1] >= n /\ (Plain(a)[1] > n => Pre(a, Plain(a)[2]) \in ToSet(out))
  /\ phase = "deep" => \E a \in Addrs(W) : Plain(a)[1] < n
Ends == <>(phase # "run")
Gen == stack # <<<<"", 0>>>> \/ phase # "run" \/ PrintT("@@SCEN " \o ToJson([tree |-> tree]))
=============================================================================
