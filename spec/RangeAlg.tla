------------------------------ MODULE RangeAlg ------------------------------
(* A range object over its life: joins, intersections and the split loop, the
   way the code computes them (successor wraps at the highest address), against
   sets of addresses.  All ranges of a space of W bits. *)
EXTENDS Nets, Json, FiniteSetsExt
CONSTANTS W, MaxOps
VARIABLES lo, hi, n, last, at, out
vars == <<lo, hi, n, last, at, out>>

A == Addrs(W)
Set(s, e) == {a \in A : InRange(s, e, a)}
GapBefore(e, s) == LT(e, s) /\ LT(Succ(e), s)
None == [op |-> "none"]

Init == /\ lo \in A /\ hi \in A /\ LE(lo, hi)
        /\ n = 0 /\ last = None /\ at = "" /\ out = <<>>
Idle == at = ""
Join(s, e) ==
  /\ Idle /\ n < MaxOps /\ n' = n + 1
  /\ LET ok == ~(LT(s, lo) \/ GapBefore(hi, s))
     IN /\ hi' = IF ok /\ ~LT(e, hi) THEN e ELSE hi
        /\ last' = [op |-> "join", s |-> s, e |-> e, ok |-> ok, lo |-> lo, hi |-> hi]
  /\ UNCHANGED <<lo, at, out>>
Common(a, s, e) ==
  /\ Idle /\ n < MaxOps /\ n' = n + 1
  /\ LET ns == IF LT(lo, s) THEN s ELSE lo
         ne == IF LT(e, hi) THEN e ELSE hi
         ok == ~LT(e, lo) /\ ~LT(hi, s) /\ LE(ns, a) /\ LE(a, ne)
     IN /\ lo' = IF ok THEN ns ELSE lo
        /\ hi' = IF ok THEN ne ELSE hi
        /\ last' = [op |-> "common", a |-> a, s |-> s, e |-> e, ok |-> ok, lo |-> lo, hi |-> hi]
  /\ UNCHANGED <<at, out>>
(* The split loop. *)
Start == Idle /\ last.op # "split" /\ at' = lo /\ out' = <<>> /\ last' = [op |-> "split"] /\ UNCHANGED <<lo, hi, n>>
Emit ==
  /\ at # "" /\ at # "end"
  /\ LET cidr == W - TrailZeros(at)
         p0 == Lcp(at, Succ(hi)) + 1
         p == IF p0 > W THEN 0 ELSE p0
         len == Max2(cidr, p)
         net == Pre(at, len)
     IN /\ out' = Append(out, net)
        /\ at' = IF ~LT(Hi(net, W), hi) THEN "end" ELSE Succ(Hi(net, W))
  /\ UNCHANGED <<lo, hi, n, last>>
Next == (\E s, e \in A : LE(s, e) /\ (Join(s, e) \/ \E a \in A : Common(a, s, e))) \/ Start \/ Emit
Spec == Init /\ [][Next]_vars /\ WF_vars(Emit)

(* Fewest networks that tile [s, e]: every tiling starts with one at s. *)
RECURSIVE Fewest(_, _)
Fewest(s, e) ==
  LET ps == {k \in 0..W : Pre(s, k) \o Zeros(W - k) = s /\ LE(Pre(s, k) \o Ones(W - k), e)}
  IN Min({IF Hi(Pre(s, k), W) = e THEN 1 ELSE 1 + Fewest(Succ(Hi(Pre(s, k), W)), e) : k \in ps})

Correct ==
  /\ LE(lo, hi)
  /\ last.op = "join" =>
       LET old == Set(last.lo, last.hi)
           x == Set(last.s, last.e)
           joins == last.s \in old \/ (~IsMax(last.hi) /\ last.s = Succ(last.hi))
       IN last.ok = joins /\ Set(lo, hi) = (IF joins THEN old \cup x ELSE old)
  /\ last.op = "common" =>
       LET old == Set(last.lo, last.hi)
           x == Set(last.s, last.e)
           both == last.a \in old \cap x
       IN last.ok = both /\ Set(lo, hi) = (IF both THEN old \cap x ELSE old)
  /\ at = "end" => out = Split(lo, hi) /\ Tiles(out, lo, hi) /\ Len(out) = Fewest(lo, hi)
Ends == (last.op = "split") ~> (at = "end")

Gen == n # 0 \/ last # None \/ PrintT("@@SCEN " \o ToJson([w |-> W, lo |-> lo, hi |-> hi]))
=============================================================================
