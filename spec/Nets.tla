-------------------------------- MODULE Nets --------------------------------
(* Ranges of addresses, their split into networks, and address tables:
   functions from networks (bit strings) to values. *)
EXTENDS Bits, SequencesExt, TLC

InRange(s, e, a) == LE(s, a) /\ LE(a, e)

(* The split of [s, e] into networks, greedily the largest aligned network
   that starts at s and does not pass e.  MCRange checks that this is the
   unique shortest sequence of networks that tiles the range. *)
RECURSIVE BSBlock(_, _, _, _)
BSBlock(s, e, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET m == (lo + hi + 1) \div 2
       IN IF LE(Pre(s, Len(s) - m) \o Ones(m), e) THEN BSBlock(s, e, m, hi) ELSE BSBlock(s, e, lo, m - 1)
BlockAt(s, e) == Pre(s, Len(s) - BSBlock(s, e, 0, TrailZeros(s)))
RECURSIVE Split(_, _)
Split(s, e) ==
  LET W == Len(s)
      p == BlockAt(s, e)
      l == Hi(p, W)
  IN IF l = e THEN <<p>> ELSE <<p>> \o Split(Succ(l), e)

(* Tables. *)
Empty == [p \in {} |-> 0]
Hits(D, a)   == {k \in 0..Len(a) : Pre(a, k) \in D}
HasNet(D, a) == \E k \in 0..Len(a) : Pre(a, k) \in D
NetOf(D, a)  == Pre(a, CHOOSE k \in 0..Len(a) : Pre(a, k) \in D)     \* D pairwise disjoint
Disjoint(D)  == \A p \in D : \A k \in 0..(Len(p) - 1) : Pre(p, k) \notin D

(* What an ipdb accepts of a sequence of offered networks <<net, value>>:
   a network nested in or containing an accepted one is refused, the very same
   network is replaced. *)
Clash(T, p) == \E q \in DOMAIN T : q # p /\ Comparable(p, q)
Offer(T, o) == IF Clash(T, o[1]) THEN T ELSE (o[1] :> o[2]) @@ T
Accept(offers) == FoldLeft(Offer, Empty, offers)

(* The walk over the whole space: networks in order of address, stopping at the
   first address no network holds. *)
RECURSIVE Walk(_, _, _)
Walk(D, a, acc) ==
  IF ~HasNet(D, a) THEN [ok |-> FALSE, nets |-> acc]
  ELSE LET p == NetOf(D, a)
           l == Hi(p, Len(a))
       IN IF IsMax(l) THEN [ok |-> TRUE, nets |-> Append(acc, p)]
          ELSE Walk(D, Succ(l), Append(acc, p))
(* The same with a fold, for tables too big to recurse over. *)
WalkStep(D, st, i) ==
  IF st.done THEN st
  ELSE IF ~HasNet(D, st.at) THEN [st EXCEPT !.done = TRUE, !.ok = FALSE]
  ELSE LET p == NetOf(D, st.at)
           l == Hi(p, Len(st.at))
       IN IF IsMax(l) THEN [st EXCEPT !.done = TRUE, !.ok = TRUE]
          ELSE [st EXCEPT !.at = Succ(l)]
Covering(D, W) ==
  FoldLeft(LAMBDA st, i : WalkStep(D, st, i),
           [done |-> FALSE, ok |-> FALSE, at |-> Zeros(W)],
           [i \in 1..(Cardinality(D) + 1) |-> i]).ok

(* A sequence of networks that tiles [s, e] in order. *)
Tiles(nets, s, e) ==
  /\ Len(nets) > 0
  /\ Lo(nets[1], Len(s)) = s
  /\ Hi(nets[Len(nets)], Len(s)) = e
  /\ \A i \in 1..(Len(nets) - 1) :
        LET l == Hi(nets[i], Len(s)) IN ~IsMax(l) /\ Lo(nets[i + 1], Len(s)) = Succ(l)
(* Ascending and disjoint, gaps allowed. *)
Ascending(nets, W) ==
  \A i \in 1..(Len(nets) - 1) : LT(Hi(nets[i], W), Lo(nets[i + 1], W))
=============================================================================
