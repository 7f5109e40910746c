------------------------------ MODULE MergeAlg ------------------------------
(* Merging as the loop it is - one pending range that grows while the next row
   has its values and starts inside or directly behind it - over every table of
   disjoint networks of a small space in address order. *)
EXTENDS Ops, FiniteSetsExt
CONSTANTS W, Vs
VARIABLES rows, i, prev, ranges, st
vars == <<rows, i, prev, ranges, st>>

RECURSIVE Tables(_)
Tables(n) ==
  IF n = 0 THEN {<<>>} \cup {<<[net |-> "", vals |-> v]>> : v \in Vs}
  ELSE LET A == Tables(n - 1)
           put(b, q) == [j \in 1..Len(q) |-> [net |-> b \o q[j].net, vals |-> q[j].vals]]
       IN {<<[net |-> "", vals |-> v]>> : v \in Vs} \cup {put("0", x) \o put("1", y) : x \in A, y \in A}
None == [lo |-> "", hi |-> "", vals |-> 0]
Init == rows \in Tables(W) /\ i = 1 /\ prev = None /\ ranges = <<>> /\ st = "run"
Fresh(r) == [lo |-> Lo(r.net, W), hi |-> Hi(r.net, W), vals |-> r.vals]
GapBefore(e, s) == LT(e, s) /\ LT(Succ(e), s)
Take ==
  /\ st = "run" /\ i <= Len(rows)
  /\ LET r == rows[i]
         s == Lo(r.net, W)
     IN IF prev = None THEN prev' = Fresh(r) /\ UNCHANGED ranges
        ELSE IF prev.vals = r.vals /\ ~LT(s, prev.lo) /\ ~GapBefore(prev.hi, s)
        THEN prev' = [prev EXCEPT !.hi = IF LT(Hi(r.net, W), prev.hi) THEN prev.hi ELSE Hi(r.net, W)] /\ UNCHANGED ranges
        ELSE prev' = Fresh(r) /\ ranges' = Append(ranges, prev)
  /\ i' = i + 1 /\ UNCHANGED <<rows, st>>
End == /\ st = "run" /\ i > Len(rows) /\ st' = "done"
       /\ ranges' = IF prev = None THEN ranges ELSE Append(ranges, prev)
       /\ UNCHANGED <<rows, i, prev>>
Next == Take \/ End
Spec == Init /\ [][Next]_vars

Out == FoldLeft(LAMBDA acc, r : acc \o [j \in 1..Len(Split(r.lo, r.hi)) |-> [net |-> Split(r.lo, r.hi)[j], vals |-> r.vals]], <<>>, ranges)
Nets1(q) == {q[j].net : j \in 1..Len(q)}
ValAt(q, a) == LET hits == {j \in 1..Len(q) : Covers(q[j].net, a)} IN IF hits = {} THEN 0 ELSE q[CHOOSE j \in hits : TRUE].vals
(* fewest networks for a set of addresses of one value that touch *)
RECURSIVE Fewest(_, _)
Fewest(s, e) ==
  LET ps == {k \in 0..W : Pre(s, k) \o Zeros(W - k) = s /\ LE(Pre(s, k) \o Ones(W - k), e)}
  IN Min({IF Hi(Pre(s, k), W) = e THEN 1 ELSE 1 + Fewest(Succ(Hi(Pre(s, k), W)), e) : k \in ps})
Starts(v) == {a \in Addrs(W) : ValAt(rows, a) = v /\ (IsMin(a) \/ ValAt(rows, Pred(a)) # v)}
EndOf(v, s) == CHOOSE e \in Addrs(W) : LE(s, e) /\ (IsMax(e) \/ ValAt(rows, Succ(e)) # v) /\ \A x \in Addrs(W) : InRange(s, e, x) => ValAt(rows, x) = v
Correct ==
  st = "done" =>
    /\ Out = MergeRows(rows, W)
    /\ \A a \in Addrs(W) : ValAt(Out, a) = ValAt(rows, a)
    /\ Ascending([j \in 1..Len(Out) |-> Out[j].net], W)
    /\ MergeRows(Out, W) = Out
    /\ Len(Out) = FoldSet(LAMBDA v, n : n + FoldSet(LAMBDA s, m : m + Fewest(s, EndOf(v, s)), 0, Starts(v)), 0, Vs)
Gen == i > 1 \/ st # "run" \/ rows = <<>> \/ PrintT("@@SCEN " \o ToJson([w |-> W, rows |-> [j \in 1..Len(rows) |-> <<rows[j].net, rows[j].vals>>]]))
=============================================================================
