----------------------------- MODULE StepsRange -----------------------------
(* Ranges of addresses as objects with a history, and the address functions. *)
EXTENDS StepsOps

Rng(fam, lo, hi) == [k |-> "range", fam |-> fam, lo |-> lo, hi |-> hi]
IsRng(s, lo, hi) == s.s = lo /\ s.e = hi
Show(lo, hi) == lo \o ".." \o hi
Touches(hi, s) == ~IsMax(hi) /\ s = Succ(hi)

RangeBads(s, R, want, ok, what) ==
  IF s.out # "ok" THEN Bad({"C10"}, what \o " " \o s.out \o " " \o Get(s, "why", ""))
  ELSE (IF s.ok # ok THEN Bad({"C10"}, what \o " of " \o Show(R.lo, R.hi) \o " with " \o Show(s.lo, s.hi) \o " returns " \o ToString(s.ok)) ELSE {})
       \cup (IF ~IsRng(s, want.lo, want.hi) THEN Bad({"C10"}, what \o " of " \o Show(R.lo, R.hi) \o " with " \o Show(s.lo, s.hi) \o " leaves " \o Show(s.s, s.e) \o " expected " \o Show(want.lo, want.hi)) ELSE {})
       \cup (IF s.lo2 # s.lo \/ s.hi2 # s.hi THEN Bad({"C10"}, what \o " changes its argument") ELSE {})

SplitBads(R, s) ==
  LET want == Split(R.lo, R.hi)
  IN IF s.out # "ok" THEN Bad({"C09"}, "splitting " \o Show(R.lo, R.hi) \o " " \o s.out \o " " \o Get(s, "why", ""))
     ELSE (IF s.nets # want THEN Bad({"C09"}, "splitting " \o Show(R.lo, R.hi) \o " yields " \o ToString(s.nets) \o " expected " \o ToString(want)) ELSE {})
          \cup (IF ~IsRng(s, R.lo, R.hi) THEN Bad({"C09", "C10"}, "splitting changes the range") ELSE {})

AddrBads(q) ==
  LET f == q[1]
      a == q[2]
      W == Len(a)
      res == q[3]
      eq(x, what) == IF res # x THEN Bad({"C29"}, f \o " of " \o a \o " is " \o res \o " expected " \o x) ELSE {}
      b(x) == IF q[4] # x THEN Bad({"C29"}, f \o " of " \o a \o " and " \o res \o " is " \o ToString(q[4])) ELSE {}
  IN CASE f \in {"fromu32", "tou32", "strtou32", "back", "u64x2"} -> eq(a, f)
       [] f = "u64" -> eq(Pre(a, 64) \o Zeros(64), f)
       [] f = "next" -> IF IsMax(a) THEN {} ELSE eq(Succ(a), f)
       [] f = "less" -> b(LT(a, res))
       [] f = "between" -> b(res = a)
       [] f = "max" -> b(IsMax(a))
       [] f = "first" -> b(IsMin(a))
       [] f = "last" -> eq(Hi(a, q[4]), f)
       [] f = "nextstart" -> IF IsMax(Hi(a, q[4])) THEN {} ELSE eq(Succ(Hi(a, q[4])), f)
       [] f = "net" -> eq(Pre(a, q[4]), f)
       [] f = "maskless" -> b(Len(a) > Len(res))
       [] f = "masklessfam" -> b(q[5])
       [] f = "mutated" -> Bad({"C29"}, "address " \o a \o " was changed to " \o res)

RangeOps == {"range", "rcontains", "rsplit", "rjoin", "rcommon", "addrs", "rsort"}
RangeStep(env, s, sc) ==
  CASE s.op = "range" ->
         IF s.out # "ok" \/ ~IsRng(s, s.lo, s.hi)
         THEN Ret(With(env, s.r, Poison), Bad({"C10"}, "range " \o Show(s.lo, s.hi) \o " " \o s.out \o " is " \o Show(Get(s, "s", ""), Get(s, "e", ""))))
         ELSE Ret(With(env, s.r, Rng(s.fam, s.lo, s.hi)), {})
    [] s.op \in {"rcontains", "rsplit", "rjoin", "rcommon"} ->
         IF Poisoned(env, s.r) THEN Ret(env, {})
         ELSE LET R == env[s.r]
              IN IF s.op = "rsplit" THEN Ret(env, SplitBads(R, s))
                 ELSE IF s.op = "rcontains" THEN
                   Ret(env, IF s.out # "ok" THEN Bad({"C10"}, "membership " \o s.out)
                            ELSE UNION {LET x == InRange(R.lo, R.hi, s.q[i][1])
                                        IN IF s.q[i][2] # x \/ s.q[i][3] # x THEN Bad({"C10"}, "membership of " \o s.q[i][1] \o " in " \o Show(R.lo, R.hi) \o " is " \o ToString(s.q[i])) ELSE {}
                                        : i \in 1..Len(s.q)})
                 ELSE LET ok == IF s.op = "rjoin" THEN InRange(R.lo, R.hi, s.lo) \/ Touches(R.hi, s.lo)
                                ELSE InRange(R.lo, R.hi, s.a) /\ InRange(s.lo, s.hi, s.a)
                          want == IF ~ok THEN R
                                  ELSE IF s.op = "rjoin" THEN [R EXCEPT !.hi = MaxA(R.hi, s.hi)]
                                  ELSE [R EXCEPT !.lo = MaxA(R.lo, s.lo), !.hi = MinA(R.hi, s.hi)]
                          bads == RangeBads(s, R, want, ok, s.op)
                      IN Ret(With(env, s.r, IF bads # {} THEN Poison ELSE want), bads)
    [] s.op = "addrs" -> Ret(env, IF s.out # "ok" THEN Bad({"C29"}, "address functions " \o s.out \o " " \o Get(s, "why", "")) ELSE UNION {AddrBads(s.q[i]) : i \in 1..Len(s.q)})
    [] s.op = "rsort" ->
         Ret(env, IF s.out # "ok" THEN Bad({"C29"}, "sorting ranges " \o s.out)
                  ELSE IF Len(s.res) # Len(s.in) \/ Seq2Set(s.res) # Seq2Set(s.in) \/ \E i \in 1..(Len(s.res) - 1) : LT(s.res[i + 1][1], s.res[i][1])
                  THEN Bad({"C29"}, "sorted ranges " \o ToString(s.res)) ELSE {})
=============================================================================
