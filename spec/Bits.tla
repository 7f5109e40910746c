-------------------------------- MODULE Bits --------------------------------
(* Addresses are bit strings of one length W ("0101..."), networks are the
   bit strings of length 0..W that prefix all their addresses.  Every operator
   is width independent: the same definitions are model checked with W = 3..5
   and evaluated on recorded traces with W = 32 and W = 128. *)
EXTENDS Naturals, Sequences, FiniteSets

ZEROS == "00000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000"
ONES  == "11111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111111"

Pre(a, n)    == SubSeq(a, 1, n)
Suf(a, n)    == SubSeq(a, Len(a) - n + 1, Len(a))      \* the last n bits
Zeros(n)     == SubSeq(ZEROS, 1, n)
Ones(n)      == SubSeq(ONES, 1, n)
Bit(a, i)    == SubSeq(a, i, i)

Lo(p, W)  == p \o Zeros(W - Len(p))                 \* lowest address of a network
Hi(p, W)   == p \o Ones(W - Len(p))                  \* highest address of a network
Covers(p, a) == Len(p) <= Len(a) /\ Pre(a, Len(p)) = p \* network p contains a (address or network)
Comparable(p, q) == Covers(p, q) \/ Covers(q, p)

(* Length of the longest common prefix, trailing ones / zeros: binary search
   on a monotone predicate over lo..hi that holds at lo. *)
RECURSIVE BSLcp(_, _, _, _)
BSLcp(a, b, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET m == (lo + hi + 1) \div 2
       IN IF Pre(a, m) = Pre(b, m) THEN BSLcp(a, b, m, hi) ELSE BSLcp(a, b, lo, m - 1)
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Lcp(a, b) == BSLcp(a, b, 0, Min2(Len(a), Len(b)))

RECURSIVE BSTail(_, _, _, _)
BSTail(a, all, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET m == (lo + hi + 1) \div 2
       IN IF Suf(a, m) = Pre(all, m) THEN BSTail(a, all, m, hi) ELSE BSTail(a, all, lo, m - 1)
TrailOnes(a)  == BSTail(a, ONES, 0, Len(a))
TrailZeros(a) == BSTail(a, ZEROS, 0, Len(a))

(* Order of addresses of the same width. *)
LT(a, b) == LET n == Lcp(a, b) IN n < Len(a) /\ Bit(a, n + 1) = "0"
LE(a, b) == a = b \/ LT(a, b)
MaxA(a, b) == IF LT(a, b) THEN b ELSE a
MinA(a, b) == IF LT(a, b) THEN a ELSE b

IsMax(a) == a = Ones(Len(a))
IsMin(a) == a = Zeros(Len(a))
(* Successor, wrapping like the code does; callers guard with IsMax. *)
Succ(a) == LET k == TrailOnes(a)
           IN IF k = Len(a) THEN Zeros(k) ELSE Pre(a, Len(a) - k - 1) \o "1" \o Zeros(k)
Pred(a) == LET k == TrailZeros(a)
           IN IF k = Len(a) THEN Ones(k) ELSE Pre(a, Len(a) - k - 1) \o "0" \o Ones(k)

(* Finite spaces for model checking. *)
RECURSIVE Addrs(_)
Addrs(W) == IF W = 0 THEN {""} ELSE LET A == Addrs(W - 1) IN {a \o "0" : a \in A} \cup {a \o "1" : a \in A}
Nets(W)  == UNION {Addrs(n) : n \in 0..W}
(* Numeric value, model checking only: the order above must agree with it. *)
RECURSIVE Val(_)
Val(a) == IF a = "" THEN 0 ELSE 2 * Val(Pre(a, Len(a) - 1)) + (IF Bit(a, Len(a)) = "1" THEN 1 ELSE 0)
=============================================================================
