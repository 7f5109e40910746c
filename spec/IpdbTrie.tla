------------------------------ MODULE IpdbTrie ------------------------------
(* The ipdb writer and reader at node level: insertion into a binary trie whose
   slots are empty, a child or a data offset; the saved image with one number
   space for nodes, "nothing" and data; the reader with its precomputed jump
   table for the first CD bits of IPv4.  Refines the abstract file of Ipdb.tla:
   after every history of insertions every address gets the abstract answer.

   W     bits of the full space (128 in the code)
   M     the mapped prefix (80 zeros, 16 ones in the code), "" for no dual stack
   CD    depth of the jump table below M (14 in the code) *)
EXTENDS Nets, Json, IOUtils

CONSTANTS W, M, CD, MaxOffers, NumVals
VARIABLES node,      \* sequence of <<left, right>>: 0 empty, n>0 node n (0-based), -o data at o
          data,      \* sequence of stored values; offset of the i-th is 8 + i - 1
          whole,     \* the root holds ::/0 in both its slots
          hist       \* the offers so far
vars == <<node, data, whole, hist>>

Vals == 1..NumVals
Init == node = << <<0, 0>> >> /\ data = <<>> /\ whole = FALSE /\ hist = <<>>

BitAt(p, i) == IF Bit(p, i) = "1" THEN 2 ELSE 1

(* The path to the slot of p: creates missing nodes, fails at data. *)
RECURSIVE Path(_, _, _, _)
Path(nd, n, p, i) ==
  IF i = Len(p) THEN [ok |-> TRUE, nd |-> nd, n |-> n, b |-> BitAt(p, i)]
  ELSE LET b == BitAt(p, i)
           x == nd[n + 1][b]
       IN IF x < 0 THEN [ok |-> FALSE, nd |-> nd, n |-> n, b |-> b]
          ELSE IF x > 0 THEN Path(nd, x, p, i + 1)
          ELSE LET nd2 == Append([nd EXCEPT ![n + 1][b] = Len(nd)], <<0, 0>>)
               IN Path(nd2, Len(nd), p, i + 1)

Offset(d, v) == IF \E i \in 1..Len(d) : d[i] = v
                THEN [d |-> d, o |-> 8 + (CHOOSE i \in 1..Len(d) : d[i] = v) - 1]
                ELSE [d |-> Append(d, v), o |-> 8 + Len(d)]

Insert(p, v) ==
  LET w == p = ""
      q == IF w THEN "0" ELSE p
      path == Path(node, 0, q, 1)
      refused == (w # whole /\ node[1] # <<0, 0>>) \/ ~path.ok \/ path.nd[path.n + 1][path.b] > 0
  IN /\ Len(hist) < MaxOffers
     /\ hist' = Append(hist, <<p, v>>)
     /\ IF w # whole /\ node[1] # <<0, 0>> THEN UNCHANGED <<node, data, whole>>
        ELSE IF refused THEN node' = path.nd /\ UNCHANGED <<data, whole>>
        ELSE LET x == Offset(data, v)
                 n1 == [path.nd EXCEPT ![path.n + 1][path.b] = -x.o]
             IN /\ node' = IF w THEN [n1 EXCEPT ![path.n + 1][3 - path.b] = -x.o] ELSE n1
                /\ data' = x.d
                /\ whole' = w

Next == \E p \in Nets(W), v \in Vals : Insert(p, v)
Spec == Init /\ [][Next]_vars

(* -- the saved image: one number per slot -------------------------------- *)
NC == Len(node)
Img(n, b) == LET x == node[n + 1][b] IN IF x <= 0 THEN NC - x ELSE x

(* -- the reader ------------------------------------------------------------ *)
RECURSIVE Depth(_, _, _, _)
Depth(n, d, i, a) == IF i = d \/ n >= NC THEN <<n, i>> ELSE Depth(Img(n, BitAt(a, i + 1)), d, i + 1, a)

V4Root == Depth(0, Len(M), 0, M)[1]
(* jump table entry of the first CD bits of an IPv4 address *)
Jump(a) == Depth(V4Root, CD, 0, Pre(a, CD) \o Zeros(Len(a)))
Search(n0, i0, a) ==
  LET r == Depth(n0, Len(a), i0, a)
  IN IF r[1] > NC THEN [ok |-> TRUE, len |-> r[2], v |-> data[r[1] - NC - 8 + 1], at |-> r[1]]
     ELSE [ok |-> FALSE]
Find6(a) == Search(0, 0, a)
Find4(a) ==     \* a: bits below M
  LET j == Jump(a)
  IN IF j[1] > NC THEN [ok |-> TRUE, len |-> j[2], v |-> data[j[1] - NC - 8 + 1], at |-> j[1]]
     ELSE Search(j[1], j[2], a)

(* -- refinement -------------------------------------------------------------- *)
T == Accept(hist)
D == DOMAIN T
Abs(a) == IF HasNet(D, a) THEN [ok |-> TRUE, v |-> T[NetOf(D, a)], len |-> Max2(Len(NetOf(D, a)), 1)] ELSE [ok |-> FALSE]
Same(r, x) == r.ok = x.ok /\ (r.ok => r.v = x.v)
Answers6 == \A a \in Addrs(W) : LET r == Find6(a) x == Abs(a) IN Same(r, x) /\ (r.ok => r.len = x.len)
W4 == W - Len(M)
Answers4 ==
  \A a \in Addrs(W4) :
     LET r == Find4(a)
         x == Abs(M \o a)
     IN Same(r, x) /\ (r.ok => r.len = Max2(Len(NetOf(D, M \o a)) - Len(M), 0))
(* the cache of decoded records is keyed by what find returns as position:
   equal positions must mean equal values *)
KeyIsValue == \A a, b \in Addrs(W) : LET r == Find6(a) q == Find6(b) IN (r.ok /\ q.ok /\ r.at = q.at) => r.v = q.v
(* properties of Accept that the statement of C02 is about *)
AcceptOk ==
  /\ \A p, q \in D : p # q => ~Comparable(p, q)
  /\ Len(hist) > 0 =>
       LET before == Accept(SubSeq(hist, 1, Len(hist) - 1))
           o == hist[Len(hist)]
       IN \/ T = before
          \/ T = (o[1] :> o[2]) @@ before /\ ~Clash(before, o[1])
ParentsLinked == \A n \in 0..(Len(node) - 1) : \A b \in {1, 2} : node[n + 1][b] > n \/ node[n + 1][b] <= 0

View == <<node, data, whole, T>>
Refines == Answers6 /\ Answers4 /\ KeyIsValue /\ AcceptOk /\ ParentsLinked

(* -- generation: every history of offered networks is a test --------------------- *)
Gen == Len(hist) = 0 \/ PrintT("@@SCEN " \o ToJson([w |-> W, offers |-> [i \in 1..Len(hist) |-> hist[i][1]]]))
=============================================================================
