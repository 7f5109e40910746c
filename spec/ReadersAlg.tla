----------------------------- MODULE ReadersAlg -----------------------------
(* The Java and Rust readers over the image IpdbTrie writes: a jump table of
   their own depth, "at least the node count ends the walk", and a record table
   by position filled ahead.  All three readers give the same answers. *)
EXTENDS IpdbTrie
CONSTANT JD            \* depth of the jump table of Java and Rust (12 in the code)

Result(n) == IF n <= NC THEN [ok |-> FALSE] ELSE [ok |-> TRUE, v |-> data[n - NC - 8 + 1]]
(* the walk to the root of IPv4: Rust stops after the step that left the nodes *)
RECURSIVE RustRoot(_, _)
RustRoot(n, i) == IF i > Len(M) THEN n
                  ELSE LET x == Img(n, BitAt(M, i)) IN IF x >= NC THEN x ELSE RustRoot(x, i + 1)
JavaRoot == V4Root
RustV4 == RustRoot(0, 1)
Table2(root, a) == Depth(root, JD, 0, Pre(a, JD) \o Zeros(Len(a)))[1]
Other6(a) == LET n == Depth(0, Len(a), 0, a)[1] IN IF n >= NC THEN Result(n) ELSE [ok |-> FALSE]
Other4(root, a) ==
  LET j == Table2(root, a)
  IN IF j >= NC THEN Result(j)
     ELSE LET n == Depth(j, Len(a), JD, a)[1] IN IF n >= NC THEN Result(n) ELSE [ok |-> FALSE]
(* Java keeps the records of some addresses by position *)
PosJava(a) == LET j == Table2(JavaRoot, a) IN IF j >= NC THEN j ELSE Depth(j, Len(a), JD, a)[1]
Kept(warm, a) == LET hits == {w \in warm : PosJava(w) = PosJava(a) /\ Result(PosJava(w)).ok}
                 IN IF hits = {} THEN Other4(JavaRoot, a) ELSE Result(PosJava(CHOOSE w \in hits : TRUE))
Agree ==
  /\ JavaRoot = RustV4
  /\ \A a \in Addrs(W) : Same(Other6(a), Abs(a))
  /\ \A a \in Addrs(W4) : /\ Same(Other4(JavaRoot, a), Abs(M \o a))
                          /\ Same(Other4(RustV4, a), Find4(a))
                          /\ \A w \in Addrs(W4) : Same(Kept({w}, a), Find4(a))
=============================================================================
