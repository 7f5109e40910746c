-------------------------------- MODULE Data --------------------------------
(* The awdb data section: control bytes, sizes, pointers, and what a value
   becomes in a target of a given type.

   A section is [segs, size]: a few segments [o |-> offset, h |-> hex text],
   zeros in between.  A value is [t, p, c]: kind, payload text, children.
   Kinds: b (bytes or text), s (text), u, i, n (numbers: hex magnitude, "-"
   before negative ones), f32, f64 (hex of the bits), t (truth), a (array),
   m (map of entries e), st (struct of entries), nil, off (position). *)
EXTENDS Bits, SequencesExt, TLC

V(t, p, c) == [t |-> t, p |-> p, c |-> c]
OkV(v, next) == [ok |-> TRUE, v |-> v, next |-> next]
No(why) == [ok |-> FALSE, why |-> why]

(* -- bytes ------------------------------------------------------------------ *)
HD == ("0" :> 0) @@ ("1" :> 1) @@ ("2" :> 2) @@ ("3" :> 3) @@ ("4" :> 4) @@ ("5" :> 5) @@ ("6" :> 6) @@ ("7" :> 7) @@
      ("8" :> 8) @@ ("9" :> 9) @@ ("a" :> 10) @@ ("b" :> 11) @@ ("c" :> 12) @@ ("d" :> 13) @@ ("e" :> 14) @@ ("f" :> 15)
HB == ("0" :> "0000") @@ ("1" :> "0001") @@ ("2" :> "0010") @@ ("3" :> "0011") @@ ("4" :> "0100") @@ ("5" :> "0101") @@ ("6" :> "0110") @@ ("7" :> "0111") @@
      ("8" :> "1000") @@ ("9" :> "1001") @@ ("a" :> "1010") @@ ("b" :> "1011") @@ ("c" :> "1100") @@ ("d" :> "1101") @@ ("e" :> "1110") @@ ("f" :> "1111")
BH == [b \in {HB[d] : d \in DOMAIN HB} |-> CHOOSE d \in DOMAIN HB : HB[d] = b]
ByteOf(h) == 16 * HD[SubSeq(h, 1, 1)] + HD[SubSeq(h, 2, 2)]
RECURSIVE ToBits(_), ToHex(_), NumOf(_)
ToBits(h) == IF h = "" THEN "" ELSE HB[SubSeq(h, 1, 1)] \o ToBits(SubSeq(h, 2, Len(h)))
ToHex(b) == IF b = "" THEN "" ELSE BH[SubSeq(b, 1, 4)] \o ToHex(SubSeq(b, 5, Len(b)))
NumOf(h) == IF h = "" THEN 0 ELSE 256 * NumOf(SubSeq(h, 1, Len(h) - 2)) + ByteOf(Suf(h, 2))       \* below 2^31
RECURSIVE ZeroBytes(_), Strip(_)
ZeroBytes(n) == IF n = 0 THEN "" ELSE "00" \o ZeroBytes(n - 1)
Strip(h) == IF Len(h) >= 2 /\ SubSeq(h, 1, 2) = "00" THEN Strip(SubSeq(h, 3, Len(h))) ELSE h
BitLen(h) == IF h = "" THEN 0 ELSE LET b == ToBits(SubSeq(h, 1, 2)) IN Len(h) * 4 - (CHOOSE k \in 0..8 : (k = 8 \/ Bit(b, k + 1) = "1") /\ Pre(b, k) = Zeros(k))

(* n bytes at o; the caller knows that they are inside the section *)
SegAt(ds, o, n) == {i \in 1..Len(ds.segs) : ds.segs[i].o <= o /\ o + n <= ds.segs[i].o + Len(ds.segs[i].h) \div 2}
RECURSIVE Bytes(_, _, _)
Bytes(ds, o, n) ==
  IF n = 0 THEN ""
  ELSE LET hits == SegAt(ds, o, n)
       IN IF hits # {} THEN LET g == ds.segs[CHOOSE i \in hits : TRUE] IN SubSeq(g.h, 2 * (o - g.o) + 1, 2 * (o - g.o + n))
          ELSE IF n = 1 THEN "00"
          ELSE Bytes(ds, o, 1) \o Bytes(ds, o + 1, n - 1)
Byte(ds, o) == ByteOf(Bytes(ds, o, 1))
Inside(ds, o, n) == o + n <= ds.size

(* -- control bytes ---------------------------------------------------------------- *)
PTR == 1  STR == 2  F64 == 3  BYT == 4  U16 == 5  U32 == 6  MAP == 7  I32 == 8  U64 == 9  U128 == 10  ARR == 11  BOOL == 14  F32 == 15
(* [ok, t, size, next]; for pointers size is what the low bits say *)
Ctrl(ds, o) ==
  IF ~Inside(ds, o, 1) THEN No("end")
  ELSE LET c == Byte(ds, o)
           ext == c \div 32 = 0
       IN IF ext /\ ~Inside(ds, o + 1, 1) THEN No("end")
          ELSE LET t == IF ext THEN 7 + Byte(ds, o + 1) ELSE c \div 32
                   at == IF ext THEN o + 2 ELSE o + 1
                   low == c % 32
                   more == low - 28
               IN IF t = PTR \/ low < 29 THEN [ok |-> TRUE, t |-> t, size |-> low, next |-> at]
                  ELSE IF ~Inside(ds, at, more) THEN No("end")
                  ELSE [ok |-> TRUE, t |-> t, next |-> at + more,
                        size |-> NumOf(Bytes(ds, at, more)) + (CASE low = 29 -> 29 [] low = 30 -> 285 [] low = 31 -> 65821)]
(* where a pointer points *)
Target(ds, c) ==
  LET n == c.size \div 8 + 1
      low == c.size % 8
  IN IF ~Inside(ds, c.next, n) THEN No("end")
     ELSE LET h == Bytes(ds, c.next, n)
          IN IF n = 4 THEN IF ByteOf(SubSeq(h, 1, 2)) >= 128 THEN No("end") ELSE [ok |-> TRUE, to |-> NumOf(h), next |-> c.next + n]
             ELSE [ok |-> TRUE, next |-> c.next + n,
                   to |-> low * (CASE n = 1 -> 256 [] n = 2 -> 65536 [] n = 3 -> 16777216) + NumOf(h) + (CASE n = 1 -> 0 [] n = 2 -> 2048 [] n = 3 -> 526336)]

(* the position behind a value, without looking into it more than needed *)
RECURSIVE Skip(_, _, _)
Skip(ds, o, n) ==
  IF n = 0 THEN [ok |-> TRUE, next |-> o]
  ELSE LET c == Ctrl(ds, o)
       IN IF ~c.ok THEN c
          ELSE CASE c.t = PTR -> LET t == Target(ds, c) IN IF t.ok THEN Skip(ds, t.next, n - 1) ELSE t
                 [] c.t = MAP -> Skip(ds, c.next, n - 1 + 2 * c.size)
                 [] c.t = ARR -> Skip(ds, c.next, n - 1 + c.size)
                 [] c.t = BOOL -> Skip(ds, c.next, n - 1)
                 [] OTHER -> IF Inside(ds, c.next, c.size) THEN Skip(ds, c.next + c.size, n - 1) ELSE No("end")

(* -- values in targets ------------------------------------------------------------------ *)
(* A target is [k, bits, e, f, s]: any, int, uint, float, string, bytes, bool, big,
   slice and map (of e), struct (fields f = <<name, target>>, embedded structs s),
   ptr (to e), off. *)
RECURSIVE Zero(_)
StructZero(T) ==
  V("st", "", [i \in 1..Len(T.f) |-> V("e", T.f[i][1], <<Zero(T.f[i][2])>>)] \o [i \in 1..Len(T.s) |-> V("e", "", <<Zero(T.s[i])>>)])
Zero(T) ==
  CASE T.k = "int" -> V("i", "", <<>>) [] T.k = "uint" -> V("u", "", <<>>) [] T.k = "big" -> V("n", "", <<>>)
    [] T.k = "float" -> V(IF T.bits = 32 THEN "f32" ELSE "f64", ZeroBytes(T.bits \div 8), <<>>)
    [] T.k = "string" -> V("s", "", <<>>) [] T.k = "bytes" -> V("b", "", <<>>) [] T.k = "bool" -> V("t", "0", <<>>)
    [] T.k = "slice" -> V("a", "", <<>>) [] T.k = "map" -> V("m", "", <<>>)
    [] T.k = "off" -> V("off", "0", <<>>)
    [] T.k = "struct" -> StructZero(T)
    [] OTHER -> V("nil", "", <<>>)

Complement(b) == FoldLeft(LAMBDA s, i : s \o (IF Bit(b, i) = "1" THEN "0" ELSE "1"), "", [i \in 1..Len(b) |-> i])
SignedHex(h) == IF Len(h) < 8 \/ Bit(ToBits(h), 1) = "0" THEN Strip(h) ELSE "-" \o Strip(ToHex(Succ(Complement(ToBits(h)))))
Negative(p) == p # "" /\ SubSeq(p, 1, 1) = "-"
Mag(p) == IF Negative(p) THEN SubSeq(p, 2, Len(p)) ELSE p
FitsInt(p, bits) ==
  LET m == Mag(p)
  IN IF Negative(p) THEN BitLen(m) < bits \/ (BitLen(m) = bits /\ \A i \in (Len(ToBits(m)) - bits + 2)..Len(ToBits(m)) : Bit(ToBits(m), i) = "0")
     ELSE BitLen(m) < bits
FitsUint(p, bits) == ~Negative(p) /\ BitLen(Mag(p)) <= bits

RECURSIVE BitNum(_), NumBits(_, _)
BitNum(b) == IF b = "" THEN 0 ELSE 2 * BitNum(Pre(b, Len(b) - 1)) + (IF Suf(b, 1) = "1" THEN 1 ELSE 0)
NumBits(n, w) == IF w = 0 THEN "" ELSE NumBits(n \div 2, w - 1) \o (IF n % 2 = 1 THEN "1" ELSE "0")
IsNaN32(h) == LET b == ToBits(h) IN SubSeq(b, 2, 9) = Ones(8) /\ Suf(b, 23) # Zeros(23)
FirstOne(m) == CHOOSE i \in 1..Len(m) : Bit(m, i) = "1" /\ Pre(m, i - 1) = Zeros(i - 1)
Widen(h) ==     \* float32 as float64; not for NaN
  LET b == ToBits(h)
      e == BitNum(SubSeq(b, 2, 9))
      m == SubSeq(b, 10, 32)
  IN IF Suf(b, 31) = Zeros(31) THEN ToHex(Bit(b, 1) \o Zeros(63))
     ELSE IF e = 255 THEN ToHex(Bit(b, 1) \o Ones(11) \o Zeros(52))
     ELSE IF e = 0 THEN LET i == FirstOne(m) IN ToHex(Bit(b, 1) \o NumBits(897 - i, 11) \o SubSeq(m, i + 1, 23) \o Zeros(29 + i))
     ELSE ToHex(Bit(b, 1) \o NumBits(e + 896, 11) \o m \o Zeros(29))
Narrow(h) ==    \* float64 as the nearest float32, "over", or "" for what is left open (NaN, the very small and the largest)
  LET b == ToBits(h)
      e == BitNum(SubSeq(b, 2, 12))
      m == SubSeq(b, 13, 64)
      down == NumBits(e - 896, 8) \o Pre(m, 23)
      rest == Suf(m, 29)
      up == IF rest = "1" \o Zeros(28) THEN Bit(m, 23) = "1" ELSE Bit(rest, 1) = "1"
  IN IF Suf(b, 63) = Zeros(63) THEN ToHex(Bit(b, 1) \o Zeros(31))
     ELSE IF e = 2047 THEN IF m = Zeros(52) THEN ToHex(Bit(b, 1) \o Ones(8) \o Zeros(23)) ELSE ""
     ELSE IF e > 1150 THEN "over"
     ELSE IF e < 897 \/ (e = 1150 /\ Pre(m, 23) = Ones(23) /\ rest # Zeros(29)) THEN ""
     ELSE ToHex(Bit(b, 1) \o (IF up THEN Succ(down) ELSE down))

Loose == No("unspecified")
Scalar(T, c, h) ==   \* c: control data, h: the bytes
  LET num == IF c.t = I32 THEN SignedHex(h) ELSE Strip(h)
      wide == CASE c.t = U16 -> 2 [] c.t \in {U32, I32} -> 4 [] c.t = U64 -> 8 [] c.t = U128 -> 16 [] OTHER -> 0
      is(t, p) == [ok |-> TRUE, v |-> V(t, p, <<>>)]
  IN CASE c.t \in {U16, U32, U64, I32} ->
            IF c.size > wide THEN No("bad size")
            ELSE CASE T.k = "any" -> is(IF c.t = I32 THEN "i" ELSE "u", num)
                   [] T.k = "int" -> IF FitsInt(num, T.bits) THEN is("i", num) ELSE No("overflow")
                   [] T.k = "uint" -> IF FitsUint(num, T.bits) THEN is("u", num) ELSE No("overflow")
                   [] OTHER -> No("type")
       [] c.t = U128 -> IF c.size > wide THEN No("bad size") ELSE IF T.k \in {"any", "big"} THEN is("n", num) ELSE No("type")
       [] c.t = STR -> IF T.k = "any" THEN is("b", h) ELSE IF T.k = "string" THEN is("s", h) ELSE IF T.k = "bytes" THEN Loose ELSE No("type")
       [] c.t = BYT -> IF T.k \in {"any", "bytes"} THEN is("b", h) ELSE IF T.k = "string" THEN Loose ELSE No("type")
       [] c.t = F32 -> IF c.size # 4 THEN No("bad size")
                       ELSE IF T.k = "any" THEN is("f32", h)
                       ELSE IF T.k = "float" THEN IF IsNaN32(h) THEN Loose ELSE IF T.bits = 32 THEN is("f32", h) ELSE is("f64", Widen(h))
                       ELSE No("type")
       [] c.t = F64 -> IF c.size # 8 THEN No("bad size")
                       ELSE IF T.k = "any" \/ (T.k = "float" /\ T.bits = 64) THEN is("f64", h)
                       ELSE IF T.k = "float" THEN LET n == Narrow(h) IN IF n = "" THEN Loose ELSE IF n = "over" THEN No("overflow") ELSE is("f32", n)
                       ELSE No("type")
       [] OTHER -> No("unknown type")

Anything == [k |-> "any"]
(* d: how deep; path: the pointers being followed, each with what it is read as:
   the same again never ends. *)
RECURSIVE KeyAt(_, _, _, _, _)
KeyAt(ds, o, d, limit, path) ==
  IF d > limit THEN No("deep")
  ELSE LET c == Ctrl(ds, o)
       IN IF ~c.ok THEN c
          ELSE IF c.t = PTR THEN LET t == Target(ds, c) IN IF ~t.ok THEN t ELSE IF <<t.to, "key">> \in path THEN No("cycle") ELSE LET k == KeyAt(ds, t.to, d + 1, limit, path \cup {<<t.to, "key">>}) IN IF k.ok THEN [k EXCEPT !.next = t.next] ELSE k
          ELSE IF c.t # STR THEN No("key")
          ELSE IF ~Inside(ds, c.next, c.size) THEN No("end")
          ELSE [ok |-> TRUE, key |-> Bytes(ds, c.next, c.size), next |-> c.next + c.size]

Put(c, e) == SelectSeq(c, LAMBDA x : x.p # e.p) \o <<e>>       \* the last of equal keys counts
Lasts(c) == IF Cardinality({c[i].p : i \in 1..Len(c)}) = Len(c) THEN c ELSE FoldLeft(Put, <<>>, c)
RECURSIVE Dec(_, _, _, _, _, _)
Entries(ds, c, T, d, limit, path) ==
  FoldLeft(LAMBDA st, i :
     IF ~st.ok THEN st
     ELSE LET k == KeyAt(ds, st.next, d + 1, limit, path)
          IN IF ~k.ok THEN k
             ELSE LET r == Dec(ds, k.next, T, d + 1, limit, path)
                  IN IF ~r.ok THEN r ELSE [ok |-> TRUE, next |-> r.next, c |-> Append(st.c, V("e", k.key, <<r.v>>))],
     [ok |-> TRUE, next |-> c.next, c |-> <<>>], [i \in 1..c.size |-> i])
Named(T, key) == {j \in 1..Len(T.f) : T.f[j][1] = key}
StructOf(ds, c, T, d, limit, path, DecS(_)) ==
  LET subs == [j \in 1..Len(T.s) |-> DecS(T.s[j])]
      badsub == {j \in 1..Len(T.s) : ~subs[j].ok}
      st0 == [ok |-> TRUE, next |-> c.next, f |-> [j \in 1..Len(T.f) |-> Zero(T.f[j][2])]]
      st == FoldLeft(LAMBDA a, i :
              IF ~a.ok THEN a
              ELSE LET k == KeyAt(ds, a.next, d + 1, limit, path)
                   IN IF ~k.ok THEN k
                      ELSE IF Named(T, k.key) = {} THEN LET x == Skip(ds, k.next, 1) IN IF x.ok THEN [a EXCEPT !.next = x.next] ELSE x
                      ELSE LET j == CHOOSE j \in Named(T, k.key) : TRUE
                               r == Dec(ds, k.next, T.f[j][2], d + 1, limit, path)
                           IN IF ~r.ok THEN r ELSE [a EXCEPT !.next = r.next, !.f[j] = r.v], st0, [i \in 1..c.size |-> i])
  IN IF badsub # {} THEN subs[CHOOSE j \in badsub : TRUE]
     ELSE IF ~st.ok THEN st
     ELSE OkV(V("st", "", [j \in 1..Len(T.f) |-> V("e", T.f[j][1], <<st.f[j]>>)] \o [j \in 1..Len(T.s) |-> V("e", "", <<subs[j].v>>)]), st.next)
RECURSIVE DecStruct(_, _, _, _, _, _)
DecStruct(ds, c, T, d, limit, path) == StructOf(ds, c, T, d, limit, path, LAMBDA S : DecStruct(ds, c, S, d, limit, path))

Dec(ds, o, T, d, limit, path) ==
  IF d > limit THEN No("deep")
  ELSE LET c == Ctrl(ds, o)
       IN IF ~c.ok THEN c
          ELSE IF c.t = PTR THEN LET t == Target(ds, c) IN IF ~t.ok THEN t ELSE IF <<t.to, ToString(T)>> \in path THEN No("cycle") ELSE LET r == Dec(ds, t.to, T, d + 1, limit, path \cup {<<t.to, ToString(T)>>}) IN IF r.ok THEN [r EXCEPT !.next = t.next] ELSE r
          ELSE IF T.k = "ptr" THEN Dec(ds, o, T.e, d, limit, path)
          ELSE IF T.k = "off" THEN LET s == Skip(ds, o, 1) IN IF s.ok THEN OkV(V("off", ToString(o), <<>>), s.next) ELSE s
          ELSE CASE c.t = MAP ->
                      (CASE T.k = "any" -> LET r == Entries(ds, c, Anything, d, limit, path) IN IF r.ok THEN OkV(V("m", "", Lasts(r.c)), r.next) ELSE r
                         [] T.k = "map" -> LET r == Entries(ds, c, T.e, d, limit, path) IN IF r.ok THEN OkV(V("m", "", Lasts(r.c)), r.next) ELSE r
                         [] T.k = "struct" -> DecStruct(ds, c, T, d, limit, path)
                         [] T.k = "big" -> No("unspecified")
                         [] OTHER -> No("type"))
                 [] c.t = ARR ->
                      IF T.k \notin {"any", "slice"} THEN IF T.k = "bytes" THEN No("unspecified") ELSE No("type")
                      ELSE LET E == IF T.k = "any" THEN Anything ELSE T.e
                               r == FoldLeft(LAMBDA st, i : IF ~st.ok THEN st
                                                           ELSE LET x == Dec(ds, st.next, E, d + 1, limit, path)
                                                                IN IF x.ok THEN [ok |-> TRUE, next |-> x.next, c |-> Append(st.c, x.v)] ELSE x,
                                             [ok |-> TRUE, next |-> c.next, c |-> <<>>], [i \in 1..c.size |-> i])
                           IN IF r.ok THEN OkV(V("a", "", r.c), r.next) ELSE r
                 [] c.t = BOOL -> IF c.size > 1 THEN No("bad size") ELSE IF T.k \in {"any", "bool"} THEN OkV(V("t", ToString(c.size), <<>>), c.next) ELSE No("type")
                 [] OTHER -> IF ~Inside(ds, c.next, c.size) THEN No("end")
                             ELSE LET r == Scalar(T, c, Bytes(ds, c.next, c.size)) IN IF r.ok THEN OkV(r.v, c.next + c.size) ELSE r

(* A deep value of single elements, as recorded: [t |-> "chain", p |-> kinds, c |-> <<innermost>>]. *)
RECURSIVE Chain(_, _)
Chain(v, kinds) ==
  IF v.t = "a" /\ Len(v.c) = 1 THEN Chain(v.c[1], kinds \o "a")
  ELSE IF v.t = "m" /\ Len(v.c) = 1 THEN Chain(v.c[1].c[1], kinds \o "m")
  ELSE V("chain", kinds, <<v>>)
(* Equal values: maps in any order. *)
RECURSIVE SameV(_, _)
SameV(a, b) ==
  \/ b.t = "chain" /\ a.t # "chain" /\ SameV(Chain(a, ""), b)
  \/ /\ a.t = b.t /\ a.p = b.p /\ Len(a.c) = Len(b.c)
     /\ IF a.t = "m" THEN \A i \in 1..Len(a.c) : \E j \in 1..Len(b.c) : SameV(a.c[i], b.c[j])
        ELSE \A i \in 1..Len(a.c) : SameV(a.c[i], b.c[i])
=============================================================================
