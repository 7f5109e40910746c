------------------------------- MODULE DataAlg -------------------------------
(* Every small value in every encoding - parts in place or behind pointers of
   each width - decodes to itself; skipping it ends where decoding it ends; and
   cells that point at each other in any way decode or fail, never run on. *)
EXTENDS Data, Json
CONSTANTS Deep,     \* values two levels deep
          MaxCh   \* length of the encoding choice

Hex1(n) == SubSeq("0123456789abcdef", n + 1, n + 1)
Hex2(n) == Hex1((n \div 16) % 16) \o Hex1(n % 16)
CtrlHex(t, size) == IF t <= 7 THEN Hex2(32 * t + size) ELSE Hex2(size) \o Hex2(t - 7)
Base == <<0, 2048, 526336>>
PtrHex(w, to) ==
  CASE w = 1 -> Hex2(32 + to \div 256) \o Hex2(to)
    [] w = 2 -> Hex2(40 + (to - 2048) \div 65536) \o Hex2((to - 2048) \div 256) \o Hex2(to - 2048)
    [] w = 3 -> Hex2(48) \o Hex2((to - 526336) \div 65536) \o Hex2((to - 526336) \div 256) \o Hex2(to - 526336)
    [] w = 4 -> Hex2(56) \o "00" \o Hex2(to \div 65536) \o Hex2(to \div 256) \o Hex2(to)

(* what is written: [t, h, c] with c the children; map children are <<key, value>> *)
W0(t, h) == [t |-> t, h |-> h, c |-> <<>>]
Leaves == {W0(STR, ""), W0(STR, "61"), W0(BYT, "00ff"), W0(U16, "0100"), W0(I32, "ffffffff"), W0(I32, "05"), W0(BOOL, ""), W0(BOOL, "1")}
Few == {W0(STR, "61"), W0(U16, ""), W0(BOOL, "1")}
Arr(xs) == [t |-> ARR, h |-> "", c |-> xs]
Map(kv) == [t |-> MAP, h |-> "", c |-> kv]
L1 == {Arr(<<>>), Map(<<>>)} \cup {Arr(<<x>>) : x \in Leaves} \cup {Arr(<<x, y>>) : x, y \in Few}
      \cup {Map(<<<<"6b", x>>>>) : x \in Leaves} \cup {Map(<<<<"6b", x>>, <<"6c", y>>>>) : x, y \in Few}
      \cup {Map(<<<<"6b", x>>, <<"6b", y>>>>) : x, y \in Few}
L2 == {Arr(<<x>>) : x \in L1} \cup {Map(<<<<"6b", x>>>>) : x \in L1} \cup {Arr(<<x, y>>) : x \in L1, y \in Few} \cup {Map(<<<<"6b", x>>, <<"6c", y>>>>) : x \in L1, y \in Few}
Writes == Leaves \cup L1 \cup (IF Deep THEN L2 ELSE {})

(* the writer: e = [h, st, i]: bytes, the regions, choices used *)
RECURSIVE Enc(_, _, _, _)
Ref(w, ch, i, st) ==
  LET k == ch[(i % Len(ch)) + 1]
      e == Enc(w, ch, i + 1, st)
      r == IF k = 4 THEN 1 ELSE k
  IN IF k = 0 THEN e
     ELSE [h |-> PtrHex(k, Base[r] + Len(e.st[r]) \div 2), i |-> e.i, st |-> [e.st EXCEPT ![r] = @ \o e.h]]
Enc(w, ch, i, st) ==
  CASE w.t = BOOL -> [h |-> CtrlHex(BOOL, IF w.h = "1" THEN 1 ELSE 0), st |-> st, i |-> i]
    [] w.t = ARR -> FoldLeft(LAMBDA a, x : LET e == Ref(x, ch, a.i, a.st) IN [h |-> a.h \o e.h, st |-> e.st, i |-> e.i],
                             [h |-> CtrlHex(ARR, Len(w.c)), st |-> st, i |-> i], w.c)
    [] w.t = MAP -> FoldLeft(LAMBDA a, kv : LET k == Ref(W0(STR, kv[1]), ch, a.i, a.st)
                                                 e == Ref(kv[2], ch, k.i, k.st)
                                             IN [h |-> a.h \o k.h \o e.h, st |-> e.st, i |-> e.i],
                             [h |-> CtrlHex(MAP, Len(w.c)), st |-> st, i |-> i], w.c)
    [] OTHER -> [h |-> CtrlHex(w.t, Len(w.h) \div 2) \o w.h, st |-> st, i |-> i]
(* the value that was written *)
RECURSIVE Meant(_)
Meant(w) ==
  CASE w.t \in {STR, BYT} -> V("b", w.h, <<>>) [] w.t = BOOL -> V("t", IF w.h = "1" THEN "1" ELSE "0", <<>>)
    [] w.t = U16 -> V("u", w.h, <<>>)
    [] w.t = I32 -> V("i", IF w.h = "ffffffff" THEN "-01" ELSE w.h, <<>>)
    [] w.t = ARR -> V("a", "", [i \in 1..Len(w.c) |-> Meant(w.c[i])])
    [] w.t = MAP -> V("m", "", FoldLeft(LAMBDA s, kv : Put(s, V("e", kv[1], <<Meant(kv[2])>>)), <<>>, w.c))

VARIABLES mode, wr, ch, cells
vars == <<mode, wr, ch, cells>>
Cells == {"p0", "p1", "p2", "leaf", "arr", "two", "mapk"}
Init == \/ mode = "write" /\ wr \in Writes /\ ch \in UNION {[1..n -> 0..4] : n \in 1..MaxCh} /\ cells = <<>>
        \/ mode = "cells" /\ wr = 0 /\ ch = <<0>> /\ cells \in [1..3 -> Cells]
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Out == LET e == Ref(wr, <<0>> \o ch, 0, <<"", "", "">>)
       IN [segs |-> <<[o |-> 0, h |-> e.st[1] \o e.h], [o |-> Base[2], h |-> e.st[2]], [o |-> Base[3], h |-> e.st[3]]>>,
           at |-> Len(e.st[1]) \div 2, len |-> Len(e.h) \div 2, size |-> Base[3] + Len(e.st[3]) \div 2]
Sec(o) == [segs |-> o.segs, size |-> o.size]

(* a struct that knows "k" only, with "k" of any type, an embedded one that knows "l" *)
Knows == [k |-> "struct", f |-> <<<<"6b", Anything>>>>, s |-> <<[k |-> "struct", f |-> <<<<"6c", Anything>>>>, s |-> <<>>]>>]
Of(v, key) == LET hit == {i \in 1..Len(v.c) : v.c[i].p = key} IN IF hit = {} THEN V("nil", "", <<>>) ELSE v.c[CHOOSE i \in hit : TRUE].c[1]
RoundTrip ==
  LET o == Out
      d == Dec(Sec(o), o.at, Anything, 0, 20, {})
      s == Dec(Sec(o), o.at, Knows, 0, 20, {})
      n == Skip(Sec(o), o.at, 1)
  IN /\ d.ok /\ SameV(d.v, Meant(wr)) /\ d.next = o.at + o.len
     /\ n.ok /\ n.next = d.next
     /\ s.ok <=> wr.t = MAP
     /\ s.ok => /\ s.next = d.next
                /\ SameV(s.v, V("st", "", <<V("e", "6b", <<Of(d.v, "6b")>>), V("e", "", <<V("st", "", <<V("e", "6c", <<Of(d.v, "6c")>>)>>)>>)>>))
     /\ ~Dec([Sec(o) EXCEPT !.size = o.at + o.len - 1], o.at, Anything, 0, 20, {}).ok      \* a byte missing at the end

(* cells of eight bytes; "pN" points at cell N *)
CellHex(c) ==
  CASE c = "p0" -> "2000" [] c = "p1" -> "2008" [] c = "p2" -> "2010" [] c = "leaf" -> "4161"
    [] c = "arr" -> "0104" \o "2008" [] c = "two" -> "0204" \o "2010" \o "2008" [] c = "mapk" -> "e1" \o "2010" \o "4161"
Pad(h) == h \o SubSeq("0000000000000000", 1, 16 - Len(h))
CellSec == [segs |-> <<[o |-> 0, h |-> Pad(CellHex(cells[1])) \o Pad(CellHex(cells[2])) \o Pad(CellHex(cells[3]))]>>, size |-> 24]
Refers(c) == CASE c = "p0" -> {1} [] c = "p1" -> {2} [] c = "p2" -> {3} [] c = "arr" -> {2} [] c = "two" -> {2, 3} [] c = "mapk" -> {3} [] OTHER -> {}
RECURSIVE Reach(_, _)
Reach(S, n) == IF n = 0 THEN S ELSE Reach(S \cup UNION {Refers(cells[i]) : i \in S}, n - 1)
OnCycle == \E i \in Reach({1}, 3) : i \in Reach(Refers(cells[i]), 3)
Cyclic ==
  LET d == Dec(CellSec, 0, Anything, 0, 20, {})
  IN /\ OnCycle => ~d.ok
     /\ ~d.ok => OnCycle \/ \E i \in Reach({1}, 3) : cells[i] = "mapk" /\ d.why = "key"
Correct == IF mode = "write" THEN RoundTrip ELSE Cyclic

(* boundary sizes of the control byte *)
ASSUME \A x \in {<<"5c", 28>>, <<"5d00", 29>>, <<"5dff", 284>>, <<"5e0000", 285>>, <<"5effff", 65820>>, <<"5f000000", 65821>>, <<"5f000100", 66077>>} :
          LET c == Ctrl([segs |-> <<[o |-> 0, h |-> x[1]]>>, size |-> 10], 0) IN c.ok /\ c.size = x[2] /\ c.next = Len(x[1]) \div 2
(* numbers in targets *)
ASSUME /\ SignedHex("ffffff80") = "-80" /\ SignedHex("80000000") = "-80000000" /\ SignedHex("00000080") = "80" /\ SignedHex("ff") = "ff"
       /\ FitsInt("-80", 8) /\ ~FitsInt("-81", 8) /\ FitsInt("7f", 8) /\ ~FitsInt("80", 8) /\ ~FitsUint("-01", 64) /\ FitsUint("ff", 8) /\ ~FitsUint("0100", 8)
       /\ FitsInt("-8000", 16) /\ ~FitsInt("-8001", 16) /\ FitsInt("", 8) /\ FitsUint("", 8)
       /\ Widen("3fc00000") = "3ff8000000000000" /\ Widen("ff800000") = "fff0000000000000" /\ Widen("80000000") = "8000000000000000"
       /\ Narrow("3ff8000000000000") = "3fc00000" /\ Narrow("7fe0000000000000") = "over" /\ Narrow("7ff0000000000000") = "7f800000" /\ Narrow("3ff8000000000001") = "3fc00000"
       /\ Widen("00000001") = "36a0000000000000" /\ Widen("007fffff") = "380fffffc0000000" /\ Narrow("3ff0000010000000") = "3f800000" /\ Narrow("3ff0000030000000") = "3f800002"
       /\ Narrow("3ff0000010000001") = "3f800001" /\ Narrow("3ffffffff0000000") = "40000000"

Gen == PrintT("@@SCEN " \o ToJson(IF mode = "write" THEN [k |-> "write", at |-> Out.at, segs |-> Out.segs, size |-> Out.size]
                                  ELSE [k |-> "cells", at |-> 0, segs |-> CellSec.segs, size |-> CellSec.size]))
=============================================================================
