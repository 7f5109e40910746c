------------------------------- MODULE OpsAlg -------------------------------
(* The processing steps as loops over a heap: rows point to value slices, equal
   neighbours share one slice (that is what a dump makes), and each step either
   writes through the pointer or gives the row a slice of its own.  After every
   step the table read through the pointers is what Ops.tla says. *)
EXTENDS Ops
CONSTANTS MaxOps
VARIABLES fields, heap, ptr, nets, op, k, pre, done, tmp
vars == <<fields, heap, ptr, nets, op, k, pre, done, tmp>>

Lists == {<<"country", "isp">>, <<"isp", "asn", "province">>, <<"line", "country", "isp">>, <<"asn", "isp">>, <<"district">>, <<"province", "district", "asn">>, <<"asn">>, <<"city", "province">>}
Alphabet == [country |-> {CHINA, "x"}, isp |-> {TELECOM, "i"}, asn |-> {"1", ""}, province |-> {TAIWAN, "p"}, line |-> {"l"}, district |-> {"d"}, city |-> {"c", "e"}]
Norm0 == [isp |-> ("i" :> "j") @@ ("j" :> "k"), province |-> ("p" :> TAIWAN), city |-> ("c" :> "e") @@ ("e" :> "c")]
W0 == 1
Nets0 == <<"0", "1">>
Lines == ((MAPPED \o Zeros(32)) :> (TIETONG \o "/x")) @@ ((MAPPED \o Ones(32)) :> "z")
(* the model's 1 bit addresses stand for the ends of the IPv4 space *)
LineAt(net) == ShownLine(Lines[IF net = "1" THEN MAPPED \o Ones(32) ELSE MAPPED \o Zeros(32)])
AsnMap == ("1" :> "L1")

Names == {"normalise", "trim", "merge", "attach", "replace", "byasn", "district"}
Tab(fs, rows) == [fam |-> "4", fields |-> fs, rows |-> rows, extra |-> <<>>]
Now == Tab(fields, [i \in 1..Len(ptr) |-> [net |-> nets[i], vals |-> heap[ptr[i]]]])

RowLineM(T, r) == IF Value(T, r, "country") = CHINA THEN LineAt(r.net) ELSE ""
Want(T, o) ==
  CASE o = "normalise" -> Normalise(T, Norm0)
    [] o = "trim" -> Trim(T)
    [] o = "merge" -> [T EXCEPT !.rows = MergeRows(T.rows, W0)]
    [] o = "attach" -> IF Col(T, "country") = 0 /\ Col(T, "line") # 0 THEN T ELSE SetColumn(T, "line", LAMBDA r : RowLineM(T, r))
    [] o = "replace" -> IF Col(T, "isp") = 0 \/ Col(T, "country") = 0 THEN T
                        ELSE MapRows(T, LAMBDA r : LET l == RowLineM(T, r) IN IF l = "" THEN r.vals ELSE [r.vals EXCEPT ![Col(T, "isp")] = l])
    [] o = "byasn" -> IF Col(T, "line") # 0 THEN T ELSE AttachAsn(T, AsnMap)
    [] o = "district" -> AttachDistrict(T)

RECURSIVE Values(_)
Values(fs) == IF fs = <<>> THEN {<<>>} ELSE {Append(q, v) : q \in Values(SubSeq(fs, 1, Len(fs) - 1)), v \in Alphabet[fs[Len(fs)]]}
Init ==
  /\ fields \in Lists
  /\ nets = Nets0
  /\ \E a, b \in Values(fields) :
       /\ \/ heap = <<a, b>> /\ ptr = <<1, 2>>
          \/ a = b /\ heap = <<a>> /\ ptr = <<1, 1>>
  /\ op = "none" /\ k = 0 /\ pre = Tab(<<>>, <<>>) /\ done = <<>> /\ tmp = {}

Begin(o) ==
  /\ op = "none" /\ Len(done) < MaxOps
  /\ op' = o /\ k' = 1 /\ pre' = Now
  /\ tmp' = IF o = "trim" /\ Col(Now, "isp") # 0 /\ Col(Now, "asn") # 0
            THEN {<<Value(Now, Now.rows[i], "isp"), Value(Now, Now.rows[i], "asn")>> : i \in 1..Len(ptr)}
            ELSE {}
  /\ UNCHANGED <<fields, heap, ptr, nets, done>>
Finish == op' = "none" /\ k' = 0 /\ done' = Append(done, op) /\ tmp' = {} /\ UNCHANGED pre

Own(i, v) == /\ heap' = Append(heap, v) /\ ptr' = [ptr EXCEPT ![i] = Len(heap) + 1]
Through(i, j, v) == heap' = [heap EXCEPT ![ptr[i]][j] = v] /\ UNCHANGED ptr
More(o) == op = o /\ k <= Len(ptr) /\ k' = k + 1 /\ UNCHANGED <<nets, op, pre, done, tmp>>
Row == heap[ptr[k]]
ValOf(f) == Value(Now, Now.rows[k], f)

StepNormalise ==
  /\ More("normalise") /\ UNCHANGED fields
  /\ Own(k, [j \in 1..Len(Row) |-> Translate(Norm0, fields[j], Row[j])])
StepTrim ==
  /\ More("trim") /\ UNCHANGED fields
  /\ IF Col(pre, "isp") = 0 \/ Col(pre, "asn") = 0 \/ IsMainIsp(ValOf("isp")) \/ ValOf("asn") = "" \/ ~\E m \in 1..Len(MainIsp) : <<MainIsp[m], ValOf("asn")>> \in tmp
     THEN UNCHANGED <<heap, ptr>>
     ELSE LET cs == {m \in 1..Len(MainIsp) : <<MainIsp[m], ValOf("asn")>> \in tmp}
          IN Through(k, Col(pre, "isp"), MainIsp[CHOOSE m \in cs : \A n \in cs : m <= n])
(* the field list grows before the rows do *)
Column(o, f, skip, v) ==
  /\ More(o)
  /\ fields' = IF k = 1 /\ ~skip /\ IndexOf(pre.fields, f) = 0 THEN Append(fields, f) ELSE fields
  /\ IF skip THEN UNCHANGED <<heap, ptr>>
     ELSE IF IndexOf(pre.fields, f) = 0 THEN Own(k, Append(Row, v))
     ELSE Own(k, [Row EXCEPT ![IndexOf(pre.fields, f)] = v])
PreRow == [net |-> nets[k], vals |-> Row]
StepAttach == op = "attach" /\ Column("attach", "line", Col(pre, "country") = 0 /\ Col(pre, "line") # 0, IF k <= Len(ptr) THEN RowLineM(pre, PreRow) ELSE "")
StepByAsn == op = "byasn" /\ Column("byasn", "line", Col(pre, "asn") = 0 \/ Col(pre, "line") # 0,
                    LET a == IF k <= Len(ptr) THEN Value(pre, PreRow, "asn") ELSE "" IN IF a \in DOMAIN AsnMap THEN AsnMap[a] ELSE "")
StepDistrict == op = "district" /\ Column("district", "district", Col(pre, "province") = 0 /\ Col(pre, "district") # 0,
                       IF k <= Len(ptr) THEN District(Value(pre, PreRow, "province")) ELSE "")
StepReplace ==
  /\ More("replace") /\ UNCHANGED fields
  /\ LET l == RowLineM(pre, PreRow)
     IN IF Col(pre, "isp") = 0 \/ Col(pre, "country") = 0 \/ l = "" THEN UNCHANGED <<heap, ptr>>
        ELSE Own(k, [Row EXCEPT ![Col(pre, "isp")] = l])
(* merged rows keep the slice of the first row of their run *)
StepMerge ==
  /\ op = "merge" /\ k = 1
  /\ IF Len(ptr) = 2 /\ heap[ptr[1]] = heap[ptr[2]]
     THEN nets' = <<"">> /\ ptr' = <<ptr[1]>>
     ELSE UNCHANGED <<nets, ptr>>
  /\ k' = Len(ptr) + 1 /\ UNCHANGED <<fields, heap, op, pre, done, tmp>>
End == op # "none" /\ k > Len(ptr) /\ Finish /\ UNCHANGED <<fields, heap, ptr, nets>>

Next == (\E o \in Names : Begin(o)) \/ StepNormalise \/ StepTrim \/ StepAttach \/ StepByAsn \/ StepDistrict \/ StepReplace \/ StepMerge \/ End
Spec == Init /\ [][Next]_vars

(* -- the properties ----------------------------------------------------------------- *)
AtEnd == op = "none" /\ Len(done) > 0
LastOp == done[Len(done)]
OwnCols(o) == CASE o = "normalise" -> {"city", "province", "isp"} [] o \in {"trim", "replace"} -> {"isp"} [] o \in {"attach", "byasn"} -> {"line"} [] o = "district" -> {"district"} [] o = "merge" -> {}
Correct ==
  AtEnd =>
    /\ Now = Want(pre, LastOp)                                                   \* C13..C16, C08
    /\ \A i \in 1..Len(ptr) : Len(heap[ptr[i]]) = Len(fields)                  \* C12: rectangular
    /\ LastOp # "merge" =>
         /\ Len(ptr) = Len(pre.rows)
         /\ \A i \in 1..Len(ptr) : \A j \in 1..Len(pre.fields) :
              pre.fields[j] \notin OwnCols(LastOp) => heap[ptr[i]][j] = pre.rows[i].vals[j]
=============================================================================
