-------------------------------- MODULE Ops --------------------------------
(* The processing steps as functions of tables.  A table is
   [fam, fields, rows, extra]: a row is [net, vals] with one value per field. *)
EXTENDS Ipdb

NORM == JsonDeserialize("norm.json")              \* the shipped normalisation tables
Translate(norm, f, v) == IF f \in DOMAIN norm THEN IF v \in DOMAIN norm[f] THEN norm[f][v] ELSE v ELSE v
(* Normalising twice changes nothing with the shipped tables. *)
ASSUME \A f \in DOMAIN NORM : \A v \in DOMAIN NORM[f] : Translate(NORM, f, NORM[f][v]) = NORM[f][v]

Rows(T) == T.rows
Col(T, f) == IndexOf(T.fields, f)
Value(T, r, f) == IF Col(T, f) = 0 THEN "" ELSE r.vals[Col(T, f)]
MapRows(T, F(_)) == [T EXCEPT !.rows = [i \in 1..Len(T.rows) |-> [T.rows[i] EXCEPT !.vals = F(T.rows[i])]]]

Normalise(T, norm) ==
  MapRows(T, LAMBDA r : [j \in 1..Len(r.vals) |-> Translate(norm, T.fields[j], r.vals[j])])

(* ISP correction. *)
Carriers(T, asn) == {i \in 1..Len(MainIsp) : \E k \in 1..Len(T.rows) :
                        Value(T, T.rows[k], "isp") = MainIsp[i] /\ Value(T, T.rows[k], "asn") = asn}
Trim(T) ==
  IF Col(T, "isp") = 0 \/ Col(T, "asn") = 0 THEN T
  ELSE LET asns == {Value(T, T.rows[k], "asn") : k \in 1..Len(T.rows)} \ {""}
           car == [a \in asns |-> Carriers(T, a)]
           fixed(r) == LET a == Value(T, r, "asn")
                           isp == Value(T, r, "isp")
                       IN IF IsMainIsp(isp) \/ a = "" THEN isp
                          ELSE IF car[a] = {} THEN isp
                          ELSE MainIsp[CHOOSE i \in car[a] : \A j \in car[a] : i <= j]
       IN MapRows(T, LAMBDA r : [r.vals EXCEPT ![Col(T, "isp")] = fixed(r)])

(* Merge: touching runs of equal values, each split into the fewest networks. *)
Runs(rows, W) ==         \* the runs as ranges
  LET flush(acc) == IF acc.n = 0 THEN acc.out ELSE Append(acc.out, [lo |-> acc.lo, hi |-> acc.hi, vals |-> acc.vals])
      step(acc, r) ==
        LET lo == Lo(r.net, W)
            hi == Hi(r.net, W)
        IN IF acc.n > 0 /\ acc.vals = r.vals /\ ~IsMax(acc.hi) /\ Succ(acc.hi) = lo
           THEN [acc EXCEPT !.hi = hi]
           ELSE [out |-> flush(acc), n |-> 1, lo |-> lo, hi |-> hi, vals |-> r.vals]
  IN flush(FoldLeft(step, [out |-> <<>>, n |-> 0, lo |-> "", hi |-> "", vals |-> <<>>], rows))
SplitRuns(runs) ==
  FoldLeft(LAMBDA out, r : LET ps == Split(r.lo, r.hi) IN out \o [i \in 1..Len(ps) |-> [net |-> ps[i], vals |-> r.vals]], <<>>, runs)
MergeRows(rows, W) == SplitRuns(Runs(rows, W))
Merge(T, W) == [T EXCEPT !.rows = MergeRows(T.rows, W)]

(* A column that is set from each row: overwritten where it is, else appended. *)
SetColumn(T, f, F(_)) ==
  IF Col(T, f) # 0 THEN MapRows(T, LAMBDA r : [r.vals EXCEPT ![Col(T, f)] = F(r)])
  ELSE [MapRows(T, LAMBDA r : Append(r.vals, F(r))) EXCEPT !.fields = Append(T.fields, f)]

(* Lines.  A line database is a table of 128 bit networks. *)
Key128(fam, net) == LET a == Lo(net, WidthOf(fam)) IN IF fam = "4" THEN MAPPED \o a ELSE a
FirstPart(s) == IF \E i \in 1..Len(s) : SubSeq(s, i, i) = "/"
                THEN SubSeq(s, 1, (CHOOSE i \in 1..Len(s) : SubSeq(s, i, i) = "/" /\ \A j \in 1..(i - 1) : SubSeq(s, j, j) # "/") - 1)
                ELSE s
ShownLine(l) == LET p == FirstPart(l)
                IN IF p \in {"", TELECOM, UNICOM, MOBILE} THEN p ELSE IF p = TIETONG THEN MOBILE ELSE TELECOM
LineOf(db, fam, net) == LET k == Key128(fam, net) IN IF HasNet(DOMAIN db, k) THEN ShownLine(db[NetOf(DOMAIN db, k)]) ELSE ""
RowLine(T, db, r) == IF Value(T, r, "country") = CHINA THEN LineOf(db, T.fam, r.net) ELSE ""
AttachLine(T, db) == IF Col(T, "country") = 0 /\ Col(T, "line") # 0 THEN T ELSE SetColumn(T, "line", LAMBDA r : RowLine(T, db, r))
ReplaceLine(T, db) ==
  IF Col(T, "isp") = 0 \/ Col(T, "country") = 0 THEN T
  ELSE MapRows(T, LAMBDA r : LET l == RowLine(T, db, r) IN IF l = "" THEN r.vals ELSE [r.vals EXCEPT ![Col(T, "isp")] = l])
AttachAsn(T, m) ==       \* only for tables without a line column
  IF Col(T, "asn") = 0 THEN T
  ELSE SetColumn(T, "line", LAMBDA r : LET a == Value(T, r, "asn") IN IF a \in DOMAIN m THEN m[a] ELSE "")

AttachDistrict(T) ==
  IF Col(T, "province") = 0 /\ Col(T, "district") # 0 THEN T
  ELSE SetColumn(T, "district", LAMBDA r : District(Value(T, r, "province")))
=============================================================================
