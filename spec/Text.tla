-------------------------------- MODULE Text --------------------------------
(* The two text formats.  Tables here are [fam, fields, rows, ver] with rows
   [net, vals]. *)
EXTENDS Ops, Rule

(* Values may hold what the format separates values and lines with. *)
ScanSeps == {",", "\t", "\n", "\r"}
MemSeps == {" ", "-", "\n", "\r"}
Underscored(v, seps) ==
  LET cs == {i \in 1..Len(v) : SubSeq(v, i, i) \in seps}
  IN IF cs = {} THEN v ELSE FoldLeft(LAMBDA x, i : SubSeq(x, 1, i - 1) \o "_" \o SubSeq(x, i + 1, Len(x)), v, SetToSeq(cs))

(* scan text, read back without and with a rule *)
ScanRow(fields, vals) == [i \in 1..Len(vals) |-> Underscored(vals[i], ScanSeps)]
RuleRow(fields, r, vals) ==
  ExportRow(r, [j \in 1..Len(r.fields) |-> LET i == IndexOf(fields, r.fields[j]) IN IF i = 0 THEN "" ELSE vals[i]])
ScanBack(T, rule) ==
  LET plain == [T EXCEPT !.rows = [i \in 1..Len(T.rows) |-> [net |-> T.rows[i].net, vals |-> ScanRow(T.fields, T.rows[i].vals)]]]
  IN IF rule = "" THEN plain
     ELSE LET r == ParseRule(rule)
          IN [plain EXCEPT !.fields = r.fields,
                           !.rows = [i \in 1..Len(T.rows) |-> [net |-> T.rows[i].net, vals |-> RuleRow(T.fields, r, plain.rows[i].vals)]]]

(* memip: what is left of a row *)
MemFields == <<"city", "province", "district", "isp", "country", "continent">>
Reads(fields, vals, f) ==
  LET i == IndexOf(fields, f)
  IN IF i = 0 THEN DEFAULT
     ELSE IF vals[i] = "" THEN DEFAULT
     ELSE IF Len(vals[i]) >= 2 /\ SubSeq(vals[i], 1, 2) = RESERVED THEN DEFAULT
     ELSE Underscored(vals[i], MemSeps)
MemView(fields, vals) ==
  LET p == Reads(fields, vals, "province")
      isp == Reads(fields, vals, "isp")
  IN << p,
        IF p \in {HK, MO, TAIWAN} THEN DEFAULT ELSE Reads(fields, vals, "district"),
        IF isp \in {DEFAULT, TELECOM, UNICOM, MOBILE} THEN isp ELSE OTHERISP,
        Reads(fields, vals, "country"),
        Continent(Reads(fields, vals, "continent")) >>
MemRuns(T) == Runs([i \in 1..Len(T.rows) |-> [net |-> T.rows[i].net, vals |-> MemView(T.fields, T.rows[i].vals)]], WidthOf(T.fam))
MemRows(T) == SplitRuns(MemRuns(T))
=============================================================================
