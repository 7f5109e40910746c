------------------------------- MODULE ConvAlg -------------------------------
(* Conversion as the pipeline it is: dump with a rule (neighbours with one
   record share a slice), the standard steps in order, a pack to one of the
   formats, and once more from the output with its own field list.  Every
   address ends with the rule and the steps applied to what the source holds,
   and the second conversion changes no answer. *)
EXTENDS Ops, FiniteSetsExt
Rl == INSTANCE Rule
CONSTANTS W
VARIABLES src, rule, t, stage, round, first
vars == <<src, rule, t, stage, round, first>>

SrcFields == <<"country", "province", "city", "isp", "asn">>
Recs == {<<CHINA, TAIWAN, "c", TELECOM, "1">>, <<CHINA, "x", "c", "y", "1">>, <<"z", "浙江", "上海市", "y", "">>, <<"z", "浙江省", "上海", "y", "2">>}
Lists == {<<"country", "isp", "asn">>, <<"province", "district">>, <<"district", "isp", "country">>, <<"city", "province", "line">>, <<"isp", "asn", "province", "country", "city">>}
Conds == {<<>>, <<"country=" \o CHINA \o ":country">>, <<"isp=y:isp,asn", "asn=!1:country">>, <<"province=!" \o TAIWAN \o ":city">>}
RuleText(fs, cs) == FoldLeft(LAMBDA a, c : a \o "|" \o c, FoldLeft(LAMBDA a, f : IF a = "\\" THEN f ELSE a \o "," \o f, "\\", fs), cs)
RECURSIVE Tilings(_)
Tilings(n) == IF n = 0 THEN {<<"">>}
              ELSE {<<"">>} \cup {[j \in 1..Len(x) |-> "0" \o x[j]] \o [j \in 1..Len(y) |-> "1" \o y[j]] : x \in Tilings(n - 1), y \in Tilings(n - 1)}
Init ==
  /\ src \in UNION {{[fam |-> "4", fields |-> SrcFields, extra |-> <<>>, rows |-> [j \in 1..Len(x) |-> [net |-> x[j], vals |-> v[j]]]] : v \in [1..Len(x) -> Recs]} : x \in Tilings(W)}
  /\ rule \in {[fields |-> fs, text |-> RuleText(fs, cs)] : fs \in Lists, cs \in Conds}
  /\ t = src /\ stage = "dump" /\ round = 1 /\ first = <<>>

Exported(T, r) ==
  LET p == Rl!ParseRule(r)
  IN [T EXCEPT !.fields = p.fields, !.rows = [j \in 1..Len(T.rows) |-> [net |-> T.rows[j].net,
        vals |-> Rl!ExportRow(p, [k \in 1..Len(p.fields) |-> Value(T, T.rows[j], p.fields[k])])]]]
FieldList(fs) == RuleText(fs, <<>>)
To(a, b, T) == stage = a /\ stage' = b /\ t' = T /\ UNCHANGED <<src, rule, round, first>>
Next ==
  \/ To("dump", "normalise", Exported(t, IF round = 1 THEN rule.text ELSE FieldList(t.fields)))
  \/ To("normalise", "trim", Normalise(t, NORM))
  \/ To("trim", "merge", Trim(t))
  \/ To("merge", "district", [t EXCEPT !.rows = MergeRows(t.rows, W)])
  \/ To("district", "pack", AttachDistrict(t))
  \/ /\ stage = "pack"
     /\ stage' = (IF round = 1 THEN "dump" ELSE "end") /\ round' = (IF round = 1 THEN 2 ELSE 1)
     /\ first' = (IF round = 1 THEN t ELSE first)
     /\ UNCHANGED <<src, rule, t>>
Spec == Init /\ [][Next]_vars

ValsAt(T, a) == T.rows[CHOOSE j \in 1..Len(T.rows) : Covers(T.rows[j].net, a)].vals
Covered(T, a) == {j \in 1..Len(T.rows) : Covers(T.rows[j].net, a)}
(* what one address is due, from the records alone *)
Due(a) ==
  LET x == Exported(src, rule.text)
      n == Normalise(x, NORM)
      c == Trim(n)
  IN AttachDistrict([c EXCEPT !.rows = <<[net |-> "", vals |-> ValsAt(c, a)]>>]).rows[1].vals
Correct ==
  /\ stage = "end" \/ (stage = "dump" /\ round = 2) =>
       \A a \in Addrs(W) : Cardinality(Covered(t, a)) = 1 /\ ValsAt(t, a) = Due(a)
  /\ stage = "end" =>
       /\ t.fields = first.fields
       /\ \A a \in Addrs(W) : ValsAt(t, a) = ValsAt(first, a)
=============================================================================
