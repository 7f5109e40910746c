------------------------------- MODULE ScanAlg -------------------------------
(* Scan text as text: every small table is printed line by line and read back
   by splitting; damaged lines must not read as rows.  A row that has not one
   value for each field is no row of a table: its line would read as another. *)
EXTENDS Text
CONSTANTS MaxLen
VARIABLES fields, vals, rule, at
T0 == "\t"
Vs == {"", "a", ",", "a,b", ",,", "\t", "a\nb"}
Join(q, c) == FoldLeft(LAMBDA acc, x : IF acc.first THEN [first |-> FALSE, s |-> x] ELSE [acc EXCEPT !.s = @ \o c \o x], [first |-> TRUE, s |-> ""], q).s
Init == /\ fields \in {<<"f">>, <<"f", "g">>, <<"g", "f", "h">>}
        /\ vals \in UNION {[1..n -> Vs] : n \in 0..(Len(fields) + 1)}
        /\ rule \in {"", "f", "g,f", "f,x", "f,g|f=a:f"} /\ at = 0
Next == at = 0 /\ at' = 1 /\ UNCHANGED <<fields, vals, rule>>
Spec == Init /\ [][Next]_<<fields, vals, rule, at>>
Line == "n" \o T0 \o Join(ScanRow(fields, vals), ",")
Parse(line) ==
  LET cols == SplitAt(line, T0)
  IN IF Len(cols) # 2 THEN [ok |-> FALSE]
     ELSE LET vs == SplitAt(cols[2], ",")
          IN IF Len(vs) # Len(fields) THEN [ok |-> FALSE] ELSE [ok |-> TRUE, net |-> cols[1], vals |-> vs]
Tab == [fam |-> "4", fields |-> fields, ver |-> 0, rows |-> <<[net |-> "n", vals |-> vals]>>]
Fits == Len(vals) = Len(fields)
Correct ==
  LET p == Parse(Line)
      back == ScanBack(Tab, rule)
  IN IF ~Fits THEN ~p.ok \/ p.vals # vals
     ELSE
     /\ p.ok /\ p.net = "n"
     /\ (rule = "" => p.vals = back.rows[1].vals)
     /\ (rule # "" => back.rows[1].vals = RuleRow(fields, ParseRule(rule), p.vals) /\ Len(back.rows[1].vals) = Len(back.fields))
     /\ ScanBack(ScanBack(Tab, ""), "") = ScanBack(Tab, "")
     /\ ~Parse(Line \o ",").ok /\ ~Parse(Line \o T0).ok /\ ~Parse("n" \o Join(ScanRow(fields, vals), ",")).ok
=============================================================================
