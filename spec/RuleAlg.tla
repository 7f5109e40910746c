------------------------------ MODULE RuleAlg ------------------------------
(* Export rules over a small alphabet: every rule text of the given shape, and
   for each every row.  The parser is checked against a structural reading of
   the text it was printed from. *)
EXTENDS Rule, Json, FiniteSets
CONSTANTS MaxConds, Full
VARIABLES fields, conds, row, at
vars == <<fields, conds, row, at>>
(* one-letter names keep the space small *)
Fs == {<<"a", "b">>, <<"b", "a", "c">>}
Values == {"", "x", "y"}
Keys == {"a", "c", "z"}
Kepts == {<<"a">>, <<"b">>, <<"a", "b">>, <<"z">>, <<"">>}
ValueLists == {<<"x">>, <<"x", "y">>, <<"">>} \cup (IF Full THEN {<<"y", "">>} ELSE {})
Conds == {[key |-> k, neg |-> n, values |-> v, kept |-> p, shape |-> s] :
            k \in Keys, n \in BOOLEAN, v \in ValueLists, p \in Kepts, s \in {"good", "nocolon", "noequal", "twocolon", "twoequal"}}

Join(q, c) == FoldLeft(LAMBDA acc, x : IF acc = "\\" THEN x ELSE acc \o c \o x, "\\", q)
CondText(c) ==
  LET cond == c.key \o (IF c.shape = "noequal" THEN "" ELSE "=") \o (IF c.neg THEN "!" ELSE "") \o Join(c.values, "/")
                \o (IF c.shape = "twoequal" THEN "=x" ELSE "")
  IN cond \o (IF c.shape = "nocolon" THEN "" ELSE IF c.shape = "twocolon" THEN ":a:" ELSE ":") \o Join(c.kept, ",")
Text == Join(fields, ",") \o FoldLeft(LAMBDA acc, c : acc \o "|" \o CondText(c), "", conds)

(* structural meaning *)
Live(c) == c.shape = "good" /\ InSeq(fields, c.key) /\ \A i \in 1..Len(c.kept) : InSeq(fields, c.kept[i])
Step1(c) ==
  IF ~Live(c) THEN row
  ELSE LET v == row[Pos(fields, c.key)]
           hit == (\E i \in 1..Len(c.values) : c.values[i] = v) # c.neg
       IN IF hit THEN [i \in 1..Len(row) |-> IF InSeq(c.kept, fields[i]) THEN row[i] ELSE ""] ELSE row
Rows(n) == [1..n -> Values]

Init ==
  /\ fields \in Fs
  /\ conds \in UNION {[1..n -> Conds] : n \in 0..MaxConds}
  /\ row \in Rows(Len(fields))
  /\ at = <<1, row>>
Next == /\ at[1] <= Len(conds)
        /\ row' = Step1(conds[at[1]])
        /\ at' = <<at[1] + 1, at[2]>>
        /\ UNCHANGED <<fields, conds>>
Spec == Init /\ [][Next]_vars

(* kept values survive, nothing is invented, and the parsed rule does it too *)
Correct ==
  /\ \A i \in 1..Len(row) : row[i] \in {at[2][i], ""}
  /\ at[1] > Len(conds) => ExportRow(ParseRule(Text), at[2]) = row
Gen == at[1] > 1 \/ (Len(conds) > 0 /\ at[2] # [i \in 1..Len(fields) |-> "x"]) \/ PrintT("@@SCEN " \o ToJson([rule |-> Text]))
=============================================================================
