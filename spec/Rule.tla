-------------------------------- MODULE Rule --------------------------------
(* Export rules: "<fields>|<field>=[!]<v1>/<v2>...:<kept fields>|..." *)
EXTENDS Naturals, Sequences, SequencesExt, TLC

(* Split at a one character separator, like the usual library function. *)
RECURSIVE SplitAcc(_, _, _, _, _)
SplitAcc(s, c, i, from, acc) ==
  IF i > Len(s) THEN Append(acc, SubSeq(s, from, Len(s)))
  ELSE IF SubSeq(s, i, i) = c THEN SplitAcc(s, c, i + 1, i + 1, Append(acc, SubSeq(s, from, i - 1)))
  ELSE SplitAcc(s, c, i + 1, from, acc)
SplitAt(s, c) == SplitAcc(s, c, 1, 1, <<>>)

InSeq(q, x) == \E i \in 1..Len(q) : q[i] = x

(* One condition, or "ignored". *)
Condition(fields, group) ==
  LET fs == SplitAt(group, ",")
      head == SplitAt(fs[1], ":")
  IN IF Len(head) # 2 THEN [ignored |-> TRUE]
     ELSE LET kept == <<head[2]>> \o Tail(fs)
              kc == SplitAt(head[1], "=")
          IN IF \E i \in 1..Len(kept) : ~InSeq(fields, kept[i]) THEN [ignored |-> TRUE]
             ELSE IF Len(kc) # 2 THEN [ignored |-> TRUE]
             ELSE IF ~InSeq(fields, kc[1]) THEN [ignored |-> TRUE]
             ELSE LET neg == Len(kc[2]) > 0 /\ SubSeq(kc[2], 1, 1) = "!"
                      vs == SplitAt(IF neg THEN SubSeq(kc[2], 2, Len(kc[2])) ELSE kc[2], "/")
                  IN [ignored |-> FALSE, key |-> kc[1], neg |-> neg, values |-> vs, kept |-> kept]

ParseRule(rule) ==
  LET groups == SplitAt(rule, "|")
      fields == SplitAt(groups[1], ",")
      all == [i \in 1..(Len(groups) - 1) |-> Condition(fields, groups[i + 1])]
  IN [fields |-> fields, conds |-> SelectSeq(all, LAMBDA c : ~c.ignored)]

(* Conditions apply one after the other to the row as it is by then. *)
Pos(q, x) == CHOOSE i \in 1..Len(q) : q[i] = x /\ \A j \in 1..(i - 1) : q[j] # x
Apply(fields, row, c) ==
  LET hit == InSeq(c.values, row[Pos(fields, c.key)])
  IN IF hit = c.neg THEN row
     ELSE [i \in 1..Len(row) |-> IF InSeq(c.kept, fields[i]) THEN row[i] ELSE ""]
ExportRow(r, row) == FoldLeft(LAMBDA acc, c : Apply(r.fields, acc, c), row, r.conds)
=============================================================================
