------------------------------ MODULE StepsRule ------------------------------
(* One export rule over several records: map gives the name in the record of
   every name a rule may list. *)
EXTENDS StepsDump

PairGet(q, k) == IF \E i \in 1..Len(q) : q[i][1] = k THEN q[CHOOSE i \in 1..Len(q) : q[i][1] = k][2] ELSE ""
HasPair(q, k) == \E i \in 1..Len(q) : q[i][1] = k
Selected(map, rec, f) == IF HasPair(map, f) THEN PairGet(rec, PairGet(map, f)) ELSE ""
ExportBads(s) ==
  IF s.out # "ok" THEN Bad({"C11"}, "export " \o s.out \o " of rule " \o s.rule \o " " \o Get(s, "why", ""))
  ELSE LET r == ParseRule(s.rule)
       IN (IF s.fields # r.fields THEN Bad({"C11"}, "fields of rule " \o s.rule \o " are " \o ToString(s.fields)) ELSE {})
          \cup UNION {LET want == ExportRow(r, [j \in 1..Len(r.fields) |-> Selected(s.map, s.recs[i], r.fields[j])])
                      IN IF s.rows[i] # want
                         THEN Bad({"C11"}, "rule " \o s.rule \o " exports " \o ToString(s.recs[i]) \o " as " \o ToString(s.rows[i]) \o " expected " \o ToString(want)) ELSE {}
                      : i \in 1..Len(s.recs)}

RuleOps == {"export"}
RuleStep(env, s, sc) == Ret(env, ExportBads(s))
=============================================================================
