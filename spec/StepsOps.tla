------------------------------ MODULE StepsOps ------------------------------
(* Processing steps on tables in memory.  env["@norm"] holds the loaded
   normalisation tables. *)
EXTENDS StepsRule, Ops

LineSep == "\n"
TAB == "\t"
(* A normalisation table as text: one entry per line, name and replacement
   with a tab between them; later entries win, other lines do not count. *)
RECURSIVE FindChar(_, _, _)
FindChar(s, c, i) == IF i > Len(s) THEN 0 ELSE IF SubSeq(s, i, i) = c THEN i ELSE FindChar(s, c, i + 1)
ParseTable(text) ==
  FoldLeft(LAMBDA m, l : LET i == FindChar(l, TAB, 1)
                         IN IF i = 0 THEN m ELSE (SubSeq(l, 1, i - 1) :> SubSeq(l, i + 1, Len(l))) @@ m,
           Empty, SplitAt(text, LineSep))
NormOf(env) == IF "@norm" \in DOMAIN env THEN env["@norm"].n ELSE NORM

(* -- tables in memory ------------------------------------------------------------ *)
AsTable(s, fam) == [k |-> "mem", fam |-> fam, fields |-> s.fields, extra |-> s.ver.extra,
                    rows |-> [i \in 1..Len(s.rows) |-> [net |-> s.rows[i][1], vals |-> s.recs[s.rows[i][2]]]]]
Pairs2Map(q) == FoldLeft(LAMBDA m, p : (p[1] :> p[2]) @@ m, Empty, q)

(* What a step makes of a table, the properties about it, the columns it is
   about and whether their values are determined here. *)
OpWant(env, T, s) ==
  CASE s.name = "normalise" ->
         [t |-> Normalise(T, NormOf(env)), own |-> {"C15"}, cols |-> DOMAIN NormOf(env) \cap Seq2Set(T.fields), free |-> FALSE, nets |-> FALSE]
    [] s.name = "trim" -> [t |-> Trim(T), own |-> {"C14"}, cols |-> {"isp"}, free |-> FALSE, nets |-> FALSE]
    [] s.name = "merge" -> [t |-> Merge(T, WidthOf(T.fam)), own |-> {"C08"}, cols |-> {}, free |-> FALSE, nets |-> TRUE]
    [] s.name = "attach" ->
         [t |-> [AttachLine(T, env[s.l].m) EXCEPT !.extra = Append(T.extra, env[s.l].name)], own |-> {"C13"}, cols |-> {"line"},
          free |-> Col(T, "country") = 0 /\ Col(T, "line") # 0, nets |-> FALSE]
    [] s.name = "replace" ->
         [t |-> [ReplaceLine(T, env[s.l].m) EXCEPT !.extra = Append(T.extra, env[s.l].name)], own |-> {"C13"}, cols |-> {"isp"}, free |-> FALSE, nets |-> FALSE]
    [] s.name = "byasn" ->
         LET free == Col(T, "line") # 0
         IN [t |-> [(IF free THEN T ELSE AttachAsn(T, Pairs2Map(s.pairs))) EXCEPT !.extra = Append(T.extra, s.lver)],
             own |-> {"C13"}, cols |-> {"line"}, free |-> free, nets |-> FALSE]
    [] s.name = "district" -> [t |-> AttachDistrict(T), own |-> {"C16"}, cols |-> {"district"}, free |-> FALSE, nets |-> FALSE]

Shown(r) == r.net \o " " \o ToString(r.vals)
FirstOf(S) == CHOOSE i \in S : \A j \in S : i <= j
OpBads(T, s, w) ==
  IF s.out # "ok" THEN Bad({"C12"} \cup w.own, s.name \o " " \o s.out \o " " \o Get(s, "why", ""))
  ELSE LET o == AsTable(s.res, T.fam)
           want == w.t
           n == Len(want.rows)
           W == WidthOf(T.fam)
       IN (IF o.extra # want.extra THEN Bad({"C13"}, s.name \o ": extra information " \o ToString(o.extra) \o " expected " \o ToString(want.extra)) ELSE {})
          \cup
          (IF o.fields # want.fields THEN Bad({"C12"} \cup w.own, s.name \o ": fields " \o ToString(o.fields) \o " expected " \o ToString(want.fields))
           ELSE IF \E i \in 1..Len(o.rows) : Len(o.rows[i].vals) # Len(o.fields)
           THEN Bad({"C12"}, s.name \o ": row " \o Shown(o.rows[FirstOf({i \in 1..Len(o.rows) : Len(o.rows[i].vals) # Len(o.fields)})]) \o " does not fit fields " \o ToString(o.fields))
           ELSE IF w.nets THEN
             (IF o.rows # want.rows
              THEN LET d == {i \in 1..n : i > Len(o.rows) \/ o.rows[i] # want.rows[i]}
                   IN Bad(w.own, "merge: " \o (IF d = {} THEN "more rows than " \o ToString(n)
                                               ELSE "row " \o ToString(FirstOf(d)) \o " is " \o (IF FirstOf(d) > Len(o.rows) THEN "missing" ELSE Shown(o.rows[FirstOf(d)]))
                                                    \o " expected " \o Shown(want.rows[FirstOf(d)]) \o " rows " \o ToString(Len(o.rows)) \o " expected " \o ToString(n)))
              ELSE {})
             \cup (IF s.res.ver.count # Len(o.rows) THEN Bad(w.own, "merge: recorded count " \o ToString(s.res.ver.count) \o " of " \o ToString(Len(o.rows)) \o " rows") ELSE {})
           ELSE IF Len(o.rows) # n \/ \E i \in 1..n : o.rows[i].net # want.rows[i].net
           THEN Bad({"C12"}, s.name \o " changed the networks")
           ELSE LET odd(j) == {i \in 1..n : o.rows[i].vals[j] # want.rows[i].vals[j]}
                IN UNION {LET f == want.fields[j]
                              mine == f \in w.cols
                              b == odd(j)
                          IN IF (mine /\ w.free) \/ b = {} THEN {}
                             ELSE LET i == FirstOf(b)
                                  IN Bad(IF mine THEN w.own ELSE {"C12"}, s.name \o ": " \o f \o " of row " \o ToString(i) \o " " \o Shown(T.rows[i]) \o " is '" \o o.rows[i].vals[j] \o "' expected '" \o want.rows[i].vals[j] \o "'")
                          : j \in 1..Len(want.fields)})

OpOps == {"load", "optable", "linedb", "operate"}
OpStep(env, s, sc) ==
  CASE s.op = "load" -> Ret(With(env, "@norm", [k |-> "norm", n |-> (s.field :> ParseTable(s.text)) @@ NormOf(env)]), {})
    [] s.op = "optable" -> Ret(With(env, s.t, AsTable(s, s.fam)), {})
    [] s.op = "linedb" -> Ret(With(env, s.l, [k |-> "linedb", m |-> Pairs2Map(s.rows), name |-> s.name]), {})
    [] s.op = "operate" ->
         IF Poisoned(env, s.t) THEN Ret(env, {})
         ELSE LET T == env[s.t]
                  w == OpWant(env, T, s)
                  bads == OpBads(T, s, w)
              IN Ret(With(env, s.t, IF bads # {} THEN Poison ELSE IF w.free THEN AsTable(s.res, T.fam) ELSE w.t), bads)
=============================================================================
