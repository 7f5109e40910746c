------------------------------ MODULE StepsDump ------------------------------
(* dump, agreement of dump and queries, awdb files and iteration. *)
EXTENDS StepsIpdb

AwFile(s) ==
  LET rows == s.rows
      T == FoldLeft(LAMBDA m, r : (r[1] :> r[2]) @@ m, Empty, rows)
  IN [k |-> "file", kind |-> "awdb", fam |-> s.fam, recs |-> s.recs, T |-> T, nets |-> DOMAIN T, ver |-> s.ver, t0 |-> s.ver.build, t1 |-> s.ver.build,
      offered |-> DOMAIN T, clean |-> TRUE, memo |-> NoEnv]

RowNets(res) == [i \in 1..Len(res.rows) |-> res.rows[i][1]]
RowVals(res, i) == res.recs[res.rows[i][2]]

DumpBads(file, s, sc) ==
  LET W == WidthOf(file.fam)
      covering == Covering(file.nets, W)
  IN IF file.fam = "46" THEN {}
     ELSE IF s.out \notin {"ok", "err"} THEN Bad({"C05"}, "dump " \o s.out \o " " \o Get(s, "why", ""))
     ELSE IF ~covering THEN
        IF s.out = "ok" THEN Bad({"C05"}, "dump of a database with uncovered addresses succeeded") ELSE {}
     ELSE IF ~Sane(file) THEN {}
     ELSE IF s.out = "err" THEN Broken(sc, {"C05"}, s, "dump of a covering database failed")
     ELSE LET nets == RowNets(s.res)
              want == DumpNets(file)
              fs == DumpFields(file, s.rule)
              vp == IF s.rule = "" THEN {"C06"} ELSE {"C11"}
          IN (IF Seq2Set(nets) # want \/ Len(nets) # Cardinality(want)
              THEN Bad({"C05"}, "dumped networks are not the database's: extra " \o ToString(Seq2Set(nets) \ want) \o " missing " \o ToString(want \ Seq2Set(nets)) \o " rows " \o ToString(Len(nets)))
              ELSE IF ~Tiles(nets, Zeros(W), Ones(W)) THEN Bad({"C05"}, "dumped networks do not tile the space in order")
              ELSE LET odd == {i \in 1..Len(nets) : RowVals(s.res, i) # DumpRow(file, s.rule, file.recs[file.T[DumpNet(file, nets[i])]])}
                   IN IF odd = {} THEN {}
                      ELSE LET i == CHOOSE i \in odd : \A j \in odd : i <= j
                           IN Bad(vp, "dumped row " \o nets[i] \o " is " \o ToString(RowVals(s.res, i)) \o " expected " \o ToString(DumpRow(file, s.rule, file.recs[file.T[DumpNet(file, nets[i])]]))))
             \cup VerBads(file, s.res.ver)
             \cup (IF s.res.fields # fs THEN Bad(vp, "dumped fields " \o ToString(s.res.fields) \o " expected " \o ToString(fs)) ELSE {})

(* A dump's observed rows against observed query answers. *)
(* Without conditions in the rule: those blank fields (C11). *)
AgreeBads(file, res, q) ==
  LET i == q[1]
      a == q[2]
      fam == Fam(a)
      vals == RowVals(res, i)
      skip == fam = 4 /\ file.fam = "6"    \* a mapped address is asked for as IPv4
  IN IF skip THEN {}
     ELSE IF q[4] # "ok" THEN Bad({"C06"}, "query " \o q[4] \o " for " \o a \o " that the dump has in " \o res.rows[i][1])
     ELSE UNION {LET f == PUB[j]
                     p == IndexOf(res.fields, f)
                 IN IF p # 0 /\ p <= Len(vals) /\ (file.kind # "awdb" \/ f # "district") /\ vals[p] # q[5][j]
                    THEN Bad({"C06"}, f \o " of " \o a \o ": dump has '" \o vals[p] \o "', query has '" \o q[5][j] \o "'")
                    ELSE {} : j \in 1..Len(PUB)}

IterBads(file, s) ==
  LET under == s.within
      inside == {p \in file.nets : Covers(under, p)}
      holder == {p \in file.nets : Covers(p, under)}
      want == IF holder # {} THEN holder ELSE inside
      nets == [i \in 1..Len(s.rows) |-> s.rows[i][1]]
      W == WidthOf(file.fam)
  IN IF s.out # "ok" THEN Bad({"C24"}, "iteration " \o s.out \o " " \o Get(s, "why", ""))
     ELSE IF Seq2Set(nets) # want \/ Len(nets) # Cardinality(want)
     THEN Bad({"C24"}, "iterating within '" \o under \o "' yields extra " \o ToString(Seq2Set(nets) \ want) \o " missing " \o ToString(want \ Seq2Set(nets)) \o " count " \o ToString(Len(nets)))
     ELSE IF ~Ascending(nets, W) THEN Bad({"C24"}, "iteration out of order")
     ELSE LET odd == {i \in 1..Len(nets) : s.recs[s.rows[i][2]] # file.recs[file.T[nets[i]]]}
          IN IF odd = {} THEN {} ELSE Bad({"C24"}, "record of " \o nets[CHOOSE i \in odd : TRUE] \o " is not the one stored")

(* The reader itself: network, record, offset of the record. *)
NONE == [x \in {"!"} |-> "none"]
LookBads(file, q) ==
  LET a == Norm(q[1])
      fam == Fam(q[1])
      w == AwAnswer(file, fam, a)
      shown == IF fam = 4 /\ file.fam = "6" /\ Len(w.net) >= 96 THEN "32:" \o Suf(w.net, Len(w.net) - 96)
               ELSE (IF file.fam = "4" THEN "32:" ELSE "128:") \o w.net
      rec == file.recs[file.T[w.net]]
  IN IF q[2] = "panic" THEN Bad({"C23"}, "lookup panics at " \o q[1] \o ": " \o q[3])
     ELSE IF ~w.ok THEN IF q[2] = "ok" THEN Bad({"C04", "C23"}, "lookup finds a record for an address without data " \o q[1]) ELSE {}
     ELSE IF q[2] # "ok" THEN Bad({"C23"}, "lookup finds nothing at " \o q[1])
     ELSE IF q[3] # shown THEN Bad({"C23"}, "lookup of " \o q[1] \o " reports network " \o q[3] \o " expected " \o shown)
     ELSE IF q[4] # rec \/ q[5] # rec \/ q[6] # rec THEN Bad({"C23"}, "lookup of " \o q[1] \o " reports " \o ToString(q[4]) \o " expected " \o ToString(rec))
     ELSE {}

DumpOps == {"awlook", "awimage", "dump", "agree", "iter"}
DumpStep(env, s, sc) ==
  CASE s.op = "awimage" -> Ret(With(env, s.h, AwFile(s)), {})
    [] s.op = "dump" ->
         IF env[s.h].k = "poison" THEN Ret(With(env, s.t, Poison), {})
         ELSE LET bads == DumpBads(env[s.h], s, sc)
              IN Ret(With(env, s.t, IF s.out = "ok" THEN [k |-> "obs", res |-> s.res, file |-> s.h, plain |-> s.rule = "" \/ Len(ParseRule(s.rule).conds) = 0] ELSE Poison), bads)
    [] s.op = "agree" ->
         IF Poisoned(env, s.t) \/ ~env[s.t].plain THEN Ret(env, {})
         ELSE IF Get(s, "out", "ok") # "ok" THEN Ret(env, Broken(sc, {"C06", "C04"}, s, "queries do not end"))
         ELSE LET o == env[s.t]
              IN Ret(env, UNION {AgreeBads(env[o.file], o.res, s.q[i]) : i \in 1..Len(s.q)})
    [] s.op = "awlook" -> Ret(env, IF s.out = "ok" THEN UNION {LookBads(env[s.h], s.q[i]) : i \in 1..Len(s.q)} ELSE Bad({"C23"}, "lookup " \o s.out))
    [] s.op = "iter" -> IF env[s.h].k = "poison" THEN Ret(env, {}) ELSE Ret(env, IterBads(env[s.h], s))
=============================================================================
