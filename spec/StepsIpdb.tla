------------------------------ MODULE StepsIpdb ------------------------------
(* table, pack, open, query. *)
EXTENDS StepBase

(* -- objects ------------------------------------------------------------ *)
(* table: fam, fields, rows <<net, record>>, recs, ver *)
Table(s) == [k |-> "table", fam |-> s.fam, fields |-> s.fields, rows |-> s.rows, recs |-> s.recs, ver |-> s.ver]
BigTable(s) == [k |-> "big", fam |-> s.fam, fields |-> s.fields, m |-> s.m, recs |-> s.recs, ver |-> s.ver]

IpdbFile(t, s) ==
  LET big == t.k = "big"
      T == IF big THEN t.m ELSE Content(t.rows)
  IN [k |-> "file", kind |-> "ipdb", fam |-> t.fam, fields |-> FileFields(t.fields), recs |-> t.recs,
      T |-> T, nets |-> DOMAIN T, ver |-> t.ver, t0 |-> Get(s, "t0", 0), t1 |-> Get(s, "t1", 0),
      langs |-> Get(s, "langs", <<"CN">>), offered |-> IF big THEN DOMAIN T ELSE TableNets(t.rows),
      clean |-> big \/ Distinct(t.rows)]

(* -- version information ---------------------------------------------------- *)
TypeOf(fam) == IF fam = "4" THEN 1 ELSE IF fam = "6" THEN 2 ELSE 3
(* Seconds since 1970 as a date, in UTC. *)
Pad2(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
Date(t) ==
  LET z == t \div 86400 + 719468
      era == z \div 146097
      doe == z - era * 146097
      yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
      doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
      mp == (5 * doy + 2) \div 153
      d == doy - (153 * mp + 2) \div 5 + 1
      m == IF mp < 10 THEN mp + 3 ELSE mp - 9
      y == yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0)
  IN ToString(y) \o "-" \o Pad2(m) \o "-" \o Pad2(d)
HasOf(f) == <<f # "6", f # "4", f = "4", f = "6", f = "46">>
VerBads(file, v) ==
  IF Has(v, "nil") THEN Bad({"C28"}, "no version information")
  ELSE LET name == IF file.kind = "ipdb" /\ file.ver.version = "" THEN "ipip.net-" \o Date(v.build) ELSE file.ver.version
           langs == IF file.kind = "ipdb" THEN Get(file, "langs", <<"CN">>) ELSE file.ver.langs
           f == file.fam
           has == HasOf(f)
       IN (IF Get(v, "has", has) # has THEN Bad({"C28"}, "a file of family " \o f \o " says of its families " \o ToString(v.has)) ELSE {})
          \cup (IF file.kind = "awdb" /\ Has(file.ver, "count") /\ Get(v, "count", -1) # file.ver.count THEN Bad({"C28"}, "count " \o ToString(v.count) \o " of a file of " \o ToString(file.ver.count) \o " nodes") ELSE {})
          \cup (IF v.version # name THEN Bad({"C28"}, "version '" \o v.version \o "' expected '" \o name \o "'") ELSE {})
          \cup (IF v.type # TypeOf(file.fam) THEN Bad({"C28"}, "family " \o ToString(v.type) \o " of a file of family " \o file.fam) ELSE {})
          \cup (IF file.kind = "ipdb" /\ v.extra # file.ver.extra THEN Bad({"C28"}, "extra information " \o ToString(v.extra) \o " expected " \o ToString(file.ver.extra)) ELSE {})
          \cup (IF Seq2Set(v.langs) # Seq2Set(langs) \/ Len(v.langs) # Len(langs) THEN Bad({"C28"}, "languages " \o ToString(v.langs) \o " expected " \o ToString(langs)) ELSE {})
          \cup (IF v.build < file.t0 \/ v.build > file.t1 THEN Bad({"C28"}, "build time " \o ToString(v.build) \o " outside " \o ToString(file.t0) \o ".." \o ToString(file.t1)) ELSE {})

(* -- judging one answer --------------------------------------------------- *)
Owned(x) == IF "own" \in DOMAIN x THEN x.own ELSE {}
RecordProps(file) == Owned(file) \cup IF file.kind = "awdb" THEN {"C23"} ELSE IF file.clean THEN {"C01"} ELSE {"C02"}
LenProps(file) == IF file.kind = "awdb" THEN {"C03", "C23"} ELSE {"C03"}
QBads(file, q) ==
  LET a == Norm(q[1])
      fam == Fam(q[1])
      out == q[3]
      want == AnswerOf(file, fam, a)
      where == " at " \o q[2] \o " " \o q[1]
      refusedOnly == ~file.clean /\ Covered(file, fam, a) /\ HasNet(file.offered, Key(file, fam, a))
  IN IF out \notin {"ok", "err"} THEN Bad(IF want.ok THEN RecordProps(file) ELSE {"C04"}, "query " \o out \o where)
     ELSE IF want.ok THEN
        IF out = "err" THEN Bad(RecordProps(file), "no answer for a covered address" \o where \o ": " \o q[6])
        ELSE (IF q[4] # want.rec THEN Bad(RecordProps(file), "wrong record" \o where \o ": " \o ToString(q[4]) \o " expected " \o ToString(want.rec)) ELSE {})
             \cup (IF q[5] # want.len THEN Bad(LenProps(file), "wrong prefix length" \o where \o ": " \o ToString(q[5]) \o " expected " \o ToString(want.len)) ELSE {})
     ELSE
        IF out = "ok" THEN Bad(IF refusedOnly THEN {"C02", "C04"} ELSE {"C04"}, "answer for an address without data" \o where \o ": " \o ToString(q[4]))
        ELSE IF q[2] \in {"str", "junk"} /\ fam = 0 THEN {}     \* text that is no address: any error
        ELSE IF want.err # "any" /\ q[6] # want.err THEN Bad({"C04"}, "wrong error" \o where \o ": " \o q[6] \o " expected " \o want.err)
        ELSE IF Len(q[4]) # 0 THEN Bad({"C04"}, "record together with an error" \o where) ELSE {}

(* The answers are a function of file and address: whatever was observed
   first for an address must be observed ever after. *)
Outcome(q) == <<q[3], q[4], q[5], q[6]>>
MemoStep(st, q) ==
  LET a == q[1]
  IN IF q[2] = "junk" \/ a = "" THEN st
     ELSE IF a \in DOMAIN st.memo
          THEN IF st.memo[a] = Outcome(q) THEN st
               ELSE [st EXCEPT !.bads = @ \cup Bad({"C20"}, "answer changed at " \o q[2] \o " " \o a \o ": " \o ToString(Outcome(q)) \o " before " \o ToString(st.memo[a]))]
          ELSE [st EXCEPT !.memo = (a :> Outcome(q)) @@ @]

(* An IPv4 awdb opens only if it answers for 8.8.8.8. *)
EIGHT == "00001000000010000000100000001000"
Sane(f) == f.kind = "awdb" /\ f.fam = "4" => HasNet(f.nets, EIGHT)
(* Self checks: known addresses are where they are. *)
SELF4 == <<<<EIGHT, USA>>, <<"01110111000111010001110100011101", CHINA>>>>
SELF6 == <<<<"00100000000000010100100001100000010010000110000000000000000000000000000000000000000000000000000000000000000000001000100010001000", USA>>,
           <<"00100110000001100100011100000000010001110000000000000000000000000000000000000000000000000000000000000000000000000001000100010001", USA>>>>
SelfStep(file, fam, st, x) ==
  IF st # "" THEN st
  ELSE LET w == AnswerOf(file, fam, x[1]) IN IF ~w.ok THEN w.err ELSE IF w.rec[1] # x[2] THEN "check" ELSE ""
SelfCheck(file, fam) == FoldLeft(LAMBDA st, x : SelfStep(file, fam, st, x), "", IF fam = 4 THEN SELF4 ELSE SELF6)
SelfBads(file, s) ==
  LET want == SelfCheck(file, s.fam)
      how == "self check of IPv" \o ToString(s.fam) \o " "
      said == Get(s, "err", "")
  IN IF s.out \notin {"ok", "err"} THEN Bad({"C32"}, how \o s.out \o " " \o Get(s, "why", ""))
     ELSE IF want = "" THEN IF s.out = "ok" THEN {} ELSE Bad({"C32"}, how \o "fails: " \o said)
     ELSE IF s.out = "ok" THEN Bad({"C32"}, how \o "passes, expected " \o want)
     ELSE IF want = "any" THEN IF said = "check" THEN Bad({"C32"}, how \o "says check, expected the error of the query") ELSE {}
     ELSE IF said # want THEN Bad({"C32"}, how \o "says " \o said \o " expected " \o want) ELSE {}
(* The version information is what it was at first. *)
VersStep(env, s) ==
  LET key == "version of " \o s.d
  IN IF s.out # "ok" THEN Ret(env, Bad({"C20"}, "version information " \o s.out))
     ELSE IF key \notin DOMAIN env THEN Ret(With(env, key, [k |-> "ver", ver |-> s.ver]), {})
     ELSE Ret(env, IF env[key].ver = s.ver THEN {} ELSE Bad({"C20"}, "version information changed to " \o ToString(s.ver)))
IpdbOps == {"vers", "self", "none", "table", "big", "pack", "open", "qs", "forms"}

OpenFile(env, s, sc, f) ==
  IF s.out = "ok" THEN Ret(With(env, s.d, [k |-> "db", file |-> s.h, ver |-> Get(s, "ver", 0)]), (IF Has(s, "ver") THEN VerBads(f, s.ver) ELSE {})
                              \cup (IF Has(s, "nodes") /\ Has(s, "ver") /\ Get(s.ver, "count", -1) # s.nodes THEN Bad({"C28"}, "count " \o ToString(s.ver.count) \o " of a file of " \o ToString(s.nodes) \o " nodes") ELSE {}))
  ELSE IF ~Sane(f) THEN Ret(With(env, s.d, Poison), {})
  ELSE Ret(With(env, s.d, Poison), Broken(sc, RecordProps(f), s, "a complete file does not open"))

IpdbStep(env, s, sc) ==
  CASE s.op = "none" -> Ret(env, {})
    [] s.op = "vers" -> IF Poisoned(env, s.d) THEN Ret(env, {}) ELSE VersStep(env, s)
    [] s.op = "table" -> Ret(With(env, s.t, Table(s)), {})
    [] s.op = "big" -> Ret(With(env, s.t, BigTable(s)), {})
    [] s.op = "pack" ->
         LET t == env[s.t]
         IN IF t.k = "poison" THEN Ret(With(env, s.h, Poison), {})
            ELSE LET f == IpdbFile(t, s)
                 IN IF s.out = "ok" THEN Ret(With(env, s.h, f @@ [memo |-> NoEnv]), {})
                    ELSE Ret(With(env, s.h, Poison), Broken(sc, {IF f.clean THEN "C01" ELSE "C02"}, s, "pack failed"))
    [] s.op = "open" ->
         IF env[s.h].k = "poison" THEN Ret(With(env, s.d, Poison), {})
         ELSE OpenFile(env, s, sc, env[s.h])
    [] s.op = "qs" ->
         IF env[s.d].k = "poison" THEN Ret(env, {})
         ELSE IF Get(s, "out", "ok") # "ok"
         THEN Ret(env, IF s.out = "race" THEN Bad({"C20"}, "queries race: " \o Get(s, "why", ""))
                       ELSE Broken(sc, RecordProps(env[env[s.d].file]) \cup {"C04"} \cup (IF Has(s, "hist") THEN {"C20"} ELSE {}), s, "queries do not end"))
         ELSE LET h == env[s.d].file
                  file == env[h]
                  b1 == UNION {QBads(file, s.q[i]) : i \in 1..Len(s.q)}
              IN IF Has(s, "hist")
                 THEN LET m == FoldLeft(MemoStep, [memo |-> file.memo, bads |-> {}], s.q)
                      IN Ret(With(env, h, [file EXCEPT !.memo = m.memo]), b1 \cup m.bads)
                 ELSE Ret(env, b1)
    [] s.op = "self" -> Ret(env, IF Poisoned(env, s.d) THEN {} ELSE SelfBads(env[env[s.d].file], s))
    [] s.op = "forms" ->     \* one address in all its spellings
         IF Get(s, "out", "ok") # "ok" THEN Ret(env, Broken(sc, {"C29"}, s, "a query does not end"))
         ELSE LET f == s.q
         IN Ret(env, UNION {IF Outcome(f[i]) # Outcome(f[1])
                            THEN Bad({"C29"}, "form " \o f[i][2] \o " of " \o f[1][1] \o " answers " \o ToString(Outcome(f[i])) \o ", form " \o f[1][2] \o " answers " \o ToString(Outcome(f[1])))
                            ELSE {} : i \in 1..Len(f)})
=============================================================================
