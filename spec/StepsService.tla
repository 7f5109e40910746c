----------------------------- MODULE StepsService -----------------------------
(* The HTTP service: it answers what the library answers, which the driver
   asked before (memo of the file). *)
EXTENDS StepsText

HttpBads(file, q) ==
  LET a == q[1]
      what == "GET " \o q[2]
      none == q[3] = 404 /\ q[5] = 0
  IN IF a = "" THEN IF none THEN {} ELSE Bad({"C22"}, what \o ": status " \o ToString(q[3]) \o " with " \o ToString(q[5]) \o " bytes for what is no address")
     ELSE IF a \notin DOMAIN file.memo THEN Bad({"C22"}, what \o ": no answer of the library to compare with")
     ELSE LET m == file.memo[a]
          IN IF m[1] # "ok" THEN IF none THEN {} ELSE Bad({"C22"}, what \o ": status " \o ToString(q[3]) \o " with " \o ToString(q[5]) \o " bytes although the query fails")
             ELSE IF q[3] # 200 THEN Bad({"C22"}, what \o ": status " \o ToString(q[3]) \o " although the query succeeds")
             ELSE IF q[6] # "ok" THEN Bad({"C22"}, what \o ": body is not the record: " \o q[6])
             ELSE IF q[4] # m[2] THEN Bad({"C22"}, what \o ": " \o ToString(q[4]) \o " but the query answers " \o ToString(m[2]))
             ELSE {}
(* The command line tools print what the library answers. *)
SimpleText(r) == "&{Country:" \o r[1] \o " District:" \o r[8] \o " Province:" \o r[2] \o " City:" \o r[3] \o " Asn:" \o r[5] \o " Isp:" \o r[4]
                 \o " Continent:" \o r[6] \o " Line:" \o r[7] \o "}\n"
QueryText(w, r) == "query ip: " \o w \o ", info: Country: " \o r[1] \o ", District: " \o r[8] \o ", Province: " \o r[2] \o ", City: " \o r[3] \o ", Asn: " \o r[5]
                   \o ", Isp: " \o r[4] \o ", Continent: " \o r[6] \o ", Line: " \o r[7] \o "\n"
CliBads(file, q) ==
  LET a == q[2]
      what == q[1] \o " " \o q[3] \o ": "
      m == IF a \in DOMAIN file.memo THEN file.memo[a] ELSE <<"err">>
      want == IF q[1] = "simple" THEN IF m[1] = "ok" THEN SimpleText(m[2]) ELSE ""
              ELSE IF m[1] = "ok" THEN QueryText(q[3], m[2]) ELSE "query ip: " \o q[3]
  IN IF q[4] # "ok" THEN Bad({"C34"}, what \o q[4])
     ELSE IF q[5] # want THEN Bad({"C34"}, what \o "prints " \o q[5] \o " expected " \o want) ELSE {}

ServiceOps == {"http", "hver", "srvbad", "cli", "cliver"}
ServiceStep(env, s, sc) ==
  IF Poisoned(env, s.d) THEN Ret(env, {})
  ELSE IF s.op \in {"cli", "cliver"} THEN
    Ret(env, IF s.out # "ok" THEN Bad({"C34"}, s.op \o " " \o s.out \o " " \o Get(s, "why", ""))
             ELSE IF s.op = "cli" THEN UNION {CliBads(env[env[s.d].file], s.q[i]) : i \in 1..Len(s.q)}
             ELSE IF s.ver = env[s.d].ver THEN {} ELSE Bad({"C34"}, "version " \o ToString(s.ver) \o " but the library has " \o ToString(env[s.d].ver)))
  ELSE IF s.op = "srvbad" THEN Ret(env, IF s.out = "ends" THEN {} ELSE Bad({"C22"}, "the service given " \o s.what \o " " \o s.out))
  ELSE IF s.out # "ok" THEN Ret(env, Bad({"C22"}, "service " \o s.out \o " " \o Get(s, "why", "")))
  ELSE CASE s.op = "http" -> Ret(env, UNION {HttpBads(env[env[s.d].file], s.q[i]) : i \in 1..Len(s.q)})
         [] s.op = "hver" -> Ret(env, IF s.status = 200 /\ s.ver = env[s.d].ver THEN {} ELSE Bad({"C22"}, "GET /version: status " \o ToString(s.status) \o " " \o ToString(s.ver) \o " but the library has " \o ToString(env[s.d].ver)))
=============================================================================
