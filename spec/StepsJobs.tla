------------------------------ MODULE StepsJobs ------------------------------
(* Jobs run alone and beside others: a job is a function of its inputs, and
   nothing changes the inputs.  (JobsAlg checks this for every interleaving.) *)
EXTENDS StepsRaw

JobBads(env, pairs, what) ==
  UNION {IF pairs[i][1] \in DOMAIN env /\ env[pairs[i][1]].res # pairs[i][2]
         THEN Bad({"C37"}, what \o ": " \o pairs[i][1] \o " gave " \o pairs[i][2] \o ", at first it gave " \o env[pairs[i][1]].res)
         ELSE {} : i \in 1..Len(pairs)}
JobEnv(env, pairs) ==
  LET new == {i \in 1..Len(pairs) : pairs[i][1] \notin DOMAIN env /\ \A j \in 1..(i - 1) : pairs[j][1] # pairs[i][1]}
  IN [n \in {pairs[i][1] : i \in new} |-> [k |-> "job", res |-> pairs[CHOOSE i \in new : pairs[i][1] = n][2]]] @@ env
JobStep(env, s, sc) ==
  IF s.out # "ok" THEN Ret(env, Broken(sc, {"C37"}, s, "jobs " \o s.how))
  ELSE LET e1 == JobEnv(env, s.jobs)
           e2 == JobEnv(e1, s.ins)
       IN Ret(e2, JobBads(e1, s.jobs, s.how) \cup JobBads(e2, s.ins, "an input after jobs " \o s.how))
JobOps == {"jobs"}
=============================================================================
