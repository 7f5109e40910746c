----------------------------- MODULE StepsReaders -----------------------------
(* One file, three readers: Go, Java, Rust. *)
EXTENDS StepsConvert

Who == <<"Go", "Java", "Rust">>
Rd == {"C21"}
(* Java has nothing for a field the file does not have, the others the empty text *)
Java(file, a) == <<a[1], [i \in 1..Len(a[2]) |-> IF a[2][i] = "<null>" /\ IndexOf(file.fields, ExtOf[PUB[i]]) = 0 THEN "" ELSE a[2][i]]>>
RAgree(file, q) ==
  LET want == Answer(file, Fam(q[1]), Norm(q[1]))
      all == <<q[3], Java(file, q[4]), q[5]>>
  IN IF \A i \in 1..3 : all[i][1] \in {"ok", "err"} /\ all[i] = all[1] THEN {}
     ELSE Bad(Rd, "readers differ at " \o q[2] \o " " \o q[1] \o ": " \o ToString(all) \o ", expected " \o (IF want.ok THEN ToString(want.rec) ELSE want.err))
RVer(file, v) ==
  UNION {(IF v[i].type # v[1].type \/ v[i].v4 # v[1].v4 \/ v[i].v6 # v[1].v6 THEN Bad(Rd, Who[i] \o " reads family " \o ToString(v[i].type) \o ", Go " \o ToString(v[1].type)) ELSE {})
         \cup (IF file.ver.version # "" /\ v[i].version # v[1].version THEN Bad(Rd, Who[i] \o " reads version " \o v[i].version \o ", Go " \o v[1].version) ELSE {})
         \cup (IF file.ver.version = "" /\ v[i].version # "ipip.net-" \o ToString(v[i].build) THEN Bad(Rd, Who[i] \o " calls a file without version, built at " \o ToString(v[i].build) \o ", " \o v[i].version) ELSE {})
         \cup (IF v[i].count # v[1].count THEN Bad(Rd, Who[i] \o " reads " \o ToString(v[i].count) \o " nodes, Go " \o ToString(v[1].count)) ELSE {})
         \cup (IF v[i].build # v[1].build THEN Bad(Rd, Who[i] \o " reads build " \o ToString(v[i].build) \o ", Go " \o ToString(v[1].build)) ELSE {})
         \cup (IF v[i].extra # v[1].extra THEN Bad(Rd, Who[i] \o " reads extra " \o ToString(v[i].extra) \o ", Go " \o ToString(v[1].extra)) ELSE {}) : i \in 2..3}
(* Threads that share one database of the Java reader: s.all[i] holds every
   outcome any of them saw at s.asked[i], s.vers what it said of the version. *)
ParBads(file, s) ==
  UNION {UNION {IF Java(file, s.all[i][j]) = s.asked[i][3] THEN {}
                ELSE Bad({"C38"}, "Java in " \o ToString(s.n) \o " threads answers " \o ToString(s.all[i][j]) \o " at " \o s.asked[i][1] \o ", Go " \o ToString(s.asked[i][3])) : j \in 1..Len(s.all[i])} : i \in 1..Len(s.asked)}
  \cup (IF Len(s.vers) = 1 THEN {} ELSE Bad({"C38"}, "Java in " \o ToString(s.n) \o " threads says of one file " \o ToString(s.vers)))
ReaderOps == {"ropen", "rqs", "rpar"}
ReaderStep(env, s, sc) ==
  CASE s.op = "ropen" ->
         IF Poisoned(env, s.h) THEN Ret(With(env, s.r, Poison), {})
         ELSE IF s.out # "ok" THEN Ret(With(env, s.r, Poison), Bad(Rd, "Go opens the file, Java and Rust: " \o ToString(Get(s, "outs", <<s.out>>)) \o " " \o Get(s, "why", "")))
         ELSE Ret(With(env, s.r, [k |-> "readers", file |-> s.h]), RVer(env[s.h], s.vers))
    [] s.op = "rpar" ->
         IF Poisoned(env, s.h) \/ s.out = "unopened" THEN Ret(env, {})
         ELSE IF s.out # "ok" THEN Ret(env, Broken(sc, {"C38"}, s, "Java in " \o ToString(s.n) \o " threads"))
         ELSE Ret(env, ParBads(env[s.h], s))
    [] s.op = "rqs" ->
         IF Poisoned(env, s.r) THEN Ret(env, {})
         ELSE Ret(env, UNION {RAgree(env[env[s.r].file], s.q[i]) : i \in 1..Len(s.q)})
=============================================================================
