------------------------------ MODULE StepsData ------------------------------
(* Values of an awdb data section, decoded by offset or through the tree into
   targets of many types. *)
EXTENDS StepsReaders, Data

De == {"C25"}
Near == 400     \* nesting that has to be accepted
Far == 700      \* nesting that has to be refused
DecStep(ds, s) ==
  LET want == Dec(ds, s.off, s.ty, 0, Near, {})
      shown(v) == LET t == ToString(v) IN SubSeq(t, 1, Min2(Len(t), 400))
      at == s.api \o " at " \o ToString(s.off) \o " into " \o SubSeq(ToString(s.ty), 1, Min2(Len(ToString(s.ty)), 300))
  IN IF s.out \notin {"ok", "err"} THEN Bad(De, at \o ": " \o s.out \o " " \o Get(s, "why", ""))
     ELSE IF ~want.ok
     THEN IF want.why = "unspecified" THEN {}
          ELSE IF want.why = "deep" /\ (LET far == Dec(ds, s.off, s.ty, 0, Far, {}) IN far.ok \/ far.why # "deep") THEN {}
          ELSE IF s.out = "ok" THEN Bad(De, at \o ": should fail (" \o want.why \o "), returned " \o shown(s.v))
          ELSE {}
     ELSE IF s.out # "ok" THEN Bad(De, at \o ": failed (" \o Get(s, "why", "") \o "), should be " \o shown(want.v))
     ELSE IF ~SameV(want.v, s.v) THEN Bad(De, at \o ": " \o shown(s.v) \o ", should be " \o shown(want.v))
     ELSE {}
DataOps == {"awdata", "awdec", "awide"}
DataStep(env, s, sc) ==
  CASE s.op = "awdata" ->
         LET ds == [k |-> "awdata", segs |-> s.segs, size |-> s.size]
             wrong == {i \in 1..Len(s.vals) : LET d == Dec(ds, s.offs[i], Anything, 0, Far, {}) IN ~d.ok \/ ~SameV(d.v, s.vals[i])}
         IN IF wrong # {} THEN Ret(With(env, s.r, Poison), Bad({"SPEC"}, "the writer of the harness and the specification disagree on value " \o ToString(FirstOf(wrong))))
            ELSE IF s.out # "ok" THEN Ret(With(env, s.r, Poison), Broken(sc, De, s, "an awdb file does not open"))
            ELSE Ret(With(env, s.r, ds), {})
    [] s.op = "awide" ->      \* {a: <<n values>>, z: "end"} into a target that has z
         Ret(env, IF s.out = "ok" /\ s.z = "end" THEN {}
                  ELSE Bad(De, "a field behind " \o ToString(s.n) \o " values that are skipped (" \o s.api \o "): " \o s.out \o " " \o Get(s, "z", "") \o " " \o Get(s, "why", "")))
    [] s.op = "awdec" -> IF Poisoned(env, s.h) THEN Ret(env, {}) ELSE Ret(env, DecStep(env[s.h], s))
=============================================================================
