----------------------------- MODULE StepsConvert -----------------------------
(* Conversion: dump with a rule, the standard processing steps in order,
   outputs.  Everything an output must answer follows from the source. *)
EXTENDS StepsService

Sorted(nets, W) == SetToSortSeq(nets, LAMBDA p, q : LT(Lo(p, W), Lo(q, W)))
(* The table a dump of a source gives. *)
DumpTable(f, rule) ==
  IF f.k = "text" THEN LET b == ScanBack(f.t, rule)
                       IN [fam |-> b.fam, fields |-> b.fields, rows |-> b.rows, extra |-> b.ver.extra]
  ELSE LET W == WidthOf(f.fam)
           nets == Sorted(DumpNets(f), W)
       IN [fam |-> f.fam, fields |-> DumpFields(f, rule), extra |-> IF f.kind = "ipdb" THEN f.ver.extra ELSE <<>>,
           rows |-> [i \in 1..Len(nets) |-> [net |-> nets[i], vals |-> DumpRow(f, rule, f.recs[f.T[DumpNet(f, nets[i])]])]]]
(* line: <<>> or <<line database, replace>> *)
Steps1(T, norm) == Merge(Trim(Normalise(T, norm)), WidthOf(T.fam))
WithLine(T, line) ==
  IF Len(line) = 0 THEN T
  ELSE [(IF line[2] THEN ReplaceLine(T, line[1].m) ELSE AttachLine(T, line[1].m)) EXCEPT !.extra = Append(T.extra, line[1].name)]
Convert(T, norm, line) == AttachDistrict(WithLine(Steps1(T, norm), line))

SourceVer(f) == IF f.k = "text" THEN f.t.ver ELSE f.ver
ConvVer(f, T) ==
  LET v == SourceVer(f)
      langs == IF f.k = "file" /\ f.kind = "ipdb" THEN <<"CN">> ELSE v.langs
  IN [type |-> TypeOf(T.fam), count |-> Len(T.rows), build |-> v.build, version |-> v.version, langs |-> langs, extra |-> T.extra, has |-> HasOf(T.fam)]
OwnFile(f, own) == f @@ [own |-> own]
ConvOut(f, T, o, s) ==
  LET ver == ConvVer(f, T)
      W == [fam |-> T.fam, fields |-> T.fields, rows |-> T.rows, ver |-> ver]
  IN IF o.kind = ".ipdb" THEN OwnFile(IpdbFile(AsPackable(W), s) @@ [memo |-> NoEnv], {"C07"})
     ELSE [k |-> "text", kind |-> o.kind, t |-> W, own |-> {"C07"}, loose |-> IF f.k = "text" THEN Get(f, "loose", FALSE) ELSE f.kind = "ipdb"]

(* What an address reads, as runs of equal values. *)
SameAnswers(A, B) == A.fields = B.fields /\ Runs(A.rows, WidthOf(A.fam)) = Runs(B.rows, WidthOf(B.fam))
Underscore(T) == [T EXCEPT !.rows = [i \in 1..Len(T.rows) |-> [net |-> T.rows[i].net, vals |-> ScanRow(T.fields, T.rows[i].vals)]]]

(* A conversion that may fail, asked once as functions and once as the program:
   bad: what is wrong with the line database or the input; an output has what
   is wrong with it.  state: what became of the files of the outputs. *)
TooLong(T) == \E i \in 1..Len(T.rows) : \E k \in 1..Len(T.rows[i].vals) : Len(T.rows[i].vals[k]) > 65535
Failing(env, s) ==
  LET f == env[s.h]
      uncovered == f.k = "file" /\ (~Covering(f.nets, WidthOf(f.fam)) \/ ~Sane(f))
      ok == s.bad = "" /\ ~uncovered
      T == IF ok THEN Convert(DumpTable(f, s.rule), NORM, IF s.l = "" THEN <<>> ELSE <<env[s.l], s.lrep>>) ELSE <<>>
      long == ok /\ TooLong(T)
      holds(o) == o.bad = "" /\ o.kind \in {".ipdb", ".scan", ".memip"} /\ ~(long /\ o.kind = ".ipdb")
      n == Len(s.outs)
      k == IF ~ok THEN 0 ELSE CHOOSE j \in 1..(n + 1) : (j > n \/ ~holds(s.outs[j])) /\ \A m \in 1..(j - 1) : holds(s.outs[m])
      part(o) == k \in 1..n /\ o.h = s.outs[k].h /\ o.bad = "" /\ o.kind \in {".ipdb", ".scan", ".memip"}
      done(o) == \E j \in 1..(k - 1) : s.outs[j].h = o.h
      how == "conversion (" \o s.how \o ") "
      outbads(o, was) == IF part(o) THEN {}
                    ELSE IF done(o) THEN IF was = "new" THEN {} ELSE Bad({"C36"}, how \o "did not write " \o o.name)
                    ELSE IF was = "same" THEN {} ELSE Bad({"C36"}, how \o "that failed before " \o o.name \o " changed it")
      bads == (IF s.out \notin {"ok", "err"} THEN Bad({"C36"}, how \o s.out \o " " \o Get(s, "why", ""))
               ELSE IF k > n THEN IF s.out = "ok" THEN {} ELSE Bad({"C36"}, how \o "fails: " \o Get(s, "why", ""))
               ELSE IF s.out = "ok" THEN Bad({"C36"}, how \o "says nothing although it cannot " \o (IF k = 0 THEN "read " \o s.bad ELSE "write " \o s.outs[k].name))
               ELSE {})
              \cup (IF s.others THEN {} ELSE Bad({"C36"}, how \o "changed or made other files: " \o s.which))
              \cup UNION {outbads(s.outs[j], s.state[j]) : j \in 1..n}
      handles == {s.outs[j].h : j \in 1..n}
      file(h) == LET js == {j \in 1..n : s.outs[j].h = h} IN s.outs[CHOOSE j \in js : TRUE]
      new == [h \in handles |-> IF ok /\ done(file(h)) /\ ~part(file(h)) THEN ConvOut(f, T, file(h), s) ELSE Poison]
  IN Ret(new @@ env, bads)

ConvertOps == {"convert", "fconvert"}
ConvertStep(env, s, sc) ==
  IF s.op = "fconvert" THEN IF Poisoned(env, s.h) THEN Ret([h \in {s.outs[i].h : i \in 1..Len(s.outs)} |-> Poison] @@ env, {}) ELSE Failing(env, s) ELSE
  LET f == env[s.h]
      poisoned == {s.outs[i].h : i \in 1..Len(s.outs)}
      ill == [h \in poisoned |-> Poison] @@ env
  IN IF f.k = "poison" THEN Ret(ill, {})
     ELSE IF f.k = "file" /\ (~Covering(f.nets, WidthOf(f.fam)) \/ ~Sane(f)) THEN
        Ret(ill, IF s.out = "ok" THEN Bad({"C05"}, "conversion of a database with uncovered addresses succeeded") ELSE {})
     ELSE IF s.out # "ok" THEN Ret(ill, Bad({"C07"}, "conversion " \o s.out \o " " \o Get(s, "why", "")))
     ELSE LET src == DumpTable(f, s.rule)
              line == IF s.l = "" THEN <<>> ELSE <<env[s.l], s.lrep>>
              T == Convert(src, NORM, line)
              outs == [h \in poisoned |-> ConvOut(f, T, s.outs[CHOOSE i \in 1..Len(s.outs) : s.outs[i].h = h], s)]
              \* converting an output again: a law of the specification
              law == s.again => SameAnswers(Underscore(src), Underscore(T))
          IN Ret(outs @@ env, IF law THEN {} ELSE Bad({"SPEC"}, "converting an output again changes " \o ToString(src.fields)))
=============================================================================
