------------------------------ MODULE StepsText ------------------------------
(* Text formats, packing as an operation on a table in memory, write faults,
   damaged files. *)
EXTENDS StepsRange, Text

Whole(t) == [fam |-> t.fam, fields |-> t.fields, ver |-> t.ver,
             rows |-> [i \in 1..Len(t.rows) |-> [net |-> t.rows[i][1], vals |-> t.recs[t.rows[i][2]]]]]
AsPackable(T) == [k |-> "table", fam |-> T.fam, fields |-> T.fields, ver |-> T.ver,
                  rows |-> [i \in 1..Len(T.rows) |-> <<T.rows[i].net, i>>], recs |-> [i \in 1..Len(T.rows) |-> T.rows[i].vals]]
ResRows(res) == [i \in 1..Len(res.rows) |-> [net |-> res.rows[i][1], vals |-> res.recs[res.rows[i][2]]]]
RowsDiffer(got, want) ==
  LET d == {i \in 1..Max2(Len(got), Len(want)) : i > Len(got) \/ i > Len(want) \/ got[i] # want[i]}
      i == FirstOf(d)
  IN "row " \o ToString(i) \o " is " \o (IF i > Len(got) THEN "missing" ELSE ToString(got[i])) \o " expected " \o (IF i > Len(want) THEN "none" ELSE ToString(want[i]))

ScanBads(s, sc, f, want) ==
  LET own == {"C27"} \cup Owned(f)
      ver == IF "loose" \in DOMAIN f /\ f.loose /\ s.out = "ok" THEN [want.ver EXCEPT !.build = s.res.ver.build] ELSE want.ver
  IN
  IF s.out # "ok" THEN Broken(sc, own, s, "scan text does not read back")
  ELSE LET got == ResRows(s.res)
       IN (IF s.res.fields # want.fields THEN Bad(own, "scan text has fields " \o ToString(s.res.fields) \o " expected " \o ToString(want.fields)) ELSE {})
          \cup (IF got # want.rows THEN Bad(own, "scan text: " \o RowsDiffer(got, want.rows)) ELSE {})
          \cup (IF s.res.ver # ver THEN Bad({"C27"} \cup (IF Owned(f) = {} THEN {} ELSE {"C28"}), "scan text has version " \o ToString(s.res.ver) \o " expected " \o ToString(ver)) ELSE {})
MemBads(s, sc, f) ==
  LET want == MemRows(f.t)
      own == {"C26"} \cup Owned(f)
  IN IF s.out # "ok" THEN Broken(sc, own, s, "memip text does not read back")
     ELSE LET got == ResRows(s.res)
              views == [i \in 1..Len(got) |-> [net |-> got[i].net, vals |-> Tail(got[i].vals)]]
          IN (IF s.res.fields # MemFields THEN Bad(own, "memip text has fields " \o ToString(s.res.fields)) ELSE {})
             \cup (IF \E i \in 1..Len(got) : Len(got[i].vals) # 6 THEN Bad(own, "memip row has not six values")
                   ELSE IF views # want THEN Bad(own, "memip: " \o RowsDiffer(views, want)) ELSE {})
MemLineBads(s, T) ==
  LET runs == MemRuns(T)
      want == [i \in 1..Len(runs) |-> <<runs[i].lo, runs[i].hi>> \o runs[i].vals]
  IN IF s.lines # want THEN Bad({"C26"}, "memip lines: " \o RowsDiffer(s.lines, want)) ELSE {}

(* A table with rows that have not one value for each field, or values an ipdb
   cannot tell apart: such a row is refused, and then the whole pack is.  (A row
   that overlaps another one may be refused for that.) *)
FitsRow(t, kind, vals) ==
  Len(vals) = Len(t.fields) /\ (kind = ".ipdb" => \A i \in 1..Len(vals) : \A j \in 1..Len(vals[i]) : SubSeq(vals[i], j, j) # "\t")
OddPack(env, s) ==
  LET t == env[s.t]
      fits == \A i \in 1..Len(t.rows) : FitsRow(t, s.kind, t.recs[t.rows[i][2]])
      how == "packing rows as " \o s.kind
  IN IF s.out \notin {"ok", "err"} THEN Ret(With(env, s.h, Poison), Bad({"C31"}, how \o " " \o s.out \o " " \o Get(s, "why", "")))
     ELSE IF fits /\ s.out = "err" THEN Ret(With(env, s.h, Poison), Bad({"C31"}, how \o " fails: " \o Get(s, "why", "")))
     ELSE IF ~fits /\ s.out = "ok" THEN Ret(With(env, s.h, Poison), IF s.kind = ".ipdb" /\ ~Distinct(t.rows) THEN {} ELSE Bad({"C31"}, how \o " that do not fit succeeds"))
     ELSE IF ~fits THEN Ret(With(env, s.h, Poison), {})
     ELSE Ret(With(env, s.h, [own |-> {"C31"}] @@ (IF s.kind = ".ipdb" THEN IpdbFile(t, s) @@ [memo |-> NoEnv] ELSE [k |-> "text", kind |-> s.kind, t |-> Whole(t)])), {})

TextOps == {"opack", "tpack", "tdump", "badtext", "ppack", "fpack", "pfile", "cut", "pad", "nofile"}
KindProps(kind) == CASE kind = ".scan" -> {"C27"} [] kind = ".memip" -> {"C26"} [] OTHER -> {"C01"}
Digest(env, t, kind) == t \o "#" \o kind

PureBads(env, s) ==
  LET t == env[s.t]
      d == Digest(env, s.t, s.kind)
      fits == \A i \in 1..Len(t.recs) : FitsRow(t, s.kind, t.recs[i])
  IN IF s.out \notin {"ok", "err"} \/ (s.out = "err" /\ fits) THEN Bad({"C17"}, "packing as " \o s.kind \o " " \o s.out \o " " \o Get(s, "why", ""))
     ELSE (IF s.after.fields # t.fields THEN Bad({"C17"}, "packing as " \o s.kind \o " changes the fields to " \o ToString(s.after.fields)) ELSE {})
          \cup (IF s.after.ver # t.ver THEN Bad({"C17"}, "packing as " \o s.kind \o " changes the version to " \o ToString(s.after.ver)) ELSE {})
          \cup (IF ResRows(s.after) # Whole(t).rows THEN Bad({"C17"}, "packing as " \o s.kind \o " changes the table: " \o RowsDiffer(ResRows(s.after), Whole(t).rows)) ELSE {})
          \cup (IF s.out = "ok" /\ d \in DOMAIN env THEN IF env[d].digest # s.digest THEN Bad({"C17"}, "packing as " \o s.kind \o " after other packs gives another output") ELSE {} ELSE {})

(* A pack whose destination failed: hit tells whether a write did fail. *)
FaultBads(s) ==
  IF s.out \notin {"ok", "err"} THEN Bad({"C18"}, "pack as " \o s.kind \o " " \o s.out \o " " \o Get(s, "why", ""))
  ELSE IF s.hit /\ s.out = "ok" THEN Bad({"C18"}, "pack as " \o s.kind \o " reports success although " \o s.fault)
  ELSE IF ~s.hit /\ s.out = "ok" /\ ~s.complete THEN Bad({"C18"}, "pack as " \o s.kind \o " reports success but wrote not everything")
  ELSE IF ~s.hit /\ s.out = "err" /\ s.fits THEN Bad({"C18"}, "pack as " \o s.kind \o " fails although every write succeeded: " \o Get(s, "why", ""))
  ELSE IF ~s.fits /\ s.out = "ok" THEN Bad({"C18"}, "a record too long for ipdb is packed without an error")
  ELSE {}
(* PackFile: want "err" leaves the file, "ok" writes what PackBytes gives. *)
FileBads(s) ==
  IF s.out # s.want THEN Bad({"C18"}, "packing to " \o s.name \o " " \o s.out \o " " \o Get(s, "why", ""))
  ELSE IF ~s.intact THEN Bad({"C18"}, IF s.want = "ok" THEN "packed file " \o s.name \o " is not the complete output" ELSE "failed packing changed the existing file " \o s.name)
  ELSE {}
(* Cut at or padded by each of the listed lengths. *)
DamageBads(s, what) ==
  IF s.out # "ok" THEN Bad({"C19"}, "opening a file " \o what \o " " \o s.out \o " " \o Get(s, "why", ""))
  ELSE UNION {LET x == s.q[i]
              IN IF x[2] # "err" \/ x[3] # "err"
                 THEN Bad({"C19"}, s.kind \o " file of " \o ToString(s.size) \o " bytes " \o what \o " " \o ToString(x[1]) \o " bytes: open " \o x[2] \o ", dump " \o x[3]) ELSE {} : i \in 1..Len(s.q)}

TextStep(env, s, sc) ==
  CASE s.op = "tpack" ->
         IF Poisoned(env, s.t) THEN Ret(With(env, s.h, Poison), {})
         ELSE IF s.out # "ok" THEN Ret(With(env, s.h, Poison), Broken(sc, KindProps(s.kind), s, "pack failed"))
         ELSE LET T == Whole(env[s.t])
              IN Ret(With(env, s.h, [k |-> "text", kind |-> s.kind, t |-> T]), IF s.kind = ".memip" THEN MemLineBads(s, T) ELSE {})
    [] s.op = "tdump" ->
         IF Poisoned(env, s.h) THEN Ret(With(env, s.t, Poison), {})
         ELSE LET f == env[s.h]
              IN IF s.kind = ".scan"
                 THEN LET want == ScanBack(f.t, s.rule)
                          bads == ScanBads(s, sc, f, want)
                      IN Ret(With(env, s.t, IF bads = {} THEN AsPackable(want) ELSE Poison), bads)
                 ELSE Ret(With(env, s.t, Poison), MemBads(s, sc, f))
    [] s.op = "opack" -> OddPack(env, s)
    [] s.op = "badtext" -> Ret(env, IF s.out = "err" THEN {} ELSE Bad({"C27"}, "malformed scan text (" \o s.what \o ") " \o s.out \o " " \o Get(s, "why", "")))
    [] s.op = "ppack" ->
         LET d == Digest(env, s.t, s.kind)
         IN Ret(IF s.out = "ok" /\ d \notin DOMAIN env THEN With(env, d, [k |-> "digest", digest |-> s.digest]) ELSE env, PureBads(env, s))
    [] s.op = "fpack" -> Ret(env, FaultBads(s))
    [] s.op = "pfile" -> Ret(env, FileBads(s))
    [] s.op = "cut" -> Ret(env, DamageBads(s, "cut to"))
    [] s.op = "pad" -> Ret(env, DamageBads(s, "padded by"))
    [] s.op = "nofile" -> Ret(env, IF s.out = "err" THEN {} ELSE Bad({"C19"}, "opening " \o s.what \o " " \o s.out \o " " \o Get(s, "why", "")))
=============================================================================
