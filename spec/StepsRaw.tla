------------------------------ MODULE StepsRaw ------------------------------
(* Files as bytes in a search tree of any shape: cycles, shared parts, records
   that point nowhere, records that are damaged.  A query follows the tree the
   file holds and ends in the record it finds there or in an error; other
   damage ends in an answer or an error, too, never in a crash.
   (RawAlg checks the walk, its cache and its bounds on every small tree.) *)
EXTENDS StepsData

(* A raw file: n nodes, tree[i+1] = <<left, right>> of node i; recs is a
   sequence of <<offset, readable, record>>, offsets as a node's value gives
   them: value - n in an ipdb, value - n - 16 in an awdb. *)
RawFile(s) == [k |-> "raw", kind |-> s.kind, fam |-> s.fam, n |-> s.n, tree |-> s.tree, size |-> s.size,
               fields |-> FileFields(s.fields), at |-> [o \in {s.recs[i][1] : i \in 1..Len(s.recs)} |-> CHOOSE i \in 1..Len(s.recs) : s.recs[i][1] = o],
               recs |-> s.recs]
IDX == [i \in 1..128 |-> i]
RawStep(f, bits, st, i) ==
  IF i > Len(bits) \/ st[1] >= f.n THEN st
  ELSE <<f.tree[st[1] + 1][IF Bit(bits, i) = "0" THEN 1 ELSE 2], i>>
RawWalk(f, node, bits) == FoldLeft(LAMBDA st, i : RawStep(f, bits, st, i), <<node, 0>>, IDX)

RawErr(e) == [k |-> "err", err |-> e]
RawEnd(f, node, len) ==
  LET o == IF f.kind = "awdb" THEN node - f.n - 16 ELSE node - f.n
  IN IF node = f.n \/ (node < f.n /\ f.kind = "ipdb") THEN RawErr("notexist")
     ELSE IF node < f.n THEN RawErr("bad")
     ELSE IF o < 0 \/ o + (IF f.kind = "awdb" THEN 1 ELSE 2) > f.size THEN RawErr("bad")
     ELSE IF o \notin DOMAIN f.at THEN [k |-> "open"]
     ELSE IF f.recs[f.at[o]][2] = 0 THEN RawErr("bad")
     ELSE [k |-> "rec", rec |-> f.recs[f.at[o]][3], len |-> len]
(* the node the IPv4 tree starts at, and its depth *)
RawV4(f) == IF f.kind = "awdb" THEN (IF f.fam = "6" THEN RawWalk(f, 0, Zeros(96)) ELSE <<0, 0>>) ELSE RawWalk(f, 0, MAPPED)
RawAnswer(f, fam, a) ==
  IF fam = 0 THEN RawErr("any")
  ELSE IF f.kind = "awdb" THEN
    IF fam = 6 THEN IF f.fam = "4" THEN RawErr("bad") ELSE LET r == RawWalk(f, 0, a) IN RawEnd(f, r[1], r[2])
    ELSE LET v == RawV4(f)
             r == RawWalk(f, v[1], a)
         IN RawEnd(f, r[1], IF f.fam = "6" /\ v[2] < 96 THEN v[2] ELSE r[2])
  ELSE IF ~Supports(f, fam) THEN RawErr(IF fam = 4 THEN "nov4" ELSE "nov6")
  ELSE LET r == RawWalk(f, IF fam = 4 THEN RawV4(f)[1] ELSE 0, a) IN RawEnd(f, r[1], r[2])
(* An address of the file's own space, as dumps and iterations see it. *)
RawOwn(f, a) ==
  LET r == RawWalk(f, IF f.kind = "ipdb" /\ f.fam = "4" THEN RawV4(f)[1] ELSE 0, a) IN RawEnd(f, r[1], r[2])
RawInfo(f, rec) == IF f.kind = "awdb" THEN AwInfo(rec) ELSE Info(f, rec)

RawQ(f, q) ==
  LET w == RawAnswer(f, Fam(q[1]), Norm(q[1]))
      where == " at " \o q[2] \o " " \o q[1]
      B(m) == Bad({"C30"}, m \o where)
  IN IF q[3] \notin {"ok", "err"} THEN B("query " \o q[3])
     ELSE IF w.k = "open" THEN {}
     ELSE IF w.k = "rec" THEN
       IF q[3] = "err" THEN B("no answer though the file holds one: " \o q[6])
       ELSE IF q[4] # RawInfo(f, w.rec) THEN B("answer " \o ToString(q[4]) \o " but the file holds " \o ToString(RawInfo(f, w.rec)))
       ELSE IF q[5] # w.len THEN B("prefix length " \o ToString(q[5]) \o " expected " \o ToString(w.len)) ELSE {}
     ELSE IF q[3] = "ok" THEN B("answer " \o ToString(q[4]) \o " though the path ends at no record")
     ELSE IF w.err = "bad" THEN IF q[6] = "notexist" THEN B("no data, it says, though the file is damaged or not for such addresses") ELSE {}
     ELSE IF w.err # "any" /\ q[2] # "junk" /\ q[6] # w.err THEN B("error " \o q[6] \o " expected " \o w.err) ELSE {}

(* What a dump yields: networks in order up to the first address without a record. *)
RawDumpStep(f, st, i) ==
  IF st.k # "run" THEN st
  ELSE LET w == RawOwn(f, st.at)
       IN IF w.k # "rec" THEN [st EXCEPT !.k = w.k]
          ELSE LET p == Pre(st.at, w.len)
                   l == Hi(p, Len(st.at))
               IN IF Lo(p, Len(st.at)) # st.at THEN [st EXCEPT !.k = "open"]
                  ELSE [k |-> IF IsMax(l) THEN "ok" ELSE "run", at |-> IF IsMax(l) THEN l ELSE Succ(l), rows |-> Append(st.rows, <<p, w.rec>>)]
RawDump(f) == FoldLeft(LAMBDA st, i : RawDumpStep(f, st, i), [k |-> "run", at |-> Zeros(WidthOf(f.fam)), rows |-> <<>>], [i \in 1..200 |-> i])
RawSane(f) == f.kind = "awdb" /\ f.fam = "4" => RawOwn(f, EIGHT).k = "rec"
RawDumpBads(f, s) ==
  LET want == RawDump(f)
  IN IF s.out \notin {"ok", "err"} THEN Bad({"C30"}, "dump " \o s.out \o " " \o Get(s, "why", ""))
     ELSE IF ~RawSane(f) \/ want.k \in {"open", "run"} THEN {}
     ELSE IF want.k = "err" THEN IF s.out = "ok" THEN Bad({"C30"}, "dump succeeds though an address has no record") ELSE {}
     ELSE IF s.out = "err" THEN Bad({"C30"}, "dump fails: " \o Get(s, "why", ""))
     ELSE LET got == [i \in 1..Len(s.res.rows) |-> <<s.res.rows[i][1], RowVals(s.res, i)>>]
              exp == [i \in 1..Len(want.rows) |-> <<want.rows[i][1], DumpRow(f, "", want.rows[i][2])>>]
          IN IF got = exp THEN {} ELSE Bad({"C30"}, "dump " \o ToString(got) \o " expected " \o ToString(exp))

(* Iteration: a prefix of the networks in order; if it ends well, all of them. *)
RawIterBads(f, s) ==
  LET nets == [i \in 1..Len(s.rows) |-> s.rows[i][1]]
      W == WidthOf(f.fam)
      odd == {i \in 1..Len(nets) :
                LET w == RawOwn(f, Lo(nets[i], W))
                IN w.k = "err" \/ (w.k = "rec" /\ (w.rec # s.recs[s.rows[i][2]] \/ w.len # Len(nets[i])))}
      lost == {i \in 1..Len(s.probe) : LET w == RawOwn(f, s.probe[i]) IN w.k = "rec" /\ Pre(s.probe[i], w.len) \notin Seq2Set(nets)}
  IN IF s.out \notin {"ok", "err"} THEN Bad({"C30"}, "iteration " \o s.out \o " " \o Get(s, "why", ""))
     ELSE IF odd # {} THEN LET i == CHOOSE i \in odd : \A j \in odd : i <= j IN Bad({"C30"}, "iteration yields " \o nets[i] \o " with " \o ToString(s.recs[s.rows[i][2]]))
     ELSE IF ~Ascending(nets, W) THEN Bad({"C30"}, "iteration out of order")
     ELSE IF s.out = "ok" /\ lost # {} THEN Bad({"C30"}, "iteration leaves out the network of " \o s.probe[CHOOSE i \in lost : TRUE]) ELSE {}

(* Variants of a damaged file: none may end otherwise than in an answer or an
   error, or take memory out of proportion (MB). *)
FlipBads(s) ==
  UNION {Bad({"C30"}, s.kind \o " " \o s.bad[i][1] \o ": " \o s.bad[i][2]) : i \in 1..Len(s.bad)}
  \cup (IF s.mem > 100 THEN Bad({"C30"}, s.kind \o " " \o s.most \o ": " \o ToString(s.mem) \o " MB allocated") ELSE {})

(* The same file in the Java and the Rust reader. *)
RawRQ(file, outs, q) ==
  LET w == RawAnswer(file, Fam(q[1]), Norm(q[1]))
      B(k, m) == Bad({"C33"}, <<"Java", "Rust">>[k] \o ": " \o m \o " at " \o q[2] \o " " \o q[1])
  IN UNION {LET a == IF k = 1 THEN Java(file, q[3]) ELSE q[4]
            IN IF outs[k + 1] # "ok" \/ a[1] = "closed" THEN {}
               ELSE IF a[1] \notin {"ok", "err"} THEN B(k, "query " \o a[1])
               ELSE IF w.k = "open" THEN {}
               ELSE IF w.k = "rec" THEN
                 IF a[1] = "err" THEN B(k, "no answer though the file holds one")
                 ELSE IF a[2] # RawInfo(file, w.rec) THEN B(k, "answer " \o ToString(a[2]) \o " but the file holds " \o ToString(RawInfo(file, w.rec))) ELSE {}
               ELSE IF a[1] = "ok" THEN B(k, "answer " \o ToString(a[2]) \o " though the path ends at no record") ELSE {} : k \in 1..2}

(* A packed ipdb, taken apart by the description of the format: whoever walks
   the nodes finds the packed records, continents as codes, and nothing else. *)
CodeOf(v) == IF \E c \in ContinentCodes : Continent(c) = v THEN CHOOSE c \in ContinentCodes : Continent(c) = v ELSE v
Stored(file, rec) == [i \in 1..Len(file.fields) |-> IF file.fields[i] = "continent_code" THEN CodeOf(rec[i]) ELSE rec[i]]
LayoutQ(file, raw, a) ==
  LET fam == Fam(a)
      k == Norm(a)
      key == Key(file, fam, k)
      r == RawWalk(raw, 0, IF fam = 4 THEN MAPPED \o k ELSE k)
      e == RawEnd(raw, r[1], r[2])
      B(m) == Bad({"C35"}, m \o " at " \o a)
  IN IF fam = 0 \/ ~Supports(file, fam) THEN {}
     ELSE IF ~HasNet(file.nets, key) THEN IF r[1] = raw.n THEN {} ELSE B("the nodes lead to " \o ToString(r[1]) \o " where the file has no network")
     ELSE LET want == Stored(file, file.recs[file.T[NetOf(file.nets, key)]])
          IN IF e.k # "rec" THEN B("the nodes lead to " \o ToString(r[1]) \o ", no record, of " \o ToString(raw.n))
             ELSE IF e.rec # want THEN B("the file stores " \o ToString(e.rec) \o " expected " \o ToString(want)) ELSE {}
LayoutBads(file, s) ==
  LET B(m) == Bad({"C35"}, m)
      raw == RawFile([kind |-> "ipdb", fam |-> file.fam, n |-> s.n, tree |-> s.tree, recs |-> s.recs, size |-> s.size, fields |-> <<>>])
  IN (IF s.type # TypeOf(file.fam) THEN B("ip_version " \o ToString(s.type) \o " of a file of family " \o file.fam) ELSE {})
     \cup (IF s.fields # file.fields THEN B("fields " \o ToString(s.fields) \o " expected " \o ToString(file.fields)) ELSE {})
     \cup (IF s.langs # <<<<"CN", 0>>>> THEN B("languages " \o ToString(s.langs)) ELSE {})
     \cup (IF s.total # s.body THEN B("total_size " \o ToString(s.total) \o " of " \o ToString(s.body) \o " bytes") ELSE {})
     \cup (IF s.end # <<ToString(s.n), ToString(s.n)>> THEN B("the empty node leads to " \o ToString(s.end)) ELSE {})
     \cup (IF Cardinality({s.recs[i][3] : i \in 1..Len(s.recs)}) # Len(s.recs) THEN B("equal records are stored more than once") ELSE {})
     \cup UNION {LayoutQ(file, raw, s.q[i]) : i \in 1..Len(s.q)}

RawOps == {"layout", "rawrd", "rawrq", "rflip", "rawfile", "rawopen", "rawq", "rawdump", "rawiter", "flip"}
RawStepOp(env, s, sc) ==
  CASE s.op = "rawfile" -> Ret(With(env, s.h, RawFile(s)), {})
    [] s.op = "rawopen" ->
         IF s.out = "ok" THEN Ret(With(env, s.d, [k |-> "db", file |-> s.h]), {})
         ELSE Ret(With(env, s.d, Poison), IF s.out = "err" THEN {} ELSE Bad({"C30"}, "open " \o s.out \o " " \o Get(s, "why", "")))
    [] s.op = "rawq" ->
         IF Poisoned(env, s.d) THEN Ret(env, {})
         ELSE IF Get(s, "out", "ok") # "ok" THEN Ret(env, Bad({"C30"}, "queries " \o s.out \o " " \o Get(s, "why", "")))
         ELSE Ret(env, UNION {RawQ(env[env[s.d].file], s.q[i]) : i \in 1..Len(s.q)})
    [] s.op = "layout" ->
         IF Poisoned(env, s.h) THEN Ret(env, {})
         ELSE Ret(env, IF s.out = "ok" THEN LayoutBads(env[s.h], s) ELSE Bad({"C35"}, "not an ipdb file: " \o s.out \o " " \o Get(s, "why", "")))
    [] s.op = "rawdump" -> Ret(env, RawDumpBads(env[s.h], s))
    [] s.op = "rawiter" -> Ret(env, IF Has(s, "rows") THEN RawIterBads(env[s.h], s) ELSE IF s.out = "err" THEN {} ELSE Bad({"C30"}, "iteration " \o s.out \o " " \o Get(s, "why", "")))
    [] s.op = "rawrd" ->
         Ret(With(env, s.r, [k |-> "rawreaders", file |-> s.h, outs |-> s.outs]),
             UNION {IF s.outs[k] = s.outs[1] THEN {}
                    ELSE Bad({"C33"}, Who[k] \o " opens the file: " \o s.outs[k] \o ", Go: " \o s.outs[1]) : k \in 2..3})
    [] s.op = "rawrq" -> Ret(env, UNION {RawRQ(env[env[s.r].file], env[s.r].outs, s.q[i]) : i \in 1..Len(s.q)})
    [] s.op = "rflip" -> Ret(env, UNION {Bad({"C33"}, s.what \o ": " \o s.bad[i][1] \o ": " \o s.bad[i][2]) : i \in 1..Len(s.bad)})
    [] s.op = "flip" -> Ret(env, IF s.out = "ok" THEN FlipBads(s) ELSE Bad({"C30"}, s.kind \o " " \o Get(s, "what", "") \o " damaged: " \o s.out \o " " \o Get(s, "why", "")))
=============================================================================
