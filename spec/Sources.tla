------------------------------- MODULE Sources -------------------------------
(* Database files of either format: what a query answers and what a dump is. *)
EXTENDS Ipdb, Rule

(* awdb: records are functions from field names to values; an IPv4 address in
   an IPv6 file is looked up below ::/96. *)
AwOf == [country |-> "country", province |-> "province", city |-> "city", isp |-> "isp",
         asn |-> "asnumber", continent |-> "continent", line |-> "line"]
AwValue(rec, f) == IF f \in DOMAIN rec THEN rec[f] ELSE ""
AwInfo(rec) == [i \in 1..Len(PUB) |-> IF PUB[i] \in DOMAIN AwOf THEN AwValue(rec, AwOf[PUB[i]]) ELSE ""]
AwKey(file, fam, a) == IF fam = 4 /\ file.fam = "6" THEN Zeros(96) \o a ELSE a
AwLen(file, fam, p) == IF fam = 4 /\ file.fam = "6" /\ Len(p) >= 96 THEN Len(p) - 96 ELSE Len(p)
AwAnswer(file, fam, a) ==
  IF fam = 0 \/ (fam = 6 /\ file.fam = "4") THEN [ok |-> FALSE, err |-> "any"]
  ELSE LET k == AwKey(file, fam, a)
           D == file.nets
       IN IF ~HasNet(D, k) THEN [ok |-> FALSE, err |-> "any"]
          ELSE LET p == NetOf(D, k)
               IN [ok |-> TRUE, rec |-> AwInfo(file.recs[file.T[p]]), len |-> AwLen(file, fam, p), net |-> p]

AnswerOf(file, fam, a) == IF file.kind = "awdb" THEN AwAnswer(file, fam, a) ELSE Answer(file, fam, a)
Covered(file, fam, a) ==
  /\ fam # 0
  /\ IF file.kind = "awdb" THEN ~(fam = 6 /\ file.fam = "4") ELSE Supports(file, fam)

(* -- dump --------------------------------------------------------------------- *)
(* The value of common field f in a record of the file ("" if f is not a
   field the format knows or the file has). *)
DumpValue(file, rec, f) ==
  IF file.kind = "awdb" THEN IF f \in DOMAIN AwOf THEN AwValue(rec, AwOf[f]) ELSE ""
  ELSE IF f \in DOMAIN ExtOf THEN FileValue(file, rec, ExtOf[f]) ELSE ""
AwDumpFields == <<"country", "province", "city", "isp", "asn", "continent", "line">>
CommonName(ext) == IF \E f \in DOMAIN ExtOf : ExtOf[f] = ext THEN CHOOSE f \in DOMAIN ExtOf : ExtOf[f] = ext ELSE ""
DumpFields(file, rule) ==
  IF rule # "" THEN ParseRule(rule).fields
  ELSE IF file.kind = "awdb" THEN AwDumpFields
  ELSE LET names == [i \in 1..Len(file.fields) |-> CommonName(file.fields[i])]
       IN SelectSeq(names, LAMBDA x : x # "")
DumpRow(file, rule, rec) ==
  LET fs == DumpFields(file, rule)
      row == [i \in 1..Len(fs) |-> DumpValue(file, rec, fs[i])]
  IN IF rule = "" THEN row ELSE ExportRow(ParseRule(rule), row)
(* ::/0 is stored as its two halves in an ipdb, an awdb cannot hold it. *)
DumpNets(file) == IF file.kind = "ipdb" /\ file.fam = "6" /\ file.nets = {""} THEN {"0", "1"} ELSE file.nets
DumpNet(file, p) == IF p \in file.nets THEN p ELSE ""      \* network of the file a dumped network belongs to
=============================================================================
