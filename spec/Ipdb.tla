-------------------------------- MODULE Ipdb --------------------------------
(* The ipdb format at the level of its users: a file is the networks it
   accepted with their values, a query is a function of file and address.
   (IpdbTrie.tla refines this to nodes, cache and data offsets.) *)
EXTENDS Nets, Names

MAPPED == Zeros(80) \o Ones(16)

(* Reported fields, in the order of the traces. *)
PUB == <<"country", "province", "city", "isp", "asn", "continent", "line", "district">>

(* Names of the common fields inside a file. *)
ExtOf == [country |-> "country_name", province |-> "region_name", city |-> "city_name",
          isp |-> "isp_domain", asn |-> "asn", continent |-> "continent_code",
          utcOffset |-> "utc_offset", latitude |-> "latitude", longitude |-> "longitude",
          chinaAdminCode |-> "china_admin_code", district |-> "district", line |-> "line"]
FileField(f) == IF f \in DOMAIN ExtOf THEN ExtOf[f] ELSE f
FileFields(fs) == [i \in 1..Len(fs) |-> FileField(fs[i])]

IndexOf(s, x) == IF \E i \in 1..Len(s) : s[i] = x THEN CHOOSE i \in 1..Len(s) : s[i] = x ELSE 0

(* Value of a record under a name of the file; continents are shown in Chinese. *)
FileValue(file, rec, ext) ==
  LET i == IndexOf(file.fields, ext)
  IN IF i = 0 THEN "" ELSE IF ext = "continent_code" THEN Continent(rec[i]) ELSE rec[i]
Info(file, rec) == [i \in 1..Len(PUB) |-> FileValue(file, rec, ExtOf[PUB[i]])]

(* Width of the space the networks of a family are written in: a dual stack
   file holds IPv4 networks below ::ffff:0:0/96. *)
WidthOf(fam) == IF fam = "4" THEN 32 ELSE 128

(* The networks a sequence of rows <<net, record>> leaves in a file. *)
TableNets(rows) == {rows[i][1] : i \in 1..Len(rows)}
Distinct(rows) == LET S == TableNets(rows) IN Cardinality(S) = Len(rows) /\ Disjoint(S)
Content(rows) ==
  IF Distinct(rows)
  THEN FoldLeft(LAMBDA m, r : (r[1] :> r[2]) @@ m, Empty, rows)
  ELSE Accept(rows)

(* Key of an address of a query family (4: 32 bits, 6: 128 bits, not mapped). *)
Supports(file, fam) == IF fam = 4 THEN file.fam \in {"4", "46"} ELSE file.fam \in {"6", "46"}
Key(file, fam, a) == IF fam = 4 /\ file.fam = "46" THEN MAPPED \o a ELSE a
LenShown(file, fam, p) ==
  IF Len(p) = 0 /\ file.fam # "4" /\ fam = 6 THEN 1
  ELSE IF fam = 4 /\ file.fam = "46" THEN Max2(Len(p) - 96, 0) ELSE Len(p)

(* What a query answers. fam 0 is "not an address". *)
Answer(file, fam, a) ==
  IF fam = 0 THEN [ok |-> FALSE, err |-> "format"]
  ELSE IF ~Supports(file, fam) THEN [ok |-> FALSE, err |-> IF fam = 4 THEN "nov4" ELSE "nov6"]
  ELSE LET k == Key(file, fam, a)
           D == file.nets
       IN IF ~HasNet(D, k) THEN [ok |-> FALSE, err |-> "notexist"]
          ELSE LET p == NetOf(D, k)
               IN [ok |-> TRUE, rec |-> Info(file, file.recs[file.T[p]]), len |-> LenShown(file, fam, p), net |-> p]
=============================================================================
