------------------------------- MODULE Names --------------------------------
(* The names the product's rules are about (Chinese, hence in a data file). *)
EXTENDS Json, Sequences, Naturals
LOCAL N == JsonDeserialize("names.json")
CHINA == N.china
USA == N.usa
TELECOM == N.telecom
UNICOM == N.unicom
MOBILE == N.mobile
TIETONG == N.tietong
OTHERISP == N.other
DEFAULT == N.deflt
RESERVED == N.reserved
HK == N.hk
MO == N.mo
TAIWAN == N.taiwan
MainIsp == N.mainIsp                       \* in order of preference
IsMainIsp(s) == \E i \in 1..Len(MainIsp) : MainIsp[i] = s
Continent(s) == IF s \in DOMAIN N.continents THEN N.continents[s] ELSE s
ContinentCodes == DOMAIN N.continents
Districts == N.districts
District(p) == IF p \in DOMAIN N.districts THEN N.districts[p] ELSE ""
=============================================================================
