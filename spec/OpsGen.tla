------------------------------- MODULE OpsGen -------------------------------
(* Every sequence of processing steps on every field list of OpsAlg. *)
EXTENDS Naturals, Sequences, Json, TLC
CONSTANTS MaxOps
VARIABLES fields, ops
Lists == {<<"country", "isp">>, <<"isp", "asn", "province">>, <<"line", "country", "isp">>, <<"asn", "isp">>, <<"district">>,
          <<"province", "district", "asn">>, <<"asn">>, <<"city", "province">>, <<"country", "province", "city", "isp", "asn">>,
          <<"asn", "continent", "line", "district", "isp", "country">>}
Names == {"normalise", "trim", "merge", "attach", "replace", "byasn", "district"}
Init == fields \in Lists /\ ops = <<>>
Next == /\ Len(ops) < MaxOps
        /\ \E o \in Names : ops' = Append(ops, o)
        /\ UNCHANGED fields
Spec == Init /\ [][Next]_<<fields, ops>>
Gen == Len(ops) < MaxOps \/ PrintT("@@SCEN " \o ToJson([fields |-> fields, ops |-> ops]))
=============================================================================
