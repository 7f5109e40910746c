------------------------------ MODULE ConvFail ------------------------------
(* A conversion that may fail: the line database, the input, then one output
   after the other.  outs: what the outputs are: a file of its own, the input
   itself, or something that cannot be written.  files: what they hold. *)
EXTENDS Naturals, Sequences, FiniteSets, Json, TLC
CONSTANTS MaxOuts
VARIABLES input, line, long, outs, i, files, said
vars == <<input, line, long, outs, i, files, said>>

Files == {"a.ipdb", "b.scan", "c.memip"}
Bad == {"format", "dir", "isdir"}
Kinds == Files \cup Bad \cup {"in"}
Init ==
  /\ input \in {"ok", "missing", "format", "cut"} /\ line \in {"none", "ok", "missing"} /\ long \in BOOLEAN
  /\ outs \in UNION {[1..n -> Kinds] : n \in 1..MaxOuts}
  /\ i = 0 /\ said = ""
  /\ files = [f \in Kinds |-> "old"]
Holds(o) == o \notin Bad /\ ~(long /\ o = "a.ipdb")
Read == /\ i = 0 /\ said = ""
        /\ IF line = "missing" THEN said' = "line" /\ i' = i
           ELSE IF input # "ok" THEN said' = "input" /\ i' = i
           ELSE said' = "" /\ i' = 1
        /\ UNCHANGED <<input, line, long, outs, files>>
Write == /\ i \in 1..Len(outs) /\ said = ""
         /\ IF Holds(outs[i]) THEN files' = [files EXCEPT ![outs[i]] = "new"] /\ i' = i + 1 /\ said' = ""
            ELSE said' = outs[i] /\ i' = i /\ files' = IF outs[i] \in Bad THEN files ELSE [files EXCEPT ![outs[i]] = "part"]
         /\ UNCHANGED <<input, line, long, outs>>
Done == i > Len(outs) /\ said = "" /\ said' = "done" /\ UNCHANGED <<input, line, long, outs, i, files>>
Next == Read \/ Write \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Ends == <>(said # "")
Fine == input = "ok" /\ line # "missing"
FirstBad == IF ~Fine THEN 0
            ELSE CHOOSE k \in 1..(Len(outs) + 1) : (k > Len(outs) \/ ~Holds(outs[k])) /\ \A j \in 1..(k - 1) : Holds(outs[j])
Correct ==
  said # "" =>
    /\ (said = "done") = (FirstBad > Len(outs))
    /\ \A f \in Kinds :
         LET before == \E j \in 1..(FirstBad - 1) : outs[j] = f
             it == FirstBad \in 1..Len(outs) /\ outs[FirstBad] = f
         IN files[f] = (IF it /\ f \notin Bad THEN "part" ELSE IF before THEN "new" ELSE "old")
Gen == i # 0 \/ said # "" \/ PrintT("@@SCEN " \o ToJson([input |-> input, line |-> line, long |-> long, outs |-> outs]))
=============================================================================
