------------------------------- MODULE JobsGen -------------------------------
(* Which jobs run beside which: up to three jobs of all kinds on two inputs of
   each sort, then phases of jobs that start together (a job may run beside
   itself). *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS MaxPhases
VARIABLES jobs, phases
vars == <<jobs, phases>>
Kinds == {"ask ipdb", "ask awdb", "dump ipdb", "dump awdb", "dump scan", "dump memip",
          "process", "pack ipdb", "pack scan", "pack memip", "convert"}
Runs == {<<1, 1, 2>>, <<3, 2>>, <<1, 2, 3, 1, 2, 3>>}
Init == jobs \in [1..3 -> Kinds \X (1..2)] /\ jobs[1][2] = 1 /\ phases = <<>>
Next == Len(phases) < MaxPhases /\ \E r \in Runs : phases' = Append(phases, r) /\ UNCHANGED jobs
Spec == Init /\ [][Next]_vars
Sane == jobs[1] # jobs[2] /\ jobs[2] # jobs[3] /\ jobs[1] # jobs[3]
Gen == Len(phases) = MaxPhases /\ Sane => PrintT("@@SCEN " \o ToJson([jobs |-> jobs, phases |-> phases]))
=============================================================================
