------------------------------- MODULE JobsAlg -------------------------------
(* Work on several databases at the same time: opening and asking, dumping,
   processing, packing and converting, each on inputs that may be shared.
   A phase starts some jobs, each takes its input in pieces into a buffer,
   then gives the buffer out as its result; the phases follow one another.
   With buffers of their own every job's result is a function of its kind and
   input, whatever runs beside it or ran before.  (Share = "buffer": one buffer
   for all; "memo": results kept under the kind alone.  Both are wrong, and TLC
   says so: they are what the traces of the code must not show.) *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS NJobs, MaxPhases, MaxRun, Share
VARIABLES jobs, phase, run, buf, memo, results, inputs
vars == <<jobs, phase, run, buf, memo, results, inputs>>
Kinds == {"read", "write"}
Input0 == << <<1, 2>>, <<1, 3>> >>            \* two inputs of two pieces each
F(k, x) == <<k>> \o x
Init ==
  /\ jobs \in [1..NJobs -> Kinds \X (1..2)]
  /\ phase = 0 /\ run = <<>> /\ buf = [w \in 0..MaxRun |-> <<>>] /\ memo = [k \in Kinds |-> <<>>]
  /\ results = {} /\ inputs = Input0
B(w) == IF Share = "buffer" THEN 0 ELSE w
(* run[w] = <<job, pieces taken, finished>> *)
Begin(js) ==
  /\ \A w \in DOMAIN run : run[w][3]
  /\ phase < MaxPhases /\ phase' = phase + 1
  /\ run' = [w \in 1..Len(js) |-> <<js[w], 0, FALSE>>]
  /\ buf' = [w \in DOMAIN buf |-> <<>>]
  /\ UNCHANGED <<jobs, memo, results, inputs>>
Kind(w) == jobs[run[w][1]][1]
In(w) == inputs[jobs[run[w][1]][2]]
Start(w) ==
  /\ run[w][2] = 0 /\ ~run[w][3]
  /\ buf' = [buf EXCEPT ![B(w)] = <<Kind(w)>>] /\ run' = [run EXCEPT ![w][2] = 1]
  /\ UNCHANGED <<jobs, phase, memo, results, inputs>>
Take(w) ==
  /\ run[w][2] \in 1..Len(In(w)) /\ ~run[w][3]
  /\ buf' = [buf EXCEPT ![B(w)] = Append(@, In(w)[run[w][2]])] /\ run' = [run EXCEPT ![w][2] = @ + 1]
  /\ UNCHANGED <<jobs, phase, memo, results, inputs>>
Give(w) ==
  LET r == IF Share = "memo" /\ memo[Kind(w)] # <<>> THEN memo[Kind(w)] ELSE buf[B(w)]
  IN /\ run[w][2] = Len(In(w)) + 1 /\ ~run[w][3]
     /\ results' = results \cup {<<run[w][1], r>>}
     /\ memo' = [memo EXCEPT ![Kind(w)] = r]
     /\ run' = [run EXCEPT ![w][3] = TRUE]
     /\ UNCHANGED <<jobs, phase, buf, inputs>>
Next ==
  \/ \E n \in 1..MaxRun : \E js \in [1..n -> 1..NJobs] : Begin(js)
  \/ \E w \in DOMAIN run : Start(w) \/ Take(w) \/ Give(w)
Spec == Init /\ [][Next]_vars
Correct ==
  /\ inputs = Input0
  /\ \A r \in results : r[2] = F(jobs[r[1]][1], Input0[jobs[r[1]][2]])
=============================================================================
