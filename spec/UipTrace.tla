------------------------------ MODULE UipTrace ------------------------------
(* The judge.  A trace is a sequence of scenarios, a scenario is a sequence of
   calls into the real code with their arguments and results.  Every call is
   one action of the specification: from the abstract tables, files and
   databases in env (all computed by the specification, never taken from the
   code) it determines what the call may return and what it leaves behind.
   A result the specification does not allow is printed with the properties it
   breaks; what depends on it is then skipped (handle "poison"), the rest of
   the trace is still checked. *)
EXTENDS Steps, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.UIP_TRACE)
N == Len(Trace)

VARIABLES si, l, env, nbad
vars == <<si, l, env, nbad>>

Init == si = 1 /\ l = 1 /\ env = NoEnv /\ nbad = 0

Scen == Trace[si]
Report(bads) ==
  \A b \in bads :
     PrintT("@@BAD " \o ToJson([sid |-> Scen.sid, tag |-> Scen.tag, family |-> Scen.family, step |-> l, props |-> b[1], msg |-> b[2]]))

(* One action per call. *)
IsOp(o) == si <= N /\ l <= Len(Scen.steps) /\ Scen.steps[l].op = o
Take(o) ==
  /\ IsOp(o)
  /\ LET r == Step(env, Scen.steps[l], Scen)
     IN /\ Report(r.bads)
        /\ env' = r.env
        /\ nbad' = nbad + Cardinality(r.bads)
  /\ l' = l + 1
  /\ UNCHANGED si
NextScenario ==
  /\ si <= N /\ l > Len(Scen.steps)
  /\ si' = si + 1 /\ l' = 1 /\ env' = NoEnv /\ UNCHANGED nbad
Next == (\E o \in Ops : Take(o)) \/ NextScenario
Spec == Init /\ [][Next]_vars

(* The whole trace was consumed: every step was one the specification knows. *)
Consumed == si = N + 1
Steps == FoldLeft(LAMBDA n, s : n + Len(s.steps), 0, Trace)
Accepted ==
  /\ TLCGet("stats").diameter - 1 = Steps + N
  /\ PrintT("@@DONE " \o ToJson([scenarios |-> N, steps |-> Steps]))
=============================================================================
