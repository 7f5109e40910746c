-------------------------------- MODULE Steps --------------------------------
(* Dispatch of the calls of a trace to the modules that specify them.  Every
   operator returns [env |-> what there is afterwards, bads |-> set of
   <<properties broken, message>>]. *)
EXTENDS StepsJobs

Ops == IpdbOps \cup DumpOps \cup RuleOps \cup OpOps \cup RangeOps \cup TextOps \cup ServiceOps \cup ConvertOps \cup ReaderOps \cup DataOps \cup RawOps \cup JobOps
Step(env, s, sc) ==
  CASE s.op \in IpdbOps -> IpdbStep(env, s, sc)
    [] s.op \in DumpOps -> DumpStep(env, s, sc)
    [] s.op \in RuleOps -> RuleStep(env, s, sc)
    [] s.op \in OpOps -> OpStep(env, s, sc)
    [] s.op \in RangeOps -> RangeStep(env, s, sc)
    [] s.op \in TextOps -> TextStep(env, s, sc)
    [] s.op \in ServiceOps -> ServiceStep(env, s, sc)
    [] s.op \in ConvertOps -> ConvertStep(env, s, sc)
    [] s.op \in ReaderOps -> ReaderStep(env, s, sc)
    [] s.op \in DataOps -> DataStep(env, s, sc)
    [] s.op \in RawOps -> RawStepOp(env, s, sc)
    [] s.op \in JobOps -> JobStep(env, s, sc)
=============================================================================
