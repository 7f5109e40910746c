------------------------------ MODULE ServiceGen ------------------------------
(* Histories of one database: questions, changes to records received, further
   caching, reopening - every sequence of a bounded length. *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS MaxLen
VARIABLE h
Acts == {"ask1", "ask2", "ask3", "askNone", "changeFirst", "changeLast", "cache1", "askJunk"}
Init == h = <<>>
Next == Len(h) < MaxLen /\ \E a \in Acts : h' = Append(h, a)
Spec == Init /\ [][Next]_h
Gen == Len(h) = MaxLen => PrintT("@@SCEN " \o ToJson([h |-> h]))
=============================================================================
