------------------------------ MODULE StepBase ------------------------------
EXTENDS Sources
NoEnv == [h \in {} |-> 0]
Has(s, f) == f \in DOMAIN s
Get(s, f, d) == IF f \in DOMAIN s THEN s[f] ELSE d
Bad(props, msg) == {<<props, msg>>}
Poison == [k |-> "poison"]
With(env, h, o) == (h :> o) @@ env
IsA(env, h, k) == h \in DOMAIN env /\ env[h].k = k
Poisoned(env, h) == h \in DOMAIN env /\ env[h].k = "poison"
Ret(env, bads) == [env |-> env, bads |-> bads]
Focus(sc) == IF "focus" \in DOMAIN sc THEN {sc.focus[i] : i \in 1..Len(sc.focus)} ELSE {}
(* A call everything else in the scenario rests on failed. *)
Broken(sc, props, s, what) ==
  Bad(props \cup Focus(sc), what \o ": " \o s.out \o " " \o Get(s, "err", "") \o " " \o Get(s, "why", ""))
Seq2Set(q) == {q[i] : i \in 1..Len(q)}
(* Addresses as recorded: 32 bits, 128 bits, or "" for "not an address". *)
Fam(a) == IF Len(a) = 32 THEN 4 ELSE IF Len(a) = 128 THEN (IF Pre(a, 96) = MAPPED THEN 4 ELSE 6) ELSE 0
Norm(a) == IF Len(a) = 128 /\ Pre(a, 96) = MAPPED THEN Suf(a, 32) ELSE a
=============================================================================
