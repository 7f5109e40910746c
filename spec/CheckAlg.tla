------------------------------ MODULE CheckAlg ------------------------------
(* The self checks of a database: two known addresses are asked in turn; the
   first that is not as it should be decides.  ans: what the file says about
   each address: the country it should, another one, or nothing. *)
EXTENDS Naturals, Sequences, Json, TLC
VARIABLES ans, i, res
vars == <<ans, i, res>>
Says == {"right", "wrong", "none"}
Init == ans \in [1..2 -> Says] /\ i = 1 /\ res = ""
Ask == /\ res = "" /\ i <= 2
       /\ i' = i + 1
       /\ res' = CASE ans[i] = "right" -> "" [] ans[i] = "wrong" -> "check" [] OTHER -> "query"
       /\ UNCHANGED ans
Done == res = "" /\ i > 2 /\ res' = "ok" /\ UNCHANGED <<ans, i>>
Next == Ask \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Correct ==
  res # "" =>
    /\ (res = "ok") = (\A k \in 1..2 : ans[k] = "right")
    /\ res = "check" => \E k \in 1..2 : ans[k] = "wrong" /\ \A l \in 1..(k - 1) : ans[l] = "right"
    /\ res = "query" => \E k \in 1..2 : ans[k] = "none" /\ \A l \in 1..(k - 1) : ans[l] = "right"
Ends == <>(res # "")
Gen == i # 1 \/ res # "" \/ PrintT("@@SCEN " \o ToJson([ans |-> ans]))
=============================================================================
