------------------------------- MODULE PackAlg -------------------------------
(* Packing one table again and again, as the loops that write it: one chunk per
   line (text) or per section (ipdb), each write may fail, for good or once.
   The table lives in shared slices, formats clean values in copies.  A row
   that has not one value for each of the two fields, or that the format could
   not tell from another one, ends the pack with an error. *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets
CONSTANTS MaxPacks
VARIABLES cells, rows, fmt, i, wrote, fault, hit, res, outs
vars == <<cells, rows, fmt, i, wrote, fault, hit, res, outs>>

Formats == {"scan", "memip", "ipdb"}
Cell0 == <<",", "c">>                       \* a value with a comma, a continent
(* "t": a value that holds a tab *)
Clean(f, v) == IF f = "scan" /\ v \in {",", "t"} THEN "_" ELSE IF f # "scan" /\ v = "c" THEN "C" ELSE v
Fits(f, c) == Len(c) = 2 /\ (f = "ipdb" => \A j \in 1..2 : c[j] # "t")
Init ==
  /\ cells \in {<< <<",", "c">> >>, << <<",", "c">>, <<"x", "c">> >>,
                 << <<",", "c">>, <<"x">> >>, << <<",", "c">>, <<"x", "c", "y">> >>, << <<",", "c">>, <<>> >>, << <<",", "c">>, <<"t", "c">> >>}
  /\ rows = [j \in 1..2 |-> IF Len(cells) = 1 THEN 1 ELSE j]
  /\ fmt = "none" /\ i = 0 /\ wrote = <<>> /\ fault \in {[at |-> 0, once |-> FALSE]} /\ hit = FALSE /\ res = "none" /\ outs = {}
Chunks(f) ==
  LET cleaned(c) == [j \in 1..Len(c) |-> Clean(f, c[j])]
      body == [j \in 1..2 |-> cleaned(cells[rows[j]])]
  IN IF f = "scan" THEN <<"head">> \o body ELSE IF f = "memip" THEN body ELSE <<"meta", "nodes", body>>
Begin(f, at, once) ==
  /\ fmt = "none" /\ Cardinality(outs) < MaxPacks
  /\ fmt' = f /\ i' = 1 /\ wrote' = <<>> /\ fault' = [at |-> at, once |-> once] /\ hit' = FALSE /\ res' = "none"
  /\ UNCHANGED <<cells, rows, outs>>
Write ==
  /\ fmt # "none" /\ res = "none" /\ i <= Len(Chunks(fmt))
  /\ IF \E j \in 1..2 : ~Fits(fmt, cells[rows[j]]) /\ i = (IF fmt = "scan" THEN j + 1 ELSE IF fmt = "memip" THEN j ELSE 1)
     THEN res' = "err" /\ UNCHANGED <<wrote, i, hit>>
     ELSE IF fault.at # 0 /\ (i = fault.at \/ (~fault.once /\ i > fault.at))
     THEN hit' = TRUE /\ res' = "err" /\ UNCHANGED <<wrote, i>>
     ELSE wrote' = Append(wrote, Chunks(fmt)[i]) /\ i' = i + 1 /\ UNCHANGED <<hit, res>>
  /\ UNCHANGED <<cells, rows, fmt, fault, outs>>
Done == fmt # "none" /\ res = "none" /\ i > Len(Chunks(fmt)) /\ res' = "ok" /\ UNCHANGED <<cells, rows, fmt, i, wrote, fault, hit, outs>>
Return ==
  /\ res # "none" /\ fmt # "none"
  /\ outs' = outs \cup {<<Cardinality(outs), fmt, res, wrote>>}
  /\ fmt' = "none" /\ res' = "none" /\ i' = 0 /\ wrote' = <<>> /\ hit' = FALSE /\ UNCHANGED <<cells, rows, fault>>
Next == (\E f \in Formats, at \in 0..4, once \in BOOLEAN : Begin(f, at, once)) \/ Write \/ Done \/ Return
Spec == Init /\ [][Next]_vars
Correct ==
  /\ cells[1] = Cell0                                                              \* C17: never changed
  /\ \A x, y \in outs : x[2] = y[2] /\ x[3] = "ok" /\ y[3] = "ok" => x[4] = y[4]    \* C17: same output
  /\ res = "ok" => ~hit /\ wrote = Chunks(fmt)                                      \* C18
  /\ hit => res = "err"
  /\ res = "ok" => \A j \in 1..2 : Fits(fmt, cells[rows[j]])                        \* C31: nothing is left out
  /\ \A x \in outs : x[3] = "ok" => \A j \in 1..2 : Len(cells[rows[j]]) = 2
=============================================================================
