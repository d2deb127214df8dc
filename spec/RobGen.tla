------------------------------- MODULE RobGen -------------------------------
(* Every ordered sample of Lo..Hi observations from a small set of values, ties *)
(* included: the fast scale estimators have to agree with their definitions on  *)
(* all of them.                                                                *)
EXTENDS Naturals, Sequences, TLC
CONSTANTS Lo, Hi
Vals == <<0, 1, 2, 4>>
VARIABLES s, k
Init == s = <<>> /\ k = 1
Next == /\ Len(s) < Hi
        /\ \E j \in k..Len(Vals) : s' = Append(s, Vals[j]) /\ k' = j
Emit == Len(s) >= Lo => PrintT(<<"GEN", ToString(s)>>)
=============================================================================
