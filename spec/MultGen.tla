------------------------------- MODULE MultGen -------------------------------
(* All small shapes of a two-block analysis: number of variables in each block  *)
(* and number of components asked for (0 = default).                            *)
EXTENDS Integers, Sequences, TLC
VARIABLE s
Init == s = <<>>
Next == /\ s = <<>>
        /\ \E p \in 1..4 : \E q \in 1..4 : \E k \in 0..4 :
             /\ k <= p /\ k <= q
             /\ s' = <<p, q, k>>
             /\ PrintT(<<"GEN", s'>>)
Spec == Init /\ [][Next]_s
=============================================================================
