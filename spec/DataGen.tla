------------------------------- MODULE DataGen -------------------------------
(* All short observation sequences over three values, replayed as categories,   *)
(* tables and signed series.                                                    *)
EXTENDS Integers, Sequences, TLC
VARIABLE s
Init == s = <<>>
Next == /\ Len(s) < 5
        /\ \E v \in -1..1 : s' = Append(s, v)
        /\ (Len(s') = 5 => PrintT(<<"GEN", s'>>))
Spec == Init /\ [][Next]_s
=============================================================================
