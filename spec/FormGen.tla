------------------------------- MODULE FormGen -------------------------------
(* Mixed model formulas as sequences of terms: fixed effects, the removal of    *)
(* the intercept and random effects in any order.                               *)
EXTENDS Naturals, Sequences, TLC
CONSTANTS Hi
Fixed == {"x1", "x2", "x1:x2", "-1"}
Rand == {"1|g", "1 + x1|g", "0 + x2|h", "1|h"}
VARIABLES s
Used(t) == \E k \in 1..Len(s) : s[k] = t
Init == s = <<>>
Next == Len(s) < Hi /\ \E t \in Fixed \cup Rand : ~Used(t) /\ s' = Append(s, t)
Emit == (\E k \in 1..Len(s) : s[k] \in Rand) => PrintT(<<"GEN", ToString(s)>>)
=============================================================================
