------------------------------- MODULE MemoGen -------------------------------
(* A memoised objective: three questions (value, gradient, Hessian) asked at   *)
(* points that may be a fresh array, the array used before, or the same array  *)
(* overwritten in place.  The answer is a function of the point's contents.    *)
EXTENDS Naturals, Sequences, TLC
CONSTANT Depth
Ask == {"value", "grad", "hess"}
Pts == {"a", "b", "inplace"}
VARIABLES cell, hist
Init == cell = "a" /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E q \in Ask, p \in Pts : /\ cell' = IF p = "inplace" THEN (IF cell = "a" THEN "b" ELSE "a") ELSE p
                                     /\ hist' = Append(hist, q \o ":" \o p)
Emit == Len(hist) = Depth => PrintT(<<"GEN", ToString(hist)>>)
=============================================================================
