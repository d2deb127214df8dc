----------------------------- MODULE FactorGen -----------------------------
(* Abstract sparse-factor object: what it answers depends on the matrix it was *)
(* last given and on nothing else, although each call may flip the internal    *)
(* representation (LL' or LDL').  Every call history up to Depth that ends in  *)
(* an observation is printed and replayed against the real object.             *)
EXTENDS Naturals, Sequences, TLC
CONSTANT Depth
Obs == {"L", "D", "solve_A", "solve_L_ll", "solve_L_ldl", "solve_Lt_ll", "solve_Lt_ldl", "slogdet", "inv", "perm"}
Mats == {"m1", "m2"}
VARIABLES cur, kind, hist
Init == cur = "m0" /\ kind = "any" /\ hist = <<>>
KindOf(op, k) == IF op \in {"L", "solve_L_ll", "solve_Lt_ll"} THEN "LL" ELSE IF op \in {"D", "solve_L_ldl", "solve_Lt_ldl"} THEN "LDL" ELSE k
Observe(op) == cur' = cur /\ kind' = KindOf(op, kind) /\ hist' = Append(hist, op)
Refactor(m) == cur' = m /\ kind' = "any" /\ hist' = Append(hist, m)
Next == Len(hist) < Depth /\ ((\E op \in Obs : Observe(op)) \/ (\E m \in Mats : Refactor(m)))
(* a representation switch never changes which matrix is represented *)
CurIsLast == \A k \in 1..Len(hist) : (hist[k] \in Mats /\ \A j \in (k+1)..Len(hist) : hist[j] \notin Mats) => cur = hist[k]
Emit == Len(hist) = Depth => PrintT(<<"GEN", ToString(hist)>>)
=============================================================================
