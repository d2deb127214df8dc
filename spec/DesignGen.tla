------------------------------ MODULE DesignGen ------------------------------
(* All small survey frames: every row gets a (stratum, unit) label, in every   *)
(* order; then a policy for strata with one unit.  Up to renaming of strata in  *)
(* order of their first appearance nothing is left out.                         *)
EXTENDS Naturals, Sequences, TLC
CONSTANTS Rows, Strata, Units
Labels == (0..(Strata - 1)) \X (0..(Units - 1))
Policies == {"aggregate", "none", "error"}
VARIABLES rows, pol
Init == rows = <<>> /\ pol \in Policies
Next == Len(rows) < Rows /\ \E l \in Labels : rows' = Append(rows, l) /\ pol' = pol
Emit == Len(rows) = Rows => PrintT(<<"GEN", ToString(<<pol, rows>>)>>)
=============================================================================
