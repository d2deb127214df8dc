-------------------------------- MODULE LmmGen --------------------------------
(* Workspace protocol of a mixed-model object.  Its calls share buffers: cross  *)
(* products at a residual variance, the random-effect covariance or its inverse, *)
(* the coefficient matrix C and its factor.  buf[b] says what b holds:           *)
(* <<parameter, form>>.  Each call rewrites what it will read before reading it, *)
(* so its answer depends on the data and the parameter only (Fresh), whatever    *)
(* was called before.  Every call history of length Depth is printed and         *)
(* replayed against the real object.                                             *)
EXTENDS Naturals, Sequences, TLC
CONSTANT Depth
(* t0: the fitted parameter, by default argument; t1, t2: arrays passed by the caller *)
Thetas == {"t0", "t1", "t2"}
Ops == {"ll", "llml", "grad", "gradml", "grad2", "eff", "cross", "se", "var", "df", "pred"}
Buf == {"RZ", "G", "C", "F", "R"}
(* the writes of a call, in order, and the buffers it then reads with the form it needs *)
Writes(op) == CASE op \in {"ll", "llml"} -> << <<"RZ","inv">>, <<"G","inv">>, <<"C","sum">>, <<"F","chol">> >>
                [] op \in {"grad", "gradml", "grad2", "eff"} -> << <<"RZ","inv">>, <<"G","inv">>, <<"C","sum">>, <<"F","chol">>, <<"G","dir">> >>
                [] op \in {"cross", "df"} -> << <<"RZ","inv">>, <<"G","inv">>, <<"C","sum">>, <<"F","chol">>, <<"R","inv">> >>
                [] op = "se" -> << <<"RZ","inv">>, <<"G","inv">>, <<"C","sum">>, <<"F","chol">> >>
                [] op = "var" -> << <<"G","dir">> >>
                [] OTHER -> <<>>
Reads(op) == CASE op \in {"ll", "llml", "se"} -> { <<"RZ","inv">>, <<"F","chol">> }
               [] op \in {"grad", "gradml", "grad2", "eff"} -> { <<"RZ","inv">>, <<"F","chol">>, <<"G","dir">> }
               [] op \in {"cross", "df"} -> { <<"R","inv">>, <<"F","chol">>, <<"RZ","inv">> }
               [] op = "var" -> { <<"G","dir">> }
               [] OTHER -> {}
VARIABLES buf, hist, ok
Init == buf = [b \in Buf |-> <<"t0", "dir">>] /\ hist = <<>> /\ ok = TRUE
After(op, t) == LET ws == Writes(op)
                    step[k \in 0..Len(ws)] == IF k = 0 THEN buf ELSE [step[k-1] EXCEPT ![ws[k][1]] = <<t, ws[k][2]>>] IN step[Len(ws)]
Last == IF hist = <<>> THEN "" ELSE hist[Len(hist)]
(* the caller overwrites, in place, the array it passed as t1 *)
Set == Len(hist) = 1 /\ hist' = Append(hist, "set:t1") /\ UNCHANGED <<buf, ok>>
Call == /\ Len(hist) < Depth \/ (Len(hist) = Depth /\ Last = "set:t1")
        /\ \E op \in Ops, t \in Thetas : /\ op = "pred" => t = "t0"
                                         /\ Last = "set:t1" => t = "t1"
                                         /\ hist' = Append(hist, op \o ":" \o t)
                                         /\ buf' = After(op, t)
                                         /\ ok' = \A r \in Reads(op) : buf'[r[1]] = <<t, r[2]>>
Next == Set \/ Call
Fresh == ok
Emit == (Len(hist) > Depth \/ (Len(hist) = Depth /\ Last # "set:t1")) => PrintT(<<"GEN", ToString(hist)>>)
=============================================================================
