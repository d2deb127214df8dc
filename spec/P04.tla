-------------------------------- MODULE P04 --------------------------------
(* Reparameterisations: each direction equals its definition, the directions   *)
(* undo one another, and first and second derivatives are those of the maps.   *)
EXTENDS TraceBase, Transforms
TfA == Is("tf") /\ st' = st /\ Judge(LET e == Ev  m == e.map  F(x) == FwM(m, x)  R(y) == RvM(m, y) nm == e.nm IN <<
   <<"forward-map:" \o nm, NNear(e.y, F(e.x), "1e-10")>>,
   <<"reverse-map:" \o nm, NNear(e.xr, R(e.y), "1e-9")>>,
   <<"round-trip:" \o nm, NNear(e.xr, e.x, "1e-8") /\ NNear(e.yr, e.y2, "1e-8")>>,
   <<"forward-jacobian:" \o nm, NNear(e.Jf, NumJac(F, N(e.x)), "1e-8")>>,
   <<"reverse-jacobian:" \o nm, NNear(e.Jr, NumJac(R, N(e.y)), "1e-8")>>,
   <<"jacobians-are-inverse:" \o nm, NNear(NMM(e.Jr, e.Jf), NEye(NLen(e.x)), "1e-7")>>,
   <<"forward-hessian:" \o nm, ~e.hess \/ NNear(e.Hf, Hess3(F, e.x), "1e-6")>>,
   <<"reverse-hessian:" \o nm, ~e.hess \/ NNear(e.Hr, Hess3(R, e.y), "1e-6")>> >>)
BatchA == Is("batch") /\ st' = st /\ Judge(LET e == Ev IN <<
   <<"batched-rows:" \o e.nm, \A k \in 1..NNR(e.X) : /\ NNear(NRow(e.Y, k), FwM(e.map, NRow(e.X, k)), "1e-10")
                                                    /\ NNear(NRow(e.XR, k), NRow(e.X, k), "1e-8")
                                                    /\ NNear(NRow(e.J, k), e.J1[k], "1e-11")>> >>)
ScalarA == Is("scalar") /\ st' = st /\ Judge(LET e == Ev  F(x) == Fw(e.map, x) R(y) == Rv(e.map, y) IN <<
   <<"scalar-map:" \o e.nm, NNear(e.y, F(e.x), "1e-10") /\ NNear(e.xr, e.x, "1e-9")>>,
   <<"scalar-derivatives:" \o e.nm, NNear(e.Jf, D1(F, e.x), "1e-8") /\ NNear(e.Jr, D1(R, e.y), "1e-8") /\ NNear(e.Hf, D2(F, e.x), "1e-6") /\ NNear(e.Hr, D2(R, e.y), "1e-6")>> >>)
(* derivatives of the Cholesky factor along a matrix path *)
CholA == Is("dchol") /\ st' = st /\ Judge(LET e == Ev  n == e.n  m == e.m
      Mat(z) == LET acc[k \in 0..m] == IF k = 0 THEN N(e.M) ELSE NAdd(acc[k-1], NMul(NAt(z, k), e.dM[k]))
                    quad[k \in 0..(m*m)] == IF k = 0 THEN NFull(n, n, 0) ELSE NAdd(quad[k-1], NMul(NMul("0.5", NMul(NAt(z, ((k-1) \div m) + 1), NAt(z, ((k-1) % m) + 1))), e.d2M[k]))
                IN NAdd(acc[m], quad[m*m])
      F(z) == NVec(NChol(Mat(z)))  z0 == NFull(m, 1, 0)
      J == NumJac(F, z0)  H == Hess3(F, z0)
      low(A) == \* the lower triangle, as vec with zeros above
         NVec(NMat(n, n, N(Tup([k \in 1..(n*n) |-> IF ((k-1) \div n) >= ((k-1) % n) THEN NEl(A, ((k-1) \div n) + 1, ((k-1) % n) + 1) ELSE N(0)])))) IN <<
   <<"cholesky-factor", NNear(low(e.L), NVec(NChol(e.M)), "1e-10")>>,
   <<"cholesky-first-derivative", \A k \in 1..m : NNear(low(e.dL[k]), NColumn(J, k), "1e-8")>>,
   <<"cholesky-second-derivative", ~e.second \/ \A k \in 1..(m*m) : NNear(low(e.d2L[k]), NColumn(H, k), "1e-6")>> >>)
Init == TInit("none")
Next == TfA \/ BatchA \/ ScalarA \/ CholA \/ Unchanged \/ Raised \/ Finished
=============================================================================
