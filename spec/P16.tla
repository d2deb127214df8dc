-------------------------------- MODULE P16 --------------------------------
(* Factor analysis (second generation): rotation criteria and groups, rotation   *)
(* solvers, identification, maximum likelihood, standard errors, alignment.      *)
EXTENDS TraceBase, Fa, FiniteSetsExt, SequencesExt
CritA == Is("crit") /\ st' = st /\ Judge(LET e == Ev L == N(e.L) p == NNR(L) m == NNC(L) F(z) == Crit(e.c, z) Fv(v) == F(NUnvec(v, p, m)) H == NumHess(Fv, NVec(L)) IN <<
   <<"criterion", NNear(e.q, F(L), "1e-11")>>,
   <<"criterion-gradient", NNear(e.dq, GradOf(F, L), "1e-9")>>,
   <<"criterion-hessian", NNear(e.d2, H, "1e-7")>>,
   <<"criterion-hessian-product", NNear(e.hy, NMM(H, e.Y), "1e-7") /\ NNear(e.hy1, NMM(H, N(e.y)), "1e-7")>> >>)
CayA == Is("cayley") /\ st' = st /\ Judge(LET e == Ev v == N(e.v) m == e.m F(z) == NSum(NMul(e.H, Cay(z, m))) IN <<
   <<"skew", NNear(e.S, Skew(v, m), "1e-14") /\ NNear(e.sv, v, "1e-14")>>,
   <<"rotation-of-parameters", NNear(e.Q, Cay(v, m), "1e-9") /\ IsRot(e.Q) /\ NNear(NDet(e.Q), 1, "1e-9")>>,
   <<"parameters-of-rotation", NNear(e.back, v, "1e-7")>>,
   <<"rotation-chain-rule", NNear(e.dr, NumGrad(F, v), "1e-8")>>,
   <<"stacked-arguments", \A k \in 1..Len(e.V) : NNear(e.QS[k], Cay(N(e.V[k]), m), "1e-9")>> >>)
Svals(X) == NSqrt(NIf(NGtI(NEig(NMM(NT(X), X)), 0), NEig(NMM(NT(X), X)), 0))
RotA == Is("rot") /\ st' = st /\ Judge(LET e == Ev A == N(e.A) T == N(e.T) F(z) == Crit(e.c, Rotated(e.kind, A, z)) G == GradOf(F, T) R == N(e.R) X == N(e.X) IN <<
   <<"rotated-loadings", NNear(e.L, Rotated(e.kind, A, T), "1e-9")>>,
   <<"factor-correlation", NNear(e.Phi, IF e.kind = "ortho" THEN NEye(NNC(T)) ELSE NMM(NT(T), T), "1e-10")>>,
   <<"reproduced-covariance-is-invariant", NNear(NMM(e.L, NMM(e.Phi, NT(e.L))), NMM(A, NT(A)), "1e-8")>>,
   <<"gradient-in-the-rotation", NNear(e.G, G, "1e-8")>>,
   <<"tangent-projection", NNear(e.P, Project(e.kind, T, N(e.Y)), "1e-9")>>,
   <<"retraction", InGroup(e.kind, R)>>,
   <<"retraction-nearest", IF e.kind = "ortho" THEN LET B == NMM(NT(R), X) s == Svals(X) IN NNear(B, NT(B), "1e-8") /\ NNear(NDet(R), 1, "1e-9")
         /\ NNear(NTr(B), IF NLt(0, NDet(X)) THEN NSum(s) ELSE NSub(NSum(s), NMul(2, NAt(s, 1))), "1e-8")
       ELSE NNear(NMM(R, NDiag(NSqrt(NDg(NMM(NT(X), X))))), X, "1e-9")>> >>)
SolveA == Is("solve") /\ st' = st /\ Judge(LET e == Ev A == N(e.A) T == N(e.T) L == N(e.L) Phi == N(e.Phi) F(z) == Crit(e.c, Rotated(e.kind, A, z)) G == GradOf(F, T) IN <<
   <<"solution-in-the-group", InGroup(e.kind, T)>>,
   <<"solution-rotates-the-loadings", NNear(L, Rotated(e.kind, A, T), "1e-8") /\ NNear(Phi, IF e.kind = "ortho" THEN NEye(NNC(T)) ELSE NMM(NT(T), T), "1e-9")>>,
   <<"solution-keeps-the-covariance", NNear(NMM(L, NMM(Phi, NT(L))), NMM(A, NT(A)), "1e-7")>>,
   <<"solution-value", NNear(e.f, F(T), "1e-9")>>,
   <<"solution-no-worse-than-start", NLe(e.f, NAdd(F(N(e.T0)), "1e-10"))>>,
   <<"solution-stationary", LET P == Project(e.kind, T, G) IN NNear(P, NFull(NNR(T), NNC(T), 0), e.tol)>>,
   <<"reported-gradient-norm", Has(e, "gn") => NNear(e.gn, NSqrt(NSum(NPow(Project(e.kind, T, G), 2))), "1e-8")>> >>)
IdentA == Is("ident") /\ st' = st /\ Judge(LET e == Ev p == e.p m == e.m t == N(e.t) canon == e.kind = "canonical"
      C(z) == IF canon THEN CanonCons(LOf(z, p, m), PsiOf(z, p, m)) ELSE RotCons(e.kind, e.c, LOf(z, p, m), PhiOf(z, p, m)) IN <<
   <<"layout", NNear(e.L, LOf(t, p, m), "1e-14") /\ NNear(e.Phi, PhiOf(t, p, m), "1e-14") /\ NNear(e.psi, PsiOf(t, p, m), "1e-14") /\ NNear(e.t2, t, "1e-14")>>,
   <<"constraint", NNear(e.con, C(t), "1e-10")>>,
   <<"constraint-derivative", NNear(e.dcon, NumJac(C, t), "1e-8")>>,
   <<"constraint-count", e.nc = (IF e.kind = "oblique" THEN m * (m - 1) ELSE NS(m))>>,
   <<"free-parameters", e.free = Tup([k \in 1..NLen(t) |-> IF e.kind # "oblique" /\ k > p * m /\ k <= p * m + NS(m) THEN 0 ELSE 1])>> >>)
CanonA == Is("canon") /\ st' = st /\ Judge(LET e == Ev A == N(e.A) m == NNC(A) psi == IF Has(e, "psi") THEN N(e.psi) ELSE NFull(NNR(A), 1, 1) M == CanonMat(N(e.L), psi) IN <<
   <<"canonical-rotation", IsRot(e.T) /\ NNear(e.L, NMM(A, e.T), "1e-9") /\ NNear(e.Phi, NEye(m), "1e-12")>>,
   <<"canonical-form", NNear(M, NDiag(NDg(M)), "1e-8") /\ \A k \in 1..(m-1) : NLe(NEl(M, k+1, k+1), NAdd(NEl(M, k, k), "1e-9"))>>,
   <<"canonical-roots", NNear(e.vals, NDg(M), "1e-8")>> >>)
PsiA == Is("psi") /\ st' = st /\ Judge(LET e == Ev S == N(e.S) m == e.m p == NNR(S) psi == N(e.psi) F(z) == Profile(S, z, m) Fr(z) == F(NExp(z)) rho == NLn(psi) L == N(e.L) IN <<
   <<"profile-discrepancy", NNear(e.f, F(psi), "1e-9") /\ NNear(e.fe, F(psi), "1e-9")>>,
   <<"profile-gradient", NNear(e.g, NumGrad(F, psi), "1e-7") /\ NNear(e.ge, NumGrad(Fr, rho), "1e-7")>>,
   <<"profile-hessian", NNear(e.H, NumHess(F, psi), "1e-6") /\ NNear(e.He, NumHess(Fr, rho), "1e-6")>>,
   <<"profile-loadings", Has(e, "ok") => NNear(NSub(NSub(FML(S, SigmaOf(L, NEye(m), psi)), NLogDet(S)), p), F(psi), "1e-8")
        /\ NNear(CanonMat(L, psi), NDiag(NDg(CanonMat(L, psi))), "1e-8")>> >>)
MlFitA == Is("mlfit") /\ st' = st /\ Judge(LET e == Ev S == N(e.S) m == e.m psi == N(e.psi) Fr(z) == Profile(S, NExp(z), m) IN <<
   <<"fit-stationary", NNear(NumGrad(Fr, NLn(psi)), NFull(NLen(psi), 1, 0), e.tol)>>,
   <<"fit-no-worse-than-start", NLe(Profile(S, psi, m), NAdd(Profile(S, N(e.psi0), m), "1e-9"))>>,
   <<"fit-loadings", NNear(FML(S, SigmaOf(N(e.L), NEye(m), psi)), NAdd(NAdd(NLogDet(S), NNR(S)), Profile(S, psi, m)), "1e-8")>>,
   <<"population-recovered", Has(e, "exact") => NNear(SigmaOf(N(e.L), NEye(m), psi), S, "1e-4")>> >>)
Dsig(t, p, m) == LET F(z) == NVec(SigOf(z, p, m)) IN NumJac(F, t)
Col(D, k, p) == NUnvec(NColumn(D, k), p, p)
ThetaA == Is("theta") /\ st' = st /\ Judge(LET e == Ev S == N(e.S) p == NNR(S) m == e.m t == N(e.t) F(z) == FML(S, SigOf(z, p, m)) D == Dsig(t, p, m) Sg == SigOf(t, p, m) Si == NInv(Sg) n == NLen(t)
      M == Tup([k \in 1..n |-> NMM(Si, NMM(Col(D, k, p), Si))])
      Jm == N(Tup([k \in 1..n |-> LET B == M[k] IN NNeg(NVech(NSub(NMul(2, B), NDiag(NDg(B)))))])) IN <<
   <<"implied-covariance", NNear(e.sig, Sg, "1e-11")>>,
   <<"discrepancy", NNear(e.f, F(t), "1e-9")>>,
   <<"gradient", NNear(e.g, NumGrad(F, t), "1e-8")>>,
   <<"hessian", NNear(e.H, NumHess(F, t), "1e-6")>>,
   <<"covariance-derivative", \A k \in 1..n : NNear(e.ds[k], Col(D, k, p), "1e-9")>>,
   <<"score-jacobian", NNear(e.J, Jm, "1e-8")>>,
   <<"meat-model", NNear(e.meat, NDiv(NMM(NT(D), N(NT(N(Tup([k \in 1..n |-> NVec(M[k])]))))), NDiv(N(e.n), 2)), "1e-8")>>,
   <<"meat-data", NNear(e.meatv, NMM(Jm, NMM(e.V, NT(Jm))), "1e-8")>> >>)
InferA == Is("infer") /\ st' = st /\ Judge(LET e == Ev H == N(e.H) C == N(e.C) b == Bordered(H, C, e.free) Jf == NRowsOf(NColsOf(N(e.J), e.free), e.free) IN <<
   <<"bread", NClose(e.b, b, "1e-6", "1e-8")>>,
   <<"covariance", NClose(e.v, NMul(b, NDiv(2, N(e.n))), "1e-6", "1e-9")>>,
   <<"sandwich", NNear(e.s, NMM(b, NMM(Jf, b)), "1e-6")>>,
   <<"standard-errors", NClose(e.se, NSqrt(NDg(N(e.v))), "1e-9", "1e-12")>>,
   <<"covariance-respects-constraints", NNear(NMM(NColsOf(C, e.free), b), NFull(NNR(C), Len(e.free), 0), "1e-6")>> >>)
EmpA == Is("emp") /\ st' = st /\ Judge(LET e == Ev X == N(e.X) n == NNR(X) c == NDiv(NColSum(X), n) Z == NSub(X, NMM(Ones(n, 1), NT(c)))
      V == N(Tup([i \in 1..n |-> LET z == NRow(Z, i) IN NVech(NMM(z, NT(z)))])) B == NSub(V, NMM(Ones(n, 1), NT(NDiv(NColSum(V), n)))) IN <<
   <<"covariance-of-moments", NNear(e.V, NDiv(NMM(NT(B), B), n * (n - 1)), "1e-9")>> >>)
(* alignment: the best one-to-one matching of estimated to target factors *)
Perms(m) == {f \in [1..m -> 1..m] : \A i, j \in 1..m : i # j => f[i] # f[j]}
Score(M, f) == NSum(N(Tup([j \in 1..Len(f) |-> NAbs(NEl(M, j, f[j]))])))
AlignA == Is("align") /\ st' = st /\ Judge(LET e == Ev E == N(e.E) Tg == N(e.Tg) m == NNC(E) M0 == NMM(NT(Tg), E)
      M == IF e.norm THEN NMM(NDiag(NDiv(1, NSqrt(NDg(NMM(NT(Tg), Tg))))), NMM(M0, NDiag(NDiv(1, NSqrt(NDg(NMM(NT(E), E))))))) ELSE M0
      pm == Tup([j \in 1..m |-> e.perm[j] + 1]) s == N(e.signs) Q == NMM(NColsOf(NEye(m), pm), NDiag(s)) best == Score(M, pm) IN <<
   <<"alignment-is-a-permutation", {pm[j] : j \in 1..m} = 1..m /\ \A j \in 1..m : NEq(NAbs(NAt(s, j)), 1)>>,
   <<"alignment-optimal", \A f \in Perms(m) : NLe(Score(M, f), NAdd(best, "1e-9"))>>,
   <<"alignment-signs", \A j \in 1..m : NLe("-1e-12", NMul(NAt(s, j), NEl(M, j, pm[j])))>>,
   <<"aligned-loadings", NNear(e.L, NMM(E, Q), "1e-13")>>,
   <<"aligned-correlation", NNear(e.Phi2, NMM(NT(Q), NMM(e.Phi, Q)), "1e-13")>>,
   <<"aligned-covariance-unchanged", NNear(NMM(e.L, NMM(e.Phi2, NT(e.L))), NMM(E, NMM(e.Phi, NT(E))), "1e-11")>>,
   <<"aligned-errors", NNear(e.se2, NColsOf(N(e.se), pm), "1e-14") /\ NNear(e.pse2, NRowsOf(NColsOf(N(e.pse), pm), pm), "1e-14")>> >>)
(* the linear map the alignment induces on the free parameters, and standard errors unpacked from them *)
MapA == Is("map") /\ st' = st /\ Judge(LET e == Ev p == e.p m == e.m t == N(e.t) pm == Tup([j \in 1..m |-> e.perm[j] + 1]) Q == NMM(NColsOf(NEye(m), pm), NDiag(N(e.signs)))
      L == NMM(LOf(t, p, m), Q) Phi == NMM(NT(Q), NMM(PhiOf(t, p, m), Q)) full == NVcat(NVec(L), IF m = 1 THEN PsiOf(t, p, m) ELSE NVcat(Vecl(Phi), PsiOf(t, p, m))) IN <<
   <<"alignment-map", NNear(NMM(e.M, NRowsOf(t, e.free)), NRowsOf(full, e.free), "1e-12")>>,
   <<"unpacked-errors", NNear(e.Lse, LOf(N(e.sefull), p, m), "1e-14") /\ NNear(e.psise, PsiOf(N(e.sefull), p, m), "1e-14")
        /\ NNear(e.Phise, IF e.kind = "oblique" THEN NSub(PhiOf(N(e.sefull), p, m), NEye(m)) ELSE NFull(m, m, 0), "1e-14")>> >>)
SimA == Is("sim") /\ st' = st /\ Judge(LET e == Ev n == e.n p == NNR(N(e.Sig)) IN <<
   <<"model-covariance", NNear(e.Sig, SigmaOf(N(e.L), N(e.Phi), N(e.psi)), "1e-12")>>,
   <<"sample-moments", \A i \in 1..p : NLe(NAbs(NAt(e.mean, i)), NMul(7, NSqrt(NDiv(NEl(e.Sig, i, i), n)))) /\
        \A j \in 1..i : NLe(NAbs(NSub(NEl(e.S, i, j), NEl(e.Sig, i, j))), NMul(7, NSqrt(NDiv(NAdd(NMul(NEl(e.Sig, i, i), NEl(e.Sig, j, j)), NPow(NEl(e.Sig, i, j), 2)), n))))>>,
   <<"generated-loadings", LET G == N(e.GL) m == NNC(G) IN
        \A i \in 1..NNR(G) : Cardinality({j \in 1..m : ~NEq(NEl(G, i, j), 0)}) = 1 /\ NLe(N(e.low), NMax(NRow(G, i))) /\ NLe(NMax(NRow(G, i)), N(e.high))>>,
   <<"generated-loadings-blocks", LET G == N(e.GL) m == NNC(G) cnt(j) == Cardinality({i \in 1..NNR(G) : ~NEq(NEl(G, i, j), 0)})
        own(i) == CHOOSE j \in 1..m : ~NEq(NEl(G, i, j), 0) IN
        (\A i \in 1..(NNR(G) - 1) : own(i) <= own(i+1) /\ (own(i) = own(i+1) => NLe(NEl(G, i+1, own(i)), NEl(G, i, own(i))))) /\ \A j, k \in 1..m : cnt(j) - cnt(k) \in {-1, 0, 1}>>,
   <<"generated-correlation", NNear(NDg(e.GP), NFull(NNR(N(e.GP)), 1, 1), "1e-10") /\ NNear(e.GP, NT(e.GP), "1e-12") /\ NLt(0, NAt(NEig(N(e.GP)), 1))
        /\ (Has(e, "rho") => \A i, j \in 1..NNR(N(e.GP)) : NNear(NAbs(NEl(e.GP, i, j)), NPow(e.rho, IF i > j THEN i - j ELSE j - i), "1e-12"))>>,
   <<"generated-uniquenesses", NLe(N(e.plow), NMin(e.Gpsi)) /\ NLe(NMax(e.Gpsi), N(e.phigh))>>,
   <<"same-seed-same-draw", e.same>> >>)
Init == TInit(<<>>)
Next == CritA \/ CayA \/ RotA \/ SolveA \/ IdentA \/ CanonA \/ PsiA \/ MlFitA \/ ThetaA \/ InferA \/ EmpA \/ AlignA \/ MapA \/ SimA \/ Raised \/ Unchanged \/ Finished
Spec == Init /\ [][Next]_vars
=============================================================================
