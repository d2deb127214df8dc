-------------------------------- MODULE P17 --------------------------------
(* Exploratory factor analysis (first generation): rotations, the model class     *)
(* FactorAnalysis (likelihood, constraints, fit, standard errors, fit indices,      *)
(* factor scores), alignment to a target and the data simulator.                  *)
EXTENDS TraceBase, Fa, Infer, FiniteSetsExt, SequencesExt
(* ----- rotation ------------------------------------------------------------*)
OrthoCon(c, L) == LET M == NMM(NT(L), CritGrad(c, L)) IN NSub(M, NT(M))
OblCon(c, L, Phi) == LET M == NMM(NMM(NT(L), CritGrad(c, L)), NInv(Phi)) IN NSub(M, NDiag(NDg(M)))
GcritA == Is("gcrit") /\ st' = st /\ Judge(LET e == Ev L == N(e.L) T == N(e.T) Phi == N(e.Phi) p == NNR(L) m == NNC(L) F(z) == Crit(e.c, z) Fr(z) == F(Rotated(e.kind, N(e.A), z))
      C0(v) == LET X == NUnvec(v, p, m) IN NVec(IF e.kind = "ortho" THEN OrthoCon(e.c, X) ELSE OblCon(e.c, X, Phi)) IN <<
   <<"criterion", NNear(e.q, F(L), "1e-11") /\ NNear(e.q2, F(L), "1e-11")>>,
   <<"criterion-gradient", NNear(e.dq, GradOf(F, L), "1e-9") /\ NNear(e.dq2, GradOf(F, L), "1e-9")>>,
   <<"rotated-loadings", NNear(e.LT, Rotated(e.kind, N(e.A), T), "1e-9")>>,
   <<"criterion-of-the-rotation", NNear(e.f, Fr(T), "1e-9") /\ NNear(e.df, GradOf(Fr, T), "1e-7")>>,
   <<"constraints", NNear(e.con, IF e.kind = "ortho" THEN Vecl(OrthoCon(e.c, L)) ELSE OffDiag(OblCon(e.c, L, Phi)), "1e-10")>>,
   <<"constraint-derivative", Has(e, "dc") => NNear(e.dc, NumJac(C0, NVec(L)), "1e-8")>> >>)
RotateA == Is("rotate") /\ st' = st /\ Judge(LET e == Ev A == N(e.A) T == N(e.T) L == N(e.L) Phi == N(e.Phi) F(z) == Crit(e.c, Rotated(e.kind, A, z)) IN <<
   <<"rotation-in-the-group", InGroup(e.kind, T)>>,
   <<"rotation-of-the-loadings", NNear(L, Rotated(e.kind, A, T), "1e-8") /\ NNear(Phi, IF e.kind = "ortho" THEN NEye(NNC(T)) ELSE NMM(NT(T), T), "1e-9")>>,
   <<"rotation-keeps-the-covariance", NNear(NMM(L, NMM(Phi, NT(L))), NMM(A, NT(A)), "1e-7")>>,
   <<"rotation-no-worse-than-start", NLe(F(T), NAdd(F(N(e.T0)), "1e-9"))>>,
   <<"rotation-stationary", Has(e, "conv") => NNear(Project(e.kind, T, GradOf(F, T)), NFull(NNR(T), NNC(T), 0), "1e-4")>>,
   <<"rotation-constraints-hold", Has(e, "conv") => NNear(IF e.kind = "ortho" THEN Vecl(OrthoCon(e.c, L)) ELSE OffDiag(OblCon(e.c, L, Phi)), NFull(NLen(e.con), 1, 0), "1e-4") /\ NNear(e.con, NFull(NLen(e.con), 1, 0), "1e-4")>>,
   <<"rotation-last-gradient", NNear(e.Gq, CritGrad(e.c, L), "1e-3")>>,
   <<"rotation-parameter", Has(e, "gamma") => NNear(e.gamma, IF e.c.kind = "cf" THEN Kappa(e.c.name, NNR(L), NNC(L)) ELSE N(e.c.g), "1e-14")>> >>)
(* ----- the model class ----------------------------------------------------*)
IdCons(e, p, m, z) == IF e.kind = "canonical" THEN CanonCons(LOf(z, p, m), PsiOf(z, p, m)) ELSE RotCons(e.kind, e.c, LOf(z, p, m), PhiOf(z, p, m))
EvalA == Is("eval") /\ st' = st /\ Judge(LET e == Ev S == N(e.S) p == NNR(S) m == e.m t == N(e.t) psi == N(e.psi) rho == NLn(psi) F(z) == FML(S, SigOf(z, p, m)) G(z) == Profile(S, z, m) Gr(z) == G(NExp(z))
      V(z) == NVech(SigOf(z, p, m)) C(z) == IdCons(e, p, m, z) L == N(e.A) IN <<
   <<"profile-discrepancy", NNear(e.f, G(psi), "1e-9") /\ NNear(e.fe, G(psi), "1e-9")>>,
   <<"profile-gradient", NNear(e.g, NumGrad(G, psi), "1e-7") /\ NNear(e.ge, NumGrad(Gr, rho), "1e-7")>>,
   <<"profile-hessian", NNear(e.H, NumHess(G, psi), "1e-6") /\ NNear(e.He, NumHess(Gr, rho), "1e-6")>>,
   <<"profile-loadings", Has(e, "ok") => NNear(NSub(NSub(FML(S, SigmaOf(L, NEye(m), psi)), NLogDet(S)), p), G(psi), "1e-8")>>,
   <<"parameter-vector", NNear(e.t2, t, "1e-14") /\ NNear(e.L, LOf(t, p, m), "1e-14") /\ NNear(e.Phi, PhiOf(t, p, m), "1e-14") /\ NNear(e.Psi, NDiag(PsiOf(t, p, m)), "1e-14")>>,
   <<"implied-covariance", NNear(e.sig, SigOf(t, p, m), "1e-11") /\ NNear(e.sig2, SigOf(t, p, m), "1e-11")>>,
   <<"covariance-derivative", NNear(e.ds, NumJac(V, t), "1e-9")>>,
   <<"covariance-second-derivative", LET v == N(e.w) Vv(z) == NDot(v, V(z)) IN NNear(e.d2w, NumHess(Vv, t), "1e-7")>>,
   <<"discrepancy", NNear(e.F, F(t), "1e-9")>>,
   <<"gradient", NNear(e.gp, NumGrad(F, t), "1e-8")>>,
   <<"hessian", NNear(e.Hp, NumHess(F, t), "1e-6")>>,
   <<"constraint", m > 1 => NNear(e.con, C(t), "1e-9")>>,
   <<"constraint-derivative", (m > 1 /\ Has(e, "dcon")) => NNear(e.dcon, NumJac(C, t), IF e.kind = "oblique" THEN "1e-5" ELSE "1e-8")>> >>)
PhessA == Is("phess") /\ st' = st /\ Judge(LET e == Ev G(z) == Profile(N(e.S), z, e.m) H == NumHess(G, N(e.psi)) IN << <<"profile-hessian", NNear(e.H, H, "1e-6") /\ NNear(e.H2, H, "1e-6")>> >>)
Free(e, p, m) == Tup(SelectSeq([k \in 1..(p * m + NS(m) + p) |-> k], LAMBDA k : e.kind = "oblique" \/ k <= p * m \/ k > p * m + NS(m)))
Labels(e, p, m) == [k \in 1..(p * m) |-> "L[" \o ToString((k-1) % p) \o "][" \o ToString((k-1) \div p) \o "]"]
   \o (IF e.kind = "oblique" THEN [k \in 1..NS(m) |-> LET x == CHOOSE x \in (1..m) \X (1..m) : x[1] > x[2] /\ LowPos(m, x[1], x[2]) = k IN "Phi[" \o ToString(x[1]-1) \o "][" \o ToString(x[2]-1) \o "]"] ELSE <<>>)
   \o [k \in 1..p |-> "Psi[" \o ToString(k-1) \o "]"]
FitA == Is("fit") /\ st' = st /\ Judge(LET e == Ev S == N(e.S) p == NNR(S) m == e.m t == N(e.t) psi == PsiOf(t, p, m) Gr(z) == Profile(S, NExp(z), m) F(z) == FML(S, SigOf(z, p, m)) C(z) == IdCons(e, p, m, z)
      fr == Free(e, p, m) b == NRowsOf(t, fr) n == N(e.n) se == NSqrt(NMul(NDiv(2, n), NDg(Bordered(NumHess(F, t), NumJac(C, t), fr)))) IN <<
   <<"fit-stationary", NNear(NumGrad(Gr, NLn(psi)), NFull(p, 1, 0), "2e-4")>>,
   <<"fit-identified", m > 1 => NNear(C(t), NFull(NLen(C(t)), 1, 0), "1e-4")>>,
   <<"fit-is-the-profile-optimum", NNear(F(t), NAdd(NAdd(NLogDet(S), p), Profile(S, psi, m)), "1e-6")>>,
   <<"estimates", NNear(e.b, b, "1e-12") /\ NNear(e.L, LOf(t, p, m), "1e-13") /\ NNear(e.Phi, PhiOf(t, p, m), "1e-9") /\ NNear(e.Psi, NDiag(psi), "1e-13") /\ NNear(e.Sigma, SigOf(t, p, m), "1e-10")>>,
   <<"standard-errors", m > 1 => NClose(e.se, se, "1e-4", "1e-7")>>,
   <<"error-matrices", LET k == p * m + (IF e.kind = "oblique" THEN NS(m) ELSE 0) IN NNear(e.Lse, NUnvec(NPos(e.se, 1, p * m), p, m), "1e-13") /\ NNear(e.psise, NPos(e.se, k + 1, k + p), "1e-13")
        /\ (e.kind = "oblique" => NNear(Vecl(N(e.Phise)), NPos(e.se, p * m + 1, k), "1e-13"))>>,
   <<"ratios-and-probabilities", NClose(e.z, NDiv(b, e.se), "1e-9", "1e-12") /\ PClose(e.p, NMul(2, NPhi(NNeg(NAbs(N(e.z))))))>>,
   <<"labels", e.labels = Labels(e, p, m)>>,
   <<"variable-names", e.names>> >>)
Gfi(Sg, S) == LET A == NSolve(Sg, S) B == NSub(A, NEye(NNR(S))) IN NSub(1, NDiv(NTr(NMM(B, B)), NTr(NMM(A, A))))
Srmr(Sg, S) == LET p == NNR(S) d == NDg(S) R == NDiv(NPow(NSub(Sg, S), 2), NMM(d, NT(d))) IN NSqrt(NDiv(NMul(2, NSum(Vecl(R))), p * (p + 1)))
FitStat(Sg, S, n) == NMul(n, NSub(NSub(FML(S, Sg), NLogDet(S)), NNR(S)))
Pos(x) == NMax2(x, 0)
IndexA == Is("index") /\ st' = st /\ Judge(LET e == Ev S == N(e.S) p == NNR(S) m == e.m Sg == N(e.Sigma) n == N(e.n)
      k == p * m + p - NS(m) df == N((p * (p + 1)) \div 2 - k) d0 == N((p * (p - 1)) \div 2) x == FitStat(Sg, S, n) x0 == FitStat(NDiag(NDg(S)), S, n) ll == NNeg(NDiv(x, 2)) IN <<
   <<"chi-square", NNear(e.chi, x, "1e-8") /\ NNear(e.df, df, "1e-14") /\ PClose(e.pv, ChiSf(x, df))>>,
   <<"null-chi-square", NNear(e.chi0, x0, "1e-8") /\ NNear(e.df0, d0, "1e-14") /\ PClose(e.pv0, ChiSf(x0, d0))>>,
   <<"incremental-indices", LET r0 == NDiv(x0, d0) IN
        /\ NNear(e.TLI, NDiv(NSub(r0, NDiv(x, df)), NSub(r0, 1)), "1e-8") /\ NNear(e.NFI, NDiv(NSub(x0, x), x0), "1e-8") /\ NNear(e.IFI, NDiv(NSub(x0, x), NSub(x0, df)), "1e-8")
        /\ NNear(e.RNI, NDiv(NSub(NSub(x0, d0), NSub(x, df)), NSub(x0, d0)), "1e-8") /\ NNear(e.CFI, NDiv(NSub(Pos(NSub(x0, d0)), Pos(NSub(x, df))), Pos(NSub(x0, d0))), "1e-8")>>,
   <<"absolute-indices", NNear(e.GFI, Gfi(Sg, S), "1e-8") /\ NNear(e.AGFI, NSub(1, NMul(NDiv(p * (p + 1), NMul(2, df)), NSub(1, Gfi(Sg, S)))), "1e-8")
        /\ NNear(e.RMSEA, NSqrt(NDiv(Pos(NSub(x, df)), NMul(df, NSub(n, 1)))), "1e-8") /\ NNear(e.SRMR, Srmr(Sg, S), "1e-8")>>,
   <<"information-criteria", NNear(e.ll, ll, "1e-8") /\ NNear(e.AIC, NSub(2 * k, NMul(2, ll)), "1e-8") /\ NNear(e.BIC, NSub(NMul(k, NLn(n)), NMul(2, ll)), "1e-8")>> >>)
MeasureA == Is("measure") /\ st' = st /\ Judge(LET e == Ev S == N(e.S) Sg == N(e.Sg) p == NNR(S) df == N(e.df) x == FitStat(Sg, S, N(e.n))
      d == NDiv(1, NSqrt(NDg(S))) R == NMul(S, NMM(d, NT(d))) Ri == NInv(R) q == NDiv(1, NSqrt(NDg(Ri))) Q == NMul(Ri, NMM(q, NT(q))) sr == NSum(NPow(Vecl(R), 2)) sq == NSum(NPow(Vecl(Q), 2)) IN <<
   <<"measure-of-sampling-adequacy", NNear(e.msa, NDiv(sr, NAdd(sr, sq)), "1e-9")>>,
   <<"likelihood-ratio-test", NNear(e.chi, x, "1e-8") /\ PClose(e.pv, ChiSf(x, df))>>,
   <<"residual-measures", NNear(e.srmr, Srmr(Sg, S), "1e-9") /\ NNear(e.gfi, Gfi(Sg, S), "1e-8") /\ NNear(e.agfi, NSub(1, NMul(NDiv(p * (p + 1), NMul(2, df)), NSub(1, Gfi(Sg, S)))), "1e-8")>> >>)
(* factor scores: B with scores (X - mean) B *)
ScoreA == Is("score") /\ st' = st /\ Judge(LET e == Ev S == N(e.S) X == N(e.X) n == NNR(X) L == N(e.L) Phi == N(e.Phi) psi == NDg(N(e.Psi)) B == N(e.B) Pi == NDiag(NDiv(1, psi)) LP == NMM(L, Phi) G == NMM(NT(L), NMM(Pi, L)) k == NNC(L) IN <<
   <<"scores-are-linear", NNear(e.Z, NMM(NSub(X, NMM(Ones(n, 1), NT(NDiv(NColSum(X), n)))), B), "1e-9")>>,
   <<"regression-scores", e.how = "thurstone" => NNear(NMM(S, B), LP, "1e-8")>>,
   <<"bartlett-scores", e.how = "bartlett" => NNear(NMM(NT(B), L), NEye(k), "1e-8") /\ NNear(NMM(B, G), NMM(Pi, L), "1e-8")>>,
   <<"correlation-preserving-scores", e.how \in {"tenBerge", "mcdonald"} => NNear(NMM(NT(B), NMM(S, B)), Phi, "1e-8")>>,
   (* ten Berge: B = S^-1/2 (S^-1/2 L Phi^1/2)(...)^-1/2 Phi^1/2, the maximiser of tr Phi^-1/2 B' L Phi^1/2: that product is symmetric positive *)
   <<"optimal-scores", e.how = "tenBerge" => LET h == N(e.Ph) M == NMM(NMM(NInv(h), NT(B)), NMM(L, h)) IN NNear(NMM(h, h), Phi, "1e-8") /\ NNear(M, NT(M), "1e-7") /\ NLt(0, NAt(NEig(Sym(M)), 1))>>,
   <<"optimal-weighted-scores", e.how = "mcdonald" => LET h == N(e.Ph) M == NMM(NMM(NInv(h), NT(B)), NMM(S, NMM(Pi, NMM(L, h)))) IN NNear(M, NT(M), "1e-7") /\ NLt(0, NAt(NEig(Sym(M)), 1))>> >>)
NfacA == Is("nfac") /\ st' = st /\ Judge(LET e == Ev S == N(e.S) p == NNR(S) u == Tup([k \in 1..p |-> NAt(NEig(S), p + 1 - k)]) cum(k) == NDiv(NSum(N(SubSeq(u, 1, k))), NTr(S)) IN <<
   <<"factors-by-eigenvalue", e.eig = Cardinality({k \in 1..p : NLt(N(e.eigmin), u[k])})>>,
   <<"factors-by-proportion", NLe(N(e.prop), cum(e.pro)) /\ (e.pro > 1 => NLt(cum(e.pro - 1), N(e.prop)))>> >>)
OrderA == Is("order") /\ st' = st /\ Judge(LET e == Ev L == N(e.L) Q == N(e.Q) m == NNC(L) K == N(e.L2) ss(j) == NSum(NPow(NColumn(K, j), 2)) IN <<
   <<"ordering-is-a-signed-permutation", NNear(NMM(NT(Q), Q), NEye(m), "1e-12") /\ \A i, j \in 1..m : NEq(NMul(NEl(Q, i, j), NSub(1, NPow(NEl(Q, i, j), 2))), 0)>>,
   <<"ordered-loadings", NNear(K, NMM(L, Q), "1e-12") /\ \A j \in 1..(m-1) : NLe(ss(j), NAdd(ss(j+1), "1e-10"))>>,
   <<"positive-columns", \A j \in 1..m : NLe(0, NSum(NColumn(K, j)))>>,
   <<"ordered-rotation", NNear(e.T2, NMM(e.T, Q), "1e-12") /\ NNear(e.Phi2, NMM(NT(Q), NMM(e.Phi, Q)), "1e-12")>> >>)
AlignA == Is("align") /\ st' = st /\ Judge(LET e == Ev L == N(e.L) m == NNC(L) j == Tup([k \in 1..m |-> e.perm[k] + 1]) s == N(e.signs) Q == NMM(NColsOf(NEye(m), j), NDiag(s)) IN <<
   <<"alignment-is-a-permutation", {j[k] : k \in 1..m} = 1..m>>,
   <<"alignment-matches-the-target", \A k \in 1..m : j[k] = e.true[k] + 1 /\ NEq(NAt(s, k), NAt(e.tsign, k))>>,
   <<"aligned-matrices", NNear(e.L2, NMM(L, Q), "1e-13") /\ NNear(e.Phi2, NMM(NT(Q), NMM(e.Phi, Q)), "1e-13") /\ NNear(e.Lse2, NColsOf(N(e.Lse), j), "1e-13") /\ NNear(e.Pse2, NRowsOf(NColsOf(N(e.Pse), j), j), "1e-13")>> >>)
SimA == Is("sim") /\ st' = st /\ Judge(LET e == Ev n == e.n L == N(e.L) p == NNR(L) m == NNC(L) C == NBdiag(N(e.Phi), N(e.Psi)) S == N(e.SZ) IN <<
   <<"simulated-covariance", NNear(e.Sigma, SigmaOf(L, N(e.Phi), NDg(N(e.Psi))), "1e-12")>>,
   <<"given-matrices-kept", e.kept>>,
   <<"data-are-factors-plus-errors", NNear(e.X, NAdd(NMM(e.ZF, NT(L)), N(e.ZE)), "1e-11")>>,
   <<"exact-moments", e.exact => NNear(S, C, "1e-8")>>,
   <<"sample-moments", ~e.exact => \A i \in 1..(p+m) : \A j \in 1..i : NLe(NAbs(NSub(NEl(S, i, j), NEl(C, i, j))), NMul(7, NSqrt(NDiv(NAdd(NMul(NEl(C, i, i), NEl(C, j, j)), NPow(NEl(C, i, j), 2)), n))))>>,
   <<"same-seed-same-data", e.same>>,
   <<"simple-structure", e.gen => \A i \in 1..p : Cardinality({j \in 1..m : ~NEq(NEl(L, i, j), 0)}) = 1>>,
   <<"factor-correlation", NNear(NDg(e.Phi), NFull(m, 1, 1), "1e-9") /\ NLt(0, NAt(NEig(N(e.Phi)), 1))>> >>)
Init == TInit(<<>>)
Next == GcritA \/ RotateA \/ EvalA \/ PhessA \/ FitA \/ IndexA \/ MeasureA \/ ScoreA \/ NfacA \/ OrderA \/ AlignA \/ SimA \/ Raised \/ Unchanged \/ Finished
Spec == Init /\ [][Next]_vars
=============================================================================
