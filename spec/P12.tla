-------------------------------- MODULE P12 --------------------------------
(* Linear mixed models: every answer is a function of the data and the          *)
(* parameter, equal to the definition of the Gaussian mixed model, in whatever  *)
(* order the calls come.                                                        *)
EXTENDS LmmDef, Transforms
LlA == Is("ll") /\ st' = st /\ Judge(LET e == Ev M == Masks IN <<
   <<"deviance:" \o e.nm, NNear(e.v, DevOfV(VofM(M, N(e.th)), e.reml), "1e-8")>> >>)
GradA == Is("grad") /\ st' = st /\ Judge(LET e == Ev M == Masks F(t) == DevOfV(VofM(M, t), e.reml) IN <<
   <<"gradient:" \o e.nm, NNear(e.g, NumGrad(F, N(e.th)), "1e-7")>> >>)
HessA == Is("hess") /\ st' = st /\ Judge(LET e == Ev M == Masks F(t) == DevOfV(VofM(M, t), e.reml) IN <<
   <<"hessian:" \o e.nm, NNear(e.H, NumHess(F, N(e.th)), "1e-6")>> >>)
(* unconstrained forms: packed Cholesky factors and log variance, or the correlation-Cholesky form of Transforms *)
ThOf(eta, how) == IF how = "cc" THEN RvM(Tr.map, eta) ELSE LET part(k) == LET L == NLowerOf(NPos(eta, TOff(k) + 1, TOff(k) + Mk(k))) IN NVech(NMM(L, NT(L)))
                      f[k \in 1..NT_] == IF k = 1 THEN part(1) ELSE NVcat(f[k-1], part(k))
                  IN NVcat(f[NT_], NExp(NAt(eta, NPar)))
EtaA == Is("eta") /\ st' = st /\ Judge(LET e == Ev M == Masks F(t) == DevOfV(VofM(M, ThOf(t, e.how)), e.reml) IN <<
   <<"deviance-of-unconstrained:" \o e.nm, NNear(e.v, F(N(e.eta)), "1e-8")>>,
   <<"gradient-of-unconstrained:" \o e.nm, NNear(e.g, NumGrad(F, N(e.eta)), "1e-7")>>,
   <<"hessian-of-unconstrained:" \o e.nm, ~Has(e, "H") \/ NNear(e.H, NumHess(F, N(e.eta)), "1e-6")>> >>)
EffA == Is("eff") /\ st' = st /\ Judge(LET e == Ev th == N(e.th) v == VofM(Masks, th) g == Gls(v) u == NMM(Gall(th), NMM(NT(Zall), g.w)) IN <<
   <<"fixed-effects:" \o e.nm, NNear(e.b, g.b, "1e-8")>>,
   <<"fixed-effect-covariance:" \o e.nm, NNear(e.C, g.C, "1e-8")>>,
   <<"random-effects:" \o e.nm, NNear(e.u, u, "1e-8")>> >>)
FittedA == Is("fitted") /\ st' = st /\ Judge(LET e == Ev IN <<
   <<"prediction:" \o e.nm, NNear(e.yhat, NAdd(NMM(Tr.X, e.b), NMM(Zall, e.u)), "1e-9")>> >>)
CrossA == Is("cross") /\ st' = st /\ Judge(LET e == Ev v == VofM(Masks, N(e.th)) IN <<
   <<"weighted-crossproduct:" \o e.nm, NNear(e.r, NMM(NT(e.A), NSolve(v, e.B)), "1e-8")>> >>)
SeA == Is("se") /\ st' = st /\ Judge(LET e == Ev th == N(e.th) v == VofM(Masks, th) g == Gls(v) Z == Zall G == Gall(th)
      ViZ == NSolve(v, Z) P_Z == NSub(ViZ, NMM(g.ViX, NMM(g.C, NMM(NT(g.ViX), Z)))) D == NSub(G, NMM(G, NMM(NMM(NT(Z), P_Z), G))) IN <<
   <<"random-effect-standard-errors", NNear(NMul(e.se, e.se), NDg(D), "1e-8")>> >>)
VarA == Is("var") /\ st' = st /\ Judge(LET e == Ev th == N(e.th) f == NMM(Tr.X, e.b) vf == NSub(NMean(NMul(f, f)), NMul(NMean(f), NMean(f)))
      vr(k) == NDiv(NSum(NMul(Tr.terms[k].x, NMM(Tr.terms[k].x, Gk(th, k)))), Nn) tot == NAdd(NAdd(vf, S2(th)), NSum(N(Tup([k \in 1..NT_ |-> vr(k)])))) IN <<
   <<"variance-decomposition", NNear(e.fe, vf, "1e-9") /\ NNear(e.rs, S2(th), "1e-12") /\ \A k \in 1..NT_ : NNear(NAt(e.re, k), vr(k), "1e-9")>>,
   <<"variance-explained", NNear(e.marg, NDiv(vf, tot), "1e-9") /\ NNear(e.cond, NDiv(NSub(tot, S2(th)), tot), "1e-9")>> >>)
(* Satterthwaite: V(theta) = 2 H^-1 (H Hessian of the deviance); nu_m = 2 d_m^2 / (g' V g) *)
DfA == Is("df") /\ st' = st /\ Judge(LET e == Ev th == N(e.th) M == Masks q == NNR(N(e.L)) F(t) == DevOfV(VofM(M, t), e.reml)
      Cov(t) == Gls(VofM(M, t)).C  C == Cov(th) VT == NMul(2, NInv(NumHess(F, th))) LCL == NMM(NMM(e.L, C), NT(e.L))
      Q == NEigVec(LCL)  d == NEig(LCL)  P == NMM(NT(Q), e.L)
      lam(m, t) == NMM(NMM(NT(NRow(P, m)), Cov(t)), NRow(P, m))
      gr(m) == LET f(t) == NAt(lam(m, t), 1) IN NumGrad(f, th)
      nu(m) == LET g == gr(m) IN NDiv(NMul(2, NMul(NAt(d, m), NAt(d, m))), NDot(g, NMM(VT, g)))
      nus == Tup([m \in 1..q |-> nu(m)])
      E == NSum(N(Tup([m \in 1..q |-> IF NLt(2, nus[m]) THEN NDiv(nus[m], NSub(nus[m], 2)) ELSE N(0)])))
      ref == IF q = 1 THEN nus[1] ELSE NDiv(NMul(2, E), NSub(E, q))
      Fs == NDiv(NSum(N(Tup([m \in 1..q |-> LET t == NDot(NRow(P, m), e.b) IN NDiv(NMul(t, t), NAt(d, m))]))), q)
      defined == \A m \in 1..q : NLt(2, nus[m]) IN <<
   <<"contrast-F-statistic:" \o e.nm, NNear(e.F, Fs, "1e-7") /\ e.df1 = q>>,
   <<"denominator-degrees-of-freedom:" \o e.nm, ~defined \/ NClose(e.df2, ref, "1e-3", "1e-3")>>,
   <<"contrast-p-value:" \o e.nm, ~defined \/ NNear(e.p, NBetaInc(NDiv(e.df2, 2), NDiv(q, 2), NDiv(e.df2, NAdd(e.df2, NMul(q, e.F)))), "1e-7")>> >>)
(* a fit: stationary, standard errors from the curvature, information criteria from the deviance *)
FitA == Is("fit") /\ st' = st /\ Judge(LET e == Ev th == N(e.th) M == Masks F(t) == DevOfV(VofM(M, t), e.reml) dev == F(th) g == NumGrad(F, th) H == NumHess(F, th)
      ne == IF e.reml THEN Nn - Pn ELSE Nn  d == IF e.reml THEN NPar ELSE NPar + Pn
      ll == NAdd(dev, NMul(ne, NLn(NMul(2, NPi)))) gls == Gls(VofM(M, th)) IN <<
   <<"fitted-deviance:" \o e.nm, NNear(e.dev, dev, "1e-8")>>,
   <<"fit-is-stationary:" \o e.nm, ~e.interior \/ NNear(NMul(g, NSqrt(NAbs(NDiv(1, NDg(H))))), NFull(NPar, 1, 0), e.tol)>>,
   <<"fit-not-worse-than-start:" \o e.nm, NLe(dev, NAdd(F(N(e.start)), "1e-6"))>>,
   <<"variance-parameter-errors:" \o e.nm, ~e.interior \/ NClose(NMul(e.seth, e.seth), NMul(2, NDg(NInv(H))), "2e-3", "1e-7")>>,
   <<"fixed-effect-errors:" \o e.nm, NClose(NMul(e.seb, e.seb), NDg(gls.C), "1e-7", "1e-12") /\ NNear(e.b, gls.b, "1e-8")>>,
   <<"information-criteria:" \o e.nm, /\ NNear(e.ll, ll, "1e-8") /\ NNear(e.llf, NMul("-0.5", ll), "1e-8") /\ NNear(e.aic, NAdd(ll, 2*d), "1e-8")
        /\ NNear(e.aicc, NAdd(ll, NDiv(2*d*ne, ne - d - 1)), "1e-8") /\ NNear(e.bic, NAdd(ll, NMul(d, NLn(ne))), "1e-8") /\ NNear(e.caic, NAdd(ll, NMul(d, NAdd(NLn(ne), 1))), "1e-8")>>,
   <<"random-effect-correlations:" \o e.nm, \A k \in 1..NT_ : LET G == Gk(th, k) s == NSqrt(NDg(G)) IN NNear(e.cov[k], G, "1e-10") /\ NNear(NMul(e.cor[k], NMM(s, NT(s))), G, "1e-9")>> >>)
(* unit-scale penalised least squares: residual variance one *)
PlsA == Is("pls") /\ st' = st /\ Judge(LET e == Ev th == NSetAt(N(e.th), NPar, N(1)) v == VofM(Masks, th) g == Gls(v) IN <<
   <<"penalised-least-squares", NNear(e.b, g.b, "1e-8") /\ NNear(e.u, NMM(Gall(th), NMM(NT(Zall), g.w)), "1e-8")>> >>)
(* variance / correlation form of the covariance parameters: variances stay, covariances become the inverse hyperbolic tangents of correlations *)
VcOne == <<[t |-> "covcorr"], [t |-> "mask", of |-> [t |-> "tanh"]]>>
VcParts(x, f(_)) == LET part(k) == f(NPos(x, TOff(k) + 1, TOff(k) + Mk(k))) g[k \in 1..NT_] == IF k = 1 THEN part(1) ELSE NVcat(g[k-1], part(k)) IN NVcat(g[NT_], NAt(x, NPar))
VcF(th) == VcParts(N(th), LAMBDA x : IF NLen(x) = 1 THEN x ELSE Compose(VcOne, x))
VcR(ta) == VcParts(N(ta), LAMBDA x : IF NLen(x) = 1 THEN x ELSE Uncompose(VcOne, x))
VcA == Is("vc") /\ st' = st /\ Judge(LET e == Ev G(t) == VcR(t) IN <<
   <<"variance-correlation-form", NNear(e.tau, VcF(e.th), "1e-9")>>,
   <<"variance-correlation-form-inverts", NNear(e.back, e.th, "1e-9")>>,
   <<"variance-correlation-form-derivative", NNear(e.J, NumJac(G, N(e.tau)), "1e-7")>> >>)
(* block Cholesky factor of the mixed model equations [Z X y]' R^-1 [Z X y] + diag(G^-1, 0) *)
MmeA == Is("mme") /\ st' = st /\ Judge(LET e == Ev th == N(e.th) Z == Zall W == NHcat(N(Tr.X), N(Tr.y)) s2 == S2(th) A == N(e.A) B == N(e.B) D == N(e.D) IN <<
   <<"factor-of-random-block", NNear(NMM(A, NT(A)), NAdd(NDiv(NMM(NT(Z), Z), s2), NInv(Gall(th))), "1e-8")>>,
   <<"factor-of-cross-block", NNear(NMM(B, NT(A)), NDiv(NMM(NT(W), Z), s2), "1e-8")>>,
   <<"factor-of-fixed-block", NNear(NAdd(NMM(B, NT(B)), NMM(D, NT(D))), NDiv(NMM(NT(W), W), s2), "1e-8")>> >>)
GmatA == Is("gmat") /\ st' = st /\ Judge(LET e == Ev IN <<
   <<"covariance-of-random-effects:" \o e.nm, NNear(e.G, IF e.inv THEN NInv(Gall(N(e.th))) ELSE Gall(N(e.th)), "1e-9")>> >>)
(* profile limits: where the piecewise linear curve through (zeta, theta) reaches -z and z *)
Chord(y, x, q) == LET m == NLen(y) k == IF m = 2 THEN 1 ELSE CHOOSE j \in 1..(m-1) : (j = 1 \/ NLt(NAt(y, j), q)) /\ (j = m - 1 \/ ~NLt(NAt(y, j + 1), q))
                  IN NAdd(NAt(x, k), NMul(NSub(NAt(x, k + 1), NAt(x, k)), NDiv(NSub(q, NAt(y, k)), NSub(NAt(y, k + 1), NAt(y, k)))))
LimA == Is("proflim") /\ st' = st /\ Judge(LET e == Ev z == NProbit(NSub(1, NDiv(e.alpha, 2))) IN <<
   <<"profile-limits", NNear(e.lo, Chord(N(e.z), N(e.x), NNeg(z)), "1e-7") /\ NNear(e.hi, Chord(N(e.z), N(e.x), z), "1e-7")>> >>)
(* profile: at parameter i fixed, zeta^2 is the rise of the deviance above its minimum, and the profiled point keeps the fixed value *)
ProfA == Is("profile") /\ st' = st /\ Judge(LET e == Ev M == Masks F(t) == DevOfV(VofM(M, t), e.reml) dev == F(N(e.hat)) IN <<
   <<"profile-statistic", NNear(NMul(e.z, e.z), NMax2(NSub(F(N(e.th)), dev), 0), "1e-5")>>,
   <<"profile-sign", NLe("-1e-9", NMul(e.z, NSub(e.fixed, e.hatfixed)))>>,
   <<"profile-minimises-over-the-rest", LET ta == VcF(e.th) H(t) == F(VcR(t)) g == NumGrad(H, ta) IN \A k \in 1..NPar : k = e.i \/ e.bound[k] = 1 \/ NLe(NAbs(NAt(g, k)), "2e-2")>> >>)
LrtA == Is("lrt") /\ st' = st /\ Judge(LET e == Ev s == NSub(e.ll0, e.ll1) IN <<
   <<"likelihood-ratio-test", NNear(e.stat, s, "1e-9") /\ NNear(e.df, e.d1 - e.d0, "1e-12") /\ NNear(e.p, NGammaQ(NDiv(e.d1 - e.d0, 2), NDiv(NMax2(s, 0), 2)), "1e-8")>> >>)
ConfA == Is("confint") /\ st' = st /\ Judge(LET e == Ev hw == NDiv(NSub(e.hi, e.lo), 2) mid == NDiv(NAdd(e.hi, e.lo), 2) t == NDiv(NAt(hw, 1), NAt(e.se, 1)) nu == Nn - Pn IN <<
   <<"confidence-intervals", NNear(mid, e.b, "1e-9") /\ NNear(hw, NMul(t, e.se), "1e-9") /\ NNear(NBetaInc(NDiv(nu, 2), "0.5", NDiv(nu, NAdd(nu, NMul(t, t)))), e.alpha, "1e-8")>> >>)
(* tables of predictors by term and level *)
TableA == Is("retable") /\ st' = st /\ Judge(LET e == Ev IN <<
   <<"random-effect-tables:" \o e.nm, \A k \in 1..NT_ : LET p == Tr.terms[k].p q == Tr.terms[k].lv o == LET f[j \in 0..NT_] == IF j = 0 THEN 0 ELSE f[j-1] + Tr.terms[j].p * Tr.terms[j].lv IN f[k-1] IN
        NNear(e.tab[k], NMat(q, p, NPos(e.u, o + 1, o + p * q)), "1e-12")>> >>)
(* levels of the first term correlated through a given matrix A (levels in order of appearance) *)
RelV(th) == LET t1 == Tr.terms[1] Z1 == Zk(1) G1 == NKron(Tr.A, Gk(th, 1)) base == NMM(NMM(Z1, G1), NT(Z1))
                f[k \in 1..NT_] == IF k = 1 THEN NAdd(base, NMul(S2(th), NEye(Nn))) ELSE NAdd(f[k-1], NMul(Same(k), NMM(NMM(Tr.terms[k].x, Gk(th, k)), NT(Tr.terms[k].x)))) IN f[NT_]
RelA == Is("relll") /\ st' = st /\ Judge(LET e == Ev F(t) == DevOfV(RelV(t), e.reml) IN <<
   <<"deviance-with-related-levels", NNear(e.v, F(N(e.th)), "1e-8")>>,
   <<"gradient-with-related-levels", NNear(e.g, NumGrad(F, N(e.th)), "1e-7") /\ NNear(e.g2, NumGrad(F, N(e.th)), "1e-7")>> >>)
Init == TInit("none")
Next == \/ LlA \/ GradA \/ HessA \/ EtaA \/ EffA \/ FittedA \/ CrossA \/ SeA \/ VarA \/ DfA \/ FitA \/ PlsA \/ ProfA \/ VcA \/ MmeA \/ GmatA \/ LimA \/ LrtA \/ ConfA \/ TableA \/ RelA
        \/ Unchanged \/ Raised \/ Finished
=============================================================================
