-------------------------------- MODULE P07 --------------------------------
(* Least squares: single-response and multivariate Gaussian regression.        *)
EXTENDS TraceBase, Infer
Gram(X) == NMM(NT(X), X)
Ols(X, Y) == NSolve(Gram(X), NMM(NT(X), Y))
Sse(X, y, b) == LET r == NSub(y, NMM(X, b)) IN NDot(r, r)
Lev(X) == LET W == NSolve(Gram(X), NT(X)) IN NRowSum(NMul(X, NT(W)))
ObsX(X, i) == NT(NRow(X, i))
DropRow(A, i) == NRowsOf(A, SelectSeq(Tup([k \in 1..NNR(N(A)) |-> k]), LAMBDA k : k # i))
(* minus the log-likelihood of N(X b, exp(lv)), with the residual count when reml *)
Nll(X, y, t, reml) == LET p == NNC(N(X)) n == NNR(N(X)) m == IF reml THEN n - p ELSE n lv == NAt(t, p+1) IN
   NAdd(NMul(NDiv(m, 2), NAdd(NLn(NMul(2, NPi)), lv)), NMul("0.5", NMul(NExp(NNeg(lv)), Sse(X, y, NPos(t, 1, p)))))
NllA == Is("nll") /\ st' = st /\ Judge(LET e == Ev F(t) == Nll(Tr.X, Tr.y, t, e.reml) IN <<
   <<"negative-log-likelihood:" \o e.nm, NNear(e.v, F(N(e.t)), "1e-10")>>,
   <<"gradient:" \o e.nm, NNear(e.g, NumGrad(F, N(e.t)), "1e-8")>>,
   <<"hessian:" \o e.nm, NNear(e.H, NumHess(F, N(e.t)), "1e-6")>> >>)
SolA == Is("solution") /\ st' = st /\ Judge(LET e == Ev b == Ols(Tr.X, Tr.y) s == Sse(Tr.X, Tr.y, b) n == NNR(N(Tr.X)) p == NNC(N(Tr.X)) m == IF e.reml THEN n - p ELSE n IN <<
   <<"least-squares-coefficients:" \o e.nm, NNear(e.b, b, "1e-8")>>,
   <<"residual-sum-of-squares:" \o e.nm, NNear(e.sse, s, "1e-8")>>,
   <<"cross-product-factors:" \o e.nm, NNear(e.G, Gram(Tr.X), "1e-10") /\ NNear(NMM(e.G, e.Gi), NEye(p), "1e-7") /\ NNear(NMM(e.L, NT(e.L)), Gram(Tr.X), "1e-9") /\ NNear(NMM(e.L, e.Li), NEye(p), "1e-8")>>,
   <<"log-variance:" \o e.nm, NNear(e.t, NVcat(b, NLn(NDiv(s, m))), "1e-8")>> >>)
SsqOf(y, f, p) == LET n == NLen(N(y)) r == NSub(y, f) mu == NMean(y) a == NSub(f, mu) c == NSub(y, mu)
                      ssr == NDot(r, r) ssm == NDot(a, a) sst == NDot(c, c) msr == NDiv(ssr, n - p) msm == NDiv(ssm, p - 1) mst == NDiv(sst, n - 1) IN
   [tab |-> N(Tup(<<ssr, ssm, sst>>)), df |-> N(Tup(<<N(n - p), N(p - 1), N(n - 1)>>)), ms |-> N(Tup(<<msr, msm, mst>>)),
    r2 |-> NSub(1, NDiv(ssr, sst)), r2a |-> NSub(1, NDiv(msr, mst)), F |-> NDiv(msm, msr), p |-> FSf(NDiv(msm, msr), p - 1, n - p)]
FitA == Is("fit") /\ st' = st /\ Judge(LET e == Ev b == Ols(Tr.X, Tr.y) s == SsqOf(Tr.y, NMM(Tr.X, b), NNC(N(Tr.X))) n == NNR(N(Tr.X)) p == NNC(N(Tr.X))
      se == NSqrt(NMul(NDiv(NAt(s.tab, 1), n - p), NDg(NInv(Gram(Tr.X))))) IN <<
   <<"anova-table:" \o e.nm, Has(e, "tab") => NNear(NColumn(e.tab, 1), s.tab, "1e-8") /\ NNear(NColumn(e.tab, 2), s.df, "1e-12") /\ NNear(NColumn(e.tab, 3), s.ms, "1e-8")>>,
   <<"variance-explained-and-F-test:" \o e.nm, Has(e, "r2") => NNear(e.r2, s.r2, "1e-8") /\ NNear(e.r2a, s.r2a, "1e-8") /\ NClose(e.F, s.F, "1e-7", "1e-9") /\ PClose(e.Fp, s.p)>>,
   <<"coefficient-table:" \o e.nm, IF Has(e, "lo") THEN ParTable(b, se, e, n - p, "0.05")
        ELSE NNear(e.b, b, "1e-8") /\ NClose(e.se, se, "1e-7", "1e-10") /\ NClose(e.t, NDiv(b, se), "1e-7", "1e-9") /\ PClose(e.p, T2(e.t, n - p))>>,
   <<"log-variance-row:" \o e.nm, Has(e, "lv") => LET F(t) == Nll(Tr.X, Tr.y, t, e.reml) lv == NLn(NDiv(NAt(s.tab, 1), IF e.reml THEN n - p ELSE n)) IN
        NNear(e.lv, lv, "1e-8") /\ NClose(NMul(e.lvse, e.lvse), NDiv(2, IF e.reml THEN n - p ELSE n), "1e-7", "1e-10")>>,
   <<"residual-scales:" \o e.nm, Has(e, "sml") => NNear(NMul(e.sml, e.sml), NDiv(NAt(s.tab, 1), n), "1e-9") /\ NNear(NMul(e.sub, e.sub), NDiv(NAt(s.tab, 1), n - p), "1e-9")>>,
   <<"coefficient-covariance:" \o e.nm, Has(e, "V") => NNear(e.V, NMul(NDiv(NAt(s.tab, 1), n - p), NInv(Gram(Tr.X))), "1e-8")>>,
   <<"row-labels:" \o e.nm, e.labels = Tr.labels>>,
   <<"predictions:" \o e.nm, NNear(e.yhat, NMM(Tr.X, b), "1e-8")>> >>)
(* observation weights of the heteroscedasticity-consistent estimators *)
Omega(kind, r2, h) == LET n == NLen(N(r2)) p == NSum(h) mh == NMean(h) d == NSub(1, h) IN
   CASE kind = "HC0" -> r2 [] kind = "HC1" -> NMul(r2, NDiv(n, NSub(n, p))) [] kind = "HC2" -> NDiv(r2, d) [] kind = "HC3" -> NDiv(r2, NMul(d, d))
     [] OTHER -> NDiv(r2, NPow(d, NMin2(NDiv(h, mh), 4)))
HcA == Is("hc") /\ st' = st /\ Judge(LET e == Ev b == Ols(Tr.X, Tr.y) r == NSub(Tr.y, NMM(Tr.X, b)) W == NSolve(Gram(Tr.X), NT(Tr.X)) om == Omega(e.kind, NMul(r, r), Lev(Tr.X))
      V == NMM(NMM(W, NDiag(om)), NT(W)) IN <<
   <<"robust-standard-errors:" \o e.kind, NClose(NMul(e.se, e.se), NDg(V), "1e-7", "1e-12")>>,
   <<"robust-t-and-p:" \o e.kind, Has(e, "t") => NNear(e.t, NDiv(b, e.se), "1e-8") /\ PClose(e.p, T2(e.t, NNR(N(Tr.X)) - NNC(N(Tr.X))))>> >>)
MeatA == Is("meat") /\ st' = st /\ Judge(LET e == Ev om == Omega(e.kind, NMul(e.w, e.w), Lev(Tr.X)) IN <<
   <<"sandwich-meat:" \o e.kind \o e.nm, NNear(e.B, NMM(NMM(NT(Tr.X), NDiag(om)), Tr.X), "1e-9")>> >>)
LevA == Is("lev") /\ st' = st /\ Judge(LET e == Ev IN <<
   <<"leverage:" \o e.nm, NNear(e.h, Lev(Tr.X), "1e-9")>> >>)
(* one observation left out at a time *)
JackA == Is("jack") /\ st' = st /\ Judge(LET e == Ev n == NNR(N(Tr.X)) b == Ols(Tr.X, Tr.y) bi(i) == Ols(DropRow(Tr.X, i), DropRow(Tr.y, i)) B == N(Tup([i \in 1..n |-> NT(bi(i))])) IN <<
   <<"jackknife-coefficients", \A i \in 1..n : NNear(NRow(e.J, i), bi(i), "1e-7")>>,
   <<"jackknife-mean", \A j \in 1..NLen(b) : NNear(NAt(e.m, j), NMean(NColumn(e.J, j)), "1e-9")>>,
   <<"deletion-influence", \A i \in 1..n : NNear(NRow(e.D, i), NSub(b, bi(i)), "1e-7")>> >>)
(* linear restrictions C b = d *)
ConA == Is("constrained") /\ st' = st /\ Judge(LET e == Ev r == NSub(Tr.y, NMM(Tr.X, e.b)) g == NMM(NT(Tr.X), r) l == NSolve(NMM(e.C, NT(e.C)), NMM(e.C, g)) IN <<
   <<"restriction-holds:" \o e.nm, NNear(NMM(e.C, e.b), e.d, "1e-8")>>,
   <<"restricted-fit-is-optimal:" \o e.nm, NNear(g, NMM(NT(e.C), l), "1e-7")>>,
   <<"restricted-residual-sum-of-squares:" \o e.nm, NNear(e.sse, NDot(r, r), "1e-8")>> >>)
Llo(X, y, b, ls) == LET n == NNR(N(X)) IN NSub(NMul(NDiv(n, -2), NLn(NMul(2, NPi))), NAdd(NMul(n, ls), NDiv(Sse(X, y, b), NMul(2, NExp(NMul(2, ls))))))
LlA == Is("ll") /\ st' = st /\ Judge(LET e == Ev p == NNC(N(Tr.X)) b == NPos(e.t, 1, p) n == NNR(N(Tr.X)) ls == IF NLen(N(e.t)) = p + 1 THEN NAt(e.t, p+1) ELSE NMul("0.5", NLn(NDiv(Sse(Tr.X, Tr.y, b), n))) IN <<
   <<"log-likelihood", NNear(e.v, Llo(Tr.X, Tr.y, b, ls), "1e-9")>> >>)
(* collinearity diagnostics *)
CondA == Is("cond") /\ st' = st /\ Judge(LET e == Ev ev == NEig(Gram(Tr.X)) p == NLen(ev) mx == NMax(ev) IN <<
   <<"condition-indices", NNear(NSort(e.ci), NSort(NDiv(mx, ev)), "1e-7")>> >>)
TableA == Is("table") /\ st' = st /\ Judge(LET e == Ev IN <<
   <<"parameter-table", ParTable(e.par, e.s, e, e.nu, e.alpha)>> >>)
InfoA == Is("info") /\ st' = st /\ Judge(LET e == Ev IN <<
   <<"information-criteria:" \o e.nm, NClose(e.v, Criteria(e.nll, e.k, e.n), "1e-9", "1e-9")>> >>)
PseudoA == Is("pseudo") /\ st' = st /\ Judge(LET e == Ev ref == Pseudo(e.m, e.z, e.k, e.n) nms == <<"cox-snell", "nagelkerke", "mcfadden", "mcfadden-adjusted", "estrella", "estrella-adjusted", "aldrich-nelson", "veall-zimmermann", "likelihood-ratio">> IN 
   Tup([k \in 1..Len(e.ix) |-> <<"pseudo-R2:" \o nms[e.ix[k]], NClose(NAt(e.v, k), NAt(ref, e.ix[k]), "1e-9", "1e-10")>>]))
WaldA == Is("wald") /\ st' = st /\ Judge(LET e == Ev V == NMM(NMM(e.A, e.B), e.A) M == NMM(NMM(e.C, V), NT(e.C)) a == IF e.kind = "wald" THEN NMM(e.C, NSub(e.t1, e.t0)) ELSE NMM(e.C, NMM(e.A, e.g)) s == NDot(a, NSolve(M, a)) IN <<
   <<"test-statistic:" \o e.kind, NClose(e.stat, s, "1e-8", "1e-10") /\ NEq(e.df, NNR(N(e.C))) /\ PClose(e.p, ChiSf(s, NNR(N(e.C))))>> >>)
LrA == Is("lr") /\ st' = st /\ Judge(LET e == Ev s == NMul(2, NSub(e.l1, e.l0)) IN <<
   <<"test-statistic:lr", NClose(e.stat, s, "1e-9", "1e-10") /\ NEq(e.df, e.k) /\ PClose(e.p, ChiSf(s, e.k))>> >>)
(* profile of the negative log-likelihood over everything but the fixed coefficients *)
Prof(ix, vals) == LET X == Tr.X n == NNR(N(X)) p == NNC(N(X)) free == SelectSeq(Tup([k \in 1..p |-> k]), LAMBDA k : \A j \in 1..Len(ix) : ix[j] # k)
                      r == NSub(Tr.y, NMM(NColsOf(X, ix), vals)) s == IF Len(free) = 0 THEN NDot(r, r) ELSE Sse(NColsOf(X, free), r, Ols(NColsOf(X, free), r)) IN
   NMul(NDiv(n, 2), NAdd(1, NAdd(NLn(NMul(2, NPi)), NLn(NDiv(s, n)))))
ProfA == Is("profile") /\ st' = st /\ Judge(LET e == Ev IN <<
   <<"profiled-objective:" \o e.nm, NNear(e.v, Prof(e.ix, e.vals), "1e-5")>>,
   <<"fixed-values-kept:" \o e.nm, Has(e, "x") => NNear(N(Tup([k \in 1..Len(e.ix) |-> NAt(e.x, e.ix[k])])), e.vals, "1e-6")>> >>)
IntA == Is("interval") /\ st' = st /\ Judge(LET e == Ev IN <<
   <<"profile-interval-endpoints:" \o e.nm, NNear(Prof(<<e.i>>, e.lo), e.lli, e.tol) /\ NNear(Prof(<<e.i>>, e.hi), e.lli, e.tol)>>,
   <<"profile-interval-brackets-the-estimate:" \o e.nm, NLt(e.lo, e.est) /\ NLt(e.est, e.hi)>> >>)
FixA == Is("fixed") /\ st' = st /\ Judge(LET e == Ev IN <<
   <<"one-constraint-per-fixed-parameter:" \o e.nm, Len(e.v) = Len(e.ix) /\ \A k \in 1..Len(e.ix) : NNear(e.v[k], NSub(NAt(e.x, e.ix[k]), NAt(e.vals, k)), "1e-12")>> >>)
(* containers *)
DataA == Is("data") /\ st' = st /\ Judge(LET e == Ev IN <<
   <<"complete-rows-kept:" \o e.nm, e.kept = e.complete /\ \A k \in 1..Len(e.arrs) : NSame(e.arrs[k], NRowsOf(e.src[k], e.complete))>>,
   <<"row-labels-follow:" \o e.nm, e.idx = e.want>>,
   <<"indexing-selects-rows:" \o e.nm, \A k \in 1..Len(e.arrs) : NSame(e.sel[k], NRowsOf(e.arrs[k], e.pick))>>,
   <<"length-and-labels:" \o e.nm, e.len = Len(e.arrs) /\ e.cols = e.wcols>> >>)
---------------------------------------------------------------------------
(* multivariate regression: B (p x q) column-major, then the row-major lower triangle of the precision Cholesky factor, log diagonal *)
MvB(t, p, q) == NUnvec(NPos(t, 1, p*q), p, q)
TriIx(q, r, c) == (r * (r-1)) \div 2 + c
MvL(t, p, q) == N(Tup([r \in 1..q |-> NT(N(Tup([c \in 1..q |-> IF c > r THEN N(0) ELSE LET v == NAt(t, p*q + TriIx(q, r, c)) IN IF c = r THEN NExp(v) ELSE v])))]))
MvNll(X, Y, w, t) == LET p == NNC(N(X)) q == NNC(N(Y)) L == MvL(t, p, q) E == NSub(Y, NMM(X, MvB(t, p, q))) U == NMM(E, L) sw == NSum(w) IN
   NAdd(NMul(sw, NSub(NMul(NDiv(q, 2), NLn(NMul(2, NPi))), NSum(NLn(NDg(L))))), NMul("0.5", NDot(w, NRowSum(NMul(U, U)))))
MvNllA == Is("mvnll") /\ st' = st /\ Judge(LET e == Ev F(t) == MvNll(Tr.X, Tr.Y, Tr.w, t) n == NNR(N(Tr.X))
      Fi(i, t) == MvNll(ObsX(Tr.X, i), ObsX(Tr.Y, i), NAt(Tr.w, i), t) IN <<
   <<"mv-negative-log-likelihood", NNear(e.v, F(N(e.t)), "1e-9")>>,
   <<"mv-gradient", NNear(e.g, NumGrad(F, N(e.t)), "1e-7")>>,
   <<"mv-gradient-by-observation", \A i \in {1, 2, n} : LET G(t) == Fi(i, t) IN NNear(NRow(e.gi, i), NumGrad(G, N(e.t)), "1e-7")>>,
   <<"mv-gradient-sum", NNear(NColSum(e.gi), e.g, "1e-8")>>,
   <<"mv-hessian", Has(e, "H") => NNear(e.H, NumHess(F, N(e.t)), "1e-6")>> >>)
PackA == Is("pack") /\ st' = st /\ Judge(LET e == Ev IN <<
   <<"parameter-packing", NNear(MvB(e.t, e.p, e.q), e.B, "1e-12") /\ NNear(MvL(e.t, e.p, e.q), e.L, "1e-12") /\ NNear(e.B2, e.B, "1e-12") /\ NNear(e.L2, e.L, "1e-12")>>,
   <<"parameter-labels", e.labels = e.want>> >>)
Wt(A) == NMul(A, Tr.w)
WOls(X, Y) == NSolve(NMM(NT(X), NMM(NDiag(Tr.w), X)), NMM(NT(X), NMM(NDiag(Tr.w), Y)))
WSscp(X, Y, B) == LET E == NSub(Y, NMM(X, B)) IN NMM(NT(E), NMM(NDiag(Tr.w), E))
MvFitA == Is("mvfit") /\ st' = st /\ Judge(LET e == Ev X == Tr.X Y == Tr.Y n == NNR(N(X)) p == NNC(N(X)) q == NNC(N(Y)) B == WOls(X, Y) S == WSscp(X, Y, B) sw == NSum(Tr.w) Sig == NDiv(S, sw)
      th == N(e.th) F(t) == MvNll(X, Y, Tr.w, t) H == NumHess(F, th) one == NFull(n, 1, 1) T == WSscp(one, Y, WOls(one, Y)) k == NLen(th) nll == F(th) IN <<
   <<"mv-coefficients:" \o e.nm, NNear(e.B, B, e.tol)>>,
   <<"mv-residual-covariance:" \o e.nm, NNear(e.S, Sig, e.tol) /\ NNear(NMM(e.P, e.S), NEye(q), "1e-8") /\ NNear(e.Su, NDiv(S, n - p), e.tol)>>,
   <<"mv-stationary:" \o e.nm, NNear(NumGrad(F, th), NFull(k, 1, 0), e.gtol)>>,
   <<"mv-table:" \o e.nm, ParTable(th, NSqrt(NDg(NInv(H))), e, n - k, "0.05")>>,
   <<"mv-response-R2:" \o e.nm, LET r == NSub(1, NDiv(NDg(S), NDg(T))) IN NNear(e.r2, r, e.tol) /\ NNear(e.r2a, NSub(1, NDiv(NMul(NSub(1, r), n - 1), n - p)), e.tol)>>,
   <<"mv-trace-R2:" \o e.nm, NNear(e.r2t, NSub(1, NDiv(NTr(S), NTr(T))), e.tol)>>,
   <<"mv-information-criteria:" \o e.nm, NNear(e.llf, NNeg(nll), "1e-9") /\ NClose(e.ic, Criteria(nll, k, n), "1e-8", "1e-8")>>,
   <<"mv-predictions:" \o e.nm, NNear(e.fit, NMM(X, e.B), "1e-9") /\ NNear(e.pred, NMM(e.Xn, e.B), "1e-9")>> >>)
(* general linear hypothesis L B M = 0: error and hypothesis sums of squares and products by refitting under the restriction *)
Hyp(L, M) == LET X == Tr.X Y == NMM(Tr.Y, M) p == NNC(N(X)) l == NNR(N(L)) A == NMM(NT(X), NMM(NDiag(Tr.w), X))
                 K == NVcat(NHcat(A, NT(L)), NHcat(L, NFull(l, l, 0))) z == NSolve(K, NVcat(NMM(NT(X), NMM(NDiag(Tr.w), Y)), NFull(l, NNC(Y), 0)))
                 B0 == NRowsOf(z, Tup([k \in 1..p |-> k])) E == WSscp(X, Y, WOls(X, Y)) IN [H |-> NSub(WSscp(X, Y, B0), E), E |-> E]
(* eigenvalues of (E+H)^-1 H through the Cholesky factor of E+H *)
Rho2(h) == LET Li == NInv(NChol(NAdd(h.E, h.H))) IN NEig(NMM(NMM(Li, h.H), NT(Li)))
Mstats(h, q, df_h, df_e) == LET r == Rho2(h) s == IF q <= df_h THEN q ELSE df_h
      W == NProd(NSub(1, r)) P == NSum(r) U == NSum(NDiv(r, NSub(1, r))) R == NMax(NDiv(r, NSub(1, r)))
      m == NDiv((IF q >= df_h THEN q - df_h ELSE df_h - q) - 1, 2) nn == NDiv(df_e - q - 1, 2)
      base == q*q + df_h*df_h - 5  t == IF base > 0 THEN NSqrt(NDiv(q*q*df_h*df_h - 4, base)) ELSE N(1)
      wr == NSub(df_e, NDiv(q - df_h + 1, 2)) wu == NDiv(q*df_h - 2, 4) wd == NSub(NMul(wr, t), NMul(2, wu)) wt == NPow(W, NDiv(1, t))
      Fw == NMul(NDiv(NSub(1, wt), wt), NDiv(wd, q*df_h))
      p1 == NMul(s, NAdd(NAdd(NMul(2, m), s), 1)) p2 == NMul(s, NAdd(NAdd(NMul(2, nn), s), 1)) Fp == NMul(NDiv(p2, p1), NDiv(P, NSub(s, P)))
      b == NDiv(NMul(NAdd(q, NMul(2, nn)), NAdd(df_h, NMul(2, nn))), NMul(2, NMul(NAdd(NMul(2, nn), 1), NSub(nn, 1)))) h2 == NAdd(4, NDiv(q*df_h + 2, NSub(b, 1)))
      Fh == NMul(NDiv(h2, q*df_h), NDiv(U, NDiv(NSub(h2, 2), NMul(2, nn))))
      mx == IF q >= df_h THEN q ELSE df_h r2 == df_e - mx + df_h IN
   N(Tup(<<NT(N(Tup(<<W, N(q*df_h), wd, Fw, FSf(Fw, q*df_h, wd)>>))), NT(N(Tup(<<P, p1, p2, Fp, FSf(Fp, p1, p2)>>))),
           NT(N(Tup(<<U, N(q*df_h), h2, Fh, FSf(Fh, q*df_h, h2)>>))), NT(N(Tup(<<R, N(mx), N(r2), NMul(NDiv(r2, mx), R), FSf(NMul(NDiv(r2, mx), R), mx, r2)>>)))>>))
HypA == Is("hyp") /\ st' = st /\ Judge(LET e == Ev h == Hyp(e.L, e.M) ref == Mstats(h, NNC(N(e.M)), NNR(N(e.L)), NNR(N(Tr.X)) - NNC(N(Tr.X))) nm == <<"wilks", "pillai", "hotelling-lawley", "roy">> IN 
   Tup([k \in 1..4 |-> <<"manova:" \o nm[k] \o ":" \o e.nm, NClose(NRow(e.tab, k), NRow(ref, k), "1e-6", "1e-9")>>]))
AssocA == Is("assoc") /\ st' = st /\ Judge(LET e == Ev q == NNC(N(Tr.Y)) l == NNR(N(e.L)) h == Hyp(e.L, NEye(q)) all == Rho2(h) s == IF q <= l THEN q ELSE l
      r == NPos(all, q - s + 1, q) W == NProd(NSub(1, r)) P == NSum(r) U == NSum(NDiv(r, NSub(1, r))) R == NMax(NDiv(r, NSub(1, r))) IN <<
   <<"association-measures", NClose(e.v, N(Tup(<<W, P, U, R, NSub(1, W), NSub(1, NPow(W, NDiv(1, s))), NDiv(P, s), NDiv(NDiv(U, s), NAdd(1, NDiv(U, s))), NDiv(R, NAdd(1, R)), NMean(r)>>)), "1e-7", "1e-9")>>,
   <<"canonical-correlations", NNear(NSort(NMul(e.cc, e.cc)), r, "1e-8")>>,
   <<"determinant-R2", NNear(e.r2d, NSub(1, W), "1e-9")>> >>)
Init == TInit(<<>>)
Next == NllA \/ SolA \/ FitA \/ HcA \/ MeatA \/ LevA \/ JackA \/ ConA \/ LlA \/ CondA \/ TableA \/ InfoA \/ PseudoA \/ WaldA \/ LrA \/ ProfA \/ IntA \/ FixA \/ DataA
        \/ MvNllA \/ PackA \/ MvFitA \/ HypA \/ AssocA \/ Raised \/ Unchanged \/ Finished
=============================================================================
