-------------------------------- MODULE P06 --------------------------------
(* Families and links of the generalised linear models.                       *)
EXTENDS TraceBase, ExpFam
LinkA == Is("link") /\ st' = st /\ Judge(LET e == Ev mu == N(e.mu) eta == Link(e.l, e.a, mu)
   G(z) == Link(e.l, e.a, z)  H(z) == InvLink(e.l, e.a, z) IN <<
   <<"link:" \o e.l, NNear(e.eta, eta, "1e-11")>>,
   <<"inverse-link:" \o e.l, NNear(e.inv, H(N(e.at)), "1e-12")>>,
   <<"link-undoes-inverse:" \o e.l, NClose(e.back, mu, "1e-9", "1e-12")>>,
   <<"first-derivative-of-link:" \o e.l, NClose(e.d1, R1(G, mu, MuScale(e.l, mu)), "1e-9", "1e-10")>>,
   <<"second-derivative-of-link:" \o e.l, NClose(e.d2, R2(G, mu, MuScale(e.l, mu)), "1e-8", "1e-8")>>,
   <<"third-derivative-of-link:" \o e.l, NClose(e.d3, R3(G, mu, MuScale(e.l, mu)), "1e-6", "1e-6")>>,
   <<"fourth-derivative-of-link:" \o e.l, NClose(e.d4, R4(G, mu, MuScale(e.l, mu)), "1e-5", "1e-5")>>,
   <<"first-derivative-of-inverse:" \o e.l, NClose(e.i1, R1(H, N(e.at), EtaScale(e.l, N(e.at))), "1e-9", "1e-10")>>,
   <<"second-derivative-of-inverse:" \o e.l, NClose(e.i2, R2(H, N(e.at), EtaScale(e.l, N(e.at))), "1e-8", "1e-8")>> >>)
ScalarLink == Is("scalarlink") /\ st' = st /\ Judge(LET e == Ev mu == N(e.mu) H(z) == InvLink(e.l, e.a, z) G(z) == Link(e.l, e.a, z) IN <<
   <<"link-of-a-scalar:" \o e.l, NNear(e.eta, Link(e.l, e.a, mu), "1e-11")>>,
   <<"inverse-link-of-a-scalar:" \o e.l, NNear(e.inv, mu, "1e-10")>>,
   <<"derivatives-at-a-scalar:" \o e.l, NNear(e.d1, D1(G, mu), "1e-9") /\ NNear(e.i1, D1(H, Link(e.l, e.a, mu)), "1e-9")>> >>)
(* one family, one link, one data vector: f, l, a, y, mu, w, phi, k *)
FamA == Is("fam") /\ st' = st /\ Judge(LET e == Ev f == e.f y == N(e.y) mu == N(e.mu) w == N(e.w) phi == N(e.phi) k == N(e.k)
   eta == Link(e.l, e.a, mu)
   Mu(z) == InvLink(e.l, e.a, z)
   C(z) == Core(f, y, Mu(z), w, phi, k)                  \* as a function of the linear predictor
   G1(m) == D1(LAMBDA z : Link(e.l, e.a, z), m)
   nll == Nll(f, y, mu, w, phi, k)  V == UnitVar(f, mu, k)
   dev == Deviance(f, y, mu, w, phi, k)
   r == NSub(y, mu) IN <<
   <<"log-likelihood-per-observation:" \o f, NClose(e.full, nll, "1e-9", "1e-9")>>,
   <<"log-likelihood:" \o f, NNear(e.sumfull, NSum(nll), "1e-9") /\ NNear(e.sumll, NSum(e.ll), "1e-9")>>,
   <<"objective-differs-by-a-constant-in-the-mean:" \o f, NNear(NSub(e.ll, e.ll2), NSub(Core(f, y, mu, w, phi, k), Core(f, y, N(e.mu2), w, phi, k)), "1e-9")>>,
   <<"variance-function:" \o f, NNear(e.V, V, "1e-12")>>,
   <<"variance:" \o f, NNear(e.var, IF e.varw THEN NDiv(NMul(V, phi), w) ELSE NMul(V, phi), "1e-12")>>,
   <<"variance-function-derivatives:" \o f, NNear(e.V1, D1(LAMBDA m : UnitVar(f, m, k), mu), "1e-9") /\ NNear(e.V2, D2(LAMBDA m : UnitVar(f, m, k), mu), "1e-7")
        /\ NNear(e.V3, D3(LAMBDA m : UnitVar(f, m, k), mu), "1e-5") /\ NNear(e.V4, NMul(0, mu), "1e-9")>>,
   <<"deviance:" \o f, NClose(e.dev, dev, "1e-8", "1e-9")>>,
   <<"deviance-residual:" \o f, NClose(e.dres, NMul(NSign(r), NSqrt(NMax2(dev, 0))), "1e-5", "1e-5")>>,
   <<"signed-residual:" \o f, NClose(e.sres, NMul(NSign(r), NSqrt(NMax2(dev, 0))), "1e-5", "1e-5")>>,
   <<"pearson-residual:" \o f, NNear(e.pres, NMul(r, NSqrt(NDiv(w, V))), "1e-10")>>,
   <<"pearson-chi2:" \o f, NNear(e.chi2, NSum(NDiv(NMul(w, NMul(r, r)), V)), "1e-10")>>,
   <<"score-weight:" \o f, NNear(e.gw, D1(C, eta), "1e-8") /\ NNear(e.gw2, D1(C, eta), "1e-8")>>,
   <<"information-weight:" \o f, NNear(e.hw, D2(C, eta), "1e-7") /\ NNear(e.hw2, D2(C, eta), "1e-7")>>,
   <<"expected-information-weight:" \o f, NNear(e.ehw, NDiv(w, NMul(NMul(phi, V), NPow(G1(mu), 2))), "1e-8")>> >>)
(* working weights and their derivatives: alpha(mu) = g'(mu)^2 V(mu) d2nll/deta2 with w = phi = 1 *)
WorkA == Is("work") /\ st' = st /\ Judge(LET e == Ev f == e.f y == N(e.y) mu == N(e.mu) k == N(e.k)
   Mu(z) == InvLink(e.l, e.a, z)
   G(z) == Link(e.l, e.a, z)
   V1(m) == R1(LAMBDA q : UnitVar(f, q, k), m, NAbs(m))
   A(m) == NAdd(1, NMul(NSub(y, m), NAdd(NDiv(V1(m), UnitVar(f, m, k)), NDiv(R2(G, m, MuScale(e.l, m)), R1(G, m, MuScale(e.l, m))))))
   W(m) == NDiv(A(m), NMul(NPow(R1(G, m, MuScale(e.l, m)), 2), UnitVar(f, m, k)))
   sm == MuScale(e.l, mu)  se == EtaScale(e.l, G(mu)) IN <<
   <<"working-alpha:" \o f, NNear(e.A, A(mu), "1e-7")>>,
   <<"working-g:" \o f, NClose(e.g, NDiv(R1(G, mu, sm), A(mu)), "1e-6", "1e-6")>>,
   <<"working-weight:" \o f, NNear(e.W, W(mu), "1e-7")>>,
   <<"alpha-derivative:" \o f, NNear(e.A1, Rf1(A, mu, sm), "1e-5")>>,
   <<"alpha-second-derivative:" \o f, NNear(e.A2, Rf2(A, mu, sm), "1e-4")>>,
   <<"working-weight-derivative:" \o f, NNear(e.W1, Rf1(LAMBDA z : W(Mu(z)), G(mu), se), "1e-5")>>,
   <<"working-weight-second-derivative:" \o f, NNear(e.W2, Rf2(LAMBDA z : W(Mu(z)), G(mu), se), "1e-4")>> >>)
(* scale parameter: tau = log dispersion *)
TauA == Is("tau") /\ st' = st /\ Judge(LET e == Ev f == e.f y == N(e.y) mu == N(e.mu) w == N(e.w)
   T(z) == IF f = "NegativeBinomial" THEN Nll(f, y, mu, w, N(1), NExp(z)) ELSE Nll(f, y, mu, w, NExp(z), N(1)) IN <<
   <<"scale-score:" \o f, NNear(e.g, D1(T, N(e.tau)), "1e-8")>>,
   <<"scale-information:" \o f, NNear(e.h, D2(T, N(e.tau)), "1e-7")>>,
   <<"scale-score-total:" \o f, NNear(e.gs, NSum(e.g), "1e-9") /\ NNear(e.hs, NSum(e.h), "1e-9")>> >>)
ScaleA == Is("llscale") /\ st' = st /\ Judge(LET e == Ev f == e.f y == N(e.y) one == NAdd(NMul(0, y), 1)
   L(p) == NSum(Nll(f, y, y, one, p, N(1))) IN <<
   <<"saturated-likelihood:" \o f, NNear(e.l, L(N(e.phi)), "1e-9")>>,
   <<"saturated-likelihood-slope:" \o f, NNear(e.l1, D1(L, N(e.phi)), "1e-8")>>,
   <<"saturated-likelihood-curvature:" \o f, NNear(e.l2, D2(L, N(e.phi)), "1e-6")>> >>)
CanonA == Is("canon") /\ st' = st /\ Judge(LET e == Ev f == e.f mu == N(e.mu) k == N(e.k) T == Canon(f, mu, k) IN <<
   <<"canonical-parameter:" \o f, NNear(e.T, T, "1e-11")>>,
   <<"mean-of-canonical-parameter:" \o f, NNear(e.mean, mu, "1e-10")>>,
   <<"cumulant:" \o f, NNear(e.b, Cumul(f, T, k), "1e-10")>>,
   <<"canonical-parameter-curvature:" \o f, NNear(e.d2, D2(LAMBDA m : Canon(f, m, k), mu), "1e-8")>> >>)
(* the mean may be given by the linear predictor or the canonical parameter, the weights stored on the family *)
StyleA == Is("style") /\ st' = st /\ Judge(LET e == Ev IN <<
   <<"same-answer:" \o e.how, NNear(e.a, e.b, "1e-9")>> >>)
(* quantiles: smallest x with F(x) >= q *)
PpfA == Is("ppf") /\ st' = st /\ Judge(LET e == Ev f == e.f  F(i, x) == Cdf(f, x, NAt(e.mu, i), N(e.n), N(e.phi), N(e.k))  tol == N("1e-9") IN <<
   <<"quantile:" \o f, NLen(e.x) = NLen(e.q) /\ \A i \in 1..NLen(e.q) : LET q == NAt(e.q, i) x == NAt(e.x, i) IN
        IF Discrete(f) THEN NLe(NSub(q, tol), F(i, x)) /\ NLe(F(i, NSub(x, 1)), NAdd(q, tol))
        ELSE NNear(F(i, x), q, "1e-8")>> >>)
(* simulated values: Kolmogorov distance of m draws from one distribution, and their first two moments *)
RvsA == Is("rvs") /\ st' = st /\ Judge(LET e == Ev f == e.f x == NSort(e.x) m == NLen(e.x) mu == N(e.mu) phi == N(e.phi) k == N(e.k) n == N(e.n)
   var == NDiv(NMul(phi, UnitVar(f, mu, k)), IF f = "Binomial" THEN n ELSE N(1))
   Fx(i) == Cdf(f, IF f = "Binomial" THEN NMul(n, NAt(x, i)) ELSE NAt(x, i), mu, n, phi, k)
   mean == NMean(x)  v == NMean(NMul(NSub(x, mean), NSub(x, mean)))
   m4 == NMean(NPow(NSub(x, mean), 4))
   thr == NDiv(3, NSqrt(m)) IN <<
   <<"simulated-mean:" \o f, NLe(NAbs(NSub(mean, mu)), NMul(7, NSqrt(NDiv(var, m))))>>,
   <<"simulated-variance:" \o f, NLe(NAbs(NSub(v, var)), NAdd(NMul(7, NSqrt(NDiv(NMax2(NSub(m4, NMul(v, v)), NMul("0.1", NMul(var, var))), m))), NMul("0.01", var)))>>,
   <<"simulated-distribution:" \o f, Discrete(f) \/ \A j \in 1..(m \div 20) : NLe(NAbs(NSub(Fx(20*j), NDiv(20*j, m))), NAdd(thr, NDiv(1, m)))>>,
   <<"simulated-counts:" \o f, ~Discrete(f) \/ \A j \in 1..(m \div 20) : LET i == 20*j IN i = m \/ NEq(NAt(x, i), NAt(x, i+1)) \/ NLe(NAbs(NSub(Fx(i), NDiv(i, m))), NAdd(thr, NDiv(1, m)))>>,
   <<"simulation-repeats-with-the-seed:" \o f, e.again>> >>)
Init == TInit(<<>>)
Next == LinkA \/ ScalarLink \/ FamA \/ WorkA \/ TauA \/ ScaleA \/ CanonA \/ StyleA \/ PpfA \/ RvsA \/ Raised \/ Unchanged \/ Finished
Spec == Init /\ [][Next]_vars
Holds == bad = {}
=============================================================================
