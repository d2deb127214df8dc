-------------------------------- MODULE P08 --------------------------------
(* Generalised linear models: objective, derivatives, fit, diagnostics and     *)
(* prediction as functions of (X, y, w), family f, link l (parameter a) and    *)
(* the way the scale is handled: NR (log scale is the last parameter), M       *)
(* (Pearson chi-square / residual df) or fixed (one).                          *)
EXTENDS TraceBase, ExpFam, Infer
Xm == N(Tr.X)
Yv == N(Tr.y)
Wv == N(Tr.w)
Nn == NNR(Xm)
Pp == NNC(Xm)
NB == Tr.f = "NegativeBinomial"
NR == Tr.mode = "NR"
Mu(b, X) == InvLink(Tr.l, Tr.a, NMM(X, b))
Beta(t) == NPos(t, 1, Pp)
DispOf(t) == IF NR /\ NB THEN NExp(NAt(t, Pp + 1)) ELSE N(1)
Chi2(b, X, y, w, k) == LET mu == Mu(b, X) r == NSub(y, mu) IN NSum(NDiv(NMul(w, NMul(r, r)), UnitVar(Tr.f, mu, k)))
PhiOf(t) == IF Tr.mode = "M" THEN NDiv(Chi2(Beta(t), Xm, Yv, Wv, N(1)), Nn - Pp) ELSE IF NR /\ ~NB THEN NExp(NAt(t, Pp + 1)) ELSE N(1)
NllD(t, phi, k, X, y, w) == NSum(Nll(Tr.f, y, Mu(Beta(t), X), w, phi, k))
(* the objective; with M the scale is the one of t0 *)
ObjD(t, t0, X, y, w) == NllD(t, IF Tr.mode = "M" THEN PhiOf(t0) ELSE PhiOf(t), DispOf(t), X, y, w)
Obj(t, t0) == ObjD(t, t0, Xm, Yv, Wv)
EvalA == Is("eval") /\ st' = st /\ Judge(LET e == Ev t == N(e.t) F(z) == Obj(z, t) IN <<
   <<"negative-log-likelihood:" \o e.nm, NNear(e.full, Obj(t, t), "1e-9")>>,
   <<"objective-differs-by-a-constant:" \o e.nm, Tr.mode = "M" \/ NNear(NSub(e.ll, e.ll2), NSub(Obj(t, t), Obj(N(e.t2), t)), "1e-8")>>,
   <<"gradient:" \o e.nm, NNear(e.g, NumGrad(F, t), "1e-7")>>,
   <<"hessian:" \o e.nm, NNear(e.H, NumHess(F, t), "1e-6")>>,
   <<"gradient-by-observation:" \o e.nm, Has(e, "gi") => /\ NNear(NColSum(e.gi), e.g, "1e-8")
        /\ \A i \in {1, 2, Nn} : LET G(z) == ObjD(z, t, NT(NRow(Xm, i)), NAt(Yv, i), NAt(Wv, i)) IN NNear(NRow(e.gi, i), NumGrad(G, t), "1e-7")>> >>)
(* the objective of other data than the model's own *)
OtherA == Is("other") /\ st' = st /\ Judge(LET e == Ev t == N(e.t) F(z) == ObjD(z, t, N(e.X), N(e.y), N(e.w)) IN <<
   <<"objective-of-given-data:" \o e.nm, NNear(e.full, F(t), "1e-9")>>,
   <<"gradient-of-given-data:" \o e.nm, NNear(e.g, NumGrad(F, t), "1e-7")>>,
   <<"hessian-of-given-data:" \o e.nm, NNear(e.H, NumHess(F, t), "1e-6")>> >>)
(* smallest null objective of the negative binomial: golden-section search over the log dispersion *)
Third == N("0.333333333333333333")
MinOn(F(_), a, b, n) == LET r[j \in 0..n] == IF j = 0 THEN <<a, b>> ELSE LET q == r[j-1] d == NMul(Third, NSub(q[2], q[1])) u == NAdd(q[1], d) v == NSub(q[2], d)
                                              IN IF NLt(F(u), F(v)) THEN <<q[1], v>> ELSE <<u, q[2]>> IN F(NMul("0.5", NAdd(r[n][1], r[n][2])))
NullNll(phi) == LET m == NDiv(NDot(Wv, Yv), NSum(Wv)) one == NFull(Nn, 1, m) IN
   IF NB /\ NR THEN LET F(z) == NSum(Nll(Tr.f, Yv, one, Wv, N(1), NExp(z))) IN MinOn(F, N(-9), N(5), 60)
   ELSE NSum(Nll(Tr.f, Yv, one, Wv, phi, N(1)))
FitW(mu, k, phi) == LET eta == Link(Tr.l, Tr.a, mu) G(z) == Link(Tr.l, Tr.a, z) g == R1(G, mu, MuScale(Tr.l, mu)) IN NDiv(Wv, NMul(phi, NMul(UnitVar(Tr.f, mu, k), NMul(g, g))))
Hat(W) == LET S == NMM(NDiag(NSqrt(W)), Xm) IN NRowSum(NMul(NT(NSolve(NMM(NT(S), S), NT(S))), S))
FitA == Is("fit") /\ st' = st /\ Judge(LET e == Ev t == N(e.par) F(z) == Obj(z, t) H == NumHess(F, t) k == NLen(t) se == NSqrt(NDg(NInv(H))) IN <<
   <<"fit-is-stationary:" \o e.nm, NNear(NMul(NumGrad(F, t), se), NFull(k, 1, 0), e.tol)>>,
   <<"fit-is-a-minimum:" \o e.nm, NLt(0, NAt(NEig(H), 1))>>,
   <<"parameter-table:" \o e.nm, IF Has(e, "lo") THEN ParTable(t, se, e, Nn - k, "0.05")
       ELSE NNear(e.b, t, "1e-10") /\ NClose(e.se, se, "1e-6", "1e-9") /\ NClose(e.t, NDiv(t, se), "1e-6", "1e-8") /\ PClose(e.p, T2(e.t, Nn - Pp))>>,
   <<"scale:" \o e.nm, NNear(e.phi, PhiOf(t), "1e-8") /\ (Has(e, "disp") => NNear(e.disp, DispOf(t), "1e-9"))>>,
   <<"fitted-means:" \o e.nm, NNear(e.mu, Mu(Beta(t), Xm), "1e-9")>>,
   <<"labels:" \o e.nm, e.labels = e.ref>> >>)
SsqR2(y, f) == LET r == NSub(y, f) c == NSub(y, NMean(y)) IN NSub(1, NDiv(NDot(r, r), NDot(c, c)))
StatA == Is("stat") /\ st' = st /\ Judge(LET e == Ev t == N(e.par) b == Beta(t) mu == Mu(b, Xm) kd == DispOf(t) phi == PhiOf(t) k == NLen(t) nll == Obj(t, t) z == NullNll(phi)
      d == Deviance(Tr.f, Yv, mu, Wv, N(1), kd) s == SsqR2(Yv, mu) IN <<
   <<"deviance-and-chi2:" \o e.nm, NNear(e.dev, NSum(d), "1e-8") /\ NNear(e.chi2, Chi2(b, Xm, Yv, Wv, kd), "1e-8")>>,
   <<"log-likelihoods:" \o e.nm, NNear(e.llf, nll, "1e-9") /\ NNear(e.lln, z, IF NB THEN "1e-4" ELSE "1e-9")>>,
   <<"information-criteria:" \o e.nm, NClose(e.ic, Criteria(nll, k, Nn), "1e-8", "1e-8")>>,
   <<"pseudo-R2:" \o e.nm, LET ref == Pseudo(nll, e.lln, k, Nn) IN \A j \in 1..Len(e.ix) : LET v == NAt(ref, e.ix[j]) IN NEq(v, v) => NClose(NAt(e.r2, j), v, "1e-7", "1e-8")>>,
   <<"raw-R2:" \o e.nm, Has(e, "rss") => NNear(e.rss, s, "1e-8")>> >>)
ResidA == Is("resid") /\ st' = st /\ Judge(LET e == Ev t == N(e.par) mu == Mu(Beta(t), Xm) kd == DispOf(t) phi == PhiOf(t) raw == NSub(Yv, mu) V == UnitVar(Tr.f, mu, kd)
      h == Hat(FitW(mu, kd, phi)) rp == NMul(raw, NSqrt(NDiv(Wv, V))) d == Deviance(Tr.f, Yv, mu, Wv, N(1), kd) rd == NMul(NSign(raw), NSqrt(NMax2(d, 0)))
      s == NSqrt(phi) q == NSqrt(NSub(1, h)) rps == NDiv(rp, s) rds == NDiv(rd, s) rpss == NDiv(rps, q) rdss == NDiv(rds, q) IN <<
   <<"leverages:" \o e.nm, NNear(e.h, h, "1e-7")>>,
   <<"residuals:raw:" \o e.nm, NNear(NColumn(e.R, 1), raw, "1e-9")>>,
   <<"residuals:pearson:" \o e.nm, NNear(NColumn(e.R, 2), rp, "1e-8")>>,
   <<"residuals:deviance:" \o e.nm, NClose(NColumn(e.R, 3), rd, "1e-5", "1e-5") /\ NClose(NColumn(e.R, 4), rd, "1e-5", "1e-5")>>,
   <<"residuals:standardised:" \o e.nm, NNear(NColumn(e.R, 5), rps, "1e-7") /\ NNear(NColumn(e.R, 6), rpss, "1e-6") /\ NClose(NColumn(e.R, 7), rds, "1e-5", "1e-5") /\ NClose(NColumn(e.R, 8), rdss, "1e-5", "1e-5")>>,
   <<"residuals:likelihood:" \o e.nm, NClose(NColumn(e.R, 9), NMul(NSign(raw), NSqrt(NAdd(NMul(h, NMul(rpss, rpss)), NMul(NSub(1, h), NMul(rdss, rdss))))), "1e-5", "1e-5")>>,
   <<"cooks-distance:" \o e.nm, NClose(NColumn(e.R, 10), NDiv(NMul(h, NMul(rpss, rpss)), NMul(Pp, NSub(1, h))), "1e-6", "1e-8")>> >>)
(* sandwich errors from the scores *)
RobA == Is("robust") /\ st' = st /\ Judge(LET e == Ev t == N(e.par) F(z) == Obj(z, t) A == NInv(NumHess(F, t)) gi(i) == LET G(z) == ObjD(z, t, NT(NRow(Xm, i)), NAt(Yv, i), NAt(Wv, i)) IN NT(NumGrad(G, t))
      S == N(Tup([i \in 1..Nn |-> gi(i)])) V == NMM(A, NMM(NMM(NT(S), S), A)) IN <<
   <<"robust-parameter-table:" \o e.nm, ParTable(t, NSqrt(NDg(V)), e, Nn - NLen(t), "0.05")>> >>)
PredA == Is("predict") /\ st' = st /\ Judge(LET e == Ev X == N(e.X) eta == NMM(X, e.b) se == NSqrt(NRowSum(NMul(NMM(X, e.C), X))) z == NProbit(NDiv(NAdd(1, e.mlev), 2)) mu == InvLink(Tr.l, Tr.a, eta)
      lo == NSub(eta, NMul(z, se)) hi == NAdd(eta, NMul(z, se)) a == NDiv(NSub(1, e.plev), 2)
      cdf(x, i) == Cdf(Tr.f, x, NAt(mu, i), N(1), e.phi, e.disp)
      quant(x, q, i) == IF Discrete(Tr.f) THEN NLe(NSub(q, "1e-9"), cdf(x, i)) /\ NLe(cdf(NSub(x, 1), i), NAdd(q, "1e-9")) ELSE NNear(cdf(x, i), q, "1e-7") IN <<
   <<"linear-predictor:" \o e.nm, NNear(e.eta, eta, "1e-10") /\ NNear(e.eta_se, se, "1e-9")>>,
   <<"predicted-mean:" \o e.nm, NNear(e.mu, mu, "1e-10")>>,
   <<"mean-interval:" \o e.nm, NNear(e.elo, lo, "1e-8") /\ NNear(e.ehi, hi, "1e-8") /\ NNear(e.mlo, InvLink(Tr.l, Tr.a, lo), "1e-8") /\ NNear(e.mhi, InvLink(Tr.l, Tr.a, hi), "1e-8")>>,
   <<"predictive-interval:" \o e.nm, \A i \in 1..NNR(X) : quant(NAt(e.plo, i), a, i) /\ quant(NAt(e.phi_, i), NSub(1, a), i)>> >>)
Pred1A == Is("predict1") /\ st' = st /\ Judge(LET e == Ev eta == NMM(e.X, e.b) mu == InvLink(Tr.l, Tr.a, eta) IN <<
   <<"prediction:" \o e.kind, IF e.kind = "both" THEN NNear(e.v, NHcat(eta, mu), "1e-9") ELSE NNear(e.v, IF e.kind \in {"lp", "eta", "linpred"} THEN eta ELSE mu, "1e-9")>> >>)
DropI(A, i) == NRowsOf(A, SelectSeq(Tup([k \in 1..Nn |-> k]), LAMBDA k : k # i))
JackA == Is("jack") /\ st' = st /\ Judge(LET e == Ev t == N(e.par) mu == Mu(Beta(t), Xm) phi == PhiOf(t) W == FitW(mu, DispOf(t), phi) h == Hat(W) A == NInv(NMM(NT(Xm), NMM(NDiag(W), Xm)))
      F(z) == Obj(z, t) sc == NumHess(F, t) IN <<
   <<"jackknife-refits:" \o e.nm, e.kind = "optimize" => \A q \in 1..Len(e.rows) : LET i == e.rows[q] G(z) == ObjD(z, t, DropI(Xm, i), DropI(Yv, i), DropI(Wv, i)) r == NRow(e.J, i) IN NNear(NMul(NumGrad(G, r), NSqrt(NDg(NInv(sc)))), NFull(NLen(t), 1, 0), "5e-3")>>,
   <<"jackknife-one-step:" \o e.nm, e.kind = "one-step" => \A i \in 1..Nn : LET xi == NRow(Xm, i) G(z) == Core(Tr.f, NAt(Yv, i), InvLink(Tr.l, Tr.a, z), NAt(Wv, i), phi, N(1)) IN
        NNear(NRow(e.J, i), NAdd(t, NMul(NDiv(D1(G, NDot(xi, t)), NSub(1, NAt(h, i))), NMM(A, xi))), "1e-6")>> >>)
(* one term of the formula removed: Newton iterations for the restricted optimum *)
NllD0(Xf, z) == NSum(Nll(Tr.f, Yv, InvLink(Tr.l, Tr.a, NMM(Xf, z)), Wv, N(1), N(1)))
Restr(free, n) == LET Xf == NColsOf(Xm, free) q == Len(free) F(z) == NllD0(Xf, z) step(z) == NSub(z, NSolve(NumHess(F, z), NumGrad(F, z)))
                      r[j \in 0..n] == IF j = 0 THEN NSetAt(NFull(q, 1, 0), 1, Link(Tr.l, Tr.a, NMean(Yv))) ELSE step(r[j-1]) IN r[n]
TermA == Is("term") /\ st' = st /\ Judge(LET e == Ev t == N(e.par) F(z) == Obj(z, t) free == SelectSeq(Tup([k \in 1..Pp |-> k]), LAMBDA k : \A j \in 1..Len(e.cols) : e.cols[j] # k)
      rf == Restr(free, 12) pos(k) == CHOOSE j \in 1..Len(free) : free[j] = k t0 == N(Tup([k \in 1..Pp |-> IF \E j \in 1..Len(free) : free[j] = k THEN NAt(rf, pos(k)) ELSE N(0)]))
      gi(i, z0) == LET G(z) == ObjD(z, z0, NT(NRow(Xm, i)), NAt(Yv, i), NAt(Wv, i)) IN NT(NumGrad(G, z0)) S(z0) == N(Tup([i \in 1..Nn |-> gi(i, z0)])) B(z0) == NMM(NT(S(z0)), S(z0)) A(z0) == NInv(NumHess(F, z0))
      pick(v) == N(Tup([j \in 1..Len(e.cols) |-> NAt(v, e.cols[j])])) V(z0) == NSub2(NMM(A(z0), NMM(B(z0), A(z0))), e.cols, e.cols) g0 == pick(NMM(A(t0), NumGrad(F, t0)))
      ws == NDot(pick(t), NSolve(V(t), pick(t))) ss == NDot(g0, NSolve(V(t0), g0)) q == Len(e.cols) IN <<
   <<"wald-test-of-term:" \o e.nm, NClose(e.w, ws, "1e-4", "1e-6") /\ NEq(e.wdf, q) /\ NClose(e.wp, ChiSf(e.w, q), "1e-6", "1e-10")>>,
   <<"score-test-of-term:" \o e.nm, NClose(e.s, ss, "2e-3", "1e-4") /\ NEq(e.sdf, q) /\ NClose(e.sp, ChiSf(e.s, q), "1e-6", "1e-10")>> >>)
Init == TInit(<<>>)
Next == EvalA \/ OtherA \/ FitA \/ StatA \/ ResidA \/ RobA \/ PredA \/ Pred1A \/ JackA \/ TermA \/ Raised \/ Unchanged \/ Finished
=============================================================================
