-------------------------------- MODULE P09 --------------------------------
(* Ordinal (cumulative link), zero-inflated Poisson and negative binomial,     *)
(* negative binomial and beta regression: one negative log likelihood per       *)
(* observation as a function of (X, Z, y, w) and the parameters; everything     *)
(* else (scores, curvature, fit, criteria, predictions) follows from it.        *)
EXTENDS TraceBase, ExpFam, Infer
K == Tr.kind
Q == Tr.q                               \* ordinal: number of thresholds, categories 0..Q
Dat == [X |-> N(Tr.X), Z |-> N(Tr.Z), y |-> N(Tr.y), w |-> N(Tr.w)]
Nn == NNR(Dat.X)
Lin(X, t, a, b) == NMM(X, NPos(t, a, b))
Sub(i) == <<i>>
(* cumulative probability of category <= j (j = -1 .. Q) as a function of the linear predictor v *)
CumP(t, v, j) == IF j < 0 THEN NMul(0, v) ELSE IF j >= Q THEN NAdd(1, NMul(0, v)) ELSE InvLink(Tr.l, 0, NSub(NAt(t, j + 1), v))
CatP(t, v, j) == NSub(CumP(t, v, j), CumP(t, v, j - 1))
RECURSIVE PickCat(_, _, _, _)
PickCat(t, v, y, j) == IF j > Q THEN NAdd(1, NMul(0, y)) ELSE NIf(NEqI(y, j), CatP(t, v, j), PickCat(t, v, y, j + 1))
Zero(y) == NEqI(y, 0)
LogNB(y, m, k) == NNeg(Nll("NegativeBinomial", y, m, NAdd(1, NMul(0, y)), N(1), k))
LogPois(y, m) == NNeg(NAdd(NSub(m, XlogX(y, m)), NLgamma(NAdd(y, 1))))
ZeroInf(lp, pi, y) == LET p0 == NIf(Zero(y), NExp(lp), NMul(0, y)) IN
    NNeg(NIf(Zero(y), NLn(NAdd(pi, NMul(NSub(1, pi), p0))), NAdd(NLn(NSub(1, pi)), lp)))
(* negative log likelihood of each observation *)
Unit(t, d) == LET p == NNC(d.X) r == NNC(d.Z) IN
  CASE K = "clm" -> NNeg(NLn(PickCat(t, Lin(d.X, t, Q + 1, Q + p), d.y, 0)))
    [] K = "zip" -> LET m == InvLink(Tr.l, 0, Lin(d.X, t, 1, p)) pi == InvLink(Tr.zl, 0, Lin(d.Z, t, p + 1, p + r)) IN ZeroInf(LogPois(d.y, m), pi, d.y)
    [] K = "zinb" -> LET m == InvLink(Tr.l, 0, Lin(d.X, t, 1, p)) pi == InvLink(Tr.zl, 0, Lin(d.Z, t, p + 1, p + r)) IN ZeroInf(LogNB(d.y, m, NExp(NAt(t, p + r + 1))), pi, d.y)
    [] K = "nb" -> NNeg(LogNB(d.y, NExp(Lin(d.X, t, 1, p)), NExp(NAt(t, p + 1))))
    [] K = "beta" -> LET m == InvLink(Tr.l, 0, Lin(d.X, t, 1, p)) phi == NExp(Lin(d.Z, t, p + 1, p + r)) a == NMul(m, phi) b == NSub(phi, a) IN
         NNeg(NAdd(NSub(NSub(NLgamma(phi), NLgamma(a)), NLgamma(b)), NAdd(NMul(NSub(a, 1), NLn(d.y)), NMul(NSub(b, 1), NLn(NSub(1, d.y))))))
PerObs(t, d) == NMul(d.w, Unit(t, d))
Obj(t, d) == NSum(PerObs(t, d))
(* ordered thresholds: the first, then the log of each gap *)
Free(t) == LET r[j \in 1..Q] == IF j = 1 THEN NAt(t, 1) ELSE NAdd(r[j-1], NExp(NAt(t, j))) n == NLen(t) IN N(Tup([j \in 1..n |-> IF j <= Q THEN r[j] ELSE NAt(t, j)]))
DatOf(e) == IF Has(e, "X") THEN [X |-> N(e.X), Z |-> N(e.Z), y |-> N(e.y), w |-> N(e.w)] ELSE Dat
Row(d, i) == [X |-> NT(NRow(d.X, i)), Z |-> NT(NRow(d.Z, i)), y |-> NPos(d.y, i, i), w |-> NPos(d.w, i, i)]
EvalA == Is("eval") /\ st' = st /\ Judge(LET e == Ev t == N(e.t) d == DatOf(e) n == NLen(d.y) F(z) == IF e.free THEN Obj(Free(z), d) ELSE Obj(z, d)
      Fi(z, i) == IF e.free THEN Obj(Free(z), Row(d, i)) ELSE Obj(z, Row(d, i)) IN <<
   <<"negative-log-likelihood:" \o e.nm, NNear(e.ll, F(t), "1e-9")>>,
   <<"gradient:" \o e.nm, NNear(e.g, NumGrad(F, t), "1e-7")>>,
   <<"hessian:" \o e.nm, NNear(e.H, NumHess(F, t), "1e-6")>>,
   <<"negative-log-likelihood-by-observation:" \o e.nm, Has(e, "li") => NNear(e.li, IF e.free THEN PerObs(Free(t), d) ELSE PerObs(t, d), "1e-9")>>,
   <<"gradient-by-observation:" \o e.nm, Has(e, "gi") => /\ NNear(NColSum(e.gi), e.g, "1e-8")
        /\ \A q \in 1..Len(e.rows) : LET i == e.rows[q] G(z) == Fi(z, i) IN NNear(NRow(e.gi, i), NumGrad(G, t), "1e-7")>>,
   <<"hessian-by-observation:" \o e.nm, Has(e, "hi") => \A q \in 1..Len(e.rows) : LET G(z) == Fi(z, e.rows[q]) IN NNear(e.hi[q], NumHess(G, t), "1e-6")>> >>)
TransA == Is("ordered") /\ st' = st /\ Judge(LET e == Ev x == N(e.x) y == N(e.y) n == NLen(x) Fwd(z) == LET q == Tr.q IN N(Tup([j \in 1..n |-> IF j = 1 \/ j > q THEN NAt(z, j) ELSE NLn(NSub(NAt(z, j), NAt(z, j - 1)))])) IN <<
   <<"ordered-transform", NNear(e.rvs, Free(y), "1e-11") /\ NNear(e.fwd, Fwd(x), "1e-10") /\ NNear(e.rt, x, "1e-9")>>,
   <<"ordered-transform-jacobians", NNear(NSub2(e.jr, e.ix, e.ix), NSub2(NumJac(Free, y), e.ix, e.ix), "1e-9") /\ NNear(NSub2(e.jf, e.ix, e.ix), NSub2(NumJac(Fwd, x), e.ix, e.ix), "1e-8")>>,
   <<"ordered-transform-curvatures", \A i \in 1..Tr.q : LET R(z) == NAt(Free(z), i) G(z) == NAt(Fwd(z), i) IN NNear(e.hr[i], NumHess(R, y), "1e-7") /\ NNear(e.hf[i], NumHess(G, x), "1e-6")>> >>)
FitA == Is("fit") /\ st' = st /\ Judge(LET e == Ev t == N(e.par) F(z) == Obj(z, Dat) H == NumHess(F, t) k == NLen(t) se == NSqrt(NDg(NInv(H))) IN <<
   <<"fit-is-stationary:" \o e.nm, NNear(NMul(NumGrad(F, t), se), NFull(k, 1, 0), e.tol)>>,
   <<"fit-is-a-minimum:" \o e.nm, NLt(0, NAt(NEig(H), 1))>>,
   <<"parameter-table:" \o e.nm, IF Has(e, "lo") THEN ParTable(t, se, e, Nn - k, "0.05")
       ELSE NNear(e.b, t, "1e-10") /\ NClose(e.se, se, "1e-6", "1e-9") /\ NClose(e.t, NDiv(t, se), "1e-6", "1e-8") /\ PClose(e.p, T2(e.t, Nn - k))>>,
   <<"labels:" \o e.nm, e.labels = e.ref>> >>)
(* the model with intercepts only *)
One == NFull(Nn, 1, 1)
NullDat == [X |-> One, Z |-> One, y |-> Dat.y, w |-> Dat.w]
NullNll(t) == Obj(t, NullDat)
ClmNull == LET tot == NSum(Dat.w) wj(j) == NSum(NMul(Dat.w, NEqI(Dat.y, j))) r[j \in 0..Q] == (IF j = 0 THEN N(0) ELSE r[j-1]) IN
   NNeg(NSum(N(Tup([j \in 1..(Q+1) |-> NMul(wj(j-1), NLn(NDiv(wj(j-1), tot)))]))))
NullA == Is("null") /\ st' = st /\ Judge(LET e == Ev IN <<
   <<"null-fit:" \o e.nm, K = "clm" \/ LET t == N(e.t0) H == NumHess(NullNll, t) IN
        NNear(NMul(NumGrad(NullNll, t), NSqrt(NDg(NInv(H)))), NFull(NLen(t), 1, 0), "5e-3") /\ NLt(0, NAt(NEig(H), 1))>>,
   <<"null-log-likelihood:" \o e.nm, NNear(e.lln, IF K = "clm" THEN ClmNull ELSE NullNll(N(e.t0)), "1e-6")>> >>)
Stat(s, m, z, k, n, p) == LET c == Criteria(m, k, n) r == Pseudo(m, z, k, n) IN
  CASE s = "AIC" -> NAt(c, 1) [] s = "AICC" -> NAt(c, 2) [] s = "BIC" -> NAt(c, 3) [] s = "CAIC" -> NAt(c, 4)
    [] s = "CS" -> NAt(r, 1) [] s = "NK" -> NAt(r, 2) [] s = "MC" -> NAt(r, 3) [] s = "MB" -> NAt(r, 4) [] s = "ES" -> NAt(r, 5) [] s = "EA" -> NAt(r, 6)
    [] s = "AN" -> NAt(r, 7) [] s = "VZ" -> NAt(r, 8) [] s = "LLR" -> NAt(r, 9)
    [] s = "MBp" -> NAt(Pseudo(m, z, p, n), 4)                 \* penalised by the number of mean coefficients only
    [] s = "LLRp" -> ChiSf(NAt(r, 9), Tr.dfr)
    [] s = "LLF" -> m [] s = "LLN" -> z
StatA == Is("stat") /\ st' = st /\ Judge(LET e == Ev t == N(e.par) m == Obj(t, Dat) z == N(e.lln) IN
   Tup([j \in 1..Len(e.s) |-> <<e.s[j] \o ":" \o e.nm, LET ref == Stat(e.s[j], m, z, NLen(t), Nn, NNC(Dat.X)) IN NEq(ref, ref) => NClose(NAt(e.v, j), ref, "1e-6", "1e-7")>>]))
(* negative binomial goodness of fit *)
NbA == Is("nbgof") /\ st' = st /\ Judge(LET e == Ev t == N(e.par) p == NNC(Dat.X) m == NExp(Lin(Dat.X, t, 1, p)) k == NExp(NAt(t, p + 1)) r == NSub(Dat.y, m)
      chi == NSum(NDiv(NMul(r, r), UnitVar("NegativeBinomial", m, k))) dev == NSum(Deviance("NegativeBinomial", Dat.y, m, One, N(1), k)) IN <<
   <<"pearson-chi2:" \o e.nm, NNear(e.chi2, chi, "1e-8") /\ NNear(e.sc, NDiv(chi, Nn - p), "1e-8") /\ NClose(e.chip, ChiSf(chi, Nn - p), "1e-6", "1e-10")>>,
   <<"deviance:" \o e.nm, NNear(e.dev, dev, "1e-8") /\ NClose(e.devp, ChiSf(dev, Nn - p), "1e-6", "1e-10")>>,
   <<"fitted-means:" \o e.nm, NNear(e.mu, m, "1e-9")>> >>)
(* zero-inflated Poisson: mean and variance of the mixture *)
ZipA == Is("zipmean") /\ st' = st /\ Judge(LET e == Ev t == N(e.par) X == N(e.X) Z == N(e.Z) p == NNC(X) m == NExp(Lin(X, t, 1, p)) pi == InvLink("logit", 0, Lin(Z, t, p + 1, p + NNC(Z))) IN <<
   <<"predicted-mean:" \o e.nm, NNear(e.mu, NMul(m, NSub(1, pi)), "1e-10")>>,
   <<"predicted-variance:" \o e.nm, NNear(e.var, NSub(NMul(NSub(1, pi), NAdd(m, NMul(m, m))), NPow(NMul(m, NSub(1, pi)), 2)), "1e-9")>>,
   <<"pearson-residuals:" \o e.nm, Has(e, "res") => NNear(e.res, NDiv(NSub(Dat.y, e.mu), NSqrt(e.var)), "1e-9")>> >>)
BetaA == Is("betamean") /\ st' = st /\ Judge(LET e == Ev t == N(e.par) X == N(e.X) Z == N(e.Z) p == NNC(X) IN <<
   <<"predicted-mean-and-precision:" \o e.nm, NNear(e.mu, InvLink(Tr.l, 0, Lin(X, t, 1, p)), "1e-10") /\ NNear(e.phi, NExp(Lin(Z, t, p + 1, p + NNC(Z))), "1e-10")>> >>)
(* two-part predictions with intervals *)
TwoA == Is("twopart") /\ st' = st /\ Judge(LET e == Ev t == N(e.par) X == N(e.X) Z == N(e.Z) p == NNC(X) r == NNC(Z) V == N(e.V) z == NProbit(NDiv(NAdd(1, e.lev), 2))
      seq(a, b) == Tup([j \in 1..(b - a + 1) |-> a + j - 1]) V1 == NSub2(V, seq(1, p), seq(1, p)) V2 == NSub2(V, seq(p+1, p+r), seq(p+1, p+r))
      e1 == Lin(X, t, 1, p) e2 == Lin(Z, t, p + 1, p + r) s1 == NSqrt(NRowSum(NMul(NMM(X, V1), X))) s2 == NSqrt(NRowSum(NMul(NMM(Z, V2), Z)))
      I1(v) == InvLink(Tr.l, 0, v) I2(v) == InvLink(Tr.zl, 0, v) m == I1(e1) k == IF K = "zinb" THEN NExp(NAt(t, p + r + 1)) ELSE N(1)
      quant(x, q, i) == NLe(NSub(q, "1e-9"), Cdf("NegativeBinomial", x, NAt(m, i), N(1), N(1), k)) /\ NLe(Cdf("NegativeBinomial", NSub(x, 1), NAt(m, i), N(1), N(1), k), NAdd(q, "1e-9")) IN <<
   <<"linear-predictors:" \o e.nm, NNear(e.lp, NHcat(e1, e2), "1e-10") /\ NNear(e.se, NHcat(s1, s2), "1e-9")>>,
   <<"predicted-means:" \o e.nm, NNear(e.mean, NHcat(m, I2(e2)), "1e-10")>>,
   <<"intervals:" \o e.nm, NNear(e.llo, NHcat(NSub(e1, NMul(z, s1)), NSub(e2, NMul(z, s2))), "1e-8") /\ NNear(e.lhi, NHcat(NAdd(e1, NMul(z, s1)), NAdd(e2, NMul(z, s2))), "1e-8")
        /\ NNear(e.mlo, NHcat(I1(NSub(e1, NMul(z, s1))), I2(NSub(e2, NMul(z, s2)))), "1e-8") /\ NNear(e.mhi, NHcat(I1(NAdd(e1, NMul(z, s1))), I2(NAdd(e2, NMul(z, s2)))), "1e-8")>>,
   <<"count-quantiles:" \o e.nm, Has(e, "plo") => LET a == NDiv(NSub(1, e.plev), 2) IN \A i \in 1..NNR(X) : quant(NAt(e.plo, i), a, i) /\ quant(NAt(e.phi, i), NSub(1, a), i)>> >>)
(* ordinal predictions *)
OrdA == Is("ordpred") /\ st' = st /\ Judge(LET e == Ev t == N(e.par) X == N(e.X) p == NNC(X) v == Lin(X, t, Q + 1, Q + p) V == N(e.V) z == NProbit(NDiv(NAdd(1, e.lev), 2))
      keep(j) == <<j>> \o Tup([a \in 1..p |-> Q + a]) Xe == NHcat(NFull(NNR(X), 1, 1), NNeg(X))
      eta(j) == NSub(NAt(t, j), v) s(j) == NSqrt(NRowSum(NMul(NMM(Xe, NSub2(V, keep(j), keep(j))), Xe))) I(x) == InvLink(Tr.l, 0, x)
      Cols(F(_), a, b) == LET r[j \in a..b] == IF j = a THEN F(a) ELSE NHcat(r[j-1], F(j)) IN r[b]
      lo(j) == NSub(eta(j), NMul(z, s(j))) hi(j) == NAdd(eta(j), NMul(z, s(j))) Ilo(j) == I(lo(j)) Ihi(j) == I(hi(j)) cum(j) == CumP(t, v, j - 1) cat(j) == CatP(t, v, j - 1) IN <<
   <<"linear-predictor:" \o e.nm, NNear(e.eta, Cols(eta, 1, Q), "1e-10")>>,
   <<"category-probabilities:" \o e.nm, NClose(e.prob, Cols(cat, 1, Q + 1), "1e-9", "1e-12") /\ NNear(NRowSum(e.prob), NFull(NNR(X), 1, 1), "1e-10")>>,
   <<"cumulative-probabilities:" \o e.nm, NNear(e.cum, Cols(cum, 1, Q), "1e-10")>>,
   <<"standard-errors-and-intervals:" \o e.nm, Has(e, "se") => NNear(e.se, Cols(s, 1, Q), "1e-8") /\ NNear(e.lo, Cols(lo, 1, Q), "1e-8") /\ NNear(e.hi, Cols(hi, 1, Q), "1e-8")
        /\ NNear(e.clo, Cols(Ilo, 1, Q), "1e-8") /\ NNear(e.chi, Cols(Ihi, 1, Q), "1e-8")>>,
   <<"category-labels:" \o e.nm, e.cats = e.refcats>> >>)
ClassA == Is("ordclass") /\ st' = st /\ Judge(LET e == Ev t == N(e.par) v == Lin(Dat.X, t, Q + 1, NLen(t)) r[j \in 0..Q] == IF j = 0 THEN NMul(0, v) ELSE NAdd(r[j-1], NGtI(v, NAt(t, j))) IN <<
   <<"latent-class:" \o e.nm, NNear(e.c, r[Q], "1e-12")>> >>)
Init == TInit(<<>>)
Next == EvalA \/ TransA \/ FitA \/ NullA \/ StatA \/ NbA \/ ZipA \/ BetaA \/ TwoA \/ OrdA \/ ClassA \/ Raised \/ Unchanged \/ Finished
=============================================================================
