------------------------------- MODULE ExpFam -------------------------------
(* Exponential-dispersion families and link functions: the negative log       *)
(* likelihood of one observation, the variance function, the link and its      *)
(* inverse.  All functions work elementwise on vectors.                        *)
EXTENDS Naturals, Sequences, Num, NumDiff
Link(l, a, mu) == CASE l = "identity" -> mu
  [] l = "logit" -> NLn(NDiv(mu, NSub(1, mu)))
  [] l = "probit" -> NProbit(mu)
  [] l = "log" -> NLn(mu)
  [] l = "reciprocal" -> NDiv(1, mu)
  [] l = "cloglog" -> NLn(NNeg(NLog1p(NNeg(mu))))
  [] l = "power" -> IF NEq(a, 0) THEN NLn(mu) ELSE NPow(mu, a)
  [] l = "logcomp" -> NLog1p(NNeg(mu))
  [] l = "negbin" -> NLn(NDiv(mu, NAdd(mu, NDiv(1, a))))
InvLink(l, a, eta) == CASE l = "identity" -> eta
  [] l = "logit" -> NDiv(1, NAdd(1, NExp(NNeg(eta))))
  [] l = "probit" -> NPhi(eta)
  [] l = "log" -> NExp(eta)
  [] l = "reciprocal" -> NDiv(1, eta)
  [] l = "cloglog" -> NNeg(NExpm1(NNeg(NExp(eta))))
  [] l = "power" -> IF NEq(a, 0) THEN NExp(eta) ELSE NPow(eta, NDiv(1, a))
  [] l = "logcomp" -> NNeg(NExpm1(eta))
  [] l = "negbin" -> NDiv(NExp(eta), NMul(a, NSub(1, NExp(eta))))
XlogX(x, z) == NIf(NEqI(x, 0), NMul(0, x), NMul(x, NLn(NIf(NEqI(x, 0), NAdd(NMul(0, x), 1), z))))    \* x log z, 0 at x = 0
LogBinom(n, r) == NSub(NSub(NLgamma(NAdd(n, 1)), NLgamma(NAdd(r, 1))), NLgamma(NAdd(NSub(n, r), 1)))
(* the part of the negative log likelihood that depends on the mean *)
Core(f, y, mu, w, phi, k) == CASE f = "Gaussian" -> NDiv(NMul(w, NMul(NSub(y, mu), NSub(y, mu))), NMul(2, phi))
  [] f = "InverseGaussian" -> NDiv(NMul(w, NMul(NSub(y, mu), NSub(y, mu))), NMul(2, NMul(phi, NMul(y, NMul(mu, mu)))))
  [] f = "Gamma" -> NMul(NDiv(w, phi), NAdd(NDiv(y, mu), NLn(mu)))
  [] f = "Poisson" -> NMul(NDiv(w, phi), NSub(mu, XlogX(y, mu)))
  [] f = "Binomial" -> NNeg(NMul(NDiv(w, phi), NAdd(XlogX(y, mu), XlogX(NSub(1, y), NSub(1, mu)))))
  [] f = "NegativeBinomial" -> NMul(w, NSub(NMul(NAdd(y, NDiv(1, k)), NLog1p(NMul(k, mu))), XlogX(y, NMul(k, mu))))
(* the part that does not *)
Base(f, y, w, phi, k) == CASE f = "Gaussian" -> NDiv(NLn(NDiv(NMul(NMul(2, NPi), phi), w)), 2)
  [] f = "InverseGaussian" -> NDiv(NLn(NDiv(NMul(NMul(2, NPi), NMul(phi, NMul(y, NMul(y, y)))), w)), 2)
  [] f = "Gamma" -> LET v == NDiv(w, phi) IN NAdd(NSub(NLgamma(v), NMul(v, NLn(NMul(v, y)))), NLn(y))
  [] f = "Poisson" -> NMul(NDiv(w, phi), NLgamma(NAdd(y, 1)))
  [] f = "Binomial" -> NNeg(LogBinom(w, NMul(w, y)))
  [] f = "NegativeBinomial" -> LET r == NDiv(1, k) IN NMul(w, NAdd(NSub(NLgamma(r), NLgamma(NAdd(y, r))), NLgamma(NAdd(y, 1))))
Nll(f, y, mu, w, phi, k) == NAdd(Core(f, y, mu, w, phi, k), Base(f, y, w, phi, k))
UnitVar(f, mu, k) == CASE f = "Gaussian" -> NAdd(NMul(0, mu), 1)
  [] f = "InverseGaussian" -> NPow(mu, 3)
  [] f = "Gamma" -> NMul(mu, mu)
  [] f = "Poisson" -> mu
  [] f = "Binomial" -> NMul(mu, NSub(1, mu))
  [] f = "NegativeBinomial" -> NAdd(mu, NMul(k, NMul(mu, mu)))
Deviance(f, y, mu, w, phi, k) == NMul(NMul(2, phi), NSub(Core(f, y, mu, w, phi, k), Core(f, y, y, w, phi, k)))
Canon(f, mu, k) == CASE f = "Gaussian" -> mu
  [] f = "InverseGaussian" -> NDiv("-0.5", NMul(mu, mu))
  [] f = "Gamma" -> NDiv(-1, mu)
  [] f = "Poisson" -> NLn(mu)
  [] f = "Binomial" -> NLn(NDiv(mu, NSub(1, mu)))
  [] f = "NegativeBinomial" -> NLn(NDiv(NMul(k, mu), NAdd(1, NMul(k, mu))))
(* cumulant function of the canonical parameter *)
Cumul(f, t, k) == CASE f = "Gaussian" -> NDiv(NMul(t, t), 2)
  [] f = "InverseGaussian" -> NNeg(NSqrt(NMul(-2, t)))
  [] f = "Gamma" -> NNeg(NLn(NNeg(t)))
  [] f = "Poisson" -> NExp(t)
  [] f = "Binomial" -> NLog1p(NExp(t))
  [] f = "NegativeBinomial" -> NDiv(NNeg(NLn(NSub(1, NExp(t)))), k)
(* distribution function at x of one observation with mean mu (scalars) *)
Cdf(f, x, mu, n, phi, k) == CASE f = "Gaussian" -> NPhi(NDiv(NSub(x, mu), NSqrt(phi)))
  [] f = "InverseGaussian" -> LET l == NDiv(1, phi) s == NSqrt(NDiv(l, x)) IN
       NAdd(NPhi(NMul(s, NSub(NDiv(x, mu), 1))), NMul(NExp(NDiv(NMul(2, l), mu)), NPhi(NNeg(NMul(s, NAdd(NDiv(x, mu), 1))))))
  [] f = "Gamma" -> NGammaP(NDiv(1, phi), NDiv(x, NMul(mu, phi)))
  [] f = "Poisson" -> IF NLt(x, 0) THEN N(0) ELSE NGammaQ(NAdd(NFloor(x), 1), mu)
  [] f = "Binomial" -> IF NLt(x, 0) THEN N(0) ELSE IF NLe(n, x) THEN N(1) ELSE NBetaInc(NSub(n, x), NAdd(x, 1), NSub(1, mu))   \* x = count
  [] f = "NegativeBinomial" -> IF NLt(x, 0) THEN N(0) ELSE NBetaInc(NDiv(1, k), NAdd(x, 1), NDiv(1, NAdd(1, NMul(k, mu))))
Discrete(f) == f \in {"Poisson", "Binomial", "NegativeBinomial"}
(* elementwise derivatives with steps proportional to s, the distance to the edge of the domain *)
Step(s, c) == NMul(s, N(c))
R1(F(_), z, s) == LET h == Step(s, "1e-7") IN NDiv(NSub(NMul(8, NSub(F(NAdd(z, h)), F(NSub(z, h)))), NSub(F(NAdd(z, NMul(2, h))), F(NSub(z, NMul(2, h))))), NMul(12, h))
R2(F(_), z, s) == LET h == Step(s, "1e-5") g(m) == F(NAdd(z, NMul(m, h))) IN
   NDiv(NSub(NMul(16, NAdd(g(1), g(-1))), NAdd(NAdd(g(2), g(-2)), NMul(30, g(0)))), NMul(12, NMul(h, h)))
(* the same for functions that are themselves differences *)
Rf1(F(_), z, s) == LET h == Step(s, "1e-4") IN NDiv(NSub(NMul(8, NSub(F(NAdd(z, h)), F(NSub(z, h)))), NSub(F(NAdd(z, NMul(2, h))), F(NSub(z, NMul(2, h))))), NMul(12, h))
Rf2(F(_), z, s) == LET h == Step(s, "1e-4") g(m) == F(NAdd(z, NMul(m, h))) IN
   NDiv(NSub(NMul(16, NAdd(g(1), g(-1))), NAdd(NAdd(g(2), g(-2)), NMul(30, g(0)))), NMul(12, NMul(h, h)))
R3(F(_), z, s) == LET h == Step(s, "1e-5") g(m) == F(NAdd(z, NMul(m, h))) IN NDiv(NSub(NSub(g(2), g(-2)), NMul(2, NSub(g(1), g(-1)))), NMul(2, NPow(h, 3)))
R4(F(_), z, s) == LET h == Step(s, "1e-4") g(m) == F(NAdd(z, NMul(m, h))) IN
   NDiv(NAdd(NSub(NAdd(g(2), g(-2)), NMul(4, NAdd(g(1), g(-1)))), NMul(6, g(0))), NPow(h, 4))
MuScale(l, mu) == IF l \in {"logit", "probit", "cloglog", "logcomp"} THEN NMul(mu, NSub(1, mu)) ELSE IF l = "identity" THEN NAdd(1, NMul(0, mu)) ELSE NAbs(mu)
EtaScale(l, eta) == IF l \in {"power", "reciprocal", "negbin"} THEN NMin2(NAbs(eta), 1) ELSE NAdd(1, NMul(0, eta))
=============================================================================
