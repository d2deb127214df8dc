------------------------------- MODULE Infer -------------------------------
(* Tail probabilities, parameter tables, information criteria and pseudo     *)
(* R-squared measures shared by every fitted model.                          *)
EXTENDS Naturals, Sequences, Num
(* two-sided t probability of each entry of t, nu = 0 meaning the normal limit *)
T2(t, nu) == IF NEq(nu, 0) THEN NMul(2, NPhi(NNeg(NAbs(t)))) ELSE NBetaInc(NDiv(nu, 2), "0.5", NDiv(nu, NAdd(nu, NMul(t, t))))
TCdf(t, nu) == LET h == NMul("0.5", T2(t, nu)) IN NIf(NGtI(t, 0), NSub(1, h), h)
FSf(f, d1, d2) == NBetaInc(NDiv(d2, 2), NDiv(d1, 2), NDiv(d2, NAdd(d2, NMul(d1, f))))
ChiSf(x, d) == NGammaQ(NDiv(d, 2), NDiv(NMax2(x, 0), 2))
PClose(p, q) == NClose(p, q, "1e-6", "1e-12")
(* estimate, error, ratio, two-sided p-value and the alpha-level interval *)
ParTable(b, s, e, nu, alpha) ==
  /\ NNear(e.b, b, "1e-9") /\ NClose(e.se, s, "1e-6", "1e-10") /\ NClose(e.t, NDiv(b, s), "1e-6", "1e-9")
  /\ PClose(e.p, T2(e.t, nu))
  /\ LET lo == NDiv(NSub(e.lo, e.b), e.se) hi == NDiv(NSub(e.hi, e.b), e.se) IN
       /\ NNear(TCdf(lo, nu), NFull(NLen(N(b)), 1, NDiv(alpha, 2)), "1e-8") /\ NNear(NAdd(lo, hi), NFull(NLen(N(b)), 1, 0), "1e-6")
(* from a NEGATIVE log-likelihood *)
Criteria(nll, k, n) == N(Tup(<<NAdd(NMul(2, nll), NMul(2, k)),
                               NAdd(NMul(2, nll), NDiv(NMul(NMul(2, k), n), NSub(NSub(n, k), 1))),
                               NAdd(NMul(2, nll), NMul(k, NLn(n))),
                               NAdd(NMul(2, nll), NMul(k, NAdd(NLn(n), 1)))>>))
(* from negative log-likelihoods m (model) and z (null), in the order CoxSnell, Nagelkerke, McFadden, McFadden adjusted,
   Estrella, Estrella adjusted, Aldrich-Nelson, Veall-Zimmermann, likelihood ratio *)
Pseudo(m, z, k, n) == LET l1 == NNeg(m) l0 == NNeg(z) g == NMul(2, NSub(l1, l0)) cs == NSub(1, NExp(NDiv(NNeg(g), n)))
                          an == NDiv(g, NAdd(g, n)) ex == NNeg(NMul(NDiv(2, n), l0)) IN
   N(Tup(<<cs, NDiv(cs, NSub(1, NExp(NMul(NDiv(2, n), l0)))), NSub(1, NDiv(l1, l0)), NSub(1, NDiv(NSub(l1, k), l0)),
           NSub(1, NPow(NDiv(l1, l0), ex)), NSub(1, NPow(NDiv(NSub(l1, k), l0), ex)),
           an, NMul(an, NDiv(NSub(NMul(2, l0), n), NMul(2, l0))), g>>))
=============================================================================
