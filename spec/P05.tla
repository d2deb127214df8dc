-------------------------------- MODULE P05 --------------------------------
(* Numerical differentiation rules, memoised objectives, elementary            *)
(* distribution functions and allocation arithmetic.                           *)
EXTENDS TraceBase
(* test functions: c + b'x + x'Ax/2 + d'x^3 + g exp(w'x) + s sin(u'x)           *)
Fn(p, x) == NAdd(NAdd(NAdd(p.c, NDot(p.b, x)), NMul("0.5", NDot(x, NMM(p.A, x)))),
            NAdd(NDot(p.d, NMul(x, NMul(x, x))), NAdd(NMul(p.g, NExp(NDot(p.w, x))), NMul(p.s, NSin(NDot(p.u, x))))))
GradA == Is("grad") /\ st' = st /\ Judge(LET e == Ev F(x) == Fn(e.f, x) IN <<
   <<"first-derivative:" \o e.nm, NNear(e.g, NumGrad(F, N(e.x)), e.tol)>> >>)
HessA == Is("hess") /\ st' = st /\ Judge(LET e == Ev F(x) == Fn(e.f, x) IN <<
   <<"second-derivative:" \o e.nm, NNear(e.H, NumHess(F, N(e.x)), e.tol)>>,
   <<"second-derivative-symmetric:" \o e.nm, NNear(e.H, NT(e.H), "1e-7")>> >>)
(* e.J: one row per component *)
JacA == Is("jac") /\ st' = st /\ Judge(LET e == Ev IN <<
   <<"jacobian:" \o e.nm, NNR(e.J) = Len(e.fs) /\ \A k \in 1..Len(e.fs) : LET F(x) == Fn(e.fs[k], x) IN NNear(NRow(e.J, k), NumGrad(F, N(e.x)), e.tol)>> >>)
(* masked variants compute the requested entries and leave the others zero *)
MaskJ == Is("maskjac") /\ st' = st /\ Judge(LET e == Ev IN <<
   <<"masked-jacobian", \A k \in 1..Len(e.fs) : LET F(x) == Fn(e.fs[k], x) IN
        NNear(NRow(e.J, k), IF e.mask[k] THEN NumGrad(F, N(e.x)) ELSE NFull(NLen(e.x), 1, 0), e.tol)>> >>)
MaskH == Is("maskhess") /\ st' = st /\ Judge(LET e == Ev F(x) == Fn(e.f, x) IN <<
   <<"masked-hessian", NNear(e.H, NMul(e.mask, NumHess(F, N(e.x))), e.tol)>> >>)
(* component x vec(Hessian) *)
VHess == Is("vhess") /\ st' = st /\ Judge(LET e == Ev n == NLen(e.x) IN <<
   <<"second-derivatives-of-a-vector:" \o e.nm, \A k \in 1..Len(e.fs) : LET F(x) == Fn(e.fs[k], x) IN NNear(NMat(n, n, NRow(e.H, k)), NumHess(F, N(e.x)), e.tol)>> >>)
(* finite difference weights: sum_j w_j (x_j - x0)^k = k! [k = order], k < number of points *)
Weights == Is("weights") /\ st' = st /\ Judge(LET e == Ev x == N(e.x) Pw(k) == IF k = 0 THEN NFull(NLen(x), 1, 1) ELSE NPow(NSub(x, e.x0), k)
      fact[k \in 0..20] == IF k = 0 THEN 1 ELSE k * fact[k-1]
      Ok(w, o) == \A k \in 0..(NLen(x)-1) : NNear(NDot(w, Pw(k)), IF k = o THEN fact[o] ELSE 0, NMul("1e-9", NAdd(1, NDot(NAbs(w), NAbs(Pw(k)))))) IN <<
   <<"difference-weights:" \o e.nm, NLen(e.w) = NLen(e.x) /\ Ok(e.w, e.order)>>,
   <<"all-orders-of-weights:" \o e.nm, ~e.all \/ \A o \in 0..e.order : Ok(NColumn(e.W, o + 1), o)>> >>)
UniA == Is("uni") /\ st' = st /\ Judge(LET e == Ev  X == N(e.x) IN <<
   <<"derivative-of-order:" \o e.nm, \A k \in 1..NLen(X) :
        LET F(z) == Fn(e.f, z) r == IF e.order = 1 THEN D1(F, NAt(X, k)) ELSE IF e.order = 2 THEN D2(F, NAt(X, k)) ELSE D3(F, NAt(X, k)) IN NNear(NAt(e.v, k), r, e.tol)>> >>)
(* memoised objective: st is unused, the answer depends on the point only *)
Memo == Is("memo") /\ st' = st /\ Judge(LET e == Ev F(x) == Fn(e.f, x) IN <<
   <<"memoised-value", e.q # "value" \/ NNear(e.r, F(N(e.x)), "1e-11")>>,
   <<"memoised-gradient", e.q # "grad" \/ NNear(e.r, NumGrad(F, N(e.x)), "1e-10")>>,
   <<"memoised-hessian", e.q # "hess" \/ NNear(e.r, NumHess(F, N(e.x)), "1e-7")>> >>)
(* ---- distribution functions ---- *)
Bpdf(h, k, r) == LET s == NSub(1, NMul(r, r)) IN NDiv(NExp(NNeg(NDiv(NAdd(NSub(NMul(h, h), NMul(2, NMul(r, NMul(h, k)))), NMul(k, k)), NMul(2, s)))), NMul(NMul(2, NPi), NSqrt(s)))
Region(G(_,_,_), e) == NAdd(NSub(NSub(G(NAt(e.up,1), NAt(e.up,2), e.r), G(NAt(e.up,1), NAt(e.lo,2), e.r)), G(NAt(e.lo,1), NAt(e.up,2), e.r)), G(NAt(e.lo,1), NAt(e.lo,2), e.r))
DistA == Is("dist") /\ st' = st /\ Judge(LET e == Ev z == NDiv(NSub(e.x, e.m), e.s) IN <<
   <<"normal-cdf", NNear(e.cdf, NPhi(z), "1e-14") /\ NNear(e.jit, NPhi(z), "1e-13")>>,
   <<"normal-pdf", NNear(e.pdf, NDiv(NPdf(z), e.s), "1e-14")>> >>)
BvnA == Is("bvn") /\ st' = st /\ Judge(LET e == Ev n == NLen(e.h) H(k) == NAt(e.h, k) K(k) == NAt(e.k, k) r == e.r IN <<
   <<"bivariate-cdf", NLen(e.cdf) = n /\ \A i \in 1..n : NNear(NAt(e.cdf, i), NBvn(H(i), K(i), r), e.tol)>>,
   <<"bivariate-pdf", NLen(e.pdf) = n /\ \A i \in 1..n : NNear(NAt(e.pdf, i), Bpdf(H(i), K(i), r), "1e-12")>>,
   <<"bivariate-pdf-slope-in-r", \A i \in 1..n : LET F(q) == Bpdf(H(i), K(i), q) IN NNear(NAt(e.dpdf, i), D1(F, N(r)), "1e-9")>>,
   <<"cdf-slope-in-u", \A i \in 1..n : LET F(u) == NBvn(u, K(i), r) IN NNear(NAt(e.du, i), NMul(NPdf(H(i)), NPhi(NDiv(NSub(K(i), NMul(r, H(i))), NSqrt(NSub(1, NMul(r, r)))))), "1e-11") >>,
   <<"cdf-curvature-in-u", \A i \in 1..n : LET G(u) == NMul(NPdf(u), NPhi(NDiv(NSub(K(i), NMul(r, u)), NSqrt(NSub(1, NMul(r, r)))))) IN NNear(NAt(e.du2, i), D1(G, H(i)), "1e-9")>>,
   <<"cdf-mixed-uv", \A i \in 1..n : NNear(NAt(e.duv, i), Bpdf(H(i), K(i), r), "1e-11")>>,
   <<"cdf-mixed-ur", \A i \in 1..n : LET G(u) == Bpdf(u, K(i), r) IN NNear(NAt(e.dur, i), D1(G, H(i)), "1e-9")>> >>)
ScalarBvn == Is("sbvn") /\ st' = st /\ Judge(LET e == Ev IN <<
   <<"bivariate-cdf-of-scalars:" \o e.ty, NNear(e.cdf, NBvn(e.h, e.k, e.r), "1e-10")>>,
   <<"bivariate-pdf-of-scalars:" \o e.ty, NNear(e.pdf, Bpdf(N(e.h), N(e.k), N(e.r)), "1e-12")>> >>)
RegA == Is("region") /\ st' = st /\ Judge(LET e == Ev DP(h, k, r) == LET F(q) == Bpdf(h, k, q) IN D1(F, N(r)) IN <<
   <<"rectangle-probability", NNear(e.cdf, Region(LAMBDA h, k, r : NBvn(h, k, r), e), e.tol)>>,
   <<"rectangle-probability-range", NLe("-1e-12", e.cdf) /\ NLe(e.cdf, "1.000000000001")>>,
   <<"rectangle-density", NNear(e.pdf, Region(Bpdf, e), "1e-11")>>,
   <<"rectangle-density-slope", NNear(e.dpdf, Region(DP, e), "1e-9")>> >>)
PmfA == Is("pmf") /\ st' = st /\ Judge(LET e == Ev lp == NSub(NSub(NMul(e.x, NLn(e.mu)), NLgamma(NAdd(e.x, 1))), e.mu)
      lb == NSub(NSub(NLgamma(NAdd(e.n, 1)), NLgamma(NAdd(e.x, 1))), NLgamma(NAdd(NSub(e.n, e.x), 1))) IN <<
   <<"poisson-log-mass", NNear(e.lp, lp, "1e-12") /\ NNear(e.p, NExp(lp), "1e-12")>>,
   <<"log-binomial-coefficient", NNear(e.lb, lb, "1e-12")>> >>)
ElemA == Is("elem") /\ st' = st /\ Judge(LET e == Ev x == N(e.x) IN <<
   <<"soft-threshold", NNear(e.soft, NMul(NSign(x), NMax2(NSub(NAbs(x), e.t), 0)), "1e-15")>>,
   <<"logistic", NNear(e.expit, NDiv(1, NAdd(1, NExp(NNeg(x)))), "1e-14")>>,
   <<"confidence-level-bound", NNear(e.ci, NDiv(NAdd(1, e.level), 2), "1e-14") /\ NNear(e.ci100, e.ci, "1e-14")>> >>)
HarmA == Is("harmonic") /\ st' = st /\ Judge(LET e == Ev h[k \in 0..e.n] == IF k = 0 THEN N(0) ELSE NAdd(h[k-1], NDiv(1, k)) IN <<
   <<"harmonic-number", NNear(e.ex, h[e.n], "1e-14") /\ NNear(NDiv(e.num, e.den), h[e.n], "1e-13")>>,
   <<"harmonic-asymptote", NLe(NAbs(NSub(e.asy, h[e.n])), NDiv("0.01", NPow(e.n, 4)))>> >>)
(* ---- integer allocation ---- *)
SumI(s) == LET f[k \in 0..Len(s)] == IF k = 0 THEN 0 ELSE f[k-1] + s[k] IN f[Len(s)]
RoundA == Is("round") /\ st' = st /\ Judge(LET e == Ev x == N(e.x) fr(k) == NSub(NAt(x, k), NFloor(NAt(x, k))) up(k) == NLt(NFloor(NAt(x, k)), N(e.r[k])) IN <<
   <<"rounding-preserves-the-sum", NLt(NAbs(NSub(SumI(e.r), NSum(x))), "0.501")>>,
   <<"rounding-moves-less-than-one", \A k \in 1..Len(e.r) : NLt(NAbs(NSub(e.r[k], NAt(x, k))), "1.0000001") /\ (NEq(fr(k), 0) => NEq(e.r[k], NAt(x, k)))>>,
   <<"largest-remainders-round-up", \A j, k \in 1..Len(e.r) : (up(j) /\ ~up(k)) => NLe(fr(k), fr(j))>> >>)
AllocA == Is("alloc") /\ st' = st /\ Judge(LET e == Ev m == Len(e.k) IN <<
   <<"allocation-sums-to-the-total", SumI(e.k) = e.n /\ m = NLen(e.p)>>,
   <<"allocation-nonempty", ~e.big \/ \A j \in 1..m : e.k[j] >= 1>>,
   <<"allocation-near-proportion", ~e.big \/ \A j \in 1..m : NLt(NAbs(NSub(e.k[j], NMul(e.n, NAt(e.p, j)))), "1.0000001")>>,
   <<"allocation-slices", Len(e.sl) = m /\ \A j \in 1..m : e.sl[j] = <<SumI(SubSeq(e.k, 1, j-1)), SumI(SubSeq(e.k, 1, j))>> >> >>)
SizesA == Is("sizes") /\ st' = st /\ Judge(LET e == Ev m == Len(e.s) IN <<
   <<"offsets-of-sizes", e.inds = [j \in 1..(m+1) |-> SumI(SubSeq(e.s, 1, j-1))]>>,
   <<"index-arrays-of-sizes", Len(e.arrs) = m /\ \A j \in 1..m : e.arrs[j] = [t \in 1..e.s[j] |-> e.inds[j] + t - 1]>>,
   <<"triangular-numbers", \A j \in 1..m : e.tri[j] = (e.s[j] * (e.s[j] + 1)) \div 2 /\ e.tri0[j] = (e.s[j] * (e.s[j] - 1)) \div 2>> >>)
(* set partitions of n elements as restricted growth strings, each exactly once *)
Bell(n) == <<1, 2, 5, 15, 52, 203>>[n]
PartA == Is("partitions") /\ st' = st /\ Judge(LET e == Ev S == {e.parts[k] : k \in 1..Len(e.parts)} IN <<
   <<"set-partitions", Len(e.parts) = Bell(e.n) /\ Cardinality(S) = Bell(e.n) /\ \A s \in S : Len(s) = e.n /\ s[1] = 1 /\
        \A k \in 2..e.n : s[k] >= 1 /\ \E j \in 1..(k-1) : s[k] <= s[j] + 1 >> >>)
QuantA == Is("quant") /\ st' = st /\ Judge(LET e == Ev m == NLen(e.x) so == NSort(e.x)
      q(k) == LET h == NMul(m - 1, NDiv(k, e.n)) lo == NToInt(NFloor(NAdd(h, "1e-12"))) f == NSub(h, lo) IN NAdd(NAt(so, lo + 1), NMul(f, NSub(NAt(so, IF lo + 2 > m THEN m ELSE lo + 2), NAt(so, lo + 1)))) IN <<
   <<"quantile-cut-points", NLen(e.t) = e.n - 1 /\ \A k \in 1..(e.n - 1) : NNear(NAt(e.t, k), q(k), "1e-9")>>,
   <<"quantile-categories", \A i \in 1..m : e.c[i] = Cardinality({k \in 1..(e.n - 1) : NLe(NAt(e.t, k), NAt(e.x, i))}) /\ e.c2[i] = e.c[i]>> >>)
DefA == Is("defaults") /\ st' = st /\ Judge(LET e == Ev IN <<
   <<"defaults-overridden", \A k \in DOMAIN e.def : e.out[k] = IF k \in DOMAIN e.kw THEN e.kw[k] ELSE e.def[k]>>,
   <<"extra-keywords-kept", DOMAIN e.out = (DOMAIN e.def) \cup (DOMAIN e.kw) /\ \A k \in DOMAIN e.kw : e.out[k] = e.kw[k]>> >>)
ZeroA == Is("zerocon") /\ st' = st /\ Judge(LET e == Ev m == Len(e.ix) IN <<
   <<"zero-constraint", NEq(e.v, N(Tup([k \in 1..m |-> NAt(e.x, e.ix[k] + 1)])))>>,
   <<"zero-constraint-jacobian", \A k \in 1..m : \A j \in 1..NLen(e.x) : NEq(NEl(e.J, k, j), IF j = e.ix[k] + 1 THEN 1 ELSE 0)>> >>)
(* cross-correlation at lag l >= 0: sum_i x[i+l] y[i]; of a series with itself symmetric in the lag *)
XcorrA == Is("xcorr") /\ st' = st /\ Judge(LET e == Ev n == NLen(e.x) X == N(e.x) Y == N(e.y)
      at(l) == IF l >= n THEN N(0) ELSE NDot(NPos(X, l + 1, n), NPos(Y, 1, n - l)) neg(l) == NDot(NPos(Y, l + 1, n), NPos(X, 1, n - l)) IN <<
   <<"cross-correlation:" \o e.nm, NLen(e.r) = 2 * n - 1 /\ \A l \in 0..(n-1) : NNear(NAt(e.r, n + l), NMul(at(l), NAt(e.c, l + 1)), "1e-10")>>,
   <<"cross-correlation-negative-lags:" \o e.nm, \A l \in 1..(n-1) : (~e.auto /\ e.nm # "fft") \/ NNear(NAt(e.r, n - l), NMul(IF e.auto THEN at(l) ELSE neg(l), NAt(e.c, l + 1)), "1e-10")>> >>)
Init == TInit("none")
Next == \/ GradA \/ HessA \/ JacA \/ MaskJ \/ MaskH \/ VHess \/ Weights \/ UniA \/ Memo \/ DistA \/ BvnA \/ ScalarBvn \/ RegA \/ PmfA \/ ElemA \/ HarmA
        \/ RoundA \/ AllocA \/ SizesA \/ PartA \/ QuantA \/ DefA \/ ZeroA \/ XcorrA \/ Unchanged \/ Raised \/ Finished
=============================================================================
