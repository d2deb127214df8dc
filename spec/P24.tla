-------------------------------- MODULE P24 --------------------------------
(* Skewed and heavy-tailed univariate families of pystatsm.misc: the            *)
(* sinh-arcsinh family in three parameterisations and the skew normal.          *)
(* A family is its log density; everything else is derived from it here.        *)
EXTENDS TraceBase, FiniteSetsExt, SequencesExt
L2Pi == NMul("0.5", NLn(NMul(2, NPi)))
Cosh(x) == NMul("0.5", NAdd(NExp(x), NExp(NNeg(x))))
Sinh(x) == NMul("0.5", NSub(NExp(x), NExp(NNeg(x))))
(* scores of the sinh-arcsinh family: z = (y - m) / s, q = t asinh(z) - v; sinh(q) is standard normal *)
ShashL(y, m, s, v, t) == LET z == NDiv(NSub(y, m), s) q == NSub(NMul(t, NAsinh(z)), v) r == Sinh(q) IN
   NSub(NSub(NAdd(NLn(t), NLn(Cosh(q))), NAdd(NLn(s), NMul("0.5", NLog1p(NMul(z, z))))), NAdd(NMul("0.5", NMul(r, r)), L2Pi))
SkewL(y, m, s, v) == LET z == NDiv(NSub(y, m), s) IN NSub(NAdd(NLn(2), NLn(NPhi(NMul(v, z)))), NAdd(NLn(s), NAdd(NMul("0.5", NMul(z, z)), L2Pi)))
(* parameters in the order of each parameterisation *)
Nat4(f, p) == CASE f = "sash" -> p [] f = "shash1" -> <<p[1], p[2], p[4], p[3]>> [] f = "shashr" -> <<p[1], NExp(p[2]), p[4], NExp(p[3])>> [] OTHER -> p
LogDen(f, y, p) == LET q == Nat4(f, p) IN IF f = "skew" THEN SkewL(y, q[1], q[2], q[3]) ELSE ShashL(y, q[1], q[2], q[3], q[4])
Dim(f) == IF f = "skew" THEN 3 ELSE 4
(* non-decreasing index lists of length k in lexicographic order *)
RECURSIVE Combs(_, _, _)
Combs(lo, d, k) == IF k = 0 THEN << <<>> >> ELSE IF lo > d THEN <<>> ELSE Tup([j \in 1..Len(Combs(lo, d, k - 1)) |-> <<lo>> \o Combs(lo, d, k - 1)[j]]) \o Combs(lo + 1, d, k)
Hk(k) == N(IF k = 1 THEN "1e-9" ELSE IF k = 2 THEN "1e-7" ELSE "1e-5")
RECURSIVE Der(_, _, _, _, _)
Der(f, y, p, ix, h) == IF ix = <<>> THEN LogDen(f, y, p) ELSE LET i == Head(ix) IN
   NDiv(NSub(Der(f, y, [p EXCEPT ![i] = NAdd(@, h)], Tail(ix), h), Der(f, y, [p EXCEPT ![i] = NSub(@, h)], Tail(ix), h)), NMul(2, h))
Params(e) == Tup([i \in 1..Len(e.par) |-> N(e.par[i])])
DerivA == Is("deriv") /\ st' = st /\ Judge(LET e == Ev f == e.fam y == N(e.y) p == Params(e) k == e.k D == N(e.D) C == Combs(1, Dim(f), k) IN <<
   <<"log-density:" \o f, NNear(e.l, LogDen(f, y, p), "1e-9")>>,
   <<"derivatives-of-the-log-density:" \o f \o ":" \o ToString(k), NNC(D) = Len(C) /\ NNR(D) = NLen(y) /\ \A j \in 1..Len(C) : NNear(NColumn(D, j), Der(f, y, p, C[j], Hk(k)), IF k < 4 THEN "1e-7" ELSE "1e-6")>> >>)
(* the distribution function, and its inverse, of the sinh-arcsinh family *)
Cdf(f, y, p) == LET q == Nat4(f, p) IN NPhi(Sinh(NSub(NMul(q[4], NAsinh(NDiv(NSub(y, q[1]), q[2]))), q[3])))
CdfSkew(y, p) == LET v == p[3] IN N(Tup([i \in 1..NLen(y) |-> NMul(2, NBvn(NDiv(NSub(NAt(y, i), p[1]), p[2]), 0, NNeg(NDiv(v, NSqrt(NAdd(1, NMul(v, v)))))))]))
DistA == Is("dist") /\ st' = st /\ Judge(LET e == Ev f == e.fam y == N(e.y) p == Params(e) h == N("1e-9") IN <<
   <<"density-is-exponential-of-log-density:" \o f, NNear(e.pdf, NExp(LogDen(f, y, p)), "1e-10")>>,
   <<"distribution-function:" \o f, NNear(e.cdf, Cdf(f, y, p), "1e-10")>>,
   <<"density-is-derivative-of-distribution-function:" \o f, NNear(e.pdf, NDiv(NSub(Cdf(f, NAdd(y, h), p), Cdf(f, NSub(y, h), p)), NMul(2, h)), "1e-8")>>,
   <<"quantile-inverts-distribution-function:" \o f, NNear(Cdf(f, N(e.quant), p), e.prob, "1e-10")>> >>)
(* moments by the trapezoid rule in the normal score, exact to rounding for analytic integrands *)
Grid == Tup([i \in 1..561 |-> NMul(i - 281, "0.05")])
Nodes == N(Grid)
Wts == NMul("0.05", NPdf(Nodes))
At4(f, p) == LET q == Nat4(f, p) IN NAdd(q[1], NMul(q[2], Sinh(NDiv(NAdd(NAsinh(Nodes), q[3]), q[4]))))
Ex(g) == NSum(NMul(Wts, g))
MomA == Is("moments") /\ st' = st /\ Judge(LET e == Ev f == e.fam p == Params(e) x == At4(f, p) m1 == Ex(x) c == NSub(x, m1) c2 == NMul(c, c) v == Ex(c2) x2 == NMul(x, x) IN <<
   <<"mean:" \o f, NNear(e.mean, m1, "1e-8")>>,
   <<"variance:" \o f, NNear(e.var, v, "1e-7")>>,
   <<"median:" \o f, NNear(Cdf(f, N(e.median), p), "0.5", "1e-10")>>,
   <<"raw-moments:" \o f, NClose(e.mom, N(<<m1, Ex(x2), Ex(NMul(x2, x)), Ex(NMul(x2, x2))>>), "1e-7", "1e-7")>>,
   <<"skewness:" \o f, \A i \in 1..Len(e.skew) : NNear(e.skew[i], NDiv(Ex(NMul(c2, c)), NMul(v, NSqrt(v))), "1e-6")>>,
   <<"kurtosis:" \o f, \A i \in 1..Len(e.kurt) : NNear(e.kurt[i], NDiv(Ex(NMul(c2, c2)), NMul(v, v)), "1e-6")>> >>)
SkewMomA == Is("skewmom") /\ st' = st /\ Judge(LET e == Ev p == Params(e) x == NAdd(p[1], NMul(p[2], Nodes)) w == NMul(2, NMul(Wts, NPhi(NMul(p[3], Nodes)))) E1(g) == NSum(NMul(w, g)) m1 == E1(x) c == NSub(x, m1) v == E1(NMul(c, c)) IN <<
   <<"mean:skew", NNear(e.mean, m1, "1e-9")>>, <<"variance:skew", NNear(e.var, v, "1e-9")>>,
   <<"skewness:skew", NNear(e.skew, NDiv(E1(NMul(c, NMul(c, c))), NMul(v, NSqrt(v))), "1e-7")>> >>)
(* draws: the probability transforms are uniform (Kolmogorov distance), within the range of a 1e-7 test *)
KsA == Is("draws") /\ st' = st /\ Judge(LET e == Ev x == NSort(N(e.x)) n == NLen(x) F == IF e.fam = "skew" THEN CdfSkew(x, Params(e)) ELSE Cdf(e.fam, x, Params(e)) i == N(Tup([k \in 1..n |-> k])) IN <<
   <<"draws-follow-the-law:" \o e.fam, NLe(NMax(NMax2(NAbs(NSub(F, NDiv(i, n))), NAbs(NSub(F, NDiv(NSub(i, 1), n))))), NDiv("2.85", NSqrt(n)))>>,
   <<"draws-shape", e.shape = e.want>>,
   <<"draws-reproducible", e.again>> >>)
SameA == Is("same") /\ st' = st /\ Judge(LET e == Ev IN << <<e.what, NNear(e.a, e.b, e.tol)>> >>)
EqA == Is("equal") /\ st' = st /\ Judge(LET e == Ev IN << <<e.what, e.a = e.b>> >>)
ErrA == Is("rejects") /\ st' = st /\ Judge(LET e == Ev IN << <<"invalid-argument-rejected:" \o e.what, e.err = "ValueError">> >>)
Init == TInit(<<>>)
Next == DerivA \/ DistA \/ MomA \/ SkewMomA \/ KsA \/ SameA \/ EqA \/ ErrA \/ Raised \/ Unchanged \/ Finished
Spec == Init /\ [][Next]_vars
=============================================================================
