-------------------------------- MODULE P19 --------------------------------
(* Smooths and additive models.  Spline bases are specified by what they are:  *)
(* the natural or periodic cubic interpolant of their knot values, or the       *)
(* cardinal B-spline, with the integrated squared second derivative as penalty. *)
(* Additive models are specified by the penalised likelihood they maximise, the *)
(* Laplace marginal likelihood of the smoothing parameters, and its derivatives. *)
EXTENDS TraceBase, ExpFam, Infer, FiniteSetsExt, SequencesExt
ToN(k) == Tup([i \in 1..k |-> i])
NSumSeq(s) == FoldLeft(LAMBDA a, b : NAdd(a, b), s[1], Tail(s))
Stencil(h, p1, m1, p2, m2) == NDiv(NSub(NMul(8, NSub(p1, m1)), NSub(p2, m2)), NMul(12, h))
(* ---------- bases ---------- *)
Uniq(x) == LET s == NSort(x) n == NLen(s) IN NRowsOf(s, SelectSeq(ToN(n), LAMBDA i : i = 1 \/ ~NEq(NAt(s, i), NAt(s, i - 1))))
Quant(u, k, K) == LET n == NLen(u) pos == ((k - 1) * (n - 1)) lo == (pos \div (K - 1)) + 1 fr == NDiv(pos % (K - 1), K - 1) IN
   IF lo >= n THEN NAt(u, n) ELSE NAdd(NMul(NSub(1, fr), NAt(u, lo)), NMul(fr, NAt(u, lo + 1)))
(* second derivatives at the knots of the interpolating cubic: row i of the continuity conditions *)
NC(per, kn) == IF per THEN NLen(kn) - 1 ELSE NLen(kn)
H(kn, i) == NSub(NAt(kn, i + 1), NAt(kn, i))
Nx(per, K, i) == IF i = K THEN 1 ELSE i + 1
Smooth2(per, kn, F) == LET K == NC(per, kn) inner == IF per THEN 1..K ELSE 2..(K - 1) IN
   \A i \in inner : LET hp == IF i = 1 THEN H(kn, K) ELSE H(kn, i - 1) hn == H(kn, i) pv == IF i = 1 THEN K ELSE i - 1 nx == IF per /\ i = K THEN 1 ELSE i + 1 IN
     NNear(NAdd(NAdd(NMul(NDiv(hp, 6), NRow(F, pv)), NMul(NDiv(NAdd(hp, hn), 3), NRow(F, i))), NMul(NDiv(hn, 6), NRow(F, nx))),
           NSub(NDiv(NSub(NRow(NEye(K), nx), NRow(NEye(K), i)), hn), NDiv(NSub(NRow(NEye(K), i), NRow(NEye(K), pv)), hp)), "1e-7")
Cubic(per, kn, F, x) == LET K == NC(per, kn) m == NLen(kn) - 1 I == NEye(K)
      row(v) == LET j == CHOOSE j \in 1..m : (j = 1 \/ NLt(NAt(kn, j), v)) /\ (j = m \/ NLe(v, NAt(kn, j + 1)))
                    h == H(kn, j) dp == NSub(v, NAt(kn, j)) dn == NSub(NAt(kn, j + 1), v) nx == IF per /\ j = K THEN 1 ELSE j + 1
                    c(d) == NDiv(NSub(NDiv(NPow(d, 3), h), NMul(h, d)), 6) IN
                NAdd(NAdd(NMul(NDiv(dn, h), NRow(I, j)), NMul(NDiv(dp, h), NRow(I, nx))), NAdd(NMul(c(dn), NRow(F, j)), NMul(c(dp), NRow(F, nx)))) IN
   N(Tup([i \in 1..NLen(x) |-> row(NAt(x, i))]))
(* integral of the squared second derivative, linear between consecutive knots *)
Bend(per, kn, M) == LET m == NLen(kn) - 1 K == NNR(M)
      part(j) == LET a == NRow(M, j) b == NRow(M, IF per /\ j = K THEN 1 ELSE j + 1) h == H(kn, j) IN
        NMul(NDiv(h, 6), NAdd(NAdd(NMul(2, NMM(a, NT(a))), NMul(2, NMM(b, NT(b)))), NAdd(NMM(a, NT(b)), NMM(b, NT(a))))) IN
   NSumSeq(Tup([j \in 1..m |-> part(j)]))
P3(u) == NPow(NMax2(u, NMul(0, u)), 3)
Card3(u) == NDiv(NAdd(NSub(NAdd(NSub(P3(u), NMul(4, P3(NSub(u, 1)))), NMul(6, P3(NSub(u, 2)))), NMul(4, P3(NSub(u, 3)))), P3(NSub(u, 4))), 6)
Bsp(kn, x) == LET q == NLen(kn) - 4 dx == H(kn, 1) IN NT(N(Tup([i \in 1..q |-> Card3(NDiv(NSub(x, NAt(kn, i)), dx))])))
(* second derivatives of the B-splines at the inner knots *)
Bsp2(kn) == LET q == NLen(kn) - 4 dx == H(kn, 1) r == NLen(kn) - 6 IN
   NDiv(N(Tup([k \in 1..r |-> N(Tup([i \in 1..q |-> IF i = k \/ i = k + 2 THEN N(1) ELSE IF i = k + 1 THEN N(-2) ELSE N(0)]))])), NMul(dx, dx))
InnerKnots(kn) == NPos(kn, 4, NLen(kn) - 3)
BasisA == Is("basis") /\ st' = st /\ Judge(LET e == Ev x == N(e.x) kn == N(e.knots) per == e.kind = "cc" X == N(e.X) bs == e.kind = "bs" F == N(e.F) u == Uniq(x) IN <<
   <<"knots", IF bs THEN LET r == NSub(NMax(x), NMin(x)) pad == NMul("0.001", r) a == NSub(NMin(x), pad) b == NAdd(NMax(x), pad) m == e.df - 3 dx == NDiv(NSub(b, a), m) IN
                NNear(kn, N(Tup([i \in 1..(e.df + 4) |-> NAdd(a, NMul(dx, i - 4))])), "1e-9")
              ELSE NNear(kn, N(Tup([k \in 1..e.df |-> Quant(u, k, e.df)])), "1e-9")>>,
   <<"twice-differentiable", bs \/ Smooth2(per, kn, F)>>,
   <<"natural-ends", ~(e.kind = "cr") \/ (NEq(NRow(F, 1), NFull(NLen(kn), 1, 0)) /\ NEq(NRow(F, NLen(kn)), NFull(NLen(kn), 1, 0)))>>,
   <<"basis-values", NNear(X, IF bs THEN Bsp(kn, x) ELSE Cubic(per, kn, F, x), "1e-9")>>,
   <<"constants-reproduced", NNear(NRowSum(X), NFull(NLen(x), 1, 1), "1e-9")>>,
   <<"lines-reproduced", per \/ NNear(NMM(X, IF bs THEN NPos(kn, 3, NLen(kn) - 2) ELSE kn), x, "1e-9")>>,
   <<"penalty-is-the-bending-energy", Has(e, "S") => NClose(e.S, IF bs THEN Bend(FALSE, InnerKnots(kn), Bsp2(kn)) ELSE Bend(per, kn, F), "1e-7", NMul("1e-9", NMax(NAbs(e.S))))>> >>)
BvalA == Is("bval") /\ st' = st /\ Judge(LET e == Ev x == N(e.x) kn == N(e.knots) per == e.kind = "cc" bs == e.kind = "bs" IN <<
   <<"basis-values-anywhere", NNear(e.X, IF bs THEN Bsp(kn, x) ELSE Cubic(per, kn, N(e.F), x), "1e-9")>>,
   <<"basis-constants-anywhere", NNear(NRowSum(N(e.X)), NFull(NLen(x), 1, 1), "1e-9")>> >>)
(* basis functions on their own: any degree sums to one inside, derivatives integrate values *)
BderivA == Is("bderiv") /\ st' = st /\ Judge(LET e == Ev h == N(e.h) IN <<
   <<"bspline-partition-of-unity", NNear(NRowSum(N(e.B)), NFull(NNR(N(e.B)), 1, 1), "1e-9")>>,
   <<"bspline-nonnegative", NLe(NNeg(e.B), "1e-12")>>,
   <<"bspline-derivative", NNear(e.D, NDiv(NSub(NMul(8, NSub(e.p1, e.m1)), NSub(e.p2, e.m2)), NMul(12, h)), "1e-5")>>,
   <<"differences", NNear(NMM(N(e.diff), N(e.v)), N(e.dv), "1e-9")>> >>)
Gcv(X, y, S, g, a) == LET A == NMM(X, NSolve(NAdd(NMM(NT(X), X), NMul(a, S)), NT(X))) r == NSub(y, NMM(A, y)) n == NLen(y) u == NSub(n, NMul(g, NTr(A))) IN NDiv(NMul(n, NDot(r, r)), NMul(u, u))
GcvA == Is("gcv") /\ st' = st /\ Judge(LET e == Ev X == N(e.X) y == N(e.y) S == N(e.S) G1(a) == Gcv(X, y, S, N(1), a) G2(a) == Gcv(X, y, S, N(e.g), a) a == N(e.a) IN <<
   <<"gcv", NNear(e.v, G1(a), "1e-8")>>, <<"double-gcv", NNear(e.dv, G2(a), "1e-8")>>,
   <<"gcv-gradient", NNear(e.gv, D1(G1, a), "1e-6")>>, <<"double-gcv-gradient", NNear(e.gdv, D1(G2, a), "1e-6")>> >>)
(* ---------- the design of an additive model ---------- *)
Names(e) == LET sm(k) == LET s == e.sm[k] IN [j \in 1..(s.hi - s.lo + 1) |-> s.name \o ToString(j)] IN
   FoldLeft(LAMBDA a, k : a \o sm(k), e.par, ToN(Len(e.sm)))
PEig(M) == LET d == NEig(M) IN SelectSeq(ToN(NLen(d)), LAMBDA i : NLt(NMul("1e-10", NMax(NAbs(d))), NAt(d, i)))
Block(s) == Tup([i \in 1..(s.hi - s.lo + 1) |-> s.lo + i - 1])
DesignA == Is("design") /\ st' = st /\ Judge(LET e == Ev X == N(Tr.X) ns == Len(e.sm) p == NNC(X) IN <<
   <<"terms", e.terms = Tup([k \in 1..ns |-> e.sm[k].key])>>,
   <<"coefficient-names", e.names = Names(e) \o e.tail>>,
   <<"parametric-columns", NEq(NColsOf(X, ToN(Len(e.par))), N(e.Xp)) /\ NEq(N(e.Xp), N(e.Xref))>>,
   <<"blocks-cover-the-design", \A k \in 1..ns : e.sm[k].lo = (IF k = 1 THEN Len(e.par) + 1 ELSE e.sm[k-1].hi + 1) /\ (k = ns => e.sm[k].hi = p)>>,
   <<"centred-smooths", \A k \in 1..ns : LET s == e.sm[k] q == N(s.q) Q == NColsOf(q, Tup([i \in 1..(NNC(q)-1) |-> i + 1])) B == N(s.B) Xk == NMM(B, Q) m == NMul(N(s.ind), N(1)) IN
        /\ NNear(NMM(NT(q), q), NEye(NNC(q)), "1e-9") /\ NNear(NColSum(Xk), NFull(NNC(Xk), 1, 0), "1e-8")
        /\ NNear(NColsOf(X, Block(s)), NMM(NDiag(m), Xk), "1e-9")>>,
   <<"penalty-blocks", \A k \in 1..ns : LET s == e.sm[k] q == N(s.q) Q == NColsOf(q, Tup([i \in 1..(NNC(q)-1) |-> i + 1])) S0 == N(s.S0) B == N(s.B)
                           one == NMax(NColSum(NAbs(S0))) inf == NMax(NRowSum(NAbs(B))) sc == NDiv(one, NMul(inf, inf)) Sk == N(Tr.S[k]) b == Block(s) IN
        /\ NNear(NSub2(Sk, b, b), NDiv(NMM(NT(Q), NMM(S0, Q)), sc), "1e-7") /\ NNear(NSum(NAbs(Sk)), NSum(NAbs(NSub2(Sk, b, b))), "1e-12")>>,
   <<"penalty-ranks", \A k \in 1..ns : LET S == NSub2(N(Tr.S[k]), Block(e.sm[k]), Block(e.sm[k])) IN e.ranks[k] = Len(PEig(S))>>,
   <<"penalty-log-determinants", \A k \in 1..ns : LET S == NSub2(N(Tr.S[k]), Block(e.sm[k]), Block(e.sm[k])) d == NEig(S) IN NNear(NAt(N(e.ldS), k), NSum(NLn(NRowsOf(d, PEig(S)))), "1e-5")>>,
   <<"unpenalised-dimension", NEq(N(e.mp), NSub(p, NSum(N(e.ranks))))>>,
   <<"starting-penalties", Has(e, "theta") => \A k \in 1..ns : LET b == Block(e.sm[k]) a == NDg(NSub2(N(Tr.S[k]), b, b)) Xb == NColsOf(X, b) d == NColSum(NMul(Xb, Xb)) IN
        NNear(NAt(N(e.theta), k), NLn(NMul("1.5", NMean(NDiv(d, a)))), "1e-7")>> >>)
(* penalties turned into ridge penalties by a change of coordinates *)
DiagA == Is("diagonal") /\ st' = st /\ Judge(LET e == Ev T == N(e.T) p == NNR(T) IN <<
   <<"transform-inverse", NNear(NMM(T, N(e.Ti)), NEye(p), "1e-6")>>,
   <<"penalties-become-ridges", \A k \in 1..Len(Tr.S) : NNear(NMM(NT(T), NMM(N(Tr.S[k]), T)), NDiag(N(Tup([i \in 1..p |-> IF i \in ToSet(e.pen[k]) THEN N(1) ELSE N(0)]))), "1e-5")>>,
   <<"penalised-positions", e.ixp = FoldLeft(LAMBDA a, b : a \o b, <<>>, e.pen) /\ ToSet(e.ixf) = (1..p) \ ToSet(e.ixp)
        /\ e.ixl = FoldLeft(LAMBDA a, k : a \o [i \in 1..Len(e.pen[k]) |-> k], <<>>, ToN(Len(e.pen)))>> >>)
(* ---------- generalised additive models ---------- *)
Y == N(Tr.y)
XX == N(Tr.X)
NS == Len(Tr.S)
SLam(lam) == FoldLeft(LAMBDA a, k : NAdd(a, NMul(NAt(lam, k), N(Tr.S[k]))), NMul(NAt(lam, 1), N(Tr.S[1])), Tup([i \in 1..(NS-1) |-> i + 1]))
Cz(z) == Core(Tr.fam, Y, InvLink(Tr.link, 0, z), 1, 1, 0)
ScZ(z) == NNeg(D1(Cz, z))
WZ(z) == D2(Cz, z)
Hd(b) == NMM(NT(XX), NMM(NDiag(WZ(NMM(XX, b))), XX))
DevB(b) == NSum(Deviance(Tr.fam, Y, InvLink(Tr.link, 0, NMM(XX, b)), 1, 1, 0))
LdS == NSum(N(Tup([k \in 1..NS |-> LET d == NEig(N(Tr.S[k])) IN NSum(NLn(NRowsOf(d, PEig(N(Tr.S[k])))))])))
RkS == N(Tup([k \in 1..NS |-> N(Len(PEig(N(Tr.S[k]))))]))
Stationary(b, lam, tol) == NLe(NAbs(NSub(NMM(NT(XX), ScZ(NMM(XX, b))), NMM(SLam(lam), b))), tol)
Reml(b, lam, phi) == LET S == SLam(lam) Sat == NSum(Nll(Tr.fam, Y, Y, 1, phi, 0)) IN
   NAdd(NDiv(NAdd(NDiv(NAdd(DevB(b), NDot(b, NMM(S, b))), phi), NSub(NLogDet(NDiv(NAdd(Hd(b), S), phi)), NAdd(NSum(NMul(RkS, NLn(NDiv(lam, phi)))), LdS))), 2), Sat)
PirlsA == Is("pirls") /\ st' = st /\ Judge(LET e == Ev b == N(e.beta) lam == N(e.lam) eta == NMM(XX, b) IN <<
   <<"penalised-fit-stationary", Stationary(b, lam, e.tol)>>,
   <<"penalty-matrix", NNear(e.S, SLam(lam), "1e-9")>>,
   <<"fitted-values", NNear(e.eta, eta, "1e-8") /\ (Has(e, "mu") => NNear(e.mu, InvLink(Tr.link, 0, eta), "1e-8"))>>,
   <<"penalised-deviance", NNear(e.dev, NAdd(DevB(b), IF e.pen THEN NDot(b, NMM(SLam(lam), b)) ELSE N(0)), "1e-8")>> >>)
BetaA == Is("beta") /\ st' = st /\ Judge(LET e == Ev b == N(e.beta) lam == N(e.lam) eta == NMM(XX, b) S == SLam(lam) IN <<
   <<"penalised-score", Has(e, "g") => NNear(e.g, NSub(NMM(S, b), NMM(NT(XX), ScZ(eta))), "1e-6")>>,
   <<"hessian-in-beta", (Has(e, "D2") => NNear(e.D2, NMul(e.c, Hd(b)), "1e-6")) /\ NNear(e.Dp2, NMul(e.c, NAdd(Hd(b), S)), "1e-6")>>,
   <<"working-weights", NNear(e.w, WZ(eta), "1e-6")>>,
   <<"working-response", NNear(e.z, NAdd(eta, NDiv(ScZ(eta), WZ(eta))), "1e-6")>> >>)
(* derivatives of the penalised fit in the log smoothing parameters *)
RhoA == Is("rho") /\ st' = st /\ Judge(LET e == Ev b == N(e.beta) lam == N(e.lam) b1 == N(e.b1) h == N(e.h) k == Len(e.b1s)
      A == NAdd(IF Tr.model = "gauls" THEN N(e.H) ELSE Hd(b), SLam(lam))
      dB(j) == Stencil(h, N(e.b1s[j][1]), N(e.b1s[j][2]), N(e.b1s[j][3]), N(e.b1s[j][4])) IN <<
   <<"first-derivative-of-the-fit", NNear(NMM(A, b1), NT(N(Tup([i \in 1..NS |-> NNeg(NMul(NAt(lam, i), NMM(N(Tr.S[i]), b)))]))), "1e-6")>>,
   <<"second-derivative-of-the-fit", Has(e, "b2") => \A i, j \in 1..k : NNear(e.b2[i][j], NColumn(dB(j), i), e.tol)>>,
   <<"third-derivative-of-the-fit", Has(e, "b3") => \A i, j, l \in 1..NS : NNear(e.b3[i][j][l], Stencil(h, N(e.b2s[l][1][i][j]), N(e.b2s[l][2][i][j]), N(e.b2s[l][3][i][j]), N(e.b2s[l][4][i][j])), NMul(20, e.tol))>> >>)
CritA == Is("criterion") /\ st' = st /\ Judge(LET e == Ev lam == NExp(NPos(N(e.theta), 1, NS)) phi == NExp(NAt(N(e.theta), NS + 1)) h == N(e.h) m == NS + 1 IN <<
   <<"marginal-likelihood", NNear(e.v, Reml(N(e.beta), lam, phi), "1e-5")>>,
   <<"marginal-likelihood-gradient", NNear(e.g, N(Tup([j \in 1..m |-> Stencil(h, N(e.vs[j][1]), N(e.vs[j][2]), N(e.vs[j][3]), N(e.vs[j][4]))])), e.tol)>>,
   <<"marginal-likelihood-hessian", NNear(e.H, N(Tup([j \in 1..m |-> Stencil(h, N(e.gs[j][1]), N(e.gs[j][2]), N(e.gs[j][3]), N(e.gs[j][4]))])), e.tol)>>,
   <<"penalty-determinant", Has(e, "lds") => NNear(e.lds, NAdd(NSum(NMul(RkS, NLn(NDiv(lam, phi)))), LdS), "1e-5")>> >>)
(* covariances, effective degrees of freedom and tables of a fitted model *)
Ceil05(d) == LET f == NFloor(d) IN IF NLt(NSub(d, f), "0.05") THEN f ELSE IF NEq(d, f) THEN f ELSE NAdd(f, 1)
FitRest(e, Hb, phi, th) == LET b == N(e.beta) lam == NExp(NPos(th, 1, NS)) S == SLam(lam) Vb == N(e.Vb) F == NMM(NInv(NAdd(Hb, S)), Hb)
      J == NNeg(NSolve(NAdd(Hb, S), NT(N(Tup([i \in 1..NS |-> NMul(NAt(lam, i), NMM(N(Tr.S[i]), b))]))))) Vp == N(e.Vp) r == ToN(NS) C == NMM(J, NMM(NSub2(Vp, r, r), NT(J))) IN <<
   <<"optimum", e.ok => NLe(NAbs(N(e.grad)), "1e-4")>>,
   <<"bayesian-covariance", NClose(Vb, NMul(phi, NInv(NAdd(Hb, S))), "1e-5", NMul("1e-7", NMax(NAbs(Vb))))>>,
   <<"smoothing-parameter-covariance", NNear(NMM(Vp, N(e.H)), NEye(NNR(Vp)), "1e-5")>>,
   <<"corrected-covariance", NClose(e.Vc, NAdd(Vb, C), "1e-5", NMul("1e-7", NMax(NAbs(Vb))))>>,
   <<"sampling-covariance", NClose(e.Vf, NAdd(NMM(Vb, NMM(NDiv(Hb, phi), Vb)), C), "1e-5", NMul("1e-7", NMax(NAbs(Vb))))>>,
   <<"effective-df", NNear(e.edf, NTr(F), "1e-6")>>,
   <<"coefficient-table", NLe(NMul(NDg(Vp), 0), NDg(Vp)) => LET t == NVcat(b, th) s == NSqrt(NVcat(NDg(N(e.Vc)), NDg(Vp))) nu == NSub(NLen(Y), N(e.edf)) c == N(e.res) IN
        /\ NNear(NColumn(c, 1), t, "1e-9") /\ NClose(NColumn(c, 4), s, "1e-6", "1e-10") /\ NClose(NColumn(c, 5), NDiv(t, s), "1e-6", "1e-9")
        /\ PClose(NColumn(c, 6), T2(NColumn(c, 5), nu))
        /\ NNear(NPhi(NDiv(NSub(NColumn(c, 3), t), s)), NFull(NLen(t), 1, NSub(1, NDiv(NSub(100, e.level), 200))), "1e-7") /\ NNear(NAdd(NColumn(c, 2), NColumn(c, 3)), NMul(2, t), "1e-7")>>,
   <<"smooth-table", Has(e, "sm") => \A k \in 1..Len(e.sm) : LET s == e.sm[k] ix == Block(s) Xk == NColsOf(XX, ix) V == NSub2(Vb, ix, ix) bk == NRowsOf(b, ix) ed == NSum(NRowsOf(NDg(F), ix)) IN
        /\ NNear(s.edf, ed, "1e-6") /\ NEq(N(s.rdf), Ceil05(N(s.edf)))
        /\ NClose(s.chisq, NDot(bk, NSolve(V, bk)), "1e-4", "1e-6") /\ (NLt(0, s.rdf) => PClose(s.p, ChiSf(N(s.chisq), N(s.rdf))))>> >>
FitA == Is("fit") /\ st' = st /\ Judge(LET e == Ev b == N(e.beta) th == N(e.theta) eta == NMM(XX, b) phi == NExp(NAt(th, NS + 1)) mu == InvLink(Tr.link, 0, eta) IN
   FitRest(e, Hd(b), phi, th) \o <<
   <<"fit-stationary", Stationary(b, NExp(NPos(th, 1, NS)), e.tol)>>,
   <<"scale", NNear(e.scale, phi, "1e-9")>>,
   <<"fit-statistics", Has(e, "stats") => LET d1 == DevB(b) d0 == NSum(Deviance(Tr.fam, Y, NFull(NLen(Y), 1, NMean(Y)), 1, 1, 0)) r == NSub(Y, mu) c == NSub(Y, NMean(Y))
            ll == NSum(Nll(Tr.fam, Y, mu, 1, NDiv(d1, NLen(Y)), 0)) IN
        NNear(e.stats, N(Tup(<<NDiv(NSub(d0, d1), d0), NSub(1, NDiv(NDot(r, r), NDot(c, c))), ll, NAdd(NAdd(NMul(2, ll), 2), NMul(2, e.edf)), N(e.edf)>>)), "1e-6")>> >>)
(* a fitted smooth evaluated anywhere *)
CompA == Is("component") /\ st' = st /\ Judge(LET e == Ev x == NColumn(N(e.f), 1) kn == N(e.knots) q == N(e.q) Q == NColsOf(q, Tup([i \in 1..(NNC(q)-1) |-> i + 1]))
      B == IF e.kind = "bs" THEN Bsp(kn, x) ELSE Cubic(e.kind = "cc", kn, N(e.F), x) D == NMM(B, Q) V == N(e.V) b == N(e.b)
      in == SelectSeq(ToN(NLen(x)), LAMBDA i : e.kind # "bs" \/ (NLe(NAt(kn, 4), NAt(x, i)) /\ NLt(NAt(x, i), NAt(kn, NLen(kn) - 3)))) Din == NRowsOf(D, in) IN <<
   <<"evaluation-points", IF e.kind = "bs" /\ ~Has(e, "pts") THEN NLen(x) = 200 ELSE IF Has(e, "pts") THEN NNear(x, e.pts, "1e-12") ELSE NLen(x) = 200 /\ NNear(x, N(Tup([i \in 1..200 |-> NAdd(NAt(kn, 1), NMul(NDiv(i - 1, 199), NSub(NAt(kn, NLen(kn)), NAt(kn, 1))))])), "1e-9")>>,
   <<"component-values", NNear(NRowsOf(NColumn(N(e.f), 2), in), NMM(Din, b), "1e-8")>>,
   <<"component-band", LET z == NRowsOf(NColumn(N(e.f), 3), in) s == NSqrt(NRowSum(NMul(NMM(Din, V), Din))) IN NClose(NPhi(NDiv(z, s)), NFull(Len(in), 1, NSub(1, NDiv(NSub(100, e.level), 200))), "1e-6", "0")>> >>)
(* ---------- Gaussian location and scale ---------- *)
IL(l, z) == IF l = "logb" THEN NDiv(1, NAdd(NExp(z), Tr.b)) ELSE InvLink(l, 0, z)
Xm == NColsOf(XX, ToN(Tr.pm))
Xs == NColsOf(XX, Tup([i \in 1..(NNC(XX) - Tr.pm) |-> Tr.pm + i]))
Em(b) == NMM(Xm, NPos(b, 1, Tr.pm))
Es(b) == NMM(Xs, NPos(b, Tr.pm + 1, NLen(b)))
Gl(zm, zs) == LET m == IL(Tr.mlink, zm) t == IL(Tr.slink, zs) r == NSub(Y, m) IN
   NMul(N(Tr.w), NSub(NAdd(NDiv(NMul(NMul(r, r), NMul(t, t)), 2), NDiv(NLn(NMul(2, NPi)), 2)), NLn(t)))
Q6 == N("1e-6")
E1(F(_), z) == NDiv(NSub(F(NAdd(z, Q6)), F(NSub(z, Q6))), NMul(2, Q6))
E2(F(_), z) == D2(F, z)
(* mixed derivative of order (a, c) of the negative log-likelihood of each row *)
RECURSIVE Ds(_, _, _)
Ds(c, zm, zs) == LET F(z) == Gl(zm, z) G(z) == Ds(c - 2, zm, z) IN IF c = 0 THEN Gl(zm, zs) ELSE IF c = 1 THEN E1(F, zs) ELSE IF c = 2 THEN E2(F, zs) ELSE E2(G, zs)
Dms(a, c, zm, zs) == LET F(z) == Ds(c, z, zs) F2(z) == E2(F, z) IN IF a = 0 THEN Ds(c, zm, zs) ELSE IF a = 1 THEN E1(F, zm) ELSE IF a = 2 THEN E2(F, zm) ELSE IF a = 3 THEN E1(F2, zm) ELSE E2(F2, zm)
GH(b) == LET zm == Em(b) zs == Es(b) hmm == NMM(NT(Xm), NMM(NDiag(Dms(2, 0, zm, zs)), Xm)) hms == NMM(NT(Xm), NMM(NDiag(Dms(1, 1, zm, zs)), Xs)) hss == NMM(NT(Xs), NMM(NDiag(Dms(0, 2, zm, zs)), Xs)) IN
   NVcat(NHcat(hmm, hms), NHcat(NT(hms), hss))
GG(b) == NVcat(NMM(NT(Xm), Dms(1, 0, Em(b), Es(b))), NMM(NT(Xs), Dms(0, 1, Em(b), Es(b))))
GNll(b) == NSum(Gl(Em(b), Es(b)))
DerA == Is("gderiv") /\ st' = st /\ Judge(LET e == Ev b == N(e.beta) zm == Em(b) zs == Es(b) S == SLam(N(e.lam)) L(a, c) == NNeg(Dms(a, c, zm, zs)) pl == NDiv(NDot(b, NMM(S, b)), 2) IN <<
   <<"likelihood", NNear(e.ll, GNll(b), "1e-9") /\ NNear(e.pll, NAdd(GNll(b), pl), "1e-9")>>,
   <<"likelihood-gradient", NNear(e.g, GG(b), "1e-6") /\ NNear(e.pg, NAdd(GG(b), NMM(S, b)), "1e-6")>>,
   <<"likelihood-hessian", NNear(e.H, GH(b), "1e-6") /\ NNear(e.pH, NAdd(GH(b), S), "1e-6")>>,
   <<"predictor-derivatives-1", NNear(e.L1, NT(N(Tup(<<L(1,0), L(0,1)>>))), "1e-6")>>,
   <<"predictor-derivatives-2", NNear(e.L2, NT(N(Tup(<<L(2,0), L(1,1), L(0,2)>>))), "1e-6")>>,
   <<"predictor-derivatives-3", NNear(e.L3, NT(N(Tup(<<L(3,0), L(2,1), L(1,2), L(0,3)>>))), "1e-5")>>,
   <<"predictor-derivatives-4", NNear(e.L4, NT(N(Tup(<<L(4,0), L(3,1), L(2,2), L(1,3), L(0,4)>>))), "1e-4")>> >>)
DHessA == Is("dhess") /\ st' = st /\ Judge(LET e == Ev b == N(e.beta) b1 == N(e.b1) h == N("1e-5") k == Len(e.dH) hh == N(e.h) IN <<
   <<"hessian-derivative", \A i \in 1..k : NNear(e.dH[i], NDiv(NSub(GH(NAdd(b, NMul(h, NColumn(b1, i)))), GH(NSub(b, NMul(h, NColumn(b1, i))))), NMul(2, h)), "1e-4")>>,
   <<"hessian-second-derivative", \A i, j \in 1..k : NNear(e.d2H[i][j], Stencil(hh, N(e.dHs[j][1][i]), N(e.dHs[j][2][i]), N(e.dHs[j][3][i]), N(e.dHs[j][4][i])), e.tol)>> >>)
GCritA == Is("gcriterion") /\ st' = st /\ Judge(LET e == Ev lam == NExp(N(e.rho)) b == N(e.beta) S == SLam(lam) h == N(e.h) Hm == GH(b) mp == NSub(NNC(XX), NSum(RkS)) IN <<
   <<"penalised-fit-stationary", NLe(NAbs(NAdd(GG(b), NMM(S, b))), "1e-5")>>,
   <<"penalty-matrix", NNear(e.S, S, "1e-9")>>,
   <<"penalty-determinant", NNear(e.lds, NAdd(NSum(NMul(RkS, N(e.rho))), LdS), "1e-5")>>,
   <<"marginal-likelihood", NNear(e.v, NAdd(NAdd(GNll(b), NDiv(NDot(b, NMM(S, b)), 2)), NDiv(NSub(NSub(NLogDet(NAdd(Hm, S)), NAdd(NSum(NMul(RkS, N(e.rho))), LdS)), NMul(mp, NLn(NMul(2, NPi)))), 2)), "1e-5")>>,
   <<"marginal-likelihood-gradient", NNear(e.g, N(Tup([j \in 1..NS |-> Stencil(h, N(e.vs[j][1]), N(e.vs[j][2]), N(e.vs[j][3]), N(e.vs[j][4]))])), e.tol)>>,
   <<"marginal-likelihood-hessian", NNear(e.Hr, N(Tup([j \in 1..NS |-> Stencil(h, N(e.gs[j][1]), N(e.gs[j][2]), N(e.gs[j][3]), N(e.gs[j][4]))])), e.tol)>>,
   <<"evaluations-agree", NNear(e.all[1], e.v, "1e-9") /\ NNear(e.all[2], e.g, "1e-7") /\ NNear(e.all[3], e.Hr, "1e-7")>> >>)
GFitA == Is("gfit") /\ st' = st /\ Judge(LET e == Ev b == N(e.beta) th == N(e.theta) Hb == GH(b) m == IL(Tr.mlink, Em(b)) t == IL(Tr.slink, Es(b)) r == NSub(Y, m) c == NSub(Y, NMean(Y)) IN
   FitRest(e, Hb, N(1), th) \o <<
   <<"fit-stationary", NLe(NAbs(NAdd(GG(b), NMM(SLam(NExp(th)), b))), "1e-5")>>,
   <<"fitted-location-and-scale", NNear(e.mu, m, "1e-8") /\ NNear(e.tau, t, "1e-8") /\ NNear(e.resid, r, "1e-8") /\ NNear(e.pearson, NMul(r, t), "1e-8")>>,
   <<"fit-statistics", LET rp == NMul(r, t) cp == NMul(c, t) d1 == NDot(rp, rp) d0 == NDot(cp, cp) IN
        NNear(e.stats, N(Tup(<<NDiv(NSub(d0, d1), d0), NSub(1, NDiv(NDot(r, r), NDot(c, c))), GNll(b), NAdd(NAdd(NMul(2, GNll(b)), 2), NMul(2, e.edf)), N(e.reml), N(e.edf)>>)), "1e-6")>> >>)
GCompA == Is("gcomponent") /\ st' = st /\ Judge(LET e == Ev x == N(e.x)
      f(s) == IF s.has THEN LET q == N(s.q) Q == NColsOf(q, Tup([i \in 1..(NNC(q)-1) |-> i + 1])) B == IF s.kind = "bs" THEN Bsp(N(s.knots), x) ELSE Cubic(s.kind = "cc", N(s.knots), N(s.F), x) IN NMM(B, NMM(Q, N(s.b))) ELSE NFull(NLen(x), 1, 0) IN <<
   <<"component-location", NNear(e.mu, IL(Tr.mlink, NAdd(N(e.bm), f(e.m))), "1e-8")>>,
   <<"component-spread", NNear(e.sd, NDiv(1, IL(Tr.slink, NAdd(N(e.bs), f(e.s)))), "1e-8")>> >>)
WtsA == Is("weights") /\ st' = st /\ Judge(LET e == Ev w == N(e.given) IN <<
   <<"weights", NNear(e.used, IF e.norm THEN NDiv(NMul(w, NLen(w)), NSum(w)) ELSE w, "1e-12")>> >>)
(* the reciprocal-log link with a lower bound *)
LogbA == Is("logb") /\ st' = st /\ Judge(LET e == Ev mu == N(e.mu) LL(z) == NLn(NSub(NDiv(1, z), e.b)) IV(z) == NDiv(1, NAdd(NExp(z), e.b)) eta == LL(mu) LL2(z) == D2(LL, z) IN <<
   <<"link", NNear(e.eta, eta, "1e-9") /\ NNear(e.inv, mu, "1e-9")>>,
   <<"link-derivatives", NNear(e.d1, D1(IV, eta), "1e-6") /\ NNear(e.d2, LL2(mu), "1e-6") /\ NNear(e.d3, E1(LL2, mu), "1e-5") /\ NNear(e.d4, D2(LL2, mu), "1e-4")>> >>)
SameA == Is("same") /\ st' = st /\ Judge(LET e == Ev IN << <<e.what, NNear(e.a, e.b, e.tol)>> >>)
RejA == Is("reject") /\ st' = st /\ Judge(LET e == Ev IN << <<"invalid-weights-rejected:" \o e.what, e.err = "ValueError">> >>)
NamesA == Is("names") /\ st' = st /\ Judge(LET e == Ev IN << <<"names", e.a = e.b>> >>)
Init == TInit(<<>>)
Next == BasisA \/ BvalA \/ NamesA \/ BderivA \/ GcvA \/ DesignA \/ DiagA \/ PirlsA \/ BetaA \/ RhoA \/ CritA \/ FitA \/ CompA \/ DerA \/ DHessA \/ GCritA \/ GFitA \/ GCompA \/ WtsA \/ LogbA \/ SameA \/ RejA
        \/ Raised \/ Unchanged \/ Finished
Spec == Init /\ [][Next]_vars
=============================================================================
