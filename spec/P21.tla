-------------------------------- MODULE P21 --------------------------------
(* Robust estimation.  A robust estimate is defined by the equations it solves *)
(* (M-estimates, scale equations) or by an order statistic of the sample; the   *)
(* state of an iteration is (coefficients, scale) and a run ends at a point that *)
(* one more step leaves alone.                                                  *)
EXTENDS TraceBase, Infer, FiniteSetsExt, SequencesExt
Ones(n) == NFull(n, 1, 1)
Out(a, b) == NMM(a, NT(b))
(* ---- the two families: rho, psi, psi', weights at |x| <= c and beyond *)
In(x, c) == NGeI(NFull(NLen(x), 1, c), NAbs(x))
Bi(x, c) == NSub(1, NMul(NDiv(x, c), NDiv(x, c)))
Rho(f, c, x) == IF f = "Huber" THEN NIf(In(x, c), NDiv(NMul(x, x), 2), NMul(c, NSub(NAbs(x), NDiv(c, 2))))
                ELSE NIf(In(x, c), NSub(1, NMul(Bi(x, c), NMul(Bi(x, c), Bi(x, c)))), NFull(NLen(x), 1, 1))
Psi(f, c, x) == IF f = "Huber" THEN NIf(In(x, c), x, NMul(c, NSign(x))) ELSE NIf(In(x, c), NMul(x, NMul(Bi(x, c), Bi(x, c))), NMul(0, x))
Phi1(f, c, x) == IF f = "Huber" THEN In(x, c) ELSE NIf(In(x, c), NSub(NMul(5, NMul(Bi(x, c), Bi(x, c))), NMul(4, Bi(x, c))), NMul(0, x))
Wt(f, c, x) == IF f = "Huber" THEN NMin2(NFull(NLen(x), 1, 1), NDiv(c, NMax2(NAbs(x), NFull(NLen(x), 1, c)))) ELSE NIf(In(x, c), NMul(Bi(x, c), Bi(x, c)), NMul(0, x))
Norm(f, c) == IF f = "Huber" THEN N(1) ELSE NDiv(NMul(c, c), 6)
FunA == Is("fun") /\ st' = st /\ Judge(LET e == Ev x == N(e.x) f == e.f c == N(e.c) R(z) == Rho(f, c, z) P(z) == Psi(f, c, z) IN <<
   <<"rho", NNear(e.rho, R(x), "1e-12")>>,
   <<"psi", NNear(e.psi, P(x), "1e-12")>>,
   <<"phi", NNear(e.phi, Phi1(f, c, x), "1e-12")>>,
   <<"weights", NNear(e.wt, Wt(f, c, x), "1e-12")>>,
   <<"weights-are-psi-over-x", NNear(NMul(e.wt, x), P(x), "1e-12")>>,
   <<"psi-is-the-slope-of-rho", NNear(NMul(NDiv(e.psi, Norm(f, c)), 1), D1(R, x), "1e-9")>>,
   <<"phi-is-the-slope-of-psi", NNear(e.phi, D1(P, x), "1e-9")>>,
   <<"chi", NNear(e.chi[1], R(x), "1e-12") /\ NNear(e.chi[2], NDiv(P(x), Norm(f, c)), "1e-12") /\ NNear(e.chi[3], NDiv(Phi1(f, c, x), Norm(f, c)), "1e-12")>>,
   <<"rho-even-and-nondecreasing", NNear(e.rhom, e.rho, "1e-14") /\ NLe(e.rho, NAdd(e.rho2, "1e-12"))>> >>)
(* expectations under the standard normal, by Simpson's rule on [0,c] and [c,14] *)
Simpson(F(_), a, b, m) == LET h == NDiv(NSub(b, a), 2 * m) x == N(Tup([k \in 1..(2*m+1) |-> NAdd(a, NMul(k - 1, h))]))
      w == N(Tup([k \in 1..(2*m+1) |-> IF k = 1 \/ k = 2*m+1 THEN 1 ELSE IF k % 2 = 0 THEN 4 ELSE 2])) IN NDiv(NMul(h, NSum(NMul(w, F(x)))), 3)
(* just inside / outside the corner so that each piece is smooth *)
EvenEv(F(_), c) == LET G(x) == NMul(F(x), NPdf(x)) c1 == NSub(c, "1e-12") c2 == NAdd(c, "1e-12") IN NMul(2, NAdd(Simpson(G, N(0), c1, 300), Simpson(G, c2, N(14), 400)))
ExpA == Is("exp") /\ st' = st /\ Judge(LET e == Ev f == e.f c == N(e.c) R(z) == Rho(f, c, z) Q(z) == NMul(Psi(f, c, z), Psi(f, c, z)) P(z) == Phi1(f, c, z) IN <<
   <<"expected-rho", NNear(e.rho, EvenEv(R, c), "1e-7")>>,
   <<"expected-psi", NNear(e.psi, 0, "1e-7")>>,
   <<"expected-psi-squared", NNear(e.psi2, EvenEv(Q, c), "1e-7")>>,
   <<"expected-phi", NNear(e.phi, EvenEv(P, c), "1e-7")>> >>)
(* ---- scale estimators from their definitions *)
Med(x) == LET s == NSort(x) n == NLen(x) IN NDiv(NAdd(NAt(s, (n + 1) \div 2), NAt(s, n \div 2 + 1)), 2)
LoMed(x) == NAt(NSort(x), (NLen(x) + 1) \div 2)
HiMed(x) == NAt(NSort(x), NLen(x) \div 2 + 1)
AbsD(x) == NAbs(NSub(Out(x, Ones(NLen(x))), Out(Ones(NLen(x)), x)))
RowsOf(D, M(_)) == N(Tup([i \in 1..NNR(D) |-> M(NRow(D, i))]))
Cn(n) == IF n <= 9 THEN N(<<"0.743", "1.851", "0.954", "1.351", "0.993", "1.198", "1.005", "1.131">>[n - 1]) ELSE IF n % 2 = 1 THEN NDiv(n, NSub(n, "0.9")) ELSE N(1)
Mad(x) == NDiv(Med(NAbs(NSub(x, Med(x)))), NProbit(N("0.75")))
DispA == Is("disp") /\ st' = st /\ Judge(LET e == Ev x == N(e.x) n == NLen(x) D == AbsD(x) h == n \div 2 + 1 k == (h * (h - 1)) \div 2
      up == NSort(NVech(D)) \* the n zero distances of the diagonal come first
      gm == NDiv(NSum(D), n * (n - 1)) a == RowsOf(D, HiMed) s == NMul(LoMed(a), "1.1926") snm == Med(RowsOf(D, Med)) q == NAt(up, n + k) rt == NSqrt(N("3.14159265358979323846264338327950288")) IN <<
   <<"mean-difference", \A j \in 1..Len(e.gmd) : NNear(e.gmd[j][1], NDiv(NMul(gm, rt), 2), "1e-12") /\ NNear(e.gmd[j][2], gm, "1e-12")>>,
   <<"median-of-median-distances", \A j \in 1..Len(e.snm) : NNear(e.snm[j][1], NMul(snm, "1.1926"), "1e-12") /\ NNear(e.snm[j][2], snm, "1e-12")>>,
   <<"Qn-order-statistic", \A j \in 1..Len(e.qn) : NNear(e.qn[j][1], NDiv(q, NMul(NSqrt(N(2)), NProbit(N("0.625")))), "1e-12") /\ NNear(e.qn[j][2], q, "1e-12")>>,
   <<"Sn", \A j \in 1..Len(e.sn) : NNear(e.sn[j][1], NMul(s, Cn(n)), "1e-12") /\ NNear(e.sn[j][2], s, "1e-12")>>,
   <<"Sn-high-medians", \A j \in 1..Len(e.sna) : NNear(NSort(e.sna[j]), NSort(a), "1e-12")>>,
   <<"mad", NNear(e.mad[1], Mad(x), "1e-12") /\ NNear(e.mad[2], Med(NAbs(NSub(x, Med(x)))), "1e-12")>>,
   <<"medians", Has(e, "med") => NEq(e.med[1], LoMed(x)) /\ NEq(e.med[2], HiMed(x)) /\ NEq(e.med[3], LoMed(x)) /\ NEq(e.med[4], HiMed(x))>> >>)
(* scale estimators commute with x -> a + b x *)
EquivA == Is("equiv") /\ st' = st /\ Judge(LET e == Ev IN <<
   <<"scale-equivariance", \A j \in 1..Len(e.v) : NNear(e.v[j][2], NMul(NAbs(e.b), e.v[j][1]), "1e-10")>> >>)
MadAxA == Is("madaxis") /\ st' = st /\ Judge(LET e == Ev X == N(e.X) IN <<
   <<"mad-by-row", NNear(e.rows, RowsOf(X, Mad), "1e-12")>>,
   <<"mad-by-column", NNear(e.cols, RowsOf(NT(X), Mad), "1e-12")>>,
   <<"mean-difference-by-column", NNear(e.gmd, N(Tup([j \in 1..NNC(X) |-> LET D == AbsD(NColumn(X, j)) n == NNR(X) IN NDiv(NSum(D), n * (n - 1))])), "1e-12")>>,
   <<"medians-by-axis", NNear(e.lo, RowsOf(X, LoMed), "1e-14") /\ NNear(e.hi, RowsOf(NT(X), HiMed), "1e-14")>> >>)
(* ---- location and scale together *)
SimulA == Is("simul") /\ st' = st /\ Judge(LET e == Ev x == N(e.x) f == e.f c == N(e.c) r == NDiv(NSub(x, e.mu), e.sd) IN <<
   <<"location-equation", NLe(NAbs(NMean(Psi(f, c, r))), e.tol)>>,
   <<"scale-equation", NNear(NMean(Rho(f, c, r)), e.d, e.tol)>>,
   <<"criterion", NNear(e.v, NSum(Rho(f, c, r)), "1e-9")>> >>)
(* one step, or the limit, of the scale iteration *)
MScA == Is("mscale") /\ st' = st /\ Judge(LET e == Ev r == N(e.r) f == e.f c == N(e.c) s0 == IF Has(e, "s0") THEN N(e.s0) ELSE Mad(r) IN <<
   <<"one-scale-step", NNear(e.one, NMul(s0, NSqrt(NDiv(NMean(Rho(f, c, NDiv(r, s0))), e.bd))), "1e-10")>>,
   <<"scale-equation", NNear(NMean(Rho(f, c, NDiv(r, e.lim))), e.bd, "1e-8")>> >>)
(* ---- regression *)
Res(X, y, b) == NSub(y, NMM(X, b))
Wls(X, y, w) == NSolve(NMM(NT(X), NMM(NDiag(w), X)), NMM(NT(X), NMul(w, y)))
StepA == Is("step") /\ st' = st /\ Judge(LET e == Ev X == N(Tr.X) y == N(Tr.y) f == e.f c == N(e.c) r == Res(X, y, N(e.b0)) s0 == IF Has(e, "s0") THEN N(e.s0) ELSE Mad(r)
      s == NMul(s0, NSqrt(NDiv(NMean(Rho(f, c, NDiv(r, s0))), e.bd))) b == Wls(X, y, Wt(f, c, NDiv(r, s))) IN <<
   <<"one-reweighting-step", NNear(e.s, s, "1e-9") /\ NNear(e.b, b, "1e-8") /\ NNear(e.r, Res(X, y, b), "1e-8")>> >>)
(* an S-estimate solves the scale equation, is stationary, and no reference fit has a smaller M-scale *)
SestA == Is("sest") /\ st' = st /\ Judge(LET e == Ev X == N(Tr.X) y == N(Tr.y) f == "Bisquare" c == N(e.c) b == N(e.b) s == N(e.s) r == Res(X, y, b) u == NDiv(r, s) IN <<
   <<"scale-equation", NNear(NMean(Rho(f, c, u)), e.bd, "1e-3")>>,
   <<"stationary", NLe(NAbs(NDiv(NMM(NT(X), Psi(f, c, u)), NNR(X))), "2e-3")>>,
   <<"no-reference-fit-has-a-smaller-scale", \A k \in 1..Len(e.refs) : NLe(e.bd, NAdd(NMean(Rho(f, c, NDiv(Res(X, y, N(e.refs[k])), s))), "1e-3"))>>,
   <<"resists-contamination", Has(e, "clean") => LET Xc == NRowsOf(X, e.clean) yc == NRowsOf(y, e.clean) IN NLe(NDist(b, NSolve(NMM(NT(Xc), Xc), NMM(NT(Xc), yc))), e.near)>> >>)
(* M-regression with concomitant scale: the objective and its derivatives *)
Obj(X, y, c, a, t) == LET p == NNC(X) s == NExp(NAt(t, p + 1)) IN NSum(NMul(s, NAdd(Rho("Huber", c, NDiv(Res(X, y, NPos(t, 1, p)), s)), a)))
ObjA == Is("obj") /\ st' = st /\ Judge(LET e == Ev X == N(Tr.X) y == N(Tr.y) F(t) == Obj(X, y, N(Tr.c), N(e.a), t) t == N(e.t) IN <<
   <<"objective", NNear(e.v, F(t), "1e-11")>>,
   <<"objective-gradient", NNear(e.g, NumGrad(F, t), "1e-8")>>,
   <<"objective-hessian", NNear(e.h, NumHess(F, t), "1e-6")>> >>)
Ev2(c) == LET p == NPhi(N(c)) d == NPdf(N(c)) IN NMul(2, NSub(NAdd(NMul(NMul(c, c), NSub(1, p)), NSub(p, "0.5")), NMul(c, d)))
IrA == Is("irwls") /\ st' = st /\ Judge(LET e == Ev X == N(Tr.X) y == N(Tr.y) c == N(Tr.c) p == NNC(X) n == NNR(X) t == N(e.t) b == NPos(t, 1, p) s == NExp(NAt(t, p + 1)) r == Res(X, y, b) u == NDiv(r, s) ps == Psi("Huber", c, u) IN <<
   <<"estimating-equation", NLe(NAbs(NDiv(NMM(NT(X), ps), n)), "1e-6")>>,
   <<"scale-of-the-iteration", IF e.mode = "mad" THEN NNear(s, Mad(r), "1e-6") ELSE NNear(NDiv(NDot(ps, ps), n - p), Ev2(c), "1e-5")>> >>)
FitA == Is("fit") /\ st' = st /\ Judge(LET e == Ev X == N(Tr.X) y == N(e.y) c == N(Tr.c) p == NNC(X) n == NNR(X) t == N(e.t) b == NPos(t, 1, p) s == NExp(NAt(t, p + 1)) r == Res(X, y, b) u == NDiv(r, s)
      ps == Psi("Huber", c, u) ph == Phi1("Huber", c, u) Ep2 == NDiv(NDot(ps, ps), n - p) Eph == NMean(ph)
      k == NAdd(1, NMul(NDiv(p, n), NDiv(NMean(NMul(NSub(ph, Eph), NSub(ph, Eph))), NMul(Eph, Eph))))
      XX == NMM(NT(X), X) G == NInv(XX) W == NInv(NMM(NT(X), NMM(NDiag(ph), X))) s2 == NMul(s, s)
      H1 == NMul(NMul(s2, NDiv(NMul(NMul(k, k), Ep2), NMul(Eph, Eph))), G) H2 == NMul(NMul(s2, NDiv(NMul(k, Ep2), Eph)), W) H3 == NMul(NMul(s2, NDiv(Ep2, k)), NMM(W, NMM(XX, W)))
      se == NHcat(NSqrt(NDg(H1)), NHcat(NSqrt(NDg(H2)), NSqrt(NDg(H3)))) tv == NDiv(NHcat(b, NHcat(b, b)), se)
      rh == NSum(Rho("Huber", c, u)) r0 == NSum(Rho("Huber", c, NDiv(NSub(y, Med(y)), s))) IN <<
   <<"coefficients-solve-their-equation", NLe(NAbs(NDiv(NMM(NT(X), ps), n)), "1e-5")>>,
   <<"scale-solves-its-equation", NNear(NMean(NSub(NMul(u, ps), Rho("Huber", c, u))), e.a, "1e-5")>>,
   <<"reported-estimates", NNear(e.beta, b, "1e-12") /\ NNear(e.scale, s, "1e-12") /\ NNear(e.resids, r, "1e-10")>>,
   <<"psi-at-the-scaled-residuals", NNear(e.psi, ps, "1e-9") /\ NNear(e.phi, ph, "1e-9")>>,
   <<"covariances", NNear(e.H1, H1, "1e-8") /\ NNear(e.H2, H2, "1e-8") /\ NNear(e.H3, H3, "1e-8")>>,
   <<"standard-errors", NNear(e.se, se, "1e-8")>>,
   <<"coefficient-table", NNear(e.tab, NHcat(b, NHcat(se, NHcat(tv, T2(tv, N(n - p))))), "1e-7") /\ e.rows = Tr.xn>>,
   <<"robust-R-squared", NNear(e.r2, NDiv(NSub(r0, rh), r0), "1e-9")>>,
   <<"robust-deviance", NNear(e.dev, NMul(2, NMul(s2, rh)), "1e-9")>>,
   <<"robust-criteria", NNear(e.aic, NAdd(NMul(2, rh), NMul(2 * p, NDiv(Ep2, Eph))), "1e-9") /\ NNear(e.bic, NAdd(NMul(2, rh), NMul(p, NLn(N(n)))), "1e-9")
      /\ NNear(N(e.stats), N(<<N(e.r2), N(e.dev), N(e.aic), N(e.bic)>>), "1e-12")>> >>)
(* t ratios do not depend on the unit of the response *)
UnitA == Is("unit") /\ st' = st /\ Judge(LET e == Ev IN << <<"t-ratios-unit-free", NNear(e.t1, e.t2, "1e-4") /\ NNear(NMul(e.k, e.b1), e.b2, "1e-4")>> >>)
(* the simulator *)
RsimA == Is("rsim") /\ st' = st /\ Judge(LET e == Ev X == N(e.X) n == NNR(X) p == NNC(X) b == N(e.beta) eta == NMM(X, b) Z == NSub(X, NMM(Ones(n), NDiv(NT(NColSum(X)), n)))
      v == NSub(NDiv(NDot(eta, eta), n), NMul(NMean(eta), NMean(eta))) IN <<
   <<"design-covariance", NNear(NDiv(NMM(NT(Z), Z), n), e.S, "1e-9") /\ NLe(NAbs(NDiv(NColSum(X), n)), "1e-9")>>,
   <<"linear-predictor", NNear(e.eta, eta, "1e-10")>>,
   <<"coefficients", Has(e, "nnz") => Cardinality({j \in 1..p : ~NEq(NAt(b, j), 0)}) = e.nnz /\ \A j \in 1..p : NEq(NMul(NAt(b, j), NSub(1, NMul(NAt(b, j), NAt(b, j)))), 0)>>,
   <<"residual-scale", NNear(NMul(e.scale, e.scale), NMul(v, NDiv(NSub(1, e.rsq), e.rsq)), "1e-9")>>,
   <<"responses", NNear(e.Y, NAdd(NMM(eta, NFull(1, e.m, 1)), NMul(e.scale, N(e.E))), "1e-9")>>,
   <<"frame", e.cols = Append(Tup([j \in 1..p |-> "x" \o ToString(j - 1)]), "y") /\ NNear(e.D, X, "1e-14")>> >>)
Init == TInit(<<>>)
Next == FunA \/ ExpA \/ DispA \/ EquivA \/ MadAxA \/ SimulA \/ MScA \/ StepA \/ SestA \/ ObjA \/ IrA \/ FitA \/ UnitA \/ RsimA \/ Raised \/ Unchanged \/ Finished
Spec == Init /\ [][Next]_vars
=============================================================================
