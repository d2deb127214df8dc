-------------------------------- MODULE P25 --------------------------------
(* Structural equation models given by labelled matrices: loadings, paths,      *)
(* factor (disturbance) covariances and residual covariances.  A nonzero entry  *)
(* is a free parameter except one reference loading per free-variance factor.   *)
EXTENDS TraceBase, Infer, FiniteSetsExt, SequencesExt
At(names, v) == CHOOSE i \in 1..Len(names) : names[i] = v
Ix(from, to) == Tup([i \in 1..Len(to) |-> At(from, to[i])])
(* the model in the order of the data columns and of the loading columns *)
Cols == Tr.cols
Lat == Tr.lat
P == Len(Cols)
Q == Len(Lat)
LA0 == NRowsOf(N(Tr.LA), Ix(Tr.vars, Cols))
BE0 == NSub2(N(Tr.BE), Ix(Tr.bev, Lat), Ix(Tr.bev, Lat))
PH0 == NSub2(N(Tr.PH), Ix(Tr.phv, Lat), Ix(Tr.phv, Lat))
PS0 == NSub2(N(Tr.PS), Ix(Tr.psv, Cols), Ix(Tr.psv, Cols))
Nz(M, i, j) == ~NEq(NEl(M, i, j), 0)
Loads(L, f) == {i \in 1..P : Nz(L, i, f)}
RefOf(L, H, f) == IF Tr.ind # <<>> THEN {i \in 1..P : Cols[i] = Tr.ind[f]}
                  ELSE IF Nz(H, f, f) \/ Cardinality(Loads(L, f)) = 1 THEN {Min(Loads(L, f))} ELSE {}
(* free parameters in order: loadings and paths by columns, then the lower triangles by columns *)
Cells(r, c) == Tup([k \in 1..(r*c) |-> <<((k-1) % r) + 1, ((k-1) \div r) + 1>>])
Free == LET L == LA0 B == BE0 H == PH0 S == PS0 tag(m, s) == Tup([k \in 1..Len(s) |-> <<m, s[k][1], s[k][2]>>])
            fl(x) == Nz(L, x[1], x[2]) /\ x[1] \notin RefOf(L, H, x[2]) fb(x) == Nz(B, x[1], x[2])
            fh(x) == x[1] >= x[2] /\ Nz(H, x[1], x[2]) fs(x) == x[1] >= x[2] /\ Nz(S, x[1], x[2]) IN
   tag("L", SelectSeq(Cells(P, Q), fl)) \o tag("B", SelectSeq(Cells(Q, Q), fb)) \o tag("H", SelectSeq(Cells(Q, Q), fh)) \o tag("S", SelectSeq(Cells(P, P), fs))
Label(x) == CASE x[1] = "L" -> Cols[x[2]] \o "<-" \o Lat[x[3]] [] x[1] = "B" -> Lat[x[2]] \o "~" \o Lat[x[3]]
              [] x[1] = "H" -> "cov(" \o Lat[x[3]] \o ", " \o Lat[x[2]] \o ")" [] OTHER -> "residual cov(" \o Cols[x[3]] \o ", " \o Cols[x[2]] \o ")"
Put(M, fr, m, th, sym, tmpl) == LET c == NNC(M) f[k \in 0..Len(fr)] == IF k = 0 THEN M ELSE IF fr[k][1] # m THEN f[k-1]
      ELSE LET A == NSetAt(f[k-1], (fr[k][2]-1)*c + fr[k][3], NAt(th, k)) IN IF sym THEN NSetAt(A, (fr[k][3]-1)*c + fr[k][2], NAt(th, k)) ELSE A IN f[Len(fr)]
SigOf(M, fr, th) == LET L == Put(M[1], fr, "L", th, FALSE, 0) B == Put(M[2], fr, "B", th, FALSE, 0) H == Put(M[3], fr, "H", th, TRUE, 0) R == Put(M[4], fr, "S", th, TRUE, 0)
      A == NMM(L, NInv(NSub(NEye(Q), B))) IN NAdd(NMM(A, NMM(H, NT(A))), R)
(* template: the given values, at which non-free nonzero entries stay; "fixed" overrides some of them *)
Mats == LET L == LA0 IN <<IF Tr.fix = <<>> THEN L ELSE NSetAt(L, (At(Cols, Tr.fix[1])-1)*Q + At(Lat, Tr.fix[2]), N(Tr.fix[3])), BE0, PH0, PS0>>
SCov(X) == LET n == NNR(X) C == NSub(X, NMM(NFull(n, 1, 1), IF NNC(NDiv(NColSum(X), n)) = 1 THEN NT(NDiv(NColSum(X), n)) ELSE NDiv(NColSum(X), n))) IN NDiv(NMM(NT(C), C), n)
Disc(S, V) == NAdd(NLogDet(V), NTr(NMM(S, NInv(V))))
ModelA == Is("model") /\ st' = st /\ Judge(LET e == Ev fr == Free M == Mats S == SCov(N(Tr.X)) IN <<
   <<"sample-covariance", NNear(e.S, S, "1e-12")>>,
   <<"free-parameters-and-labels", e.labels = Tup([k \in 1..Len(fr) |-> Label(fr[k])])>>,
   <<"start-is-the-given-value", NNear(e.theta, N(Tup([k \in 1..Len(fr) |-> NEl((CASE fr[k][1] = "L" -> M[1] [] fr[k][1] = "B" -> M[2] [] fr[k][1] = "H" -> M[3] [] OTHER -> M[4]), fr[k][2], fr[k][3])])), "1e-14")>>,
   <<"variances-bounded-below", e.bounded = Tup([k \in 1..Len(fr) |-> fr[k][1] \in {"H", "S"} /\ fr[k][2] = fr[k][3]])>> >>)
PointA == Is("point") /\ st' = st /\ Judge(LET e == Ev fr == Free M == Mats S == SCov(N(Tr.X)) th == N(e.theta) V == SigOf(M, fr, th)
      LL(t) == Disc(S, SigOf(M, fr, t)) Gv(t) == NVech(SigOf(M, fr, t)) IN <<
   <<"model-matrices", /\ NNear(e.LA, Put(M[1], fr, "L", th, FALSE, 0), "1e-13") /\ NNear(e.BE, Put(M[2], fr, "B", th, FALSE, 0), "1e-13") /\ NNear(e.PH, Put(M[3], fr, "H", th, TRUE, 0), "1e-13")
                       /\ NNear(e.PS, Put(M[4], fr, "S", th, TRUE, 0), "1e-13") /\ NNear(NMM(N(e.IB), NSub(NEye(Q), N(e.BE))), NEye(Q), "1e-10")>>,
   <<"implied-covariance", NNear(e.Sigma, V, "1e-10")>>,
   <<"discrepancy", NNear(e.ll, Disc(S, V), "1e-10")>>,
   <<"derivative-of-implied-covariance", NNear(e.dS, NumJac(Gv, th), "1e-9")>>,
   <<"gradient", NNear(e.g, NumGrad(LL, th), "1e-8")>>,
   <<"hessian", NNear(e.H, NumHess(LL, th), "1e-7")>> >>)
OutA == Is("outside") /\ st' = st /\ Judge(LET e == Ev fr == Free V == SigOf(Mats, fr, N(e.theta)) IN << <<"infinite-outside-the-positive-definite-region", NLe(NMin(NEig(V)), "-1e-6") => e.ll = "inf">> >>)
(* fit measures of an implied covariance V with d degrees of freedom and t parameters *)
Measures(S, V, n, d, t) == LET p == NNR(S) W == NMM(NInv(V), S) LL == NAdd(NLogDet(V), NTr(W)) F == NSub(LL, NAdd(NLogDet(S), p)) x == NMul(n - 1, F) D == NSub(W, NEye(p))
      gfi == NSub(1, NDiv(NTr(NMM(D, D)), NTr(NMM(W, W)))) m2 == NAdd(NMul(n, LL), NMul(n*p, NLn(NMul(2, NPi)))) sd == NDiag(NDiv(1, NSqrt(NDg(S)))) R == NVech(NSub(V, S)) Z == NVech(NMM(sd, NMM(NSub(V, S), sd))) IN
   [F |-> F, x |-> x, gfi |-> gfi, agfi |-> IF d = 0 THEN gfi ELSE NSub(1, NMul(NDiv((p*(p+1)) \div 2, d), NSub(1, gfi))), ll |-> NDiv(m2, 0-2), aic |-> NAdd(m2, 2*t), bic |-> NAdd(m2, NMul(t, NLn(n))),
    evci |-> NAdd(LL, NDiv(2*t, n - p - 2)), rmr |-> NSqrt(NMean(NMul(R, R))), srmr |-> NSqrt(NMean(NMul(Z, Z))),
    z |-> IF d = 0 THEN x ELSE NDiv(NSub(x, d), NSqrt(2*d)), rmsea |-> IF d = 0 THEN x ELSE NSqrt(NDiv(NMax2(NSub(x, d), 0), d*(n-1)))]
FitA == Is("fit") /\ st' = st /\ Judge(LET e == Ev fr == Free M == Mats S == SCov(N(Tr.X)) n == NNR(N(Tr.X)) p == P th == N(e.theta) V == SigOf(M, fr, th) t == Len(fr) d == (p*(p+1)) \div 2 - t
      LL(u) == Disc(S, SigOf(M, fr, u)) H == NumHess(LL, th) C == NDiv(NMul(2, NInv(H)), n) q == Measures(S, V, n, d, t) V0 == IF Has(e, "V0") THEN N(e.V0) ELSE NDiag(NDg(S))
      t0 == IF Has(e, "V0") THEN e.t0 ELSE p d0 == IF Has(e, "V0") THEN e.d0 ELSE (p*(p+1)) \div 2 - p w == Measures(S, V0, n, d0, t0) m == e.m
      g == NumGrad(LL, th) IN <<
   <<"fit-stationary", e.inner => NLe(NMax(NAbs(g)), "2e-4")>>,
   <<"fit-no-worse-than-start", NLe(LL(th), NAdd(LL(N(e.start)), "1e-9"))>>,
   <<"fitted-covariance", NNear(e.Sigma, V, "1e-10")>>,
   <<"errors-from-curvature", e.regular => NClose(e.cov, C, "1e-4", "1e-7") /\ NNear(NMul(e.se, e.se), NDg(N(e.cov)), "1e-10")>>,
   <<"parameter-table", e.names = Tup([k \in 1..t |-> Label(fr[k])]) /\ NNear(e.est, th, "1e-13") /\ NNear(e.tse, e.se, "1e-13") /\ (e.regular => NClose(e.tv, NDiv(th, e.se), "1e-10", "1e-12") /\ PClose(e.pv, T2(e.tv, n)))>>,
   <<"log-likelihood-and-chi-square", NNear(m.loglikelihood, q.ll, "1e-9") /\ NNear(m.Chi2, q.x, "1e-7")>>,
   <<"chi-square-probability", d = 0 \/ NNear(m.Chi2_pval, ChiSf(N(m.Chi2), d), "1e-7")>>,
   <<"absolute-fit", NNear(m.GFI, q.gfi, "1e-9") /\ NNear(m.RMR, q.rmr, "1e-9") /\ NNear(m.SRMR, q.srmr, "1e-9") /\ (d = 0 \/ (NNear(m.AGFI, q.agfi, "1e-8") /\ NNear(m.Standardized_Chi2, q.z, "1e-7") /\ NNear(m.RMSEA, q.rmsea, "1e-6")))>>,
   <<"critical-sizes", d = 0 \/ (NNear(ChiSf(NMul(NSub(m.CN05, 1), q.F), d), "0.05", "1e-6") /\ NNear(ChiSf(NMul(NSub(m.CN01, 1), q.F), d), "0.01", "1e-6"))>>,
   <<"information-criteria", NNear(m.AIC, q.aic, "1e-9") /\ NNear(m.BIC, q.bic, "1e-9") /\ NNear(m.EVCI, q.evci, "1e-9")>>,
   <<"incremental-fit", LET dx == NSub(w.x, q.x) IN NNear(m.NFI1, NDiv(dx, w.x), "1e-8") /\ NNear(m.NFI2, NDiv(dx, NSub(w.x, d)), "1e-8")
        /\ (d = 0 \/ (NNear(m.Rho1, NDiv(NSub(NDiv(w.x, d0), NDiv(q.x, d)), NDiv(w.x, d0)), "1e-8") /\ NNear(m.Rho2, NDiv(NSub(NDiv(w.x, d0), NDiv(q.x, d)), NSub(NDiv(w.x, d0), 1)), "1e-8")))
        /\ NNear(m.CFI, NSub(1, NDiv(NMax2(NSub(q.x, d), 0), NMax2(NMax2(NSub(q.x, d), NSub(w.x, d0)), "1e-12"))), "1e-8")>> >>)
SameA == Is("same") /\ st' = st /\ Judge(LET e == Ev IN << <<e.what, NNear(e.a, e.b, e.tol)>> >>)
EqA == Is("equal") /\ st' = st /\ Judge(LET e == Ev IN << <<e.what, e.a = e.b>> >>)
Init == TInit(<<>>)
Next == ModelA \/ PointA \/ OutA \/ FitA \/ SameA \/ EqA \/ Raised \/ Unchanged \/ Finished
Spec == Init /\ [][Next]_vars
=============================================================================
