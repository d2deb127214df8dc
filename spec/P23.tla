-------------------------------- MODULE P23 --------------------------------
(* Multivariate decompositions: canonical correlations (dense and sparse),      *)
(* independent components, convolutive non-negative factors, and dependence     *)
(* statistics.                                                                  *)
EXTENDS TraceBase, FiniteSetsExt, SequencesExt
Rw(v) == IF NNC(v) = 1 THEN NT(v) ELSE v
CtrT(X) == LET n == NNR(X) IN NSub(X, NMM(NFull(n, 1, 1), Rw(NDiv(NColSum(X), n))))
S2(X, Y) == NDiv(NMM(NT(CtrT(X)), CtrT(Y)), NNR(X))
Sd(X) == NSqrt(NDg(S2(X, X)))
R2(X, Y) == NMM(NDiag(NDiv(1, Sd(X))), NMM(S2(X, Y), NDiag(NDiv(1, Sd(Y)))))
Std(X) == NMM(CtrT(X), NDiag(NDiv(1, Sd(X))))
Desc(v) == NNeg(NSort(NNeg(v)))
Upto(m) == [k \in 1..m |-> k]
Min2(a, b) == IF a < b THEN a ELSE b
(* squared canonical correlations implied by the blocks of a covariance *)
CanSq(Sxx, Syy, Sxy) == LET L == NChol(Sxx) B == NSolve(L, Sxy) K == NMM(B, NSolve(Syy, NT(B))) IN Desc(NEig(NMul("0.5", NAdd(K, NT(K)))))
Projects(P, W, tol) == NNear(NMM(P, W), W, tol) /\ NNear(P, NT(P), tol) /\ NNear(NMM(P, P), P, tol) /\ NNear(NTr(P), NNC(W), tol)
CcaA == Is("cca") /\ st' = st /\ Judge(LET e == Ev X == Std(N(e.X)) Y == Std(N(e.Y)) Sxx == S2(X, X) Syy == S2(Y, Y) Sxy == S2(X, Y) Wx == N(e.Wx) Wy == N(e.Wy)
      k == NNC(Wx) m == Min2(NNR(Sxx), NNR(Syy)) r == NPos(N(e.rhos), 1, k) IN <<
   <<"cca-number-of-components", k = (IF e.k = 0 THEN m ELSE e.k) /\ NNC(Wy) = k>>,
   <<"cca-unit-variance-uncorrelated-variates", NNear(NMM(NT(Wx), NMM(Sxx, Wx)), NEye(k), "1e-8") /\ NNear(NMM(NT(Wy), NMM(Syy, Wy)), NEye(k), "1e-8")>>,
   <<"cca-cross-correlations-diagonal", NNear(NMM(NT(Wx), NMM(Sxy, Wy)), NDiag(r), "1e-8")>>,
   <<"cca-correlations-maximal", NNear(NMul(r, r), NPos(CanSq(Sxx, Syy, Sxy), 1, k), "1e-8") /\ NLe("-1e-12", r)>>,
   <<"cca-loadings", NNear(e.Lx, NMM(Sxx, Wx), "1e-9") /\ NNear(e.Ly, NMM(Syy, Wy), "1e-9")>>,
   <<"cca-variates", NNear(e.Zx, NMM(X, Wx), "1e-8") /\ NNear(e.Zy, NMM(Y, Wy), "1e-8") /\ NNear(e.Z, NHcat(NMM(X, Wx), NMM(Y, Wy)), "1e-8")>>,
   <<"cca-projections", Projects(N(e.PWx), Wx, "1e-7") /\ Projects(N(e.PWy), Wy, "1e-7") /\ Projects(N(e.PLx), N(e.Lx), "1e-7") /\ Projects(N(e.PLy), N(e.Ly), "1e-7")>>,
   <<"cca-labelled-tables", e.labels>> >>)
SimA == Is("simcca") /\ st' = st /\ Judge(LET e == Ev Sxx == N(e.Sxx) Syy == N(e.Syy) Sxy == N(e.Sxy) r == N(e.rhos) k == NLen(r) Wx == N(e.Wx) Wy == N(e.Wy) IN <<
   <<"simulated-blocks", NNear(e.S, NVcat(NHcat(Sxx, Sxy), NHcat(NT(Sxy), Syy)), "1e-12") /\ NNear(NDg(Sxx), NFull(NNR(Sxx), 1, 1), "1e-10") /\ NNear(NDg(Syy), NFull(NNR(Syy), 1, 1), "1e-10")>>,
   <<"simulated-canonical-correlations", e.given \/ NNear(NPos(CanSq(Sxx, Syy, Sxy), 1, k), NMul(Desc(r), Desc(r)), "1e-8")>>,
   <<"simulated-coefficients", LET A == NColsOf(Wx, Upto(k)) B == NColsOf(Wy, Upto(k)) IN
        /\ NNear(NDg(NMM(NT(A), NMM(Sxx, A))), NFull(k, 1, 1), "1e-9") /\ NNear(NDg(NMM(NT(B), NMM(Syy, B))), NFull(k, 1, 1), "1e-9")
        /\ NNear(Sxy, NMM(Sxx, NMM(A, NMM(NDiag(r), NMM(NT(B), Syy)))), "1e-9")>>,
   <<"simulated-exact-data", LET D == NHcat(N(e.X), N(e.Y)) IN NNear(R2(D, D), e.S, "1e-8")>>,
   <<"simulated-data-standardised", LET D == NHcat(N(e.X2), N(e.Y2)) IN NNear(NDg(S2(D, D)), NFull(NNC(D), 1, 1), "1e-9") /\ NNear(NColSum(D), NMul(0, NColSum(D)), "1e-8") /\ NLe(NMax(NAbs(NSub(NVec(R2(D, D)), NVec(N(e.S))))), NDiv(6, NSqrt(NNR(D))))>> >>)
(* ---- sparse canonical correlation *)
Soft(v, t) == NMul(NMax2(NSub(NAbs(v), t), 0), NSign(v))
L2(v) == NMax2(NSqrt(NSum(NMul(v, v))), "0.05")
L1(v) == NDiv(NSum(NAbs(v)), L2(v))
RECURSIVE Bis(_, _, _, _, _)
Bis(v, c, lo, hi, k) == IF k = 0 THEN NMul("0.5", NAdd(lo, hi)) ELSE LET t == NMul("0.5", NAdd(lo, hi)) IN IF NLt(L1(Soft(v, t)), c) THEN Bis(v, c, lo, t, k - 1) ELSE Bis(v, c, t, hi, k - 1)
Cut(v, c) == IF NLe(L1(v), c) THEN N(0) ELSE Bis(v, c, N(0), NMax(NAbs(v)), 44)
Shrunk(v, c) == LET u == Soft(v, Cut(v, c)) IN NDiv(u, L2(u))
ThreshA == Is("thresh") /\ st' = st /\ Judge(LET e == Ev v == N(e.v) IN <<
   <<"soft-threshold", NNear(e.s, Soft(v, e.t0), "1e-13")>>,
   <<"l1-size-of-direction", NNear(e.l1, L1(v), "1e-12")>>,
   <<"threshold-reaches-the-bound", NNear(e.t, Cut(v, e.c), "3e-6")>> >>)
Defl(X, w) == LET v == NMM(X, w) IN NSub(X, NDiv(NMM(v, NMM(NT(v), X)), NDot(v, v)))
(* both blocks after removing the variates of the first i - 1 components *)
BlkI(X, W, i) == LET f[j \in 1..i] == IF j = 1 THEN X ELSE Defl(f[j-1], NColumn(W, j - 1)) IN f[i]
SccaA == Is("scca") /\ st' = st /\ Judge(LET e == Ev X == Std(N(e.X)) Y == Std(N(e.Y)) Wx == N(e.Wx) Wy == N(e.Wy) Bx == N(e.Bx) By == N(e.By) k == NNC(Wx)
      cx == NMul(e.lx, NSqrt(NNC(X))) cy == NMul(e.ly, NSqrt(NNC(Y)))
      Bl == Tup([i \in 1..k |-> <<BlkI(X, Wx, i), BlkI(Y, Wy, i)>>]) S(i) == NMM(NT(Bl[i][1]), Bl[i][2]) IN <<
   <<"sparse-weights-unit-length", NNear(NDg(NMM(NT(Wx), Wx)), NFull(k, 1, 1), "1e-9") /\ NNear(NDg(NMM(NT(Wy), Wy)), NFull(k, 1, 1), "1e-9")>>,
   <<"sparse-weights-within-the-bound", \A i \in 1..k : NLe(NSum(NAbs(NColumn(Wx, i))), NAdd(NMax2(cx, 1), "1e-4")) /\ NLe(NSum(NAbs(NColumn(Wy, i))), NAdd(NMax2(cy, 1), "1e-4"))>>,
   <<"sparse-weights-of-y-given-x", \A i \in 1..k : NNear(NColumn(Wy, i), Shrunk(NMM(NT(S(i)), NColumn(Wx, i)), cy), "1e-4")>>,
   <<"sparse-weights-of-x-given-y", \A i \in 1..k : ~e.conv[i] \/ NNear(NColumn(Wx, i), Shrunk(NMM(S(i), NColumn(Wy, i)), cx), "1e-3")>>,
   <<"orthogonalised-weights-keep-the-variates", \A i \in 1..k : NNear(NMM(X, NColumn(Bx, i)), NMM(Bl[i][1], NColumn(Wx, i)), "1e-7") /\ NNear(NMM(Y, NColumn(By, i)), NMM(Bl[i][2], NColumn(Wy, i)), "1e-7")>>,
   <<"orthogonalised-variates-uncorrelated", LET R == R2(NMM(X, Bx), NMM(X, Bx)) Q == R2(NMM(Y, By), NMM(Y, By)) IN NNear(R, NEye(k), "1e-7") /\ NNear(Q, NEye(k), "1e-7")>>,
   <<"sparse-correlations", NNear(e.rho, NVech(R2(NMM(X, Bx), NMM(Y, By))), "1e-8") /\ NNear(e.rho0, NVech(R2(NMM(X, Wx), NMM(Y, Wy))), "1e-8")>> >>)
(* folds: contiguous, the first n mod k one longer; fitting and held-out rows standardised by themselves *)
FoldLen(n, k, j) == (n \div k) + (IF j <= n % k THEN 1 ELSE 0)
FoldAt(n, k, j) == LET f[i \in 0..k] == IF i = 0 THEN 0 ELSE f[i-1] + FoldLen(n, k, i) IN f[j-1]
InFold(n, k, j) == Tup([i \in 1..FoldLen(n, k, j) |-> FoldAt(n, k, j) + i])
OutFold(n, k, j) == Tup([i \in 1..(n - FoldLen(n, k, j)) |-> IF i <= FoldAt(n, k, j) THEN i ELSE i + FoldLen(n, k, j)])
FoldsA == Is("folds") /\ st' = st /\ Judge(LET e == Ev n == NNR(N(e.X)) k == e.k IN <<
   <<"folds-partition-the-rows", \A j \in 1..k : e.test[j] = InFold(n, k, j) /\ e.fit[j] = OutFold(n, k, j)>>,
   <<"folds-standardised-by-themselves", \A j \in 1..k : /\ NNear(e.Xf[j], Std(NRowsOf(N(e.X), OutFold(n, k, j))), "1e-10") /\ NNear(e.Xt[j], Std(NRowsOf(N(e.X), InFold(n, k, j))), "1e-10")
                                                       /\ NNear(e.Yf[j], Std(NRowsOf(N(e.Y), OutFold(n, k, j))), "1e-10") /\ NNear(e.Yt[j], Std(NRowsOf(N(e.Y), InFold(n, k, j))), "1e-10")>> >>)
CvA == Is("sccacv") /\ st' = st /\ Judge(LET e == Ev X == Std(N(e.X)) Y == Std(N(e.Y)) n == NNR(X) IN <<
   <<"cross-validated-correlations", \A i \in 1..Len(e.lam) : \A j \in 1..e.k : LET Wx == N(e.Wx[i][j]) Wy == N(e.Wy[i][j]) o == OutFold(n, e.k, j) h == InFold(n, e.k, j) IN
        /\ NNear(e.rf[i][j], NVech(R2(NMM(Std(NRowsOf(X, o)), Wx), NMM(Std(NRowsOf(Y, o)), Wy))), "1e-8")
        /\ NNear(e.rt[i][j], NVech(R2(NMM(Std(NRowsOf(X, h)), Wx), NMM(Std(NRowsOf(Y, h)), Wy))), "1e-8")>>,
   <<"cross-validated-weights", \A i \in 1..Len(e.lam) : \A j \in 1..e.k : LET o == OutFold(n, e.k, j) wx == NColumn(N(e.Wx[i][j]), 1)
        g == NMM(NT(Std(NRowsOf(Y, o))), NMM(Std(NRowsOf(X, o)), wx)) IN NNear(NColumn(N(e.Wy[i][j]), 1), Shrunk(g, NMul(e.lam[i], NSqrt(NNC(Y)))), "1e-4")>>,
   <<"chosen-penalty-best-held-out", LET c == NNC(N(e.Wx[1][1])) dg(v) == NMean(NDg(NLowerOf(v))) sc(i) == NMean(N(Tup([j \in 1..e.k |-> dg(e.rt[i][j])]))) IN
        ~e.fit \/ (\E i \in 1..Len(e.lam) : NNear(e.best, e.lam[i], "1e-12") /\ \A l \in 1..Len(e.lam) : NLe(sc(l), NAdd(sc(i), "1e-9")))>> >>)
ResA == Is("sccares") /\ st' = st /\ Judge(LET e == Ev IN <<
   <<"resampled-weights-within-the-bound", \A b \in 1..Len(e.Wx) : LET wx == NColumn(N(e.Wx[b]), 1) wy == NColumn(N(e.Wy[b]), 1) IN
        NNear(NDot(wx, wx), 1, "1e-9") /\ NNear(NDot(wy, wy), 1, "1e-9") /\ NLe(NSum(NAbs(wx)), NAdd(NMax2(e.cx, 1), "1e-4")) /\ NLe(NSum(NAbs(wy)), NAdd(NMax2(e.cy, 1), "1e-4"))>>,
   <<"resampled-correlations-bounded", NLe(NMax(NAbs(N(e.r))), "1.0000001") /\ NLe(NMax(NAbs(N(e.rp))), "1.0000001")>>,
   <<"permuting-breaks-the-association", NLt(NMean(N(e.rp)), NMul("0.8", NMean(N(e.r))))>> >>)
(* ---- independent components *)
IcaA == Is("ica") /\ st' = st /\ Judge(LET e == Ev X == CtrT(N(e.X)) n == NNR(X) p == NNC(X) W == N(e.W) A == N(e.A) Y == N(e.Y) k == NNC(W) g == NTanh(Y) C == NDiv(NMM(NT(Y), g), n)
      d == NVec(NDiv(NColSum(NSub(1, NMul(g, g))), n)) ev == Desc(NEig(S2(X, X)))
      M == IF e.alg = "mle" THEN NAdd(NEye(k), NMM(NSub(C, NDiag(NDg(C))), NDiag(NDiv(1, NSub(NDg(C), d))))) ELSE NSub(C, NDiag(d)) JM == NMM(NDiag(NSign(NDg(M))), M) IN <<
   <<"components-are-linear-in-the-data", NNear(Y, NMM(X, W), "1e-8")>>,
   <<"components-white", NNear(NDiv(NMM(NT(Y), Y), n), NEye(k), "1e-7")>>,
   <<"mixing-inverts-unmixing", NNear(NMM(A, W), NEye(k), "1e-7") /\ NNear(NTr(NMM(A, NT(A))), NSum(NPos(ev, 1, k)), "1e-7") /\ (k < p \/ NNear(NMM(Y, A), X, "1e-7"))>>,
   <<"components-stationary", ~e.conv \/ NLe(NMax(NAbs(NSub(NVec(JM), NVec(NT(JM))))), "1e-2")>>,
   <<"components-recover-the-sources", ~e.sep \/ LET R == NAbs(R2(Y, N(e.S))) IN \A j \in 1..k : NLe("0.9", NMax(NRow(R, j))) /\ NLe("0.9", NMax(NColumn(R, j)))>>,
   <<"iteration-converges", ~e.sep \/ e.conv>>,
   <<"components-labelled", e.labels>> >>)
(* ---- convolutive factors: W[k][i, tau], H[k, t] *)
HAt(H, t) == NMat(NNR(H), 1, N(Tup([k \in 1..NNR(H) |-> IF t < 1 \/ t > NNC(H) THEN N(0) ELSE NEl(H, k, t)])))
Lag(H, s) == LET T == NNC(H) IN IF s = 0 THEN H ELSE IF s > 0 THEN (IF s >= T THEN NMul(0, H) ELSE NHcat(NFull(NNR(H), s, 0), NColsOf(H, [k \in 1..(T - s) |-> k])))
                                ELSE (IF 0 - s >= T THEN NMul(0, H) ELSE NHcat(NColsOf(H, [k \in 1..(T + s) |-> k - s]), NFull(NNR(H), 0 - s, 0)))
Roll(H, s) == LET T == NNC(H) IN NColsOf(H, [k \in 1..T |-> ((k - 1 - s) % T) + 1])
Conv(Ws, H) == LET L == Len(Ws) f[j \in 1..L] == LET a == NMM(Ws[j], Lag(H, j - 1)) IN IF j = 1 THEN a ELSE NAdd(f[j-1], a) IN f[L]
TConv(Ws, X) == LET L == Len(Ws) f[j \in 1..L] == LET a == NMM(NT(N(Ws[j])), Lag(X, 1 - j)) IN IF j = 1 THEN a ELSE NAdd(f[j-1], a) IN f[L]
TConvC(Ws, X) == LET L == Len(Ws) f[j \in 1..L] == LET a == NMM(NT(N(Ws[j])), Roll(X, 1 - j)) IN IF j = 1 THEN a ELSE NAdd(f[j-1], a) IN f[L]
Smooth(A, L) == LET f[s \in (1-L)..(L-1)] == IF s = 1 - L THEN Lag(A, s) ELSE NAdd(f[s-1], Lag(A, s)) IN f[L-1]
Fro(A) == NSqrt(NSum(NMul(A, A)))
OffOnes(k) == NSub(NFull(k, k, 1), NEye(k))
Penal(Ws, X, H) == LET Q == NMul(OffOnes(NNR(H)), NMM(Smooth(TConv(Ws, X), Len(Ws)), NT(H))) IN NMax(NColSum(NAbs(Q)))
ReconA == Is("recon") /\ st' = st /\ Judge(LET e == Ev Ws == Tup([j \in 1..Len(e.Ws) |-> N(e.Ws[j])]) X == N(e.X) H == N(e.H) R == Conv(Ws, H) IN <<
   <<"convolutive-reconstruction", NNear(e.R, R, "1e-11")>>,
   <<"sequence-objective", NNear(e.f, Fro(NSub(X, R)), "1e-10")>>,
   <<"sequence-overlap", NNear(e.WtX, TConv(Ws, X), "1e-10")>>,
   <<"sequence-penalty", NNear(e.pen, Penal(Ws, X, H), "1e-9")>> >>)
(* one multiplicative update: activations, unit rows, factors *)
StepOf(e) == LET X == N(e.X) H == N(e.H0) Ws == Tup([j \in 1..Len(e.W0) |-> N(e.W0[j])]) L == Len(Ws) k == NNR(H) O == OffOnes(k) R == Conv(Ws, H)
                 num1 == TConvC(Ws, X) den1 == NAdd(TConvC(Ws, R), NMM(O, NAdd(NMul(e.lam, Smooth(num1, L)), NMul(e.lh, Smooth(H, L)))))
                 H1 == NMul(H, NDiv(num1, den1)) r == NSqrt(NVec(NRowSum(NMul(H1, H1)))) H2 == NMM(NDiag(NDiv(1, r)), H1)
                 W1 == Tup([j \in 1..L |-> NMM(Ws[j], NDiag(r))]) R1 == Conv(W1, H2) flat == LET f[j \in 1..L] == IF j = 1 THEN W1[1] ELSE NAdd(f[j-1], W1[j]) IN f[L] Xs == Smooth(X, L)
                 upd(j) == LET Ht == NT(Roll(H2, j - 1)) d == NAdd(NMM(R1, Ht), NAdd(NMM(NMul(e.lam, NMM(Xs, Ht)), O), NMul(e.lw, NMM(flat, O)))) IN NMul(W1[j], NDiv(NMM(X, Ht), NAdd(d, e.ve)))
             IN [H |-> H2, W |-> Tup([j \in 1..L |-> upd(j)])]
NmfStepA == Is("nmfstep") /\ st' = st /\ Judge(LET e == Ev s == StepOf(e) X == N(e.X) IN <<
   <<"multiplicative-update", NNear(e.H1, s.H, "1e-7") /\ \A j \in 1..Len(s.W) : NNear(e.W1[j], s.W[j], "1e-7")>>,
   <<"recorded-fit", NNear(e.f, Fro(NSub(X, Conv(s.W, s.H))), "1e-6") /\ NNear(e.pen, Penal(s.W, X, s.H), "1e-6")>> >>)
NmfA == Is("nmf") /\ st' = st /\ Judge(LET e == Ev X == N(e.X) H == N(e.H) Ws == Tup([j \in 1..Len(e.Ws) |-> N(e.Ws[j])]) L == Len(Ws) IN <<
   <<"factors-nonnegative", NLe(0, NMin(H)) /\ \A j \in 1..L : NLe(0, NMin(Ws[j]))>>,
   <<"activations-unit-rows", NNear(NVec(NRowSum(NMul(H, H))), NFull(NNR(H), 1, 1), "1e-6")>>,
   <<"data-padded-by-the-lag", NNear(X, NHcat(NHcat(NFull(NNR(N(e.X0)), L, 0), N(e.X0)), NFull(NNR(N(e.X0)), L, 0)), "1e-14")>>,
   <<"recorded-fit-of-the-result", NNear(e.f, Fro(NSub(X, Conv(Ws, H))), "1e-8") /\ NNear(e.pen, Penal(Ws, X, H), "1e-8")>>,
   <<"fit-improves", NLt(e.f, e.f1)>> >>)
CenA == Is("center") /\ st' = st /\ Judge(LET e == Ev H == N(e.H) Ws == Tup([j \in 1..Len(e.Ws) |-> N(e.Ws[j])]) V == Tup([j \in 1..Len(e.Ws2) |-> N(e.Ws2[j])]) L == Len(V)
      tot(k, j) == NSum(NColumn(V[j], k)) IN <<
   <<"centring-keeps-the-reconstruction", NNear(Conv(V, N(e.H2)), Conv(Ws, H), "1e-10")>>,
   <<"centred-factors", \A k \in 1..NNR(H) : LET t == N(Tup([j \in 1..L |-> tot(k, j)])) v == N(Tup([j \in 1..L |-> j])) IN NNear(NFloor(NAdd(NDiv(NDot(t, v), NSum(t)), "1e-9")), IF L < 2 THEN 1 ELSE L \div 2, "1e-9")>> >>)
UtilA == Is("conv") /\ st' = st /\ Judge(LET e == Ev A == N(e.A) B == N(e.B) ra == NNR(A) ca == NNC(A) rb == NNR(B) cb == NNC(B)
      full(i, j) == LET S == {<<a, b>> \in (1..ra) \X (1..ca) : i - a + 1 \in 1..rb /\ j - b + 1 \in 1..cb} s == SetToSeq(S) IN NSum(N(Tup([k \in 1..Len(s) |-> NMul(NEl(A, s[k][1], s[k][2]), NEl(B, i - s[k][1] + 1, j - s[k][2] + 1))])))
      F == NMat(ra + rb - 1, ca + cb - 1, N(Tup([c \in 1..((ra + rb - 1) * (ca + cb - 1)) |-> full(((c-1) \div (ca + cb - 1)) + 1, ((c-1) % (ca + cb - 1)) + 1)]))) IN <<
   <<"two-dimensional-convolution", NNear(e.full, F, "1e-12")>>,
   <<"convolution-same-shape", NNear(e.same, NSub2(F, Tup([i \in 1..ra |-> i + (rb - 1) \div 2]), Tup([j \in 1..ca |-> j + (cb - 1) \div 2])), "1e-12")>>,
   <<"series-shift", \A k \in 1..Len(e.sh) : LET s == e.sh[k].s x == e.sh[k].x n == Len(x) IN \A i \in 1..n : NEq(e.sh[k].y[i], IF i - s \in 1..n THEN x[i - s] ELSE e.sh[k].c)>> >>)
(* ---- dependence statistics *)
Gram(X) == NMM(X, NT(X))
SqD(X) == LET G == Gram(X) g == NDg(G) n == NNR(X) o == NFull(n, 1, 1) IN NMax2(NAdd(NSub(NMM(g, NT(o)), NMul(2, G)), NMM(o, NT(g))), 0)
DistM(X) == LET n == NNR(X) IN NMat(n, n, N(Tup([c \in 1..(n*n) |-> LET d == NSub(NRow(X, ((c-1) \div n) + 1), NRow(X, ((c-1) % n) + 1)) IN NSqrt(NSum(NMul(d, d)))])))
CenD(D, unb) == LET n == NNR(D) o == NFull(n, 1, 1) r == NVec(NRowSum(D)) t == NSum(D) A == IF unb THEN n - 2 ELSE n Q == IF unb THEN (n - 1) * (n - 2) ELSE n * n
                    B == NAdd(NSub(NSub(D, NMM(NDiv(r, A), NT(o))), NMM(o, NT(NDiv(r, A)))), NDiv(t, Q)) IN IF unb THEN NMul(B, OffOnes(n)) ELSE B
DCor(Ax, Ay) == NDiv(NSum(NMul(Ax, Ay)), NSqrt(NMul(NSum(NMul(Ax, Ax)), NSum(NMul(Ay, Ay)))))
Perms(n) == SetToSeq({f \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => f[i] # f[j]})
(* counts of the draws over the possible values: within six standard errors of uniform over the permutations *)
Uniform(draws, vals) == LET B == Len(draws) m == Len(vals) IN
    /\ \A b \in 1..B : \E k \in 1..m : NNear(draws[b], vals[k], "1e-9")
    /\ \A k \in 1..m : LET mult == Cardinality({l \in 1..m : NNear(vals[l], vals[k], "1e-9")}) cnt == Cardinality({b \in 1..B : NNear(draws[b], vals[k], "1e-9")})
                       IN NLe(NAbs(NSub(cnt, NDiv(B * mult, m))), NAdd(1, NMul(6, NSqrt(NDiv(B * mult, m)))))
DcorA == Is("dcor") /\ st' = st /\ Judge(LET e == Ev X == N(e.X) Y == N(e.Y) n == NNR(X) Ax == CenD(DistM(X), e.unb) Ay == CenD(DistM(Y), e.unb) r == DCor(Ax, Ay)
      ps == Perms(n) vals == IF e.perm THEN Tup([k \in 1..Len(ps) |-> DCor(Ax, CenD(DistM(NRowsOf(Y, Tup(ps[k]))), e.unb))]) ELSE <<>>
      ex == IF e.perm THEN NDiv(Cardinality({k \in 1..Len(vals) : NLt(NAdd(NAbs(r), "1e-9"), NAbs(vals[k]))}), Len(vals)) ELSE N(0)
      near == IF e.perm THEN NDiv(Cardinality({k \in 1..Len(vals) : NLt(NSub(NAbs(r), "1e-9"), NAbs(vals[k]))}), Len(vals)) ELSE N(0) slack(B) == NDiv(3, NSqrt(B)) IN <<
   <<"distance-correlation", NNear(e.r, r, "1e-9")>>,
   <<"distance-correlation-permutations", ~e.perm \/ Uniform(e.draws, vals)>>,
   <<"distance-correlation-p-value", ~e.perm \/ (NNear(e.p, NDiv(Cardinality({b \in 1..Len(e.draws) : NLt(NAbs(e.r), NAbs(e.draws[b]))}), Len(e.draws)), "1e-12")
        /\ NLe(NSub(ex, slack(e.B2)), e.p2) /\ NLe(e.p2, NAdd(near, slack(e.B2))))>> >>)
Kern(X, bw) == NExp(NNeg(NDiv(SqD(X), NMul(2, NMul(bw, bw)))))
Med(v) == LET s == NSort(v) n == NLen(v) IN IF n % 2 = 1 THEN NAt(s, (n + 1) \div 2) ELSE NMul("0.5", NAdd(NAt(s, n \div 2), NAt(s, n \div 2 + 1)))
LowerV(D) == LET n == NNR(D) c == SetToSeq({<<i, j>> \in (1..n) \X (1..n) : i > j}) IN N(Tup([k \in 1..Len(c) |-> NEl(D, c[k][1], c[k][2])]))
Hsic(K, L) == LET n == NNR(K) IN NAdd(NSub(NDiv(NSum(NMul(K, L)), n*n), NMul(2, NDiv(NDot(NVec(NRowSum(K)), NVec(NRowSum(L))), n*n*n))), NDiv(NMul(NSum(K), NSum(L)), n*n*n*n))
HsicA == Is("hsic") /\ st' = st /\ Judge(LET e == Ev X == N(e.X) Y == N(e.Y) n == NNR(X) K == Kern(X, e.bx) L == Kern(Y, e.by) s == Hsic(K, L)
      ps == Perms(n) vals == IF e.perm THEN Tup([k \in 1..Len(ps) |-> Hsic(K, NSub2(L, Tup(ps[k]), Tup(ps[k])))]) ELSE <<>> IN <<
   <<"kernel-independence-statistic", NNear(e.s, s, "1e-9")>>,
   <<"median-bandwidth", ~e.med \/ (NNear(e.bx, NSqrt(NMul("0.5", Med(LowerV(SqD(X))))), "1e-9") /\ NNear(e.by, NSqrt(NMul("0.5", Med(LowerV(SqD(Y))))), "1e-9"))>>,
   <<"kernel-independence-permutations", ~e.perm \/ Uniform(e.draws, vals)>>,
   <<"kernel-independence-p-value", ~e.perm \/ NNear(e.p, NDiv(Cardinality({b \in 1..Len(e.draws) : NLt(NAbs(e.s), NAbs(e.draws[b]))}), Len(e.draws)), "1e-12")>> >>)
Init == TInit(<<>>)
Next == \/ CcaA \/ SimA \/ ThreshA \/ SccaA \/ FoldsA \/ CvA \/ ResA \/ IcaA \/ ReconA \/ NmfStepA \/ NmfA \/ CenA \/ UtilA \/ DcorA \/ HsicA
        \/ Raised \/ Unchanged \/ Finished
Spec == Init /\ [][Next]_vars
=============================================================================
