-------------------------------- MODULE P20 --------------------------------
(* Penalised regression.  A session fixes the data Tr.X, Tr.y, Tr.w and the    *)
(* family; a solution of the elastic net is what satisfies the optimality       *)
(* conditions of the penalised deviance, whatever algorithm found it.  The      *)
(* LARS path is a state machine: one predictor joins or leaves per step and the *)
(* path is optimal at and between its knots.                                    *)
EXTENDS TraceBase, ExpFam, FiniteSetsExt, SequencesExt
AllRows == Tup([i \in 1..Tr.n |-> i])
ColMean(X) == NDiv(NColSum(X), NNR(X))
Demean(X) == NSub(X, NMM(NFull(NNR(X), 1, 1), NT(ColMean(X))))
Sd0(X) == LET Z == Demean(X) IN NSqrt(NDiv(NColSum(NMul(Z, Z)), NNR(X)))
Std(X) == NMM(Demean(X), NInv(NDiag(Sd0(X))))
(* the design of a fit: the rows it sees, on the scale the solver optimises *)
Des(e) == LET X == N(Tr.X) Z == IF e.pre THEN Std(X) ELSE X S == NRowsOf(Z, e.rows) IN IF e.std THEN Std(S) ELSE S
Yof(e) == NRowsOf(N(Tr.y), e.rows)
Wof(e) == LET w == NRowsOf(N(Tr.w), e.rows) IN IF e.wnorm THEN NDiv(w, NSum(w)) ELSE w
Lk(f) == CASE f = "Gaussian" -> "identity" [] f = "Binomial" -> "logit" [] f = "Poisson" -> "log" [] f = "Gamma" -> "log"
DMu(f, mu) == CASE f = "Gaussian" -> NAdd(NMul(0, mu), 1) [] f = "Binomial" -> NMul(mu, NSub(1, mu)) [] f \in {"Poisson", "Gamma"} -> mu
Mu(f, X, b0, b) == InvLink(Lk(f), 0, NAdd(NMM(X, b), b0))
ScoreOf(f, X, y, w, b0, b) == LET mu == Mu(f, X, b0, b) IN NDiv(NMul(w, NMul(NSub(y, mu), DMu(f, mu))), UnitVar(f, mu, 0))
Pen(b, lam, al) == NMul(lam, NAdd(NMul(al, NSum(NAbs(b))), NMul(NDiv(NSub(1, al), 2), NDot(b, b))))
Dev(f, y, mu, w) == NSum(Deviance(f, y, mu, w, 1, 0))
(* distance from the optimality conditions, per coefficient *)
Gap(g, b, lam, al) == LET la == NMul(lam, al) h == NSub(g, NMul(NMul(lam, NSub(1, al)), b)) IN
   NIf(NEqI(b, 0), NMax2(NSub(NAbs(g), la), NMul(0, b)), NAbs(NSub(h, NMul(la, NSign(b)))))
Optimal(f, X, y, w, b0, b, lam, al, tol) == NLe(Gap(NMM(NT(X), ScoreOf(f, X, y, w, b0, b)), b, lam, al), tol)
Judged(e) == {k \in 1..NLen(N(e.lams)) : Has(e, "conv") => e.conv[k]}
B0(e, k) == IF e.icpt = "mean" THEN NMean(Yof(e)) ELSE IF e.icpt = "zero" THEN N(0) ELSE NAt(N(e.b0), k)
(* a path of solutions: one row of e.B per penalty *)
PathA == Is("path") /\ st' = st /\ Judge(LET e == Ev X == Des(e) y == Yof(e) w == Wof(e) B == N(e.B) L == N(e.lams) f == Tr.fam IN <<
   <<"path-shape", NNR(B) = NLen(L) /\ NNC(B) = NNC(X)>>,
   <<"optimality-conditions", \A k \in Judged(e) : Optimal(f, X, y, w, B0(e, k), NRow(B, k), NAt(L, k), e.alpha, e.tol)>>,
   <<"intercept-optimal", e.icpt = "free" => \A k \in Judged(e) : NLe(NAbs(NSum(ScoreOf(f, X, y, w, B0(e, k), NRow(B, k)))), e.tol)>>,
   <<"all-zero-at-the-largest-penalty", e.grid => NEq(NRow(B, 1), NFull(NNC(X), 1, 0))>>,
   <<"no-intercept", (e.icpt = "zero" /\ Has(e, "b0")) => NEq(N(e.b0), NFull(NLen(L), 1, 0))>> >>)
(* the grid of penalties: from the smallest one that selects nothing, log-linearly down *)
GridA == Is("grid") /\ st' = st /\ Judge(LET e == Ev X == Des(e) y == Yof(e) w == Wof(e) L == N(e.lams) f == Tr.fam
      mu0 == IF e.icpt = "zero" THEN (IF f = "Binomial" THEN N("0.5") ELSE N(0)) ELSE NDiv(NDot(w, y), NSum(w))
      mu == NFull(NLen(y), 1, mu0) g == NMM(NT(X), NDiv(NMul(w, NMul(NSub(y, mu), DMu(f, mu))), UnitVar(f, mu, 0))) m == NLen(L) IN <<
   <<"largest-penalty", Has(e, "top") => NNear(NAt(L, 1), NDiv(NMax(NAbs(g)), NMax2(e.alpha, "1e-3")), "1e-9")>>,
   <<"log-linear-grid", NNear(NLn(L), N(Tup([k \in 1..m |-> NAdd(NLn(NAt(L, 1)), NMul(NDiv(k - 1, m - 1), NSub(NLn(NAt(L, m)), NLn(NAt(L, 1)))))])), "1e-9")>>,
   <<"smallest-penalty", Has(e, "ratio") => NClose(NAt(L, m), NMul(e.ratio, NAt(L, 1)), "1e-9", "0")>>,
   <<"null-model", Has(e, "null") => NNear(e.null[1], Dev(f, y, mu, w), "1e-9") /\ NNear(e.null[2], N(Tup([k \in 1..(NNC(X)+1) |-> IF k = 1 THEN Link(Lk(f), 0, mu0) ELSE N(0)])), "1e-9")
        /\ NNear(e.null[3], NFull(NLen(y), 1, Link(Lk(f), 0, mu0)), "1e-9") /\ NNear(e.null[4], mu, "1e-9")>> >>)
(* penalty, objective, their derivatives, at any coefficients *)
ObjA == Is("obj") /\ st' = st /\ Judge(LET e == Ev X == Des(e) y == Yof(e) w == Wof(e) b == N(e.b) b0 == N(e.b0) f == Tr.fam p == NLen(b)
      D(z) == Dev(f, y, Mu(f, X, NAt(z, 1), NPos(z, 2, p + 1)), w) P(z) == Pen(NPos(z, 2, p + 1), e.lam, e.alpha)
      F(z) == NAdd(NDiv(D(z), 2), P(z)) z == NVcat(b0, b) IN <<
   <<"penalty", \A k \in 1..Len(e.pen) : NNear(e.pen[k], P(z), "1e-10")>>,
   <<"deviance", \A k \in 1..Len(e.dev) : NNear(e.dev[k], D(z), "1e-9")>>,
   <<"half-deviance", \A k \in 1..Len(e.hdev) : NNear(e.hdev[k], NDiv(D(z), 2), "1e-9")>>,
   <<"objective", \A k \in 1..Len(e.obj) : NNear(e.obj[k], F(z), "1e-9")>>,
   <<"penalty-gradient", Has(e, "dpen") => NNear(e.dpen, NPos(NumGrad(P, z), 2, p + 1), "1e-6")>>,
   <<"deviance-gradient", Has(e, "ddev") => NNear(e.ddev, NumGrad(D, z), "1e-6")>>,
   <<"objective-gradient", (Has(e, "dobj") => NNear(e.dobj, NumGrad(F, z), "1e-6")) /\ (Has(e, "dobjb") => NNear(e.dobjb, NPos(NumGrad(F, z), 2, p + 1), "1e-6"))>>,
   <<"deviance-hessian", Has(e, "hdevm") => NNear(e.hdevm, NumHess(D, z), "1e-5")>>,
   <<"penalty-hessian", Has(e, "hpen") => NNear(e.hpen, NumHess(P, z), "1e-5")>>,
   <<"objective-hessian", Has(e, "hobj") => NNear(e.hobj, NumHess(F, z), "1e-5")>> >>)
(* cross-validation: the folds partition the rows, evenly within every class *)
Disjoint(S) == \A a, b \in 1..Len(S) : a # b => ToSet(S[a]) \cap ToSet(S[b]) = {}
FoldsA == Is("folds") /\ st' = st /\ Judge(LET e == Ev V == e.test K == Len(V) all == 1..e.n
      cls == IF e.strat THEN {{i \in all : e.y[i] = c} : c \in ToSet(e.y)} ELSE {all} IN <<
   <<"folds-partition-the-rows", Disjoint(V) /\ (UNION {ToSet(V[k]) : k \in 1..K}) = all /\ \A k \in 1..K : Cardinality(ToSet(V[k])) = Len(V[k])>>,
   <<"folds-even", \A c \in cls : LET s == {Cardinality(c \cap ToSet(V[k])) : k \in 1..K} IN Max(s) - Min(s) <= 1>>,
   <<"fitting-rows-are-the-others", \A k \in 1..K : ToSet(e.fit[k]) = all \ ToSet(V[k]) /\ Len(e.fit[k]) = Cardinality(all \ ToSet(V[k]))>>,
   <<"folds-of-the-data", Has(e, "Xf") => \A k \in 1..K : NEq(N(e.Xf[k]), NRowsOf(N(Tr.X), e.fit[k])) /\ NEq(N(e.Xt[k]), NRowsOf(N(Tr.X), V[k])) /\ NEq(N(e.yf[k]), NRowsOf(N(Tr.y), e.fit[k])) /\ NEq(N(e.yt[k]), NRowsOf(N(Tr.y), V[k]))>> >>)
(* held-out errors of one fold, one row per penalty *)
HeldA == Is("held") /\ st' = st /\ Judge(LET e == Ev X0 == IF e.pre THEN Std(N(Tr.X)) ELSE N(Tr.X) Xf == NRowsOf(X0, e.rows) T == NRowsOf(X0, e.test)
      X == IF e.std THEN NMM(NSub(T, NMM(NFull(NNR(T), 1, 1), NT(ColMean(Xf)))), NInv(NDiag(Sd0(Xf)))) ELSE T
      yt == NRowsOf(N(Tr.y), e.test) y == IF e.centre THEN NSub(yt, NMean(yt)) ELSE yt w0 == NRowsOf(N(Tr.w), e.test) w == NDiv(w0, NSum(w0)) B == N(e.B) L == N(e.lams) f == Tr.fam
      D(k) == Dev(f, y, Mu(f, X, IF e.icpt = "free" THEN NAt(N(e.b0), k) ELSE N(0), NRow(B, k)), w) P(k) == Pen(NRow(B, k), NAt(L, k), e.alpha) IN <<
   <<"held-out-deviance", NNear(e.dev, N(Tup([k \in 1..NLen(L) |-> NMul(e.scale, D(k))])), "1e-9")>>,
   <<"held-out-penalty", Has(e, "pen") => NNear(e.pen, N(Tup([k \in 1..NLen(L) |-> P(k)])), "1e-9")>>,
   <<"held-out-objective", Has(e, "obj") => NNear(e.obj, N(Tup([k \in 1..NLen(L) |-> NAdd(NDiv(D(k), 2), P(k))])), "1e-9")>> >>)
(* the penalty with the smallest mean held-out error is the one reported *)
RowMean(F) == NDiv(NRowSum(F), NNC(F))
SelA == Is("select") /\ st' = st /\ Judge(LET e == Ev F == N(e.F) m == RowMean(F) K == NNC(F) L == N(e.lams)
      sd == NSqrt(NDiv(NSub(NRowSum(NMul(F, F)), NMul(K, NMul(m, m))), K - 1)) i == e.at IN <<
   <<"selected-penalty", NLe(NAt(m, i), NAdd(NMin(m), "1e-12")) /\ NEq(NAt(L, i), N(e.lam))>>,
   <<"selected-coefficients", Has(e, "beta") => NSame(N(e.beta), NRow(N(e.B), i))>>,
   <<"selected-intercept", Has(e, "b0") => NNear(e.b0, e.b0s, "1e-12")>>,
   <<"error-summary", Has(e, "mean") => NNear(e.mean, m, "1e-10") /\ NNear(e.se, NDiv(sd, NSqrt(K)), "1e-8")>>,
   <<"nonzero-counts", Has(e, "nnz") => e.nnz = Tup([k \in 1..NLen(L) |-> Cardinality({j \in 1..NNC(N(e.B)) : ~NEq(NEl(N(e.B), k, j), 0)})])>> >>)
(* what a fitted path reports about itself *)
FittedA == Is("fitted") /\ st' = st /\ Judge(LET e == Ev X == Des(e) y == Yof(e) w == Wof(e) B == N(e.B) f == Tr.fam p == NNC(X)
      mu(k) == Mu(f, X, NEl(B, k, 1), NPos(NRow(B, k), 2, p + 1)) y0 == NFull(NLen(y), 1, NDiv(NDot(w, y), NSum(w))) IN <<
   <<"path-deviances", NNear(e.devs, N(Tup([k \in 1..NNR(B) |-> Dev(f, y, mu(k), w)])), "1e-9")>>,
   <<"deviance-ratios", NNear(e.ratios, NSub(1, NDiv(e.devs, Dev(f, y, y0, w))), "1e-9")>>,
   <<"fitted-means", LET b == N(e.beta) z == NAdd(NMM(X, NPos(b, 2, p + 1)), NAt(b, 1)) IN NNear(e.eta, z, "1e-9") /\ NNear(e.mu, InvLink(Lk(f), 0, z), "1e-9")>> >>)
PredA == Is("predict") /\ st' = st /\ Judge(LET e == Ev X == Des(e) IN <<
   <<"prediction", NNear(e.yhat, NAdd(NMM(X, e.b), e.b0), "1e-10")>> >>)
(* proximal-gradient histories *)
ProxA == Is("prox") /\ st' = st /\ Judge(LET e == Ev X == Des(e) y == Yof(e) w == Wof(e) b == N(e.b) H == N(e.hist) m == NNR(H)
      F(v) == NDiv(Dev("Gaussian", y, NMM(X, v), w), 2) P(v) == Pen(v, e.lam, 1) IN <<
   <<"lasso-optimality", Optimal("Gaussian", X, y, w, N(0), b, e.lam, 1, e.tol)>>,
   <<"objective-never-increases", \A k \in 1..(m-1) : NLe(NEl(H, k+1, 3), NAdd(NEl(H, k, 3), "1e-12"))>>,
   <<"history-of-the-objective", NNear(NRow(H, 1), N(<<F(N(e.start)), P(N(e.start)), NAdd(F(N(e.start)), P(N(e.start)))>>), "1e-9") /\ NNear(NRow(H, m), N(<<F(b), P(b), NAdd(F(b), P(b))>>), "1e-7") /\ \A k \in 1..m : NNear(NAdd(NEl(H, k, 1), NEl(H, k, 2)), NEl(H, k, 3), "1e-10")>> >>)
FvalsA == Is("fvals") /\ st' = st /\ Judge(LET e == Ev X == Des(e) y == Yof(e) w == Wof(e) H == N(e.hist) m == NNR(H) b == N(e.b) b0 == B0(e, 1)
      D == Dev(Tr.fam, y, Mu(Tr.fam, X, b0, b), w) P == Pen(b, e.lam, e.alpha) IN <<
   <<"descent", e.rows3 => \A k \in 1..(m-1) : NLe(NEl(H, k+1, 3), NAdd(NEl(H, k, 3), "1e-12"))>>,
   <<"last-objective", e.rows3 => NNear(NRow(H, m), N(<<NDiv(D, 2), P, NAdd(NDiv(D, 2), P)>>), "1e-8")>>,
   <<"last-objective-value", (~e.rows3) => NNear(NAt(H, NLen(H)), NAdd(NDiv(D, 2), P), "1e-7")>> >>)
(* the LARS / lasso path as a state machine: st = <<penalty, coefficients>> of the previous knot *)
Zc(e) == IF e.icpt THEN Demean(Des(e)) ELSE Des(e)
Yc(e) == LET y == Yof(e) IN IF e.icpt THEN NSub(y, NMean(y)) ELSE y
Support(b) == {j \in 1..NLen(b) : ~NLe(NAbs(NAt(b, j)), "1e-9")}
Equi(e, b, lam) == LET n == NNR(Zc(e)) g == NDiv(NMM(NT(Zc(e)), NSub(Yc(e), NMM(Zc(e), b))), n) IN NLe(Gap(g, b, lam, 1), "1e-7")
KnotA == Is("knot") /\ st' = <<Ev.lam, Ev.b>> /\ Judge(LET e == Ev b == N(e.b) lam == N(e.lam) X == Zc(e) n == NNR(X) y == Yc(e)
      g == NDiv(NMM(NT(X), NSub(y, NMM(X, b))), n) first == st = <<>> b1 == N(st[2]) l1 == N(st[1]) S == Support(b) S1 == Support(b1) IN <<
   <<"path-starts-at-zero", first => NEq(b, NFull(NNC(X), 1, 0)) /\ NNear(lam, NMax(NAbs(g)), "1e-9")>>,
   <<"penalties-decrease", (~first) => NLe(lam, NAdd(l1, "1e-12"))>>,
   <<"knot-optimal", e.lasso => Equi(e, b, lam)>>,
   <<"optimal-between-knots", (e.lasso /\ ~first) => \A m \in {"0.25", "0.5", "0.9"} : Equi(e, NAdd(NMul(m, b1), NMul(NSub(1, m), b)), NAdd(NMul(m, l1), NMul(NSub(1, m), lam)))>>,
   <<"one-predictor-per-step", (~first /\ e.lasso) => Cardinality(S \ S1) <= 1 /\ (S \ S1 = {} => Cardinality(S1 \ S) >= 1 \/ e.last \/ S = S1)>>,
   <<"equal-correlations", (~e.lasso) => \A j \in S : NNear(NAbs(NAt(g, j)), lam, "1e-8")>>,
   <<"largest-correlation", NNear(NMax(NAbs(g)), lam, "1e-8")>>,
   <<"ends-at-least-squares", e.last => NNear(b, NSolve(NMM(NT(X), X), NMM(NT(X), y)), "1e-7") /\ NNear(lam, 0, "1e-9")>> >>)
SumA == Is("sumstats") /\ st' = st /\ Judge(LET e == Ev X == Des(e) y == Yof(e) B == N(e.B) n == NNR(X) m == NNR(B)
      R == NSub(NMM(y, NFull(1, m, 1)), NMM(X, NT(B))) ssr == NColSum(NMul(R, R)) df == N(Tup([k \in 1..m |-> Cardinality({j \in 1..NNC(B) : ~NEq(NEl(B, k, j), 0)})]))
      s2 == IF e.how = "yvar" THEN NDiv(NSum(NMul(NSub(y, NMean(y)), NSub(y, NMean(y)))), n) ELSE IF e.how = "given" THEN N(e.s2)
            ELSE LET b == NSolve(NMM(NT(X), X), NMM(NT(X), y)) r == NSub(y, NMM(X, b)) IN NDiv(NDot(r, r), n) IN <<
   <<"path-summary", NNear(e.ssr, ssr, "1e-9") /\ NNear(e.df, df, "1e-12") /\ NNear(e.aic, NAdd(NDiv(ssr, s2), NMul(2, df)), "1e-8")
      /\ NNear(e.bic, NAdd(NDiv(ssr, s2), NMul(NLn(n), df)), "1e-8") /\ NNear(e.rsq, NSub(1, NDiv(ssr, NMul(n, s2))), "1e-8")>> >>)
SftA == Is("soft") /\ st' = st /\ Judge(LET e == Ev x == N(e.x) t == N(e.t) IN <<
   <<"soft-threshold", \A k \in 1..Len(e.v) : NNear(e.v[k], NMul(NSign(x), NMax2(NSub(NAbs(x), t), NMul(0, x))), "1e-14")>> >>)
(* the simulator of sparse regressions *)
SimA == Is("sparse") /\ st' = st /\ Judge(LET e == Ev X == N(e.X) n == NNR(X) p == NNC(X) b == N(e.beta) eta == NMM(X, b) q == e.nnz
      v == NSub(NDiv(NDot(eta, eta), n), NMul(NMean(eta), NMean(eta))) IN <<
   <<"unit-mean-square-columns", NNear(NDiv(NColSum(NMul(X, X)), n), NFull(p, 1, 1), "1e-9")>>,
   <<"design-correlation", e.exact => NNear(NDiv(NMM(NT(X), X), n), NMat(p, p, N(Tup([k \in 1..(p*p) |-> LET i == (k-1) \div p j == (k-1) % p IN NPow(e.rho, IF i > j THEN i - j ELSE j - i)]))), "1e-9")>>,
   <<"nonzero-coefficients", Cardinality(Support(b)) = q>>,
   <<"unit-coefficients-balanced", e.default => \A j \in Support(b) : NEq(NAbs(NAt(b, j)), 1)>>,
   <<"linear-predictor", NNear(e.eta, eta, "1e-10")>>,
   <<"residual-scale", NNear(NMul(e.scale, e.scale), NMul(v, NDiv(NSub(1, e.rsq), e.rsq)), "1e-9")>>,
   <<"response", IF e.dist = "gaussian" THEN e.shape[1] = n /\ NLe(NAbs(NSub(NMean(NSub(e.y, NMM(eta, NFull(1, NNC(N(e.y)), 1)))), 0)), NMul(e.scale, NDiv(6, NSqrt(NLen(N(e.y))))))
        /\ NNear(NSqrt(NMean(NMul(NSub(e.y, NMM(eta, NFull(1, NNC(N(e.y)), 1))), NSub(e.y, NMM(eta, NFull(1, NNC(N(e.y)), 1)))))), e.scale, NDiv(6, NSqrt(NLen(N(e.y)))))
        ELSE e.shape[1] = n /\ NLe(N(e.y), 1) /\ NLe(0, N(e.y)) /\ NNear(NMul(e.y, e.bn), NFloor(NAdd(NMul(e.y, e.bn), "0.5")), "1e-9")>> >>)
Init == TInit(<<>>)
Next == PathA \/ GridA \/ ObjA \/ FoldsA \/ HeldA \/ SelA \/ FittedA \/ PredA \/ ProxA \/ FvalsA \/ KnotA \/ SumA \/ SftA \/ SimA \/ Raised \/ Unchanged \/ Finished
Spec == Init /\ [][Next]_vars
=============================================================================
