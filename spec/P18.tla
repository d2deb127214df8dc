-------------------------------- MODULE P18 --------------------------------
(* Latent correlations of ordinal data.  The session's data Tr.Y (one tuple of   *)
(* integer codes per variable, NA = missing) is the state the definitions read:  *)
(* thresholds, cell counts, cell probabilities, likelihoods, estimates and their *)
(* asymptotic covariance all follow from it.                                     *)
EXTENDS TraceBase, Transforms, Infer, FiniteSetsExt, SequencesExt
NA == -99
Sorted(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
Rows(i, j) == {k \in 1..Len(Tr.Y[1]) : Tr.Y[i][k] # NA /\ Tr.Y[j][k] # NA}
Cats(v, K) == Sorted({Tr.Y[v][k] : k \in K})
Own(v) == Rows(v, v)
(* thresholds of variable v from the rows K: normal quantiles of the cumulative proportions *)
Tau(v, K) == LET c == Cats(v, K) n == Cardinality(K) IN
   IF Len(c) = 1 THEN <<>> ELSE NProbit(N(Tup([m \in 1..(Len(c)-1) |-> NDiv(Cardinality({k \in K : Tr.Y[v][k] <= c[m]}), n)])))
Counts(i, j, K) == LET a == Cats(i, K) b == Cats(j, K) IN
   NMat(Len(a), Len(b), N(Tup([q \in 1..(Len(a)*Len(b)) |-> LET x == ((q-1) \div Len(b)) + 1 y == ((q-1) % Len(b)) + 1 IN Cardinality({k \in K : Tr.Y[i][k] = a[x] /\ Tr.Y[j][k] = b[y]})])))
(* P(X <= a-th threshold, Y <= b-th), thresholds 0 and last+1 at -/+ infinity *)
CB(s, a, t, b, r) == IF a = 0 \/ b = 0 THEN N(0) ELSE IF a > NLen(s) /\ b > NLen(t) THEN N(1) ELSE IF a > NLen(s) THEN NPhi(NAt(t, b)) ELSE IF b > NLen(t) THEN NPhi(NAt(s, a)) ELSE NBvn(NAt(s, a), NAt(t, b), r)
Grid(s, t, F(_,_)) == LET p == NLen(s) + 1 q == NLen(t) + 1
    C == Tup([a \in 1..(p+1) |-> Tup([b \in 1..(q+1) |-> F(a - 1, b - 1)])]) IN
   NMat(p, q, N(Tup([k \in 1..(p*q) |-> LET a == ((k-1) \div q) + 1 b == ((k-1) % q) + 1 IN NSub(NAdd(C[a+1][b+1], C[a][b]), NAdd(C[a+1][b], C[a][b+1]))])))
Cell(s, t, r) == Grid(s, t, LAMBDA a, b : CB(s, a, t, b, r))
(* derivative of the cell probabilities in the correlation: differences of the density *)
Dens(x, y, r) == LET d == NSub(1, NMul(r, r)) IN NDiv(NExp(NNeg(NDiv(NSub(NAdd(NMul(x, x), NMul(y, y)), NMul(2, NMul(r, NMul(x, y)))), NMul(2, d)))), NMul(NMul(2, NPi), NSqrt(d)))
DCell(s, t, r) == Grid(s, t, LAMBDA a, b : IF a = 0 \/ b = 0 \/ a > NLen(s) \/ b > NLen(t) THEN N(0) ELSE Dens(NAt(s, a), NAt(t, b), r))
LL(C, P) == NNeg(NSum(NMul(C, NLn(NIf(NGtI(C, 0), P, NFull(NNR(P), NNC(P), 1))))))
QL(C, s, t, r) == LL(C, Cell(s, t, r))
Dq(C, s, t, r) == NNeg(NSum(NMul(C, NDiv(DCell(s, t, r), Cell(s, t, r)))))
KOf(e) == IF e.cls = "paircorr" THEN Rows(e.i, e.j) ELSE Own(e.i)
KOfJ(e) == IF e.cls = "paircorr" THEN Rows(e.i, e.j) ELSE Own(e.j)
PairA == Is("pair") /\ st' = st /\ Judge(LET e == Ev s == Tau(e.i, KOf(e)) t == Tau(e.j, KOfJ(e)) C == Counts(e.i, e.j, Rows(e.i, e.j)) r == N(e.r) F(z) == QL(C, s, t, z) Y(z) == F(NTanh(z)) y == Atanh(r) IN <<
   <<"cell-counts", Has(e, "C") => NEq(N(e.C), C)>>,
   <<"cell-probabilities", NNear(e.P, Cell(s, t, r), "1e-10") /\ NNear(NSum(N(e.P)), 1, "1e-10")>>,
   <<"cell-probability-derivatives", (Has(e, "dP") => NNear(e.dP, DCell(s, t, r), "1e-10")) /\ (Has(e, "d2P") => LET D(z) == DCell(s, t, z) IN NNear(e.d2P, D1(D, r), "1e-9"))>>,
   <<"loglikelihood-of-the-correlation", NClose(e.ll, F(r), "1e-8", "1e-8")>>,
   <<"score-of-the-correlation", NClose(e.g, D1(F, r), "1e-6", e.at)>>,
   <<"information-of-the-correlation", NClose(e.h, D2(F, r), "1e-5", e.at)>>,
   <<"unconstrained-scale", Has(e, "gt") => NClose(e.llt, F(r), "1e-8", "1e-8") /\ NClose(e.gt, D1(Y, y), "1e-6", e.at) /\ NClose(e.ht, D2(Y, y), "1e-5", e.at)>> >>)
FullA == Is("full") /\ st' = st /\ Judge(LET e == Ev K == Own(e.i) C == Counts(e.i, e.j, K) x == N(e.x) m == NNR(C) - 1 l == NNC(C) - 1
      F(z) == QL(C, NPos(z, 1, m), NPos(z, m + 1, m + l), NAt(z, m + l + 1)) Pr(z) == NVec(NT(Cell(NPos(z, 1, m), NPos(z, m + 1, m + l), NAt(z, m + l + 1))))
      map == [t |-> "blocks", of |-> << [map |-> [t |-> "ordered"], len |-> m], [map |-> [t |-> "ordered"], len |-> l], [map |-> [t |-> "tanh"], len |-> 1] >>]
      y == FwM(map, x) G(z) == F(RvM(map, z)) IN <<
   <<"predicted-cells", NNear(e.P, Cell(NPos(x, 1, m), NPos(x, m + 1, m + l), NAt(x, m + l + 1)), "1e-10")>>,
   <<"cell-jacobian", NNear(e.dP, NumJac(Pr, x), "1e-8")>>,
   <<"full-loglikelihood", NClose(e.ll, F(x), "1e-8", "1e-8")>>,
   <<"full-score", NNear(e.g, NumGrad(F, x), e.rt)>>,
   <<"full-information", NNear(e.H, NumHess(F, x), e.rt)>>,
   <<"full-unconstrained", NClose(e.llt, F(x), "1e-8", "1e-8") /\ NNear(e.gt, NumGrad(G, y), e.rt) /\ NNear(e.Ht, NumHess(G, y), e.rt)>> >>)
(* one estimate per pair, in the order of the strict lower triangle taken column by column *)
Pairs == LCells(Len(Tr.Y))
FitA == Is("fit") /\ st' = st /\ Judge(LET e == Ev p == Len(Tr.Y) rho == N(e.rho) IN <<
   <<"pair-order", (Has(e, "pairs") => e.pairs = Pairs) /\ NLen(rho) = Len(Pairs)>>,
   <<"correlation-matrix", Has(e, "R") => NNear(e.R, CorrOf(rho, p), "1e-12")>>,
   <<"estimates-inside", \A k \in 1..Len(Pairs) : NLt(NAbs(NAt(rho, k)), 1)>>,
   <<"estimates-stationary", \A k \in 1..Len(Pairs) : LET i == Pairs[k][1] j == Pairs[k][2] K == Rows(i, j) C == Counts(i, j, K)
        s == IF Has(e, "tau") THEN N(e.tau[k][1]) ELSE IF e.cls = "paircorr" THEN Tau(i, K) ELSE Tau(i, Own(i))
        t == IF Has(e, "tau") THEN N(e.tau[k][2]) ELSE IF e.cls = "paircorr" THEN Tau(j, K) ELSE Tau(j, Own(j)) r == NAt(rho, k)
        D(z) == Dq(C, s, t, z) IN NLe(NAbs(NDiv(D(r), D1(D, r))), e.tol) /\ NLt(0, D1(D, r))>>,
   <<"thresholds-stationary", Has(e, "tau") => \A k \in 1..Len(Pairs) : LET i == Pairs[k][1] j == Pairs[k][2] C == Counts(i, j, Rows(i, j)) m == NLen(N(e.tau[k][1])) l == NLen(N(e.tau[k][2])) r == NAt(rho, k)
        F(z) == QL(C, NPos(z, 1, m), NPos(z, m + 1, m + l), r) x == NVcat(N(e.tau[k][1]), N(e.tau[k][2])) IN
        NNear(NDiv(NumGrad(F, x), Len(Tr.Y[1])), NFull(m + l, 1, 0), e.tol)>>,
   <<"standard-errors", Has(e, "se") => \A k \in 1..Len(Pairs) : LET i == Pairs[k][1] j == Pairs[k][2] C == Counts(i, j, Rows(i, j))
        s == IF e.cls = "paircorr" THEN Tau(i, Rows(i, j)) ELSE Tau(i, Own(i)) t == IF e.cls = "paircorr" THEN Tau(j, Rows(i, j)) ELSE Tau(j, Own(j)) D(z) == Dq(C, s, t, z) IN
        NClose(NAt(N(e.se), k), NDiv(1, NSqrt(D1(D, NAt(rho, k)))), "1e-5", "0")>>,
   <<"error-matrix", Has(e, "S") => LET s == N(e.se) IN NNear(e.S, NSub(CorrOf(s, p), NEye(p)), "1e-12")>> >>)
(* influence of one observation on a two-step polychoric correlation: the score of the cell it falls in,
   corrected for the thresholds having been estimated from the margins *)
DTau(s, t, r, k) == (* derivative of every cell in the k-th row threshold: the strip between rows k and k+1 *)
   LET p == NLen(s) + 1 q == NLen(t) + 1 x == NAt(s, k) d == NSqrt(NSub(1, NMul(r, r)))
       up(b) == IF b = 0 THEN N(0) ELSE IF b > NLen(t) THEN N(1) ELSE NPhi(NDiv(NSub(NAt(t, b), NMul(r, x)), d)) IN
   NMat(p, q, N(Tup([m \in 1..(p*q) |-> LET a == ((m-1) \div q) + 1 b == ((m-1) % q) + 1 v == NMul(NPdf(x), NSub(up(b), up(b-1))) IN IF a = k THEN v ELSE IF a = k + 1 THEN NNeg(v) ELSE N(0)])))
Inf(s, t, r) == LET P == Cell(s, t, r) D == DCell(s, t, r) A == NDiv(D, P) p == NNR(P) q == NNC(P)
      h1 == Tup([k \in 1..(p-1) |-> NSum(NMul(A, DTau(s, t, r, k)))]) h2 == Tup([k \in 1..(q-1) |-> NSum(NMul(NT(A), DTau(t, s, r, k)))])
      f1 == Tup([a \in 1..p |-> NSum(N(<<N(0)>> \o Tup([k \in 1..(p-1) |-> NMul(h1[k], NDiv(NSub(IF a <= k THEN 1 ELSE 0, NPhi(NAt(s, k))), NPdf(NAt(s, k))))])))])
      f2 == Tup([b \in 1..q |-> NSum(N(<<N(0)>> \o Tup([k \in 1..(q-1) |-> NMul(h2[k], NDiv(NSub(IF b <= k THEN 1 ELSE 0, NPhi(NAt(t, k))), NPdf(NAt(t, k))))])))])
      I == NSum(NMul(A, D)) IN
   NMat(p, q, N(Tup([m \in 1..(p*q) |-> LET a == ((m-1) \div q) + 1 b == ((m-1) % q) + 1 IN NDiv(NSub(NSub(NEl(A, a, b), f1[a]), f2[b]), I)])))
Ranks(v) == LET c == Cats(v, Own(v)) IN Tup([k \in 1..Len(Tr.Y[1]) |-> CHOOSE m \in 1..Len(c) : c[m] = Tr.Y[v][k]])
AcovOf(rho) == LET n == Len(Tr.Y[1]) rk == Tup([v \in 1..Len(Tr.Y) |-> Ranks(v)]) ta == Tup([v \in 1..Len(Tr.Y) |-> Tau(v, Own(v))])
      G == N(Tup([k \in 1..Len(Pairs) |-> LET i == Pairs[k][1] j == Pairs[k][2] W == Inf(ta[i], ta[j], NAt(rho, k)) IN N(Tup([o \in 1..n |-> NEl(W, rk[i][o], rk[j][o])]))]))
   IN NDiv(NMM(G, NT(G)), n)
AcovA == Is("acov") /\ st' = st /\ Judge(LET e == Ev rho == N(e.rho) n == Len(Tr.Y[1]) V == AcovOf(rho) IN <<
   <<"asymptotic-covariance", \A k \in 1..Len(e.V) : NNear(NMul(e.V[k], NDiv(e.n, n)), NDiv(V, n), "1e-7") /\ NClose(NDg(NMul(e.V[k], NDiv(e.n, n))), NDg(NDiv(V, n)), "1e-6", "0")>>,
   <<"asymptotic-errors", Has(e, "se") => NClose(e.se, NSqrt(NDg(NDiv(V, n))), "1e-6", "0")>>,
   <<"correlation-table", Has(e, "tab") => ParTable(rho, NSqrt(NDg(NDiv(V, n))), e.tab, n, "0.05")>>,
   <<"correlation-labels", Has(e, "lab") => e.lab = Tup([k \in 1..Len(Pairs) |-> "r(" \o Tr.names[Pairs[k][1]] \o ", " \o Tr.names[Pairs[k][2]] \o ")"])>>,
   <<"degrees-of-freedom", Has(e, "df") => e.df = Tup([k \in 1..Len(Pairs) |-> n - 1 - NLen(Tau(Pairs[k][1], Own(Pairs[k][1]))) - NLen(Tau(Pairs[k][2], Own(Pairs[k][2])))])>>,
   <<"re-indexed-covariance", Has(e, "conv") => LET p == Len(Tr.Y) lex == Tup([q \in 1..Len(Pairs) |-> Cardinality({a \in 1..Len(Pairs) : Pairs[a][1] < Pairs[q][1] \/ (Pairs[a][1] = Pairs[q][1] /\ Pairs[a][2] <= Pairs[q][2])})]) IN
        NEq(N(e.conv), NSub2(N(e.V[1]), lex, lex))>> >>)
(* polyserial: continuous x (standardised), ordinal variable 1 of Tr.Y *)
Std(x) == LET m == NMean(x) d == NSub(x, m) IN NDiv(d, NSqrt(NMean(NMul(d, d))))
PsProb(x, s, rk, r) == LET d == NSqrt(NSub(1, NMul(r, r))) up(m, z) == IF m = 0 THEN N(0) ELSE IF m > NLen(s) THEN N(1) ELSE NPhi(NDiv(NSub(NAt(s, m), NMul(r, z)), d)) IN
   N(Tup([k \in 1..NLen(x) |-> NSub(up(rk[k], NAt(x, k)), up(rk[k] - 1, NAt(x, k)))]))
SerA == Is("serial") /\ st' = st /\ Judge(LET e == Ev x == Std(N(e.x)) s == Tau(1, Own(1)) rk == Ranks(1) F(z) == NNeg(NSum(NLn(PsProb(x, s, rk, z)))) IN <<
   <<"conditional-probabilities", \A k \in 1..Len(e.r) : NNear(e.P[k], PsProb(x, s, rk, N(e.r[k])), "1e-10")>>,
   <<"polyserial-loglikelihood", \A k \in 1..Len(e.r) : NClose(e.ll[k], F(N(e.r[k])), "1e-8", "1e-8")>>,
   <<"polyserial-score", \A k \in 1..Len(e.r) : NClose(e.g[k], D1(F, N(e.r[k])), "1e-6", "1e-5")>>,
   <<"polyserial-information", \A k \in 1..Len(e.r) : NClose(e.h[k], D2(F, N(e.r[k])), "1e-3", "1e-1")>>,
   <<"polyserial-estimate", Has(e, "rho") => LET r == N(e.rho) IN NLt(NAbs(r), 1) /\ NLe(NAbs(NDiv(D1(F, r), D2(F, r))), "1e-4")>>,
   <<"polyserial-error", Has(e, "rho") => NClose(e.se, NDiv(1, NSqrt(D2(F, N(e.rho)))), "1e-3", "0")>> >>)
(* contingency-table functions: rows index the second threshold vector *)
XtabA == Is("xtab") /\ st' = st /\ Judge(LET e == Ev X == N(e.X) n == NSum(X) r == N(e.r)
      ca == NProbit(NDiv(NCumSum(NColSum(X)), n)) cb == NProbit(NDiv(NCumSum(NRowSum(X)), n)) a == NPos(ca, 1, NNC(X) - 1) b == NPos(cb, 1, NNR(X) - 1) IN <<
   <<"table-thresholds", NNear(NPos(N(e.a), 2, NNC(X)), a, "1e-12") /\ NNear(NPos(N(e.b), 2, NNR(X)), b, "1e-12") /\ NLe(NAt(N(e.a), 1), -1000) /\ NLe(1000, NAt(N(e.a), NNC(X) + 1))>>,
   <<"table-loglikelihood", \A k \in 1..Len(e.ll) : NClose(e.ll[k], NMul(e.sg[k], LL(X, Cell(b, a, r))), "1e-8", "1e-8")>>,
   <<"table-cumulative", NNear(NSub2(N(e.P), Tup([k \in 1..NNR(X) |-> k]), Tup([k \in 1..NNC(X) |-> k])), NMat(NNR(X), NNC(X), N(Tup([k \in 1..(NNR(X) * NNC(X)) |-> CB(b, (k-1) \div NNC(X), a, (k-1) % NNC(X), r)]))), "1e-10")>>,
   <<"bivariate-helpers", NNear(e.cdf, N(Tup([k \in 1..Len(e.h) |-> NBvn(N(e.h[k]), N(e.k[k]), r)])), "1e-12") /\ NNear(e.pdf, N(Tup([k \in 1..Len(e.h) |-> Dens(N(e.h[k]), N(e.k[k]), r)])), "1e-12")
        /\ NNear(e.du, N(Tup([k \in 1..Len(e.h) |-> LET v == N(e.k[k]) F(z) == NBvn(z, v, r) IN D1(F, N(e.h[k]))])), "1e-11")>> >>)
(* generators *)
SimA == Is("sim") /\ st' = st /\ Judge(LET e == Ev Z == N(e.Z) q(v) == N(e.tau[v]) IN <<
   <<"codes-from-thresholds", \A v \in 1..NNC(Z) : \A k \in 1..NNR(Z) : e.Y[v][k] = 1 + Cardinality({m \in 1..(NLen(q(v)) - 2) : NLe(NAt(q(v), m + 1), NEl(Z, k, v))})>>,
   <<"latent-normal", LET n == NNR(Z) c == NDiv(NMM(NT(Z), Z), n) IN NNear(c, e.R, "0.25")>>,
   <<"thresholds-are-quantiles", \A v \in 1..Len(e.q) : LET u == N(e.q[v]) m == NLen(u) IN NEq(NAt(u, 1), 0) /\ NEq(NAt(u, m), 1) /\ (\A k \in 1..(m-1) : NLt(NAt(u, k), NAt(u, k+1))) /\ (\A k \in 2..(m-1) : NNear(NPhi(NAt(q(v), k)), NAt(u, k), "1e-10"))>>,
   <<"threshold-count", Has(e, "nc") => \A v \in 1..Len(e.q) : Len(e.q[v]) = e.nc[v]>>,
   <<"threshold-array", LET w == Max({NLen(q(v)) : v \in 1..Len(e.tau)}) IN \A v \in 1..Len(e.tau) : NSame(NRow(N(e.arr), v), IF NLen(q(v)) = w THEN q(v) ELSE NVcat(q(v), NFull(w - NLen(q(v)), 1, 0)))>> >>)
BinA == Is("bins") /\ st' = st /\ Judge(LET e == Ev n == Len(e.x) IN <<
   <<"equal-bins", \A b \in 0..e.bins : LET c == Cardinality({k \in 1..n : e.x[k] = b}) IN c * (e.bins + 1) >= n - (e.bins + 1) /\ c * (e.bins + 1) <= n + (e.bins + 1)>>,
   <<"second-variable", IF e.kind = "polyserial" THEN Cardinality({e.y[k] : k \in 1..n}) = n ELSE {e.y[k] : k \in 1..n} = 0..e.ybins>> >>)
Init == TInit(<<>>)
Next == PairA \/ FullA \/ FitA \/ AcovA \/ SerA \/ XtabA \/ SimA \/ BinA \/ Raised \/ Unchanged \/ Finished
Spec == Init /\ [][Next]_vars
=============================================================================
