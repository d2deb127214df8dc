-------------------------------- MODULE P22 --------------------------------
(* Data utilities, correlation structures and random generators.  A stream of   *)
(* observations is summarised step by step; tables count observations; a named  *)
(* correlation structure is its formula; a draw obeys its declared law.         *)
EXTENDS TraceBase, FiniteSetsExt, SequencesExt
Rw2(v) == NVec(v)
Rw(v) == IF NNC(v) = 1 THEN NT(v) ELSE v
CtrT(X) == LET n == NNR(X) IN NSub(X, NMM(NFull(n, 1, 1), Rw(NDiv(NColSum(X), n))))
S2(X, Y) == NDiv(NMM(NT(CtrT(X)), CtrT(Y)), NNR(X))
Sd(X) == NSqrt(NDg(S2(X, X)))
R2(X, Y) == NMM(NDiag(NDiv(1, Sd(X))), NMM(S2(X, Y), NDiag(NDiv(1, Sd(Y)))))
Std(X) == NMM(CtrT(X), NDiag(NDiv(1, Sd(X))))
Cm(X) == NVec(NDiv(NColSum(X), NNR(X)))
(* ---- column statistics *)
StatA == Is("stats") /\ st' = st /\ Judge(LET e == Ev X == N(e.X) Y == N(e.Y) n == NNR(X) c == NDiv(n, n - 1) IN <<
   <<"covariance", NNear(e.cov, S2(X, X), "1e-10") /\ NNear(e.covxy, S2(X, Y), "1e-10") /\ NNear(e.covnb, S2(X, X), "1e-10")>>,
   <<"correlation", NNear(e.corr, R2(X, X), "1e-10") /\ NNear(e.corrxy, R2(X, Y), "1e-10") /\ NNear(e.corrnb, R2(X, X), "1e-10")>>,
   <<"standardised-columns", NNear(e.csd, Std(X), "1e-10") /\ NNear(e.csd2, Std(X), "1e-10") /\ NNear(NVec(N(e.csdm)), Cm(X), "1e-10") /\ NNear(NVec(N(e.csds)), Sd(X), "1e-10")>>,
   <<"centred-columns", NNear(e.cent, CtrT(X), "1e-10")>>,
   <<"sums-of-squares", NNear(NVec(N(e.ssq0)), NVec(NColSum(NMul(X, X))), "1e-10") /\ NNear(NVec(N(e.ssq1)), NVec(NRowSum(NMul(X, X))), "1e-10")>>,
   <<"streamed-variance", NNear(NVec(N(e.wm)), Cm(X), "1e-9") /\ NNear(NVec(N(e.wv)), NDg(S2(X, X)), "1e-9") /\ NNear(NVec(N(e.wvu)), NMul(c, NDg(S2(X, X))), "1e-9")>>,
   <<"streamed-covariance", NNear(NVec(N(e.wcm)), Cm(X), "1e-9") /\ NNear(e.wc, S2(X, X), "1e-9") /\ NNear(e.wcu, NMul(c, S2(X, X)), "1e-9")>>,
   <<"streamed-cross-covariance", NNear(e.wxy, S2(X, Y), "1e-9") /\ NNear(NVec(N(e.wxym)), NVcat(Cm(X), Cm(Y)), "1e-9")>> >>)
(* variance of an array along any of its axes: e.cells the observations of each remaining cell *)
AxisA == Is("axis") /\ st' = st /\ Judge(LET e == Ev IN <<
   <<"streamed-variance-along-an-axis", \A k \in 1..Len(e.cells) : LET x == N(e.cells[k]) m == NMean(x) IN NNear(NAt(N(e.m), k), m, "1e-9") /\ NNear(NAt(N(e.v), k), NMean(NMul(NSub(x, m), NSub(x, m))), "1e-9")>> >>)
(* one observation at a time: the state is what has been seen *)
PushA == Is("push") /\ st' = Append(st, Ev.x) /\ Judge(LET e == Ev x == N(Tup([k \in 1..(Len(st) + 1) |-> IF k <= Len(st) THEN st[k] ELSE e.x])) m == NMean(x) IN <<
   <<"stream-count", e.n = Len(st) + 1>>,
   <<"stream-mean", NNear(e.m, m, "1e-10")>>,
   <<"stream-sum-of-squares", NNear(e.s, NSum(NMul(NSub(x, m), NSub(x, m))), "1e-9")>> >>)
ScaleA == Is("scale") /\ st' = st /\ Judge(LET e == Ev A == N(e.A) d == N(e.d) D == NDiag(d) want == NMM(D, NMM(A, D)) IN <<
   <<"rows-and-columns-scaled", NNear(e.sd, want, "1e-12") /\ NNear(e.sdc, want, "1e-12") /\ NNear(e.sg, want, "1e-12") /\ NNear(e.sgo, want, "1e-12") /\ NNear(e.sgi, want, "1e-12")>>,
   <<"in-place-only-when-asked", e.inplace /\ e.kept /\ e.out>>,
   <<"unit-diagonal", LET w == NDiag(NDiv(1, NSqrt(NDg(A)))) IN NNear(e.nd, NMM(w, NMM(A, w)), "1e-12")>> >>)
FlipA == Is("flip") /\ st' = st /\ Judge(LET e == Ev V == N(e.V) F == N(e.F) IN <<
   <<"columns-differ-by-sign-only", \A j \in 1..NNC(V) : NEq(NColumn(F, j), NColumn(V, j)) \/ NEq(NColumn(F, j), NNeg(NColumn(V, j)))>>,
   <<"largest-element-positive", \A j \in 1..NNC(V) : NEq(NMax(NColumn(F, j)), NMax(NAbs(NColumn(F, j))))>> >>)
XtrxA == Is("xtrx") /\ st' = st /\ Judge(LET e == Ev Y == N(e.Y) X == N(e.X) IN <<
   <<"unit-quadratic-form", NNear(NDg(NMM(NT(Y), NMM(N(e.R), Y))), NFull(NNC(Y), 1, 1), "1e-11")>>,
   <<"columns-rescaled-only", LET s == NDiag(NDiv(Rw2(NColSum(Y)), Rw2(NColSum(X)))) IN NNear(NMM(X, s), Y, "1e-9")>> >>)
(* ---- categories and tables *)
Hit(a, b) == IF a = b THEN 1 ELSE 0
Dum(x, cats, p) == NMat(Len(x), p, N(Tup([z \in 1..(Len(x) * p) |-> N(Hit(x[((z - 1) \div p) + 1], cats[((z - 1) % p) + 1]))])))
DumA == Is("dummy") /\ st' = st /\ Judge(LET e == Ev c == SetToSortSeq(ToSet(e.x), <) p == Len(c) IN <<
   <<"indicator-columns", NEq(e.D, Dum(e.x, c, p)) /\ NEq(e.D1, Dum(e.x, c, p)) /\ NEq(e.E, Dum(e.x, c, p))>>,
   <<"last-category-dropped", p > 1 => NEq(e.D0, Dum(e.x, c, p - 1))>>,
   <<"given-categories", NEq(e.Dc, Dum(e.x, e.cats, Len(e.cats))) /\ NEq(e.Ec, Dum(e.x, e.cats, Len(e.cats)))>> >>)
CountOf(rows, cell) == Cardinality({i \in 1..Len(rows) : rows[i] = cell})
RECURSIVE Cells(_)
Cells(L) == IF Len(L) = 0 THEN << <<>> >> ELSE LET H == Cells(SubSeq(L, 1, Len(L) - 1)) l == L[Len(L)] IN Tup([z \in 1..(Len(H) * Len(l)) |-> Append(H[((z - 1) \div Len(l)) + 1], l[((z - 1) % Len(l)) + 1])])
TabA == Is("table") /\ st' = st /\ Judge(LET e == Ev d == Len(e.rows[1]) L == Tup([j \in 1..d |-> SetToSortSeq({e.rows[i][j] : i \in 1..Len(e.rows)}, <)]) C == Cells(L)
      Rest == Tup([j \in 1..(d - 1) |-> L[IF j < e.col THEN j ELSE j + 1]]) RL == Cells(Rest) Put(r, v) == Tup([j \in 1..d |-> IF j = e.col THEN v ELSE r[IF j < e.col THEN j ELSE j - 1]]) IN <<
   <<"levels-of-each-variable", e.levels = L>>,
   <<"every-cell-counted", e.count = Tup([k \in 1..Len(C) |-> CountOf(e.rows, C[k])])>>,
   <<"flattened-table", e.rl = RL /\ e.cl = L[e.col] /\ \A r \in 1..Len(RL) : e.flat[r] = Tup([k \in 1..Len(L[e.col]) |-> CountOf(e.rows, Put(RL[r], L[e.col][k]))])>>,
   <<"expanding-a-table-restores-the-observations", Len(e.ex) = Len(e.rows) /\ \A k \in 1..Len(C) : CountOf(e.ex, Tup([j \in 1..d |-> (CHOOSE q \in 1..Len(L[j]) : L[j][q] = C[k][j]) - 1])) = CountOf(e.rows, C[k])>> >>)
(* ---- sign changes, extremes *)
Sg(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Changes(a, b) == SetToSortSeq({i \in 2..Len(a) : Sg(a[i] - b) # Sg(a[i - 1] - b)}, <)
SignA == Is("signs") /\ st' = st /\ Judge(LET e == Ev IN <<
   <<"index-before-the-kth-sign-change", \A q \in 1..Len(e.res) : LET c == Changes(e.a, e.res[q].b) IN Len(c) >= e.res[q].k => e.res[q].ix = c[e.res[q].k] - 2>> >>)
ExtA == Is("extremes") /\ st' = st /\ Judge(LET e == Ev IN <<
   <<"extreme-positions", \A q \in 1..Len(e.lines) : LET v == N(e.lines[q]) k == Len(e.ix[q]) o == NSort(v) m == NLen(v) IN
        /\ Cardinality(ToSet(e.ix[q])) = k /\ k = e.n
        /\ \A i \in ToSet(e.ix[q]) : IF e.largest THEN NLe(NAt(o, m - k + 1), NAt(v, i + 1)) ELSE NLe(NAt(v, i + 1), NAt(o, k))>> >>)
(* ---- correlation structures *)
RECURSIVE ProdFrom(_, _, _)
ProdFrom(r, i, j) == IF i > j THEN N(1) ELSE NMul(r[i], ProdFrom(r, i + 1, j))
RECURSIVE PowI(_, _)
PowI(x, k) == IF k = 0 THEN N(1) ELSE NMul(x, PowI(x, k - 1))
Dist(e, i, j) == NEl(N(e.dist), i, j)
Ab(i) == IF i < 0 THEN -i ELSE i
Mn(i, j) == IF i < j THEN i ELSE j
Mx(i, j) == IF i < j THEN j ELSE i
Elem(e, i, j) == LET a == Mn(i, j) b == Mx(i, j) IN
   CASE e.kind = "exchangeable" -> IF i = j THEN N(1) ELSE N(e.p[1])
     [] e.kind = "ar1" -> PowI(N(e.p[1]), b - a)
     [] e.kind = "mdependent" -> IF i = j THEN N(1) ELSE IF b - a > Len(e.bands) THEN N(0) ELSE N(e.bands[b - a][a])
     [] e.kind = "antedependence" -> ProdFrom(e.p, a, b - 1)
     [] e.kind = "toeplitz" -> IF i = j THEN N(1) ELSE N(e.p[b - a])
     [] e.kind = "spatialpower" -> NPow(N(e.p[1]), Dist(e, i, j))
     [] e.kind = "spatialexp" -> NExp(NNeg(NDiv(Dist(e, i, j), e.p[1])))
     [] e.kind = "spatialgaussian" -> NExp(NNeg(NDiv(NMul(Dist(e, i, j), Dist(e, i, j)), NMul(e.p[1], e.p[1]))))
StructA == Is("structure") /\ st' = st /\ Judge(LET e == Ev R == N(e.R) n == e.n IN <<
   <<"element-formula:" \o e.kind, NNR(R) = n /\ NNC(R) = n /\ \A i, j \in 1..n : NNear(NEl(R, i, j), Elem(e, i, j), "1e-12")>> >>)
FactorA == Is("factor") /\ st' = st /\ Judge(LET e == Ev A == N(e.A) IN <<
   <<"loadings-times-factors-plus-uniqueness", NNear(e.S, NAdd(NMM(A, NMM(N(e.Phi), NT(A))), NDiag(N(e.psi))), "1e-12")>> >>)
EigCorrA == Is("eigcorr") /\ st' = st /\ Judge(LET e == Ev R == N(e.R) u == N(e.u) IN <<
   <<"spectrum-as-requested", NNear(NSort(NEig(R)), NSort(NMul(u, NDiv(NLen(u), NSum(u)))), "1e-8") /\ NNear(NDg(R), NFull(NNR(R), 1, 1), "1e-9") /\ NNear(R, NT(R), "1e-12")>> >>)
CanA == Is("canonical") /\ st' = st /\ Judge(LET e == Ev S == N(e.S) p == e.px q == NNR(S) - p sx == Tup([i \in 1..p |-> i]) sy == Tup([i \in 1..q |-> p + i])
      Sxx == NSub2(S, sx, sx) Syy == NSub2(S, sy, sy) Sxy == NSub2(S, sx, sy) L == NInv(NChol(Sxx)) M == NMM(L, NMM(Sxy, NMM(NInv(Syy), NMM(NT(Sxy), NT(L))))) ev == NSort(NEig(M)) r == N(e.r) k == NLen(r) IN <<
   <<"blocks-kept", NNear(Sxx, e.Sxx, "1e-12") /\ NNear(Syy, e.Syy, "1e-12") /\ NNear(S, NT(S), "1e-12")>>,
   <<"canonical-correlations-as-requested", NNear(ev, NSort(IF k < p THEN NVcat(NFull(p - k, 1, 0), NMul(r, r)) ELSE NMul(r, r)), "1e-8")>> >>)
Sq(M) == NSum(NMul(M, M))
PsdA == Is("psd") /\ st' = st /\ Judge(LET e == Ev A == N(e.A) X == N(e.X) dl == NMax(NAbs(NEig(A))) IN <<
   <<"positive-semidefinite", NLe(NNeg(NMul("1e-5", NMax2(dl, 1))), NMin(NEig(X))) /\ NNear(X, NT(X), "1e-10")>>,
   <<"diagonal-kept", IF e.diag = "unit" THEN NNear(NDg(X), NFull(NNR(X), 1, 1), "1e-12") ELSE e.diag = "keep" => NNear(NDg(X), NDg(A), "1e-12")>>,
   <<"already-valid-is-unchanged", e.valid => NNear(X, A, "1e-6")>>,
   <<"no-correlation-matrix-is-closer", e.nearest => \A k \in 1..Len(e.cand) : LET C == N(e.cand[k]) IN NLe(NNeg("1e-4"), NSum(NMul(NSub(X, A), NSub(C, X))))>>,
   <<"projection-clips-the-spectrum", Has(e, "proj") => NNear(NSort(NEig(X)), NSort(NMax2(NEig(A), "1e-9")), "1e-9") /\ NNear(NMM(X, NSub(X, A)), NMul(0, X), "1e-7")>> >>)
ExactA == Is("exact") /\ st' = st /\ Judge(LET e == Ev Z == N(e.Z) IN <<
   <<"covariance-exactly-as-requested", NNear(S2(Z, Z), e.S, "1e-9")>>,
   <<"mean-exactly-as-requested", Has(e, "m") => NNear(Cm(Z), e.m, "1e-9")>>,
   <<"same-seed-same-draw", e.same>> >>)
(* ---- sampling covariances of covariances and correlations *)
Cl(S, u, i, j) == NMul(NMul("0.5", NAdd(NAt(u, i), NAt(u, j))), NEl(S, i, j))
AcovA == Is("acov") /\ st' = st /\ Judge(LET e == Ev S == N(e.S) p == NNR(S) R == N(e.R) u == NSqrt(N(e.kurt)) lo == SetToSortSeq({ij \in (1..p) \X (1..p) : ij[1] >= ij[2]}, LAMBDA a, b : a[2] < b[2] \/ (a[2] = b[2] /\ a[1] < b[1]))
      r(i, j) == NEl(R, i, j) P(a, b) == NMul(a, b)
      V(a, b) == LET i == a[1] j == a[2] k == b[1] l == b[2] IN NSub(NAdd(NAdd(P(Cl(S, u, i, k), Cl(S, u, j, l)), P(Cl(S, u, i, l), Cl(S, u, j, k))), P(Cl(S, u, i, j), Cl(S, u, k, l))), P(NEl(S, i, j), NEl(S, k, l)))
      W(i, j, k, l) == NAdd(NMul("0.5", P(P(r(i, j), r(k, l)), NAdd(NAdd(P(r(i, k), r(i, k)), P(r(i, l), r(i, l))), NAdd(P(r(j, k), r(j, k)), P(r(j, l), r(j, l)))))),
                  NSub(NAdd(P(r(i, k), r(j, l)), P(r(i, l), r(j, k))), NAdd(NAdd(P(r(i, j), P(r(i, k), r(i, l))), P(r(i, j), P(r(j, k), r(j, l)))), NAdd(P(r(k, l), P(r(i, k), r(j, k))), P(r(k, l), P(r(i, l), r(j, l)))))))
      at(i, j) == (j - 1) * p + i IN <<
   <<"sampling-covariance-of-covariances", \A a, b \in 1..Len(lo) : NNear(NEl(N(e.V), a, b), V(lo[a], lo[b]), "1e-10")>>,
   <<"sampling-covariance-of-correlations", \A i, j, k, l \in 1..p : NNear(NEl(N(e.neu), at(i, j), at(k, l)), W(i, j, k, l), "1e-9")>>,
   <<"elliptical-sampling-covariance-of-correlations", \A i, j, k, l \in 1..p : NNear(NEl(N(e.bro), at(i, j), at(k, l)), P(e.kap, W(i, j, k, l)), "1e-9")>> >>)
(* ---- laws.  e.x draws of a scalar *)
Mom(e) ==
   CASE e.kind = "given" -> <<N(e.p[1]), N(e.p[2])>>
     [] e.kind = "truncnorm" -> LET mu == N(e.p[1]) sd == N(e.p[2]) fa == e.lb # "-inf" fb == e.ub # "inf" a == IF fa THEN NDiv(NSub(e.lb, mu), sd) ELSE N(0) b == IF fb THEN NDiv(NSub(e.ub, mu), sd) ELSE N(0)
           pa == IF fa THEN NPdf(a) ELSE N(0) pb == IF fb THEN NPdf(b) ELSE N(0) Z == NSub(IF fb THEN NPhi(b) ELSE N(1), IF fa THEN NPhi(a) ELSE N(0)) h == NDiv(NSub(pa, pb), Z) IN
           <<NAdd(mu, NMul(sd, h)), NMul(NMul(sd, sd), NSub(NAdd(1, NDiv(NSub(NMul(a, pa), NMul(b, pb)), Z)), NMul(h, h)))>>
     [] e.kind = "wishart" -> LET V == N(e.V) i == e.i j == e.j df == N(e.p[1]) IN <<NMul(df, NEl(V, i, j)), NMul(df, NAdd(NMul(NEl(V, i, j), NEl(V, i, j)), NMul(NEl(V, i, i), NEl(V, j, j))))>>
     [] e.kind = "invwishart" -> LET V == N(e.V) i == e.i j == e.j m == NSub(e.p[1], NNR(V)) IN (* m = df - dim *)
           <<NDiv(NEl(V, i, j), NSub(m, 1)), NDiv(NAdd(NMul(NAdd(m, 1), NMul(NEl(V, i, j), NEl(V, i, j))), NMul(NSub(m, 1), NMul(NEl(V, i, i), NEl(V, j, j)))), NMul(NMul(m, NMul(NSub(m, 1), NSub(m, 1))), NSub(m, 3)))>>
     [] e.kind = "invgamma" -> LET a == N(e.p[1]) b == N(e.p[2]) IN <<NDiv(b, NSub(a, 1)), NDiv(NMul(b, b), NMul(NMul(NSub(a, 1), NSub(a, 1)), NSub(a, 2)))>>
     [] e.kind = "t" -> LET nu == N(e.p[3]) IN <<N(e.p[1]), NMul(NMul(e.p[2], e.p[2]), NDiv(nu, NSub(nu, 2)))>>
     [] e.kind = "lkj" -> <<N(0), NDiv(1, NAdd(NMul(2, e.p[1]), e.d - 1))>>
LawA == Is("law") /\ st' = st /\ Judge(LET e == Ev x == N(e.x) n == NLen(x) m == NMean(x) c == NSub(x, m) v == NMean(NMul(c, c)) q == NMean(NMul(NMul(c, c), NMul(c, c))) w == Mom(e) IN <<
   <<"mean-of-the-law:" \o e.what, NLe(NAbs(NSub(m, w[1])), NMul(6, NSqrt(NDiv(NMax2(v, w[2]), n))))>>,
   <<"variance-of-the-law:" \o e.what, Has(e, "meanonly") \/ NLe(NAbs(NSub(v, w[2])), NMul(8, NSqrt(NDiv(NAdd(NMax2(NSub(q, NMul(v, v)), NMul("0.2", NMul(w[2], w[2]))), NDiv(v, n)), n))))>>,
   <<"draws-within-bounds", (Has(e, "lb") /\ e.lb # "-inf" => NLe(e.lb, NMin(x))) /\ (Has(e, "ub") /\ e.ub # "inf" => NLe(NMax(x), e.ub))>> >>)
CorrOkA == Is("corrmat") /\ st' = st /\ Judge(LET e == Ev R == N(e.R) IN <<
   <<"unit-diagonal-symmetric:" \o e.what, NNear(NDg(R), NFull(NNR(R), 1, 1), "1e-9") /\ NNear(R, NT(R), "1e-12") /\ NLe(NMax(NAbs(R)), NAdd(1, "1e-9"))>>,
   <<"positive-definite:" \o e.what, NLe(NNeg("1e-9"), NMin(NEig(R)))>>,
   <<"factor-of-the-draw", Has(e, "L") => NNear(NMM(N(e.L), NT(N(e.L))), R, "1e-10") /\ \A i, j \in 1..NNR(R) : i < j => NEq(NEl(N(e.L), i, j), 0)>> >>)
OrthoA == Is("ortho") /\ st' = st /\ Judge(LET e == Ev Q == N(e.Q) IN <<
   <<"orthonormal-columns", NNear(NMM(NT(Q), Q), NEye(NNC(Q)), "1e-11") /\ NNR(Q) = e.n /\ NNC(Q) = e.p>>,
   <<"rotation", e.special => NNear(NDet(Q), 1, "1e-10")>> >>)
SameA == Is("same") /\ st' = st /\ Judge(LET e == Ev IN << <<e.what, NNear(e.a, e.b, e.tol)>> >>)
EqA == Is("equal") /\ st' = st /\ Judge(LET e == Ev IN << <<e.what, e.a = e.b>> >>)
ErrA == Is("rejects") /\ st' = st /\ Judge(LET e == Ev IN << <<"invalid-argument-rejected:" \o e.what, e.err = "ValueError">> >>)
Init == TInit(<<>>)
Next == StatA \/ AxisA \/ PushA \/ ScaleA \/ FlipA \/ XtrxA \/ DumA \/ TabA \/ SignA \/ ExtA \/ StructA \/ FactorA \/ EigCorrA \/ CanA \/ PsdA \/ ExactA \/ AcovA \/ LawA \/ CorrOkA \/ OrthoA \/ SameA \/ EqA \/ ErrA \/ Raised \/ Unchanged \/ Finished
Spec == Init /\ [][Next]_vars
=============================================================================
