-------------------------------- MODULE P26 --------------------------------
(* Simulators of regression data: the latent normals, their cut into levels,    *)
(* the design of a formula, the coefficients, the noise, and the multivariate   *)
(* regression generator with its packed true parameters.                        *)
EXTENDS TraceBase, FiniteSetsExt, SequencesExt
At(names, v) == CHOOSE i \in 1..Len(names) : names[i] = v
Ones(n) == NFull(n, 1, 1)
Mu(X) == NDiv(NColSum(X), NNR(X))
Cent(X) == NSub(X, NMM(Ones(NNR(X)), NT(Mu(X))))
Cov0(X) == LET C == Cent(X) IN NDiv(NMM(NT(C), C), NNR(X))
PVar(v) == LET c == NSub(v, NMean(v)) IN NMean(NMul(c, c))
Ratio(a, b) == NDiv(N(a), b)
(* the q-quantile by linear interpolation of the sorted values, q = k/l *)
Quant(s, k, l) == LET n == NLen(s) h == (n-1)*k i == h \div l + 1 f == NDiv(N(h % l), l) IN IF i = n THEN NAt(s, n) ELSE NAdd(NAt(s, i), NMul(f, NSub(NAt(s, i+1), NAt(s, i))))
CutOf(z, l) == LET s == NSort(z) f[k \in 0..(l-1)] == IF k = 0 THEN NFull(NLen(z), 1, 0) ELSE NAdd(f[k-1], NGeI(z, NMul(Quant(s, k, l), NFull(NLen(z), 1, 1)))) IN f[l-1]
EigSpec(p, pe, a, b, c) == LET x == N(Tup([k \in 1..p |-> k-1])) y == NDiv(x, NMul(p, pe)) u == NAdd(NMul(NSub(1, c), NExp(NNeg(NMul(a, NMul(y, y))))), NMul(c, NExp(NNeg(NMul(b, y))))) v == NMul(u, u) IN NMul(NDiv(v, NSum(v)), p)
LatentA == Is("latent") /\ st' = st /\ Judge(LET e == Ev R == N(e.corr) Z == N(e.Z) D == N(e.data) p == NNR(R) n == NNR(Z) g(k) == N(e.eig[k]) num == {j \in 1..p : \A k \in 1..Len(e.cats) : e.cats[k] # j} IN <<
   <<"correlation-matrix", NNear(NDg(R), Ones(p), "1e-10") /\ NNear(R, NT(R), "1e-10")>>,
   <<"eigenvalues-of-the-correlation", p > 1 => NNear(NEig(R), NSort(EigSpec(p, g(1), g(2), g(3), g(4))), "1e-8")>>,
   <<"latent-sample-moments-exact", NNear(Mu(Z), NFull(p, 1, 0), "1e-9") /\ NNear(Cov0(Z), R, "1e-9")>>,
   <<"numeric-columns-are-the-latent-ones", \A j \in num : NEq(NColumn(D, j), NColumn(Z, j))>>,
   <<"categories-are-quantile-cuts", \A k \in 1..Len(e.cats) : NEq(NColumn(D, e.cats[k]), CutOf(NColumn(Z, e.cats[k]), e.levels[k]))>>,
   <<"categories-of-equal-size", \A k \in 1..Len(e.cats) : \A l \in 0..(e.levels[k]-1) : LET m == NToInt(NSum(NEqI(NColumn(D, e.cats[k]), NFull(n, 1, l)))) IN m >= n \div e.levels[k] - 1 /\ m <= n \div e.levels[k] + 2>> >>)
(* a column is a product of factors: [variable, 0] or ["C:variable", level] *)
FacOf(D, vs, cats, f) == IF \E k \in 1..Len(cats) : cats[k] = f[1] THEN NEqI(NColumn(D, At(Tup([k \in 1..Len(vs) |-> "C:" \o vs[k]]), f[1])), NFull(NNR(D), 1, f[2])) ELSE NColumn(D, At(vs, f[1]))
ColOf(D, vs, cats, c) == LET f[k \in 0..Len(c)] == IF k = 0 THEN Ones(NNR(D)) ELSE NMul(f[k-1], FacOf(D, vs, cats, c[k])) IN f[Len(c)]
IsCat(e, x) == \E k \in 1..Len(e.cats) : e.cats[k] = x
LevOf(e, x) == e.levels[At(e.cats, x)]
FirstCat(e) == IF e.icpt THEN 0 ELSE IF \E k \in 1..Len(e.terms) : Len(e.terms[k]) = 1 /\ IsCat(e, e.terms[k][1]) THEN Min({k \in 1..Len(e.terms) : Len(e.terms[k]) = 1 /\ IsCat(e, e.terms[k][1])}) ELSE 0
FacSet(e, k, x) == IF IsCat(e, x) THEN {<<x, l>> : l \in (IF FirstCat(e) = k THEN 0 ELSE 1)..(LevOf(e, x)-1)} ELSE {<<x, 0>>}
TermCols(e, k) == IF Len(e.terms[k]) = 1 THEN {<<f>> : f \in FacSet(e, k, e.terms[k][1])} ELSE {<<f, g>> : f \in FacSet(e, k, e.terms[k][1]), g \in FacSet(e, k, e.terms[k][2])}
WantCols(e) == (IF e.icpt THEN {<<>>} ELSE {}) \cup UNION {TermCols(e, k) : k \in 1..Len(e.terms)}
DesignA == Is("design") /\ st' = st /\ Judge(LET e == Ev D == N(e.data) X == N(e.X) c == Len(e.cols) IN <<
   <<"columns-of-the-formula", Len(e.cols) = Cardinality(WantCols(e)) /\ {e.cols[k] : k \in 1..c} = WantCols(e)>>,
   <<"column-values", \A k \in 1..c : NNear(NColumn(X, k), ColOf(D, e.vars, e.cats, e.cols[k]), "1e-14")>> >>)
(* coefficient classes: all-numeric columns together (the intercept among them), each other term by itself *)
HasCat(c) == \E k \in 1..Len(c) : Len(c[k][1]) > 2 /\ SubSeq(c[k][1], 1, 2) = "C:"
TermOf(c) == Tup([k \in 1..Len(c) |-> c[k][1]])
Pick(s) == SetToSortSeq(s, <)
Sub(v, s) == LET q == Pick(s) IN N(Tup([k \in 1..Len(q) |-> NAt(v, q[k])]))
(* contrast of k levels: below the middle equally spaced up to -1/n.., above 1/m..1, shifted below so that the sum is zero *)
Contrast(k) == IF k = 1 THEN N(<<1>>) ELSE LET n == k \div 2 m == k - n low == N(Tup([i \in 1..n |-> NDiv(0 - (n+1-i), n)])) up == N(Tup([i \in 1..m |-> NDiv(N(i), m)])) IN NVcat(NSub(low, NDiv(NAdd(NSum(low), NSum(up)), n)), up)
CoefA == Is("coefs") /\ st' = st /\ Judge(LET e == Ev X == N(e.X) b == N(e.beta) c == Len(e.cols) cat == {k \in 1..c : HasCat(e.cols[k])} numc == (1..c) \ cat ic == {k \in 1..c : e.cols[k] = <<>>} q == Cardinality(numc)
      w == NToInt(NFloor(NMul(N(e.p), q))) nn == IF w < 1 THEN 1 ELSE w pos == {k \in numc : NEq(NAt(b, k), N(1))} neg == {k \in numc : NEq(NAt(b, k), N(0-1))} terms == {TermOf(e.cols[k]) : k \in cat} zap == e.zero /\ ic # {} IN <<
   <<"numeric-coefficients-are-signs", \A k \in numc : k \in pos \/ k \in neg \/ NEq(NAt(b, k), 0)>>,
   <<"number-of-nonzero-coefficients", q > 0 => IF zap THEN Cardinality(pos \cup neg) \in {nn - 1, nn} ELSE Cardinality(neg) = nn \div 2 /\ Cardinality(pos) = nn - nn \div 2>>,
   <<"sign-balance", q > 0 /\ zap => Cardinality(neg) \in {nn \div 2, nn \div 2 - 1} /\ Cardinality(pos) \in {nn - nn \div 2, nn - nn \div 2 - 1}>>,
   <<"intercept-zero", zap => \A k \in ic : NEq(NAt(b, k), 0)>>,
   <<"category-contrasts", \A t \in terms : LET s == {k \in cat : TermOf(e.cols[k]) = t} IN NNear(Sub(b, s), Contrast(Cardinality(s)), "1e-13") /\ (Cardinality(s) > 1 => NLt(NAbs(NSum(Sub(b, s))), "1e-12"))>>,
   <<"linear-predictor", NNear(e.lin, NMM(X, b), "1e-12") /\ NNear(e.var, PVar(NMM(X, b)), "1e-10")>> >>)
RescaleA == Is("rescaled") /\ st' = st /\ Judge(LET e == Ev X == N(e.X) b == NMul(N(e.b0), NDiv(N(e.s), NSqrt(N(e.v0)))) IN <<
   <<"rescaled-coefficients", NNear(e.beta, b, "1e-12") /\ NNear(e.lin, NMM(X, b), "1e-11")>>,
   <<"rescaled-variance", NNear(e.var, NMul(N(e.s), N(e.s)), "1e-9")>> >>)
NoiseA == Is("noise") /\ st' = st /\ Judge(LET e == Ev v == N(e.var) s == N(e.scale) z == NDiv(NSub(N(e.y), N(e.lin)), s) n == NLen(z) IN <<
   <<"noise-scale-gives-the-r-squared", NNear(NDiv(v, NAdd(v, NMul(s, s))), N(e.r2), "1e-10")>>,
   <<"noise-is-standard-after-scaling", NLt(NMul(NAbs(NMean(z)), NSqrt(n)), "6") /\ NLt(NMul(NAbs(NSub(NMean(NMul(z, z)), 1)), NSqrt(NDiv(N(n), 2))), "8")>> >>)
Toep(d, r) == NMat(d, d, N(Tup([k \in 1..(d*d) |-> LET i == (k-1) \div d j == (k-1) % d IN NPow(r, IF i > j THEN i - j ELSE j - i)])))
Base(kind, d, r) == IF kind = "toeplitz" THEN IF d = 1 THEN NEye(1) ELSE Toep(d, r) ELSE NEye(d)
Theta(B, L) == LET q == NNR(L) f[i \in 0..q] == IF i = 0 THEN NVec(B) ELSE NVcat(f[i-1], N(Tup([j \in 1..i |-> IF i = j THEN NLn(NEl(L, i, i)) ELSE NEl(L, i, j)]))) IN f[q]
Std(v, kurt) == LET n == NLen(v) IN NLt(NMul(NAbs(NMean(v)), NSqrt(n)), "6") /\ NLt(NMul(NAbs(NSub(NMean(NMul(v, v)), 1)), NSqrt(NDiv(N(n), kurt))), "8")
MmrA == Is("mmr") /\ st' = st /\ Judge(LET e == Ev X == N(e.X) D == N(e.D) B == N(e.B) S == N(e.S) M == N(e.M) E == N(e.E) q == NNR(S) p == NNC(X) n == NNR(X) L == N(e.L) C == N(e.coef) SX == Base(e.xc, p, N(e.rx)) S0 == Base(e.ec, q, N(e.re)) ok == NLt(0, N(e.r2)) /\ NLt(N(e.r2), 1)
      Lx == NInv(NChol(SX)) Le == NInv(NChol(S)) zx == NVec(NMM(X, NT(Lx))) ze == NVec(NMM(E, NT(Le))) sv == NEig(NMM(NT(C), C)) nz == NToInt(NSum(NGtI(NAbs(NVec(C)), NFull(p*q, 1, 0)))) IN <<
   <<"design", IF e.icpt THEN NEq(D, NHcat(Ones(n), X)) /\ NEq(B, NVcat(NT(N(e.b0)), C)) ELSE NEq(D, X) /\ NEq(B, C) /\ NEq(N(e.b0), NFull(q, 1, 0))>>,
   <<"signal-plus-error", NNear(M, NMM(D, B), "1e-12") /\ NNear(e.Y, NAdd(NMM(D, B), E), "1e-12")>>,
   <<"predictor-covariance", NNear(e.SX, SX, "1e-14")>>,
   <<"error-correlation", NNear(NDiv(S, NEl(S, 1, 1)), S0, "1e-12")>>,
   <<"target-r-squared", IF ok /\ nz > 0 THEN LET v == NTr(Cov0(M)) IN NNear(NDiv(v, NAdd(v, NTr(S))), N(e.r2), "1e-10") ELSE ok \/ NEq(S, S0)>>,
   <<"precision-and-its-factor", NNear(NMM(N(e.O), S), NEye(q), "1e-10") /\ NNear(L, NChol(NInv(S)), "1e-9")>>,
   <<"packed-true-parameters", NNear(e.th, Theta(B, NChol(NInv(S))), "1e-9")>>,
   <<"rank-of-the-coefficients", e.struct = "low_rank_plus_sparse" /\ NEq(N(e.sp), 0) /\ q > e.rank => NLt(NAbs(NAt(sv, q - e.rank)), NMul("1e-10", NAt(sv, q)))>>,
   <<"number-of-nonzeros", CASE e.struct = "sparse" -> LET m == NMul(N(e.sp), p*q) s == NSqrt(NMul(m, NSub(1, N(e.sp)))) IN NLt(NAbs(NSub(nz, m)), NMul("6", s)) [] OTHER -> nz = p*q>>,
   <<"laws-of-predictors-and-errors", Std(zx, 2) /\ (e.noise = "normal" => Std(ze, 2)) /\ (e.noise = "t" => NLt(NMul(NAbs(NMean(ze)), NSqrt(NLen(ze))), "8") /\ NLt(NMul(NAbs(NSub(NMean(NGtI(NAbs(ze), NFull(NLen(ze), 1, N("0.56289")))), "0.5")), NSqrt(NLen(ze))), "3"))>> >>)
SameA == Is("same") /\ st' = st /\ Judge(<< <<Ev.what, NNear(Ev.a, Ev.b, Ev.tol)>> >>)
EqualA == Is("equal") /\ st' = st /\ Judge(<< <<Ev.what, Ev.a = Ev.b>> >>)
Init == TInit(<<>>)
Next == LatentA \/ DesignA \/ CoefA \/ RescaleA \/ NoiseA \/ MmrA \/ SameA \/ EqualA \/ Raised \/ Unchanged \/ Finished
Spec == Init /\ [][Next]_vars
=============================================================================
