-------------------------------- MODULE P27 --------------------------------
(* Bayesian mixed models: every conditional draw of the sampler has the law it  *)
(* stands for, so that the chain leaves the posterior of the model invariant.   *)
(* Prior: fixed effects flat, each covariance S with density                    *)
(* |S|^(-n/2) exp(-tr(V inv S)/2).                                              *)
EXTENDS TraceBase, FiniteSetsExt, SequencesExt
Ones(n) == NFull(n, 1, 1)
Sc1(x, v) == NMul(x, NFull(NLen(v), 1, 1))
(* Kolmogorov distance of values in [0,1] to the uniform law *)
UniDist(u) == LET s == NSort(u) n == NLen(u) k == N(Tup([i \in 1..n |-> i])) IN NMax(NVcat(NAbs(NSub(NDiv(k, n), s)), NAbs(NSub(s, NDiv(NSub(k, 1), n)))))
Uniform(u) == NLe(0, NMin(u)) /\ NLe(NMax(u), 1) /\ NLt(NMul(UniDist(u), NSqrt(NLen(u))), "2.85")
(* covariance of a term from its packed lower triangle; the inverse covariance of all effects, level by level *)
Terms(e) == e.terms
OffT(e, i) == LET f[j \in 0..Len(e.terms)] == IF j = 0 THEN 0 ELSE f[j-1] + (e.terms[j][1]*(e.terms[j][1]+1)) \div 2 IN f[i-1]
GOf(e, i) == LET k == e.terms[i][1] IN NInvech(NPos(N(e.theta), OffT(e, i) + 1, OffT(e, i) + (k*(k+1)) \div 2))
GInv(e) == LET b(i) == NKron(NEye(e.terms[i][2]), NInv(GOf(e, i))) f[i \in 1..Len(e.terms)] == IF i = 1 THEN b(1) ELSE NBdiag(f[i-1], b(i)) IN f[Len(e.terms)]
LocationA == Is("location") /\ st' = st /\ Judge(LET e == Ev W == NHcat(N(e.X), N(e.Z)) p == NNC(N(e.X)) s2 == NAt(N(e.theta), NLen(N(e.theta))) M == NAdd(NDiv(NMM(NT(W), W), s2), NBdiag(NFull(p, p, 0), GInv(e))) C == NInv(M) J == N(e.J) IN <<
   <<"conditional-mean-of-the-effects", NNear(e.mean, NMM(C, NDiv(NMM(NT(W), N(e.y)), s2)), "1e-9")>>,
   <<"conditional-covariance-of-the-effects", NNear(NMM(J, NT(J)), C, "1e-9")>>,
   <<"draw-is-affine-in-the-normals", NNear(e.draw, NAdd(N(e.mean), NMM(J, N(e.x))), "1e-9")>> >>)
Quad(P, c) == NMM(NT(c), NMM(P, c))
GcovA == Is("gcov") /\ st' = st /\ Judge(LET e == Ev k == e.k U == NMat(e.q, k, N(e.u)) S == NAdd(NMM(NT(U), U), N(e.V)) df == NAdd(e.q - k - 1, N(e.n)) D == N(e.draws) m == NNR(D) Si == NInv(S)
      cs == IF k = 1 THEN <<N(<<1>>)>> ELSE <<N(<<1, 0>>), N(<<0, 1>>), N(<<1, 1>>), N(<<1, 0-1>>)>>
      G(i) == IF k = 1 THEN NDiag(NAt(NRow(D, i), 1)) ELSE NInvech(NRow(D, i))
      pit(c) == LET x == N(Tup([i \in 1..m |-> NAt(NDiv(Quad(NInv(G(i)), c), Quad(Si, c)), 1)])) IN NGammaP(NMul(NDiv(df, 2), Ones(m)), NDiv(x, 2)) IN <<
   <<"effect-covariance-drawn-from-its-posterior", \A j \in 1..Len(cs) : Uniform(pit(cs[j]))>>,
   <<"effect-covariance-positive-definite", \A i \in 1..m : NLt(0, NMin(NEig(G(i))))>> >>)
RcovA == Is("rcov") /\ st' = st /\ Judge(LET e == Ev r == N(e.r) d == N(e.draws) ss == NAdd(NSum(NMul(r, r)), N(e.V)) df == NAdd(NLen(r) - 2, N(e.n)) IN <<
   <<"residual-variance-drawn-from-its-posterior", Uniform(NGammaP(Sc1(NDiv(df, 2), d), NDiv(NDiv(ss, d), 2)))>> >>)
LogLik(e, z) == IF e.kind = "poisson" THEN NSub(NSub(NMul(N(e.y), z), NExp(z)), NLgamma(NAdd(N(e.y), 1))) ELSE NMul(N(e.w), NSub(NMul(N(e.y), z), NLn(NAdd(1, NExp(z)))))
MhA == Is("mh") /\ st' = st /\ Judge(LET e == Ev z == N(e.z) zp == NAdd(z, NMul(N(e.c), N(e.step))) pen(x) == LET r == NSub(x, N(e.pred)) IN NDiv(NMul(r, r), NMul(2, N(e.s2))) d == NSub(NSub(LogLik(e, zp), pen(zp)), NSub(LogLik(e, z), pen(z))) g == NSub(d, N(e.lu)) new == N(e.new) IN <<
   <<"accepted-by-the-posterior-ratio", \A i \in 1..NLen(z) : NLt(NAbs(NAt(g, i)), "1e-9") \/ (e.acc[i] = 1) = NLt(0, NAt(g, i))>>,
   <<"moves-exactly-where-accepted", \A i \in 1..NLen(z) : IF e.acc[i] = 1 THEN NNear(NAt(new, i), NAt(zp, i), "1e-13") ELSE NEq(NAt(new, i), NAt(z, i))>> >>)
(* probability transform of normal draws truncated to (a, b), rows = draws; per element bounds given as vectors *)
PitTN(D, m, s, lo, hi) == LET r == NNR(D) b(v) == NMM(Ones(r), NT(v)) st0(x) == NDiv(NSub(x, b(m)), s) IN <<NDiv(NSub(NPhi(st0(D)), NPhi(st0(b(lo)))), NSub(NPhi(st0(b(hi))), NPhi(st0(b(lo))))), r>>
TnOk(D, m, s, lo, hi) == LET u == PitTN(D, m, s, lo, hi)[1] r == NNR(D) c == NNC(D) IN /\ Uniform(NVec(u)) /\ \A j \in 1..c : NLt(NMul(NAbs(NSub(NMean(NColumn(u, j)), "0.5")), NSqrt(12*r)), "6")
SliceA == Is("slice") /\ st' = st /\ Judge(LET e == Ev y == N(e.y) z == N(e.z) n == NLen(y) s == NSqrt(N(e.s2)) p(x) == NDiv(1, NAdd(1, NExp(NNeg(x))))
      (* y = 1: the level of the likelihood is p(z) e^-x, the slice is everything above its logit; y = 0 mirrored *)
      l1 == LET a == NMul(p(z), NExp(NNeg(N(e.ex)))) IN NLn(NDiv(a, NSub(1, a)))
      l0 == LET a == NMul(p(NNeg(z)), NExp(NNeg(N(e.ex)))) IN NNeg(NLn(NDiv(a, NSub(1, a)))) IN <<
   <<"latent-drawn-from-its-slice", TnOk(N(e.draws), N(e.pred), s, NIf(NEqI(y, Ones(n)), l1, NFull(n, 1, 0-200)), NIf(NEqI(y, Ones(n)), NFull(n, 1, 200), l0))>> >>)
OrdinalA == Is("ordinal") /\ st' = st /\ Judge(LET e == Ev y == N(e.y) n == NLen(y) t == N(e.t) s == NSqrt(N(e.s2)) k == NLen(t)
      lo == N(Tup([i \in 1..n |-> LET c == NToInt(NAt(y, i)) IN IF c = 0 THEN N(0-200) ELSE NAt(t, c)])) hi == N(Tup([i \in 1..n |-> LET c == NToInt(NAt(y, i)) IN IF c = k THEN N(200) ELSE NAt(t, c+1)])) IN <<
   <<"latent-drawn-within-its-category", TnOk(N(e.draws), N(e.pred), s, lo, hi)>> >>)
(* batch means against an expectation: within 7 standard errors of the batches *)
Batch(b, x) == LET n == NLen(b) c == NSub(b, NMean(b)) IN NLe(NAbs(NSub(NMean(b), x)), NAdd(NMul(7, NSqrt(NDiv(NSum(NMul(c, c)), n*(n-1)))), "1e-9"))
Grid(a, h, n) == N(Tup([i \in 1..n |-> NAdd(a, NMul(h, i-1))]))
Norm(l) == LET w == NExp(NSub(l, NMax(l))) IN NDiv(w, NSum(w))
TauA == Is("tau") /\ st' = st /\ Judge(LET e == Ev m == N(e.pred) y == N(e.y) s == NSqrt(N(e.s2)) al == Grid("-7", "0.05", 201) n == NLen(y)
      ll(a) == LET t == NAdd(1, NExp(a)) F == NPhi(NDiv(NSub(t, m), s)) F0 == NPhi(NDiv(NSub(1, m), s)) mid == NLn(NSub(F, F0)) up == NLn(NPhi(NDiv(NSub(m, t), s))) IN NSum(NIf(NEqI(y, NFull(n, 1, 1)), mid, NIf(NEqI(y, NFull(n, 1, 2)), up, NFull(n, 1, 0))))
      w == Norm(N(Tup([i \in 1..201 |-> ll(NAt(al, i))]))) IN <<
   <<"first-threshold-fixed", NEq(N(e.first), 1)>>,
   <<"thresholds-move", e.moved>>,
   <<"threshold-chain-has-its-posterior-mean", Batch(N(e.batches), NDot(w, al))>>,
   <<"threshold-chain-has-its-posterior-spread", Batch(N(e.sq), NDot(w, NMul(al, al)))>> >>)
(* Gaussian posterior on a lattice of log variances, the mean integrated exactly *)
NormalPost(e) == LET q == e.q p == e.per Y == NMat(q, p, N(e.y)) yb == NDiv(NRowSum(Y), p) gm == NMean(yb) ssb == NMul(p, NSum(NMul(NSub(yb, gm), NSub(yb, gm)))) R == NSub(Y, NMM(yb, NT(Ones(p)))) ssw == NSum(NVec(NMul(R, R)))
      a == Grid("-5", "0.125", 81) A == NMM(a, NT(Ones(81))) S == NT(A) G == NExp(A) s2 == NExp(S) v == NAdd(s2, NMul(p, G))
      (* log density on the log scales: likelihood, priors |.|^(-n/2) exp(-V/2.), Jacobians *)
      l == NSub(NAdd(A, S), NMul("0.5", NAdd(NAdd(NAdd(NMul(q*(p-1), S), NMul(q-1, NLn(v))), NAdd(NDiv(ssw, s2), NDiv(ssb, v))), NAdd(NAdd(NMul(N(e.n), A), NDiv(N(e.V), G)), NAdd(NMul(N(e.rn), S), NDiv(N(e.RV), s2))))))
      w == Norm(NVec(l)) ex(x) == NDot(w, NVec(x)) IN <<gm, NAdd(NMul(gm, gm), NDiv(ex(v), q*p)), ex(A), ex(NMul(A, A)), ex(S)>>
(* latent logistic with unit normal noise: lattice over the intercept, the group effect and the log variance *)
LogisticPost(e) == LET q == e.q p == e.per k == IF e.kind = "binomial" THEN 4 ELSE 1 y == N(e.y) x == Grid("-6", "0.25", 49) wx == NPdf(x) eta == Grid("-10", "0.1", 201)
      node == NAdd(NMM(eta, NT(Ones(49))), NMM(Ones(201), NT(x))) ls == NNeg(NLn(NAdd(1, NExp(NNeg(node))))) lf == NSub(ls, node)
      tab == Tup([c \in 1..(k+1) |-> NLn(NMul("0.25", NMM(NExp(NAdd(NMul(c-1, ls), NMul(k-c+1, lf))), wx)))])
      grp(j) == LET f[i \in 0..p] == IF i = 0 THEN NFull(201, 1, 0) ELSE NAdd(f[i-1], tab[NToInt(NMul(k, NAt(y, (j-1)*p + i))) + 1]) IN f[p]
      u == Grid("-6", "0.1", 121) be == Grid("-4", "0.1", 81) a == Grid("-4", "0.2", 41) sd == NExp(NDiv(a, 2))
      W == NMul(NExp(NNeg(NMul("0.5", NMM(NMul(u, u), NT(NExp(NNeg(a))))))), NMM(Ones(121), NT(NDiv(NDiv("0.1", NSqrt(NMul(2, NPi))), sd))))
      post == LET f[j \in 0..q] == IF j = 0 THEN NFull(81, 41, 0) ELSE LET L == grp(j) t == NMax(L) IN NAdd(f[j-1], NAdd(t, NLn(NMM(N(Tup([i \in 1..81 |-> NExp(NSub(NPos(L, i, i+120), t))])), W)))) IN f[q]
      A == NMM(Ones(81), NT(a)) B == NMM(be, NT(Ones(41))) w == Norm(NVec(NAdd(post, NSub(A, NMul("0.5", NAdd(NMul(N(e.n), A), NMul(N(e.V), NExp(NNeg(A)))))))))
      ex(z) == NDot(w, NVec(z)) IN <<ex(B), ex(NMul(B, B)), ex(A), ex(NMul(A, A)), N(0)>>
ChainA == Is("chain") /\ st' = st /\ Judge(LET e == Ev P == IF e.kind = "normal" THEN NormalPost(e) ELSE LogisticPost(e) b == N(e.batches) IN <<
   <<"chain-mean-of-the-effect", Batch(NColumn(b, 1), P[1])>>,
   <<"chain-spread-of-the-effect", Batch(NColumn(b, 2), P[2])>>,
   <<"chain-mean-of-the-log-variance", Batch(NColumn(b, 3), P[3])>>,
   <<"chain-spread-of-the-log-variance", Batch(NColumn(b, 4), P[4])>>,
   <<"chain-residual-variance", Batch(NColumn(b, 5), P[5])>> >>)
SameA == Is("same") /\ st' = st /\ Judge(LET e == Ev IN << <<e.what, NNear(e.a, e.b, e.tol)>> >>)
EqualA == Is("equal") /\ st' = st /\ Judge(LET e == Ev IN << <<e.what, e.a = e.b>> >>)
Init == TInit(<<>>)
Next == LocationA \/ GcovA \/ RcovA \/ MhA \/ SliceA \/ OrdinalA \/ TauA \/ ChainA \/ SameA \/ EqualA \/ Raised \/ Unchanged \/ Finished
Spec == Init /\ [][Next]_vars
=============================================================================
