-------------------------------- MODULE P10 --------------------------------
(* Resampling inference.  On a small data set every state the resampler can     *)
(* reach is enumerated: all count vectors of a bootstrap draw of n rows from n,   *)
(* all n! permutations.  A recorded sample must be the estimate at one of those   *)
(* states, visited with its exact probability, and a Monte Carlo p-value must      *)
(* agree with the exact one of the enumeration.                                   *)
EXTENDS TraceBase, Infer
X == N(Tr.X)
y == N(Tr.y)
w == N(Tr.w)
n == NNR(X)
p == NNC(X)
Seven(m, pr) == NAdd(3, NMul(7, NSqrt(NMul(m, NMul(pr, NMax2(0, NSub(1, pr)))))))
---------------------------------------------------------------------------
(* bootstrap states: how often each row is drawn *)
RECURSIVE Comps(_, _), CompsFrom(_, _, _)
CompsFrom(m, k, j) == IF j > m THEN <<>> ELSE LET t == Comps(m - j, k - 1) IN Tup([i \in 1..Len(t) |-> <<j>> \o t[i]]) \o CompsFrom(m, k, j + 1)
Comps(m, k) == IF k = 1 THEN << <<m>> >> ELSE CompsFrom(m, k, 0)
Fact[k \in 0..12] == IF k = 0 THEN 1 ELSE k * Fact[k - 1]
RECURSIVE FactProd(_, _)
FactProd(c, i) == IF i > Len(c) THEN 1 ELSE Fact[c[i]] * FactProd(c, i + 1)
Prob(c) == NDiv(Fact[n] \div FactProd(c, 1), NPow(n, n))
Gram(v) == NMM(NT(X), NMM(NDiag(v), X))
FitC(c) == LET v == N(c) G == Gram(v) g == NMM(NT(X), NMul(v, y)) b == NSolve(G, g) sse == NSub(NDot(y, NMul(v, y)), NDot(b, g)) IN
  [b |-> b, sse |-> sse, se |-> NSqrt(NMul(NDiv(NMax2(sse, 0), n - p), NDg(NInv(G)))), pr |-> Prob(c), v |-> v]
Regular(c) == NLt("1e-7", NDet(Gram(N(c))))
(* sums of squares of a draw: residual, model, total, their degrees of freedom and mean squares, R2, adjusted R2, F, p *)
Ssq(f) == LET m == NDiv(NDot(f.v, y), n) ssr == f.sse sst == NSub(NDot(y, NMul(f.v, y)), NMul(n, NMul(m, m)))
              h == NSub(NMM(X, f.b), m) ssm == NDot(f.v, NMul(h, h)) dr == n - p dm == p - 1 dt == n - 1
              F == NDiv(NDiv(ssm, dm), NDiv(ssr, dr)) IN
  N(Tup(<<ssr, ssm, sst, dr, dm, dt, NDiv(ssr, dr), NDiv(ssm, dm), NDiv(sst, dt), NSub(1, NDiv(ssr, sst)), NSub(1, NDiv(NDiv(ssr, dr), NDiv(sst, dt))), F, FSf(F, dm, dr)>>))
BootA == Is("boot") /\ st' = st /\ Judge(LET e == Ev all == Comps(n, n) reg == SelectSeq(all, Regular) m == Len(reg)
      F == Tup([q \in 1..m |-> FitC(reg[q])]) S == N(e.S) B == NNR(S)
      tot == NSum(N(Tup([q \in 1..m |-> F[q].pr])))
      M == Tup([i \in 1..B |-> LET s == NRow(S, i) IN {q \in 1..m : NNear(s, F[q].b, "1e-7")}])
      Same(q) == {r \in 1..m : NNear(F[r].b, F[q].b, "1e-7")}
      Fits(i, q) == /\ (Has(e, "se") /\ NLt("1e-6", F[q].sse)) => NNear(NRow(e.se, i), F[q].se, "1e-6")
                    /\ Has(e, "sse") => NNear(NAt(e.sse, i), F[q].sse, "1e-7")
                    /\ (Has(e, "ssq") /\ NLt("1e-6", F[q].sse)) => NNear(NRow(e.ssq, i), Ssq(F[q]), "1e-6") IN <<
   <<"bootstrap-sample-is-the-estimate-of-a-draw-of-whole-rows:" \o e.nm, \A i \in 1..B : \E q \in M[i] : Fits(i, q)>>,
   <<"bootstrap-draws-rows-with-equal-probability:" \o e.nm, \A q \in 1..m : LET c == Cardinality({i \in 1..B : q \in M[i]}) s == Same(q)
        pr == NDiv(NSum(N(Tup([r \in 1..m |-> IF r \in s THEN F[r].pr ELSE N(0)]))), tot) IN NLe(NAbs(NSub(c, NMul(B, pr))), Seven(B, pr))>> >>)
(* estimating function of one observation, generalised linear models *)
Mu(b) == LET v == NMM(X, b) IN IF Tr.f = "Gaussian" THEN v ELSE IF Tr.f = "Binomial" THEN NDiv(1, NAdd(1, NExp(NNeg(v)))) ELSE NExp(v)
Score(b) == LET mu == Mu(b) r == NMul(w, NSub(y, mu)) IN NMM(NDiag(IF Tr.f = "Gamma" THEN NDiv(r, mu) ELSE r), X)
Scale(b) == NAdd(NMM(NT(NAbs(X)), NMul(w, NAdd(NAbs(y), NAbs(Mu(b))))), "1e-8")
GlmBootA == Is("glmboot") /\ st' = st /\ Judge(LET e == Ev all == Comps(n, n) C == N(Tup([q \in 1..Len(all) |-> N(all[q])])) S == N(e.S) B == NNR(S) IN <<
   <<"bootstrap-sample-solves-the-estimating-equation-of-a-draw:" \o e.nm, \A i \in 1..B : LET b == NPos(NRow(S, i), 1, p) sc == NDiv(1, IF Tr.f = "Gamma" THEN NFull(p, 1, 1) ELSE Scale(b))
        V == NAbs(NMM(NMM(C, Score(b)), NDiag(sc))) IN NLe(NMin(N(Tup([q \in 1..NNR(V) |-> NMax(NRow(V, q))]))), e.tol)>>,
   <<"bootstrap-samples-vary:" \o e.nm, NLt("1e-6", NSub(NMax(NColumn(S, 1)), NMin(NColumn(S, 1))))>> >>)
(* the columns derived from the samples *)
Sd(S, j, d) == LET v == NColumn(S, j) m == NMean(v) z == NSub(v, m) IN NSqrt(NDiv(NDot(z, z), NSub(NLen(v), d)))
Sds(S, d) == N(Tup([j \in 1..NNC(S) |-> Sd(S, j, d)]))
TableA == Is("table") /\ st' = st /\ Judge(LET e == Ev S == N(e.S) sd == Sds(S, 0) t == NDiv(e.b, sd) IN <<
   <<"bootstrap-errors-ratios-and-p-values:" \o e.nm, NNear(e.se, sd, "1e-8") /\ NNear(e.t, t, "1e-8") /\ PClose(e.p, T2(t, e.df))>> >>)
Quant(v, q) == LET s == NSort(v) h == NMul(NSub(NLen(v), 1), q) k == NToInt(NFloor(h)) IN
   IF k + 1 >= NLen(v) THEN NAt(s, NLen(v)) ELSE NAdd(NAt(s, k + 1), NMul(NSub(h, k), NSub(NAt(s, k + 2), NAt(s, k + 1))))
Cols(S, G(_)) == N(Tup([j \in 1..NNC(S) |-> G(NColumn(S, j))]))
SummaryA == Is("summary") /\ st' = st /\ Judge(LET e == Ev S == N(e.S) m == Cols(S, NMean) sd == Sds(S, 1) Pc(v) == NAt(v, 1)
      Q(pr) == LET G(v) == Quant(v, pr) IN Cols(S, G) IN <<
   <<"bootstrap-summary:" \o e.nm, NNear(e.mean, m, "1e-9") /\ NNear(e.std, sd, "1e-9") /\ NNear(e.min, Cols(S, NMin), "1e-12") /\ NNear(e.max, Cols(S, NMax), "1e-12")
        /\ \A i \in 1..Len(e.pct) : NNear(e.q[i], Q(NDiv(e.pct[i], 100)), "1e-9")>>,
   <<"bootstrap-summary-tests:" \o e.nm, NNear(e.t, NDiv(m, sd), "1e-8") /\ PClose(e.p, T2(e.t, e.df))>> >>)
(* a well-specified model of moderate size: bootstrap error and model error agree, and the samples centre on the estimate *)
SpreadA == Is("spread") /\ st' = st /\ Judge(LET e == Ev S == N(e.S) r == NDiv(Sds(S, 0), e.se) b == NDiv(NSub(Cols(S, NMean), e.b), e.se) IN <<
   <<"bootstrap-spread-matches-the-standard-error:" \o e.nm, NLt("0.4", r) /\ NLt(r, "2.5")>>,
   <<"bootstrap-samples-centre-on-the-estimate:" \o e.nm, NLt(NAbs(b), "1.2")>> >>)
---------------------------------------------------------------------------
(* permutation states *)
RECURSIVE Perms(_), Ins(_, _, _)
Ins(s, k, j) == IF j > Len(s) + 1 THEN <<>> ELSE << SubSeq(s, 1, j - 1) \o <<k>> \o SubSeq(s, j, Len(s)) >> \o Ins(s, k, j + 1)
RECURSIVE Flat(_, _)
Flat(ss, i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o Flat(ss, i + 1)
Perms(k) == IF k = 1 THEN << <<1>> >> ELSE LET s == Perms(k - 1) IN Flat(Tup([i \in 1..Len(s) |-> Ins(s[i], k, 1)]), 1)
TStat(z) == LET G == NMM(NT(X), X) g == NMM(NT(X), z) b == NSolve(G, g) s2 == NDiv(NSub(NDot(z, z), NDot(b, g)), n - p) IN NDiv(b, NSqrt(NMul(s2, NDg(NInv(G)))))
Pick(v, ix) == NSub2(v, ix, <<1>>)
Frac(T, F(_)) == NDiv(Cardinality({q \in 1..Len(T) : F(T[q])}), Len(T))
(* estimated proportion ph of exceedances of t by the states' statistics T, m draws, up to ties with t itself *)
Exceeds(ph, m, T, G(_), t) == LET lo == Frac(T, LAMBDA v : NLt(NMul(t, "1.000000001"), G(v))) hi == Frac(T, LAMBDA v : NLt(NMul(t, "0.999999999"), G(v))) k == NMul(m, ph) IN
   /\ NLe(NSub(NMul(m, lo), IF NEq(lo, 0) \/ NEq(lo, 1) THEN N("1e-6") ELSE Seven(m, lo)), k)
   /\ NLe(k, NAdd(NMul(m, hi), IF NEq(hi, 0) \/ NEq(hi, 1) THEN N("1e-6") ELSE Seven(m, hi)))
   /\ NNear(k, N(NToInt(k)), "1e-6")
PermA == Is("perm") /\ st' = st /\ Judge(LET e == Ev Ps == Perms(n) vi == e.vars rest == e.rest
      u == IF Len(rest) = 0 THEN NMul(0, y) ELSE LET Xc == NColsOf(X, rest) IN NMM(Xc, NSolve(NMM(NT(Xc), Xc), NMM(NT(Xc), y)))
      r == NSub(y, u) T == Tup([q \in 1..Len(Ps) |-> NAbs(Pick(TStat(NAdd(u, Pick(r, Ps[q]))), vi))]) t0 == NAbs(Pick(TStat(y), vi)) IN <<
   <<"permutation-p-values-match-the-exact-test:" \o e.nm, \A j \in 1..Len(vi) : LET G(v) == NAt(v, j) IN Exceeds(NAt(e.pv, j), e.m, T, G, NAt(t0, j))>>,
   <<"family-wise-p-values-match-the-exact-test:" \o e.nm, \A j \in 1..Len(vi) : Exceeds(NAt(e.pf, j), e.m, T, NMax, NAt(t0, j))>>,
   <<"family-wise-p-values-dominate:" \o e.nm, NLe(e.pv, NAdd(e.pf, "1e-9"))>>,
   <<"stored-permutation-statistics:" \o e.nm, Has(e, "T") => LET S == N(e.T) IN
        /\ \A i \in 1..NNR(S) : \E q \in 1..Len(T) : NNear(NAbs(NRow(S, i)), T[q], "1e-6")
        /\ \A j \in 1..Len(vi) : NNear(NMul(NNR(S), NAt(e.pv, j)), NSum(NGtI(NAbs(NColumn(S, j)), NAt(t0, j))), "0.6")>> >>)
(* bias corrected and accelerated intervals *)
BcaA == Is("bca") /\ st' = st /\ Judge(LET e == Ev S == N(e.S) J == N(e.J) al == N(e.alpha)
      One(j) == LET s == NColumn(S, j) d == NSub(NMean(NColumn(J, j)), NColumn(J, j)) d2 == NMul(d, d) t == NAt(e.b, j)
          z0 == NProbit(NDiv(NSum(NGtI(t, s)), NLen(s))) a == NDiv(NSum(NMul(d2, d)), NMul(6, NPow(NSum(d2), "1.5")))
          L(pr) == LET c == NAdd(z0, NProbit(pr)) IN Quant(s, NPhi(NAdd(z0, NDiv(c, NSub(1, NMul(a, c)))))) IN <<L(NDiv(al, 2)), L(NSub(1, NDiv(al, 2)))>>
      R == Tup([j \in 1..NLen(N(e.b)) |-> One(j)]) IN <<
   <<"bias-corrected-accelerated-interval", \A j \in 1..Len(R) : NNear(NEl(e.ci, j, 1), R[j][1], "1e-8") /\ NNear(NEl(e.ci, j, 2), R[j][2], "1e-8")>>,
   <<"interval-is-equivariant", NNear(NColumn(e.mci, 1), NMul(NNeg(NColumn(e.ci, 2)), e.k), "1e-7") /\ NNear(NColumn(e.mci, 2), NMul(NNeg(NColumn(e.ci, 1)), e.k), "1e-7")>>,
   <<"interval-is-ordered", NLe(NColumn(e.ci, 1), NColumn(e.ci, 2))>> >>)
(* the model describes the original data after resampling *)
StateA == Is("state") /\ st' = st /\ Judge(LET e == Ev IN <<
   <<"model-unchanged-by-resampling:" \o e.nm, NNear(e.a, e.b, "1e-12")>>,
   <<"refit-after-resampling:" \o e.nm, Has(e, "f") => NNear(e.f, e.g, "1e-4")>> >>)
Init == TInit(<<>>)
Next == BootA \/ GlmBootA \/ TableA \/ SummaryA \/ SpreadA \/ PermA \/ BcaA \/ StateA \/ Raised \/ Unchanged \/ Finished
=============================================================================
