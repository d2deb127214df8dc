-------------------------------- MODULE P11 --------------------------------
(* Stratified cluster samples.  The abstract design of a frame is the set of     *)
(* its (stratum, unit) pairs, after the strata with a single unit are folded     *)
(* into one last stratum whose units they are; the covariance of a total is the  *)
(* between-unit covariance within strata, with finite population correction.     *)
EXTENDS TraceBase, ExpFam, FiniteSetsExt, SequencesExt
Ran(f) == {f[x] : x \in DOMAIN f}
Sorted(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
(* s, k: ranks of the stratum and unit label of every row, in the order of the frame handed over *)
PairsOf(s, k) == {<<s[i], k[i]>> : i \in 1..Len(s)}
Singles(s, k) == {h \in Ran(s) : Cardinality({q \in PairsOf(s, k) : q[1] = h}) = 1}
Fold(s, k, pol) == LET S == Singles(s, k) top == 1 + (CHOOSE m \in Ran(s) : \A x \in Ran(s) : x <= m) IN
   IF pol = "aggregate" /\ S # {} THEN [i \in 1..Len(s) |-> IF s[i] \in S THEN <<top, s[i]>> ELSE <<s[i], k[i]>>] ELSE [i \in 1..Len(s) |-> <<s[i], k[i]>>]
PLess(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
(* the layout: ordered strata, ordered units with their row sets *)
Design(s, k, pol) == LET L == Fold(s, k, pol) U == SetToSortSeq(Ran(L), PLess) H == Sorted({q[1] : q \in Ran(L)}) IN
   [L |-> L, U |-> U, H |-> H, m |-> Tup([h \in 1..Len(H) |-> Cardinality({q \in Ran(L) : q[1] = H[h]})]), c |-> Tup([g \in 1..Len(U) |-> Cardinality({i \in 1..Len(s) : L[i] = U[g]})])]
Ptr(c) == LET r[j \in 0..Len(c)] == IF j = 0 THEN 0 ELSE r[j-1] + c[j] IN Tup([j \in 1..Len(c) + 1 |-> r[j-1]])
Factor(D, fpc) == N(Tup([h \in 1..Len(D.H) |-> IF D.m[h] = 1 THEN N(0) ELSE NDiv(NMul(NSub(1, NAt(fpc, h)), D.m[h]), D.m[h] - 1)]))
NoF(D) == NFull(Len(D.H), 1, 0)
(* U: one row per frame row, in frame order *)
Total(D, U, q) == LET ix == Tup(SetToSortSeq({i \in 1..NNR(U) : D.L[i] = q}, LAMBDA a, b : a < b)) IN NColSum(NSub2(U, ix, Tup([j \in 1..NNC(U) |-> j])))
Outer(v) == NMM(v, NT(v))
Sum(ms) == LET r[j \in 1..Len(ms)] == IF j = 1 THEN N(ms[1]) ELSE NAdd(r[j-1], ms[j]) IN r[Len(ms)]
Meat(D, fpc, U) == LET f == Factor(D, fpc) p == NNC(U) IN Sum(Tup([h \in 1..Len(D.H) |->
     LET us == SelectSeq(D.U, LAMBDA q : q[1] = D.H[h]) T == Tup([g \in 1..Len(us) |-> Total(D, U, us[g])]) m == NDiv(Sum(T), Len(us))
     IN NMul(NAt(f, h), Sum(Tup([g \in 1..Len(us) |-> Outer(NSub(T[g], m))])))]))
Cols(M) == Tup([j \in 1..NNC(M) |-> j])
Perm(M, ix) == NSub2(M, ix, Cols(N(M)))
Bij(rid) == Ran(rid) = 1..Len(rid)

---------------------------------------------------------------------------
(* construction: refused exactly when the policy says so *)
BuildA == Is("build") /\ st' = st /\ Judge(LET e == Ev D == Design(e.s, e.k, e.pol) refuse == e.pol = "error" /\ Singles(e.s, e.k) # {} IN
   IF refuse \/ e.err # "none" THEN << <<"singleton-policy:" \o e.nm, refuse /\ e.err = "ValueError">> >>
   ELSE LET f == IF Has(e, "fpc") THEN N(e.fpc) ELSE NoF(D) U == N(e.U) IN <<
   <<"rows-kept-and-grouped:" \o e.nm, Bij(e.rid) /\ Len(e.rid) = Len(e.s) /\ \A i \in 1..Len(e.rid) - 1 : ~PLess(D.L[e.rid[i+1]], D.L[e.rid[i]])>>,
   <<"weights-follow-their-rows:" \o e.nm, NSame(e.w, Perm(e.w0, e.rid))>>,
   <<"layout:" \o e.nm, /\ e.nstr = Len(D.H) /\ e.ngrp = Len(D.U) /\ e.m = D.m /\ e.ps = Ptr(D.m) /\ e.pu = Ptr(D.c) /\ NNear(e.ssf, Factor(D, f), "1e-12")>>,
   <<"covariance-of-a-total:" \o e.nm, NNear(e.M, Meat(D, f, U), "1e-10")>> >>)
(* a label may be missing or the correction misshapen: refused *)
RefuseA == Is("refuse") /\ st' = st /\ Judge(LET e == Ev IN << <<"refuses:" \o e.nm, e.err = "ValueError">> >>)
(* laws of the covariance that do not mention the layout *)
LawsA == Is("laws") /\ st' = st /\ Judge(LET e == Ev IN <<
   <<"covariance-psd:" \o e.nm, NLe("-1e-9", NDiv(NAt(NEig(e.M), 1), NAdd("1e-12", NTr(e.M))))>>,
   <<"covariance-is-quadratic:" \o e.nm, NNear(e.MB, NMM(NT(e.B), NMM(e.M, e.B)), "1e-9")>>,
   <<"covariance-ignores-frame-order-and-label-names:" \o e.nm, NNear(e.M2, e.M, "1e-9")>> >>)
(* a history of subpopulations: weights are those of the rows in every mask so far, everything else unchanged *)
RECURSIVE InAll(_, _, _)
InAll(ms, i, j) == j = 0 \/ (ms[j][i] = 1 /\ InAll(ms, i, j - 1))
SubsetA == Is("subset") /\ st' = st /\ Judge(LET e == Ev n == Len(e.rid) IN <<
   <<"subset-zeroes-weights-outside:" \o e.nm, \A j \in 1..Len(e.ws) : \A i \in 1..n : NEq(NAt(e.ws[j], i), IF InAll(e.masks, i, j) THEN NAt(e.w, i) ELSE 0)>>,
   <<"subset-keeps-structure:" \o e.nm, \A j \in 1..Len(e.ss) : e.ss[j] = e.s0>>,
   <<"subset-leaves-parent-alone:" \o e.nm, NSame(e.wafter, e.w) /\ \A j \in 1..Len(e.Ms) : NNear(e.Ms[j], e.M, "1e-12")>> >>)
(* design-based estimation: estimating equation and sandwich of a (sub)population *)
MeanOf(f, eta) == CASE f = "Gaussian" -> eta [] f = "Binomial" -> NDiv(1, NAdd(1, NExp(NNeg(eta)))) [] f = "Poisson" -> NExp(eta)
EstA == Is("est") /\ st' = st /\ Judge(LET e == Ev D == Design(e.s, e.k, e.pol) X == N(e.X) b == N(e.b) mu == MeanOf(e.f, NMM(X, b)) wt == N(e.wm)
      U == NMM(NDiag(NMul(wt, NSub(e.y, mu))), X) V == UnitVar(e.f, mu, N(1)) A == NInv(NMM(NT(X), NMM(NDiag(NMul(wt, V)), X))) p == NNC(X) IN <<
   <<"estimating-equation:" \o e.nm, LET s == NDiv(NColSum(U), NSqrt(NDg(NInv(A)))) IN NNear(s, NFull(p, 1, 0), e.tol)>>,
   <<"sandwich:" \o e.nm, NNear(e.V, NMM(A, NMM(Meat(D, NoF(D), U), A)), e.vtol)>>,
   <<"scores-in-design-order:" \o e.nm, Has(e, "U") => NNear(e.U, Perm(U, e.rid), "1e-8")>>,
   <<"bread:" \o e.nm, Has(e, "A") => NNear(e.A, A, "1e-8")>> >>)
SandA == Is("sand") /\ st' = st /\ Judge(LET e == Ev IN << <<"sandwich-product", NNear(e.V, NMM(e.A, NMM(e.M, e.A)), "1e-10")>> >>)
---------------------------------------------------------------------------
(* populations *)
PopA == Is("pop") /\ st' = st /\ Judge(LET e == Ev n == Tr.H * Tr.K * Tr.R IN <<
   <<"balanced-nested-layout:" \o e.nm, Len(e.s) = n /\ \A i \in 1..n : e.k[i] = (i - 1) \div Tr.R /\ e.s[i] = (i - 1) \div (Tr.R * Tr.K)>>,
   <<"truth-matches-the-design-columns:" \o e.nm, NSame(e.theta, Tr.beta) /\ e.names = Tr.names>>,
   <<"response-without-noise-is-the-predictor-plus-a-unit-effect:" \o e.nm, Has(e, "y0") =>
        LET r == NSub(e.y0, NMM(e.X, Tr.beta)) IN \A i \in 1..n : LET d == NSub(NAt(r, i), NAt(r, ((i - 1) \div Tr.R) * Tr.R + 1)) IN
             NNear(d, 0, "1e-9") /\ (NEq(Tr.icv, 0) => NNear(NAt(r, i), 0, "1e-9"))>>,
   <<"weights-from-the-drawn-frame:" \o e.nm, NNear(e.w, IF Has(e, "wx") THEN e.wx ELSE NFull(n, 1, 1), "1e-12")>>,
   <<"same-generator-state-same-draw:" \o e.nm, e.again /\ e.differs>> >>)
(* moments of a large draw *)
Z(v, m, s) == NLe(NAbs(NDiv(NSub(v, m), s)), 6)
MomA == Is("mom") /\ st' = st /\ Judge(LET e == Ev IN << <<"population-moments:" \o e.nm, \A i \in 1..NLen(N(e.v)) : Z(NAt(e.v, i), NAt(e.m, i), NAt(e.sd, i))>> >>)
(* replication summaries *)
RepA == Is("rep") /\ st' = st /\ Judge(LET e == Ev P == N(e.P) n == NNR(P) p == NNC(P) th == N(e.theta) m == NDiv(NColSum(P), n)
      C == NSub(P, NMM(NFull(n, 1, 1), NT(m))) S == NDiv(NMM(NT(C), C), n - 1) VM == NDiv(Sum(e.Vs), n)
      z == N(Tup([i \in 1..n |-> NDiv(NSub(NRow(P, i), th), NSqrt(NDg(e.Vs[i])))]))
      cov(a) == N(Tup([j \in 1..p |-> NDiv(Cardinality({i \in 1..n : NLt(a, NMul(2, NPhi(NNeg(NAbs(NEl(z, i, j))))))}), n)])) IN <<
   <<"replicates-are-the-fits-of-the-draws", Has(e, "P0") => NNear(P, e.P0, "1e-12") /\ \A i \in 1..n : NNear(e.Vs[i], e.V0[i], "1e-9")>>,
   <<"bias-and-covariances", NNear(e.bias, NSub(m, th), "1e-9") /\ NNear(e.ecov, S, "1e-9") /\ NNear(e.acov, VM, "1e-10")>>,
   <<"standard-errors", NNear(e.see, NSqrt(NDg(S)), "1e-9") /\ NNear(e.sea, NSqrt(NDg(VM)), "1e-9") /\ NNear(e.ratio, NDiv(e.see, e.sea), "1e-9")>>,
   <<"z-and-coverage", NNear(e.z, z, "1e-9") /\ NNear(e.cov, cov(e.alpha), "1e-12")>>,
   <<"summary-table", NNear(e.tab, NT(N(Tup(<<th, m, NSub(m, th), N(e.see), N(e.sea), N(e.ratio), N(e.cov)>>))), "1e-9")>> >>)
Init == TInit(<<>>)
Next == BuildA \/ RefuseA \/ LawsA \/ SubsetA \/ EstA \/ SandA \/ PopA \/ MomA \/ RepA \/ Raised \/ Unchanged \/ Finished
Spec == Init /\ [][Next]_vars
=============================================================================
