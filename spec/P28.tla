-------------------------------- MODULE P28 --------------------------------
(* Data simulated from a structural equation model: every group is a sample of  *)
(* the normal law the model implies at the simulated parameters, shared and     *)
(* labelled parameters being one number.                                        *)
EXTENDS SemBase
Kolm(z) == LET s == NPhi(NSort(z)) n == NLen(z) k == N(Tup([i \in 1..n |-> i])) IN NMul(NSqrt(n), NMax(NVcat(NAbs(NSub(NDiv(k, n), s)), NAbs(NSub(s, NDiv(NSub(k, 1), n))))))
MeanOk(Y, I) == LET n == NNR(Y) d == NSub(NDiv(NColSum(Y), n), NVec(I.m)) IN \A j \in 1..NLen(d) : NLt(NAbs(NAt(d, j)), NMul(6, NSqrt(NDiv(NEl(I.S, j, j), n))))
CovOk(Y, I) == LET n == NNR(Y) D == NSub(SCov(Y), I.S) IN \A j \in 1..NNR(I.S) : \A k \in 1..j : NLt(NAbs(NEl(D, j, k)), NMul(7, NSqrt(NDiv(NAdd(NMul(NEl(I.S, j, j), NEl(I.S, k, k)), NMul(NEl(I.S, j, k), NEl(I.S, j, k))), n))))
(* likelihood ratio of the sample moments against the model's: chi-square *)
RatioOk(Y, I) == LET n == NNR(Y) p == NNC(Y) S == SCov(Y) W == NMM(NInv(I.S), S) d == NSub(NDiv(NColSum(Y), n), NVec(I.m)) x == NMul(n, NAdd(NSub(NSub(NTr(W), NLogDet(W)), p), NDot(d, NMM(NInv(I.S), d)))) IN
   NLt("1e-9", NSub(1, NGammaP(NDiv(NAdd(p, (p*(p+1)) \div 2), 2), NDiv(x, 2))))
LawOk(Y, I) == \A j \in 1..NNC(Y) : NLt(Kolm(NDiv(NSub(NColumn(Y, j), NAt(NVec(I.m), j)), NSqrt(NEl(I.S, j, j)))), "2.85")
In(x, a, b) == NLe(a, x) /\ NLe(x, b)
SimulatedA == Is("simulated") /\ st' = st /\ Judge(LET e == Ev t == N(e.t) M == Models I == Tup([g \in G |-> Implied(M[g], t)]) Y == Tup([g \in G |-> N(e.Y[g])]) IN <<
   <<"one-row-per-observation-of-each-group", \A g \in G : e.rows[g] = e.sizes[g]>>,
   <<"group-sizes-within-their-bounds", Len(e.sizes) = Len(Tr.Y) /\ \A g \in G : e.lo <= e.sizes[g] /\ e.sizes[g] <= e.hi>>,
   <<"no-other-rows", e.total = FoldSeq(LAMBDA a, b : a + b, 0, e.rows)>>,
   <<"columns-are-the-observed-variables", RanS(e.columns) = C.obs \cup {"group"} /\ Len(e.columns) = Cardinality(C.obs) + 1>>,
   <<"loadings-in-their-range", \A i \in 1..Tr.k : e.mats[i] = 0 => In(NAt(t, i), "0.8", "0.9")>>,
   <<"regressions-in-their-range", \A i \in 1..Tr.k : e.mats[i] = 1 => In(NAt(t, i), "0.5", "0.9")>>,
   <<"latent-variances-in-their-range", \A i \in 1..Tr.k : (e.mats[i] = 2 /\ e.kinds[i] = "variance") => In(NAt(t, i), 2, 3)>>,
   <<"residual-variances-in-their-range", \A i \in 1..Tr.k : (e.mats[i] = 3 /\ e.kinds[i] = "variance") => In(NAt(t, i), "0.5", "0.9")>>,
   <<"means-of-the-model", \A g \in G : MeanOk(Y[g], I[g])>>,
   <<"covariances-of-the-model", \A g \in G : CovOk(Y[g], I[g])>>,
   <<"moments-of-the-model-jointly", \A g \in G : RatioOk(Y[g], I[g])>>,
   <<"normal-law", \A g \in G : LawOk(Y[g], I[g])>> >>)
AgainA == Is("again") /\ st' = st /\ Judge(LET e == Ev IN <<
   <<"same-generator-same-data", e.shape /\ NNear(e.a, e.b, "1e-7")>>,
   <<"other-generator-other-data", ~e.other>> >>)
FreshA == Is("fresh") /\ st' = st /\ Judge(LET e == Ev IN <<
   <<"second-draw-is-new", ~e.same>>,
   <<"second-draw-keeps-the-sizes", e.rows = e.sizes>> >>)
Init == TInit(<<>>)
Next == SimulatedA \/ AgainA \/ FreshA \/ Raised \/ Unchanged \/ Finished
Spec == Init /\ [][Next]_vars
=============================================================================
