-------------------------------- MODULE P13 --------------------------------
(* Mixed model formulas, grouping layouts and simulators.  A formula is its     *)
(* sequence of terms; a layout assigns every observation a level of each factor; *)
(* a simulated response is fixed part + random effects of the observation's      *)
(* levels + residual, and the model rebuilt from it is the one simulated.        *)
EXTENDS TraceBase, FiniteSetsExt, SequencesExt
(* ---- formulas *)
IsRand(t) == t \in {"1|g", "1 + x1|g", "0 + x2|h", "1|h"}
Pair(t) == CASE t = "1|g" -> <<"1", "g">> [] t = "1 + x1|g" -> <<"1 + x1", "g">> [] t = "0 + x2|h" -> <<"0 + x2", "h">> [] t = "1|h" -> <<"1", "h">>
Col(d, nm) == CASE nm = "Intercept" -> NFull(NLen(N(d.x1)), 1, 1) [] nm = "x1" -> N(d.x1) [] nm = "x2" -> N(d.x2) [] nm = "x1:x2" -> NMul(d.x1, d.x2)
(* the levels in order of appearance *)
FirstSeen(lev) == LET RECURSIVE go(_, _) go(k, acc) == IF k > Len(lev) THEN acc ELSE go(k + 1, IF lev[k] \in ToSet(acc) THEN acc ELSE Append(acc, lev[k])) IN go(1, <<>>)
(* design of one random term: level-major blocks of its covariates *)
ReCols(form) == CASE form = "1" -> <<"Intercept">> [] form = "1 + x1" -> <<"Intercept", "x1">> [] form = "x1" -> <<"Intercept", "x1">> [] form = "0 + x2" -> <<"x2">> [] form = "x1 + x2" -> <<"Intercept", "x1", "x2">>
Zt(d, form, lev, srt) == LET cs == Tup([k \in 1..Len(ReCols(form)) |-> Col(d, ReCols(form)[k])]) L == IF srt THEN SetToSortSeq(ToSet(lev), <) ELSE FirstSeen(lev) n == Len(lev) q == Len(cs)
     pos == Tup([i \in 1..n |-> CHOOSE k \in 1..Len(L) : L[k] = lev[i]]) IN
   NMat(n, Len(L) * q, N(Tup([z \in 1..(n * Len(L) * q) |-> LET i == ((z - 1) \div (Len(L) * q)) + 1 j == ((z - 1) % (Len(L) * q)) IN IF j \div q = pos[i] - 1 THEN NAt(cs[(j % q) + 1], i) ELSE N(0)])))
RECURSIVE HcatAll(_)
HcatAll(S) == IF Len(S) = 1 THEN S[1] ELSE NHcat(HcatAll(SubSeq(S, 1, Len(S) - 1)), S[Len(S)])
Zall(d, terms) == HcatAll(Tup([k \in 1..Len(terms) |-> Zt(d, terms[k][1], IF terms[k][2] = "g" THEN d.g ELSE d.h, FALSE)]))
FormA == Is("formula") /\ st' = st /\ Judge(LET e == Ev d == Tr T == e.items R == SelectSeq(T, IsRand) fx == ToSet(T) \cap {"x1", "x2", "x1:x2"}
      want == fx \cup (IF "-1" \in ToSet(T) THEN {} ELSE {"Intercept"}) pr == Tup([k \in 1..Len(R) |-> Pair(R[k])]) IN <<
   <<"random-terms-in-order", e.re = pr /\ e.forms = Tup([k \in 1..Len(pr) |-> pr[k][1]]) /\ e.groups = Tup([k \in 1..Len(pr) |-> pr[k][2]])>>,
   <<"responses", e.y = <<"y">> >>,
   <<"variables", \A v \in ToSet(e.vars) : v = e.stripped[CHOOSE k \in 1..Len(e.vars) : e.vars[k] = v] /\ v # "">>,
   <<"fixed-design-columns", ToSet(e.cols) = want /\ Len(e.cols) = Cardinality(want) /\ \A k \in 1..Len(e.cols) : NNear(NColumn(N(e.X), k), Col(d, e.cols[k]), "1e-13")>>,
   <<"fitted-model-columns", Has(e, "mcols") => ToSet(e.mcols) = want /\ Len(e.mcols) = Cardinality(want) /\ \A k \in 1..Len(e.mcols) : NNear(NColumn(N(e.MX), k), Col(d, e.mcols[k]), "1e-14")>>,
   <<"random-design", Has(e, "Z") => NNear(e.Z, Zall(d, pr), "1e-14")>> >>)
RanefFindA == Is("find") /\ st' = st /\ Judge(LET e == Ev IN << <<"random-terms-found", e.found = e.want>> >>)
(* ---- grouping layouts: e.fs the factors in the order given, e.out their levels per observation *)
Lev(o) == ToSet(o)
Fac(fs, nm) == CHOOSE f \in ToSet(fs) : f.name = nm
Slow(o, K) == \A i \in 1..Len(o) : o[i] = ((i - 1) * K) \div Len(o)
Fast(o, K) == \A i \in 1..Len(o) : o[i] = (i - 1) % K
NestOk(c, p, m) ==
   /\ \A i, j \in 1..Len(c) : c[i] = c[j] => p[i] = p[j]
   /\ \A l \in Lev(p) : Cardinality({c[i] : i \in {i \in 1..Len(p) : p[i] = l}}) = m
   /\ \A l \in Lev(c) : Cardinality({i \in 1..Len(c) : c[i] = l}) * m = Cardinality({i \in 1..Len(p) : p[i] = p[CHOOSE j \in 1..Len(c) : c[j] = l]})
   /\ Lev(c) = 0..(Cardinality(Lev(p)) * m - 1)
   /\ \A i, j \in 1..Len(c) : (i < j /\ p[i] = p[j]) => c[i] <= c[j]
Divides(k, n) == k > 0 /\ n % k = 0
GroupA == Is("groupings") /\ st' = st /\ Judge(LET e == Ev fs == e.fs o == e.out IN <<
   <<"every-factor-resolved", DOMAIN o = {fs[k].name : k \in 1..Len(fs)} /\ \A nm \in DOMAIN o : Len(o[nm]) = e.n>>,
   <<"crossed-factors", \A k \in 1..Len(fs) : fs[k].kind = "repeat" => Slow(o[fs[k].name], fs[k].k)>>,
   <<"cycling-factors", \A k \in 1..Len(fs) : fs[k].kind = "tile" => Fast(o[fs[k].name], fs[k].k)>>,
   <<"given-membership", \A k \in 1..Len(fs) : fs[k].kind = "given" => o[fs[k].name] = fs[k].m>>,
   <<"nested-factors", \A k \in 1..Len(fs) : fs[k].kind = "nested" => NestOk(o[fs[k].name], o[fs[k].parent], fs[k].k)>>,
   <<"slow-by-fast-is-complete", \A j, k \in 1..Len(fs) : (fs[j].kind = "repeat" /\ fs[k].kind = "tile" /\ Divides(fs[j].k * fs[k].k, e.n))
        => \A a \in 0..(fs[j].k - 1), b \in 0..(fs[k].k - 1) : Cardinality({i \in 1..e.n : o[fs[j].name][i] = a /\ o[fs[k].name][i] = b}) * fs[j].k * fs[k].k = e.n>> >>)
ErrA == Is("rejects") /\ st' = st /\ Judge(LET e == Ev IN << <<"invalid-specification-rejected:" \o e.what, e.err = "ValueError">> >>)
(* ---- simulators.  Tr.x1.. covariates; e.terms the random terms with covariance and levels *)
VechAll(terms) == LET RECURSIVE go(_) go(k) == IF k = 1 THEN NVech(N(terms[1].G)) ELSE NVcat(go(k - 1), NVech(N(terms[k].G))) IN go(Len(terms))
Dd(e) == [x1 |-> e.x1, x2 |-> e.x2]
ZofT(e) == HcatAll(Tup([k \in 1..Len(e.terms) |-> Zt(Dd(e), e.terms[k].form, e.terms[k].lev, e.srt)]))
(* variance of the random part, averaged over observations *)
Vre(e) == LET n == NLen(N(e.x1)) RECURSIVE go(_)
     go(k) == IF k = 0 THEN N(0) ELSE LET t == e.terms[k] W == HcatAll(Tup([j \in 1..Len(ReCols(t.form)) |-> Col(Dd(e), ReCols(t.form)[j])])) IN NAdd(go(k - 1), NDiv(NSum(NMul(NMM(W, N(t.G)), W)), n)) IN go(Len(e.terms))
Var0(v) == NSub(NMean(NMul(v, v)), NMul(NMean(v), NMean(v)))
SimA == Is("sim") /\ st' = st /\ Judge(LET e == Ev X == N(e.X) Z == ZofT(e) n == NNR(X) eta == NMM(X, N(e.beta)) IN <<
   <<"design-of-the-formula", NNear(X, HcatAll(Tup([k \in 1..Len(e.cols) |-> Col(Dd(e), e.cols[k])])), "1e-12")>>,
   <<"random-effects-design", NNear(e.Z, Z, "1e-12")>>,
   <<"true-parameters", NNear(e.theta, NVcat(VechAll(e.terms), N(e.rv)), "1e-12") /\ NNear(e.beta1, e.beta, "1e-15")>>,
   <<"fixed-part", NNear(e.eta, eta, "1e-10")>>,
   <<"covariate-moments", Has(e, "xcov") => LET C == NHcat(N(e.x1), N(e.x2)) M == NDiv(NColSum(C), n) Q == NSub(C, NMM(NFull(n, 1, 1), NT(M))) IN NNear(M, e.xmean, "1e-9") /\ NNear(NDiv(NMM(NT(Q), Q), n), e.xcov, "1e-9")>>,
   <<"variance-components", Has(e, "vc") => NNear(NAt(N(e.vc), 1), IF e.raw THEN NMean(NMul(eta, eta)) ELSE Var0(eta), "1e-9") /\ NNear(NAt(N(e.vc), 2), Vre(e), "1e-9")>>,
   <<"variance-ratios", Has(e, "ratio") => LET f == IF e.raw THEN NMean(NMul(eta, eta)) ELSE Var0(eta) r == Vre(e) t == NAdd(NAdd(f, r), e.rv) IN NNear(NDiv(f, t), e.ratio[1], "1e-9") /\ NNear(NDiv(r, t), e.ratio[2], "1e-9")>>,
   <<"covariances-in-proportion", Has(e, "G0") => \A k \in 1..Len(e.terms) : LET A == N(e.terms[k].G) B == N(e.G0[k]) c == NDiv(NEl(N(e.terms[1].G), 1, 1), NEl(N(e.G0[1]), 1, 1)) IN NNear(A, NMul(c, B), "1e-10")>> >>)
RECURSIVE Flat(_, _)
Flat(U, k) == IF k = 1 THEN NVec(NT(N(U[1]))) ELSE NVcat(Flat(U, k - 1), NVec(NT(N(U[k]))))
(* e.U: the effects drawn per term (levels by rows), e.E the standard residuals drawn *)
DrawA == Is("draw") /\ st' = st /\ Judge(LET e == Ev u == Flat(e.U, Len(e.U)) IN <<
   <<"effects-in-design-order", NNear(e.u, u, "1e-12")>>,
   <<"response-is-the-sum-of-its-parts", NNear(e.y, NAdd(NAdd(e.eta, NMM(N(e.Z), u)), NMul(e.E, NSqrt(N(e.rv)))), "1e-9")>>,
   <<"draws-use-the-right-law", \A k \in 1..Len(e.U) : NNear(e.Gs[k], e.terms[k], "1e-12") /\ NNR(N(e.U[k])) = e.ng[k]>> >>)
MomA == Is("moments") /\ st' = st /\ Judge(LET e == Ev U == N(e.U) n == NNR(U) m == NDiv(NColSum(U), n) Q == NSub(U, NMM(NFull(n, 1, 1), NT(m))) tol == IF e.exact THEN N("1e-9") ELSE NDiv(7, NSqrt(N(n))) IN <<
   <<"mean-of-the-draws", e.mean0 => NLe(NAbs(m), NMul(tol, NAdd(1, NSqrt(NMax(NDg(N(e.S)))))))>>,
   <<"covariance-of-the-draws", NNear(NDiv(NMM(NT(Q), Q), n), e.S, tol)>> >>)
(* the model rebuilt from simulated data is the simulated one *)
BackA == Is("roundtrip") /\ st' = st /\ Judge(LET e == Ev IN <<
   <<"rebuilt-design", NNear(e.X, e.X0, "1e-12") /\ NNear(e.Z, e.Z0, "1e-12") /\ NNear(e.y, e.y0, "1e-12")>>,
   <<"rebuilt-parameters", e.nt = e.nt0>>,
   <<"recovered-no-worse-than-the-truth", NLe(e.fhat, NAdd(e.ftrue, "1e-6"))>>,
   <<"estimate-is-the-optimum", NNear(e.that, e.topt, "1e-10")>> >>)
SameA == Is("same") /\ st' = st /\ Judge(LET e == Ev IN << <<e.what, NNear(e.a, e.b, e.tol)>> >>)
EqA == Is("equal") /\ st' = st /\ Judge(LET e == Ev IN << <<e.what, e.a = e.b>> >>)
Init == TInit(<<>>)
Next == FormA \/ RanefFindA \/ GroupA \/ ErrA \/ SimA \/ DrawA \/ MomA \/ BackA \/ SameA \/ EqA \/ Raised \/ Unchanged \/ Finished
Spec == Init /\ [][Next]_vars
=============================================================================
