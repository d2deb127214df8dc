-------------------------------- MODULE P15 --------------------------------
(* Likelihood of a structural equation model: objective, derivatives, casewise   *)
(* contributions, fit and standard errors, single and multi-group.               *)
EXTENDS SemBase
Stats == Tup([g \in G |-> [S |-> SCov(Tr.Y[g]), m |-> SMean(Tr.Y[g]), n |-> NG(g)]])
GObj(M, s, g, z) == Discr(s[g].n, s[g].S, s[g].m, Implied(M[g], z))
SumG(F(_)) == LET r[j \in 1..Len(Tr.Y)] == IF j = 1 THEN F(1) ELSE NAdd(r[j-1], F(j)) IN r[Len(Tr.Y)]
(* casewise values stacked by group, rows in the order of the groups' rows *)
AllObs(M, z) == LET r[j \in 1..Len(Tr.Y)] == IF j = 1 THEN ObsNll(N(Tr.Y[1]), Implied(M[1], z)) ELSE NVcat(r[j-1], ObsNll(N(Tr.Y[j]), Implied(M[j], z))) IN r[Len(Tr.Y)]
EvalA == Is("eval") /\ st' = st /\ Judge(LET e == Ev t == N(e.t) M == Models s == Stats
      F(z) == SumG(LAMBDA g : GObj(M, s, g, z)) o == AllObs(M, t) IN <<
   <<"objective", NNear(e.f, F(t), "1e-9")>>,
   <<"objective-by-group", \A g \in G : NNear(NAt(e.fg, g), GObj(M, s, g, t), "1e-9")>>,
   <<"log-likelihood-levels", NNear(e.ls, NSum(o), "1e-9") /\ NNear(e.lo, o, "1e-9") /\ \A g \in G : NNear(NAt(e.lg, g), NSum(ObsNll(N(Tr.Y[g]), Implied(M[g], t))), "1e-9")>>,
   <<"objective-is-the-log-likelihood-ratio-to-the-saturated-model", NNear(NSub(e.ls, e.f), SumG(LAMBDA g : NMul(NDiv(s[g].n, 2), NAdd(NAdd(NLogDet(s[g].S), NLen(s[g].m)), NMul(NLen(s[g].m), NLn(NMul(2, NPi)))))), "1e-8")>>,
   <<"gradient", LET d == NumGrad(F, t) IN NNear(e.g, d, "1e-7") /\ NNear(e.g1, d, "1e-7")>>,
   <<"gradient-by-group", \A g \in G : LET H(z) == GObj(M, s, g, z) IN NNear(NRow(e.gg, g), NumGrad(H, t), "1e-7")>>,
   <<"gradient-by-observation", LET H(z) == AllObs(M, z) IN NNear(e.go, NumJac(H, t), "1e-7")>>,
   <<"hessian", NNear(e.H, NumHess(F, t), "1e-6")>>,
   <<"hessian-by-group", \A g \in G : Has(e, "Hg") => LET H(z) == GObj(M, s, g, z) IN NNear(e.Hg[g], NumHess(H, t), "1e-6")>> >>)
FitA == Is("fit") /\ st' = st /\ Judge(LET e == Ev t == N(e.t) M == Models s == Stats F(z) == SumG(LAMBDA g : GObj(M, s, g, z)) H == NumHess(F, t) A == NInv(H)
      k == NLen(t) n == NSum(N(Tup([g \in G |-> N(s[g].n)]))) Hob(z) == AllObs(M, z) Jo == NumJac(Hob, t)
      se == NSqrt(NDg(IF e.robust THEN NMM(A, NMM(NMM(NT(Jo), Jo), A)) ELSE A)) IN <<
   <<"fit-is-stationary", NNear(NMul(NumGrad(F, t), NSqrt(NDg(A))), NFull(k, 1, 0), e.tol)>>,
   <<"fit-is-a-minimum", NLt(0, NAt(NEig(H), 1))>>,
   <<"fit-improves-on-its-start", NLe(F(t), NAdd("1e-8", F(N(e.t0))))>>,
   <<"parameter-table", NNear(e.b, t, "1e-12") /\ NClose(e.se, se, "1e-5", "1e-9") /\ NClose(e.tv, NDiv(t, e.se), "1e-9", "1e-10")>>,
   <<"labels", e.labels = e.ref>> >>)
Init == TInit(<<>>)
Next == EvalA \/ FitA \/ Raised \/ Unchanged \/ Finished
Spec == Init /\ [][Next]_vars
=============================================================================
