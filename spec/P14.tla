-------------------------------- MODULE P14 --------------------------------
(* From a structural equation formula to parameters, matrices and implied moments. *)
EXTENDS SemBase
RowOf(e) == CHOOSE t \in Free(R) : Key(t) = Key(e)
TableA == Is("table") /\ st' = st /\ Judge(LET e == Ev tab == Tr.tab c == C free == Free(R) known == \A i \in 1..Len(tab) : \E t \in free : Key(t) = Key(tab[i]) IN <<
   <<"variables-classified", RanS(e.obs) = c.obs /\ RanS(e.lav) = c.lav /\ Len(e.obs) = Cardinality(c.obs) /\ Len(e.lav) = Cardinality(c.lav)>>,
   <<"free-parameters-are-those-of-the-formula", /\ {<<tab[i].g, Key(tab[i])>> : i \in 1..Len(tab)} = {<<g, Key(t)>> : g \in G, t \in free}
                                                 /\ Len(tab) = Len(Tr.Y) * Cardinality(free)>>,
   <<"equal-parameters-are-exactly-the-shared-and-labelled", known => \A i \in 1..Len(tab) : \A j \in 1..i : (tab[i].th = tab[j].th) = SameParam(c, Tr.sh, tab[i].g, RowOf(tab[i]), tab[j].g, RowOf(tab[j]))>>,
   <<"parameters-numbered", {tab[i].th : i \in 1..Len(tab)} = 1..Tr.k>>,
   <<"variances-bounded-below-by-zero", \A i \in 1..Len(tab) : (tab[i].lb = "0.0") = (tab[i].r = "~~" /\ tab[i].l = tab[i].p)>> >>)
MomentsA == Is("moments") /\ st' = st /\ Judge(LET e == Ev t == N(e.t) M == Models I == Tup([g \in G |-> Implied(M[g], t)]) IN <<
   <<"implied-covariance", \A g \in G : NNear(e.S[g], I[g].S, "1e-9")>>,
   <<"implied-mean", \A g \in G : NNear(e.m[g], I[g].m, "1e-9")>>,
   <<"implied-statistics-stacked", \A g \in G : NNear(NRow(e.s, g), NVcat(NVech(I[g].S), I[g].m), "1e-9")>> >>)
(* the parameters of one group, in the order of its rows in the table: derivatives of the stacked moments *)
GroupRows(g) == SelectSeq(Tr.tab, LAMBDA q : q.g = g)
DerivA == Is("deriv") /\ st' = st /\ Judge(LET e == Ev rows == GroupRows(1) nf == Len(rows)
      W(g, t) == CHOOSE i \in 1..nf : Key(rows[i]) = Key(t)
      L == Tup([g \in G |-> GroupLin(g, nf, W)])
      F(g, z) == LET I == Implied(L[g], z) IN NVcat(NVech(I.S), I.m)
      J == Tup([g \in G |-> LET H(z) == F(g, z) IN NumJac(H, N(e.par[g]))]) IN <<
   <<"jacobian-of-moments", \A g \in G : NNear(e.J[g], J[g], "1e-7")>>,
   <<"second-derivatives-of-moments", \A g \in G : LET H(z) == NDot(e.c, F(g, z)) IN NNear(e.H[g], NumHess(H, N(e.par[g])), "1e-6")>> >>)
(* labelled matrices at theta: every row of the model sits where its labels say, and the rest is zero or one *)
MatsA == Is("mats") /\ st' = st /\ Judge(LET e == Ev t == N(e.t) M == Models I == Tup([g \in G |-> Implied(M[g], t)]) IN <<
   <<"labelled-matrices-reproduce-the-moments", \A g \in G : LET x == e.mats[g] T == NInv(NSub(NEye(NNR(x.B)), x.B)) LB == NMM(x.L, T)
        oix == Tup([i \in 1..Len(Tr.O) |-> CHOOSE j \in 1..Len(e.on) : e.on[j] = Tr.O[i]]) IN
        /\ NNear(NSub2(NAdd(NMM(LB, NMM(x.F, NT(LB))), x.P), oix, oix), I[g].S, "1e-8")
        /\ NNear(NSub2(NAdd(x.a, NMM(LB, x.b)), oix, <<1>>), I[g].m, "1e-8")>>,
   <<"labelled-entries", \A g \in G : \A r \in R : LET x == e.mats[g] m == MatOf(C, r) i(S, v) == CHOOSE j \in 1..Len(S) : S[j] = v
        val == IF r.k \in {"free", "label"} THEN NAt(t, ThOf(g, r)) ELSE IF r.k = "sample" THEN SampleOf(g, r, SCov(Tr.Y[g]), SMean(Tr.Y[g])) ELSE N(r.v)
        got == CASE m = 1 -> NEl(x.L, i(e.on, r.p), i(e.ln, r.l))
                 [] m = 2 -> IF r.r = "=~" THEN NEl(x.B, i(e.ln, r.p), i(e.ln, r.l)) ELSE NEl(x.B, i(e.ln, r.l), i(e.ln, r.p))
                 [] m = 3 -> NEl(x.F, i(e.ln, r.l), i(e.ln, r.p))
                 [] m = 4 -> NEl(x.P, i(e.on, r.l), i(e.on, r.p))
                 [] m = 5 -> NAt(x.a, i(e.on, r.l))
                 [] m = 6 -> NAt(x.b, i(e.ln, r.l)) IN NNear(got, val, "1e-9")>> >>)
(* writing the same formula differently does not change the parameters or the moments *)
SameA == Is("same") /\ st' = st /\ Judge(LET e == Ev IN <<
   <<"layout-of-the-text-does-not-matter", e.labels = e.labels2 /\ NNear(e.S, e.S2, "1e-12")>> >>)
Init == TInit(<<>>)
Next == TableA \/ MomentsA \/ DerivA \/ MatsA \/ SameA \/ Raised \/ Unchanged \/ Finished
Spec == Init /\ [][Next]_vars
=============================================================================
