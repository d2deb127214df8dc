-------------------------------- MODULE Ram --------------------------------
(* Meaning of a structural equation model formula, independent of any matrix   *)
(* layout: a graph with directed paths, (co)variances and intercepts over all   *)
(* variables, its free parameters, and the moments it implies.                  *)
(* A statement is [l, r, p, k, v, lab]: left, relation, right, kind ("free", "fix", "label"). *)
EXTENDS Naturals, Sequences, FiniteSets, Num, FiniteSetsExt, SequencesExt
RanS(s) == {s[i] : i \in 1..Len(s)}
Lhs(S, rel) == {s.l : s \in {t \in RanS(S) : t.r = rel}}
Rhs(S, rel) == {s.p : s \in {t \in RanS(S) : t.r = rel}}
(* classification *)
Vars(S) == LET one == {"1"} all == ({s.l : s \in RanS(S)} \cup {s.p : s \in RanS(S)}) \ one
               nob == Lhs(S, "=~") ind == Rhs(S, "=~")
               reg == {t \in RanS(S) : t.r = "~" /\ t.p # "1"}
               end == {s.l : s \in reg} exo == {s.p : s \in reg} lvo == (end \cup exo) \ nob IN
  [all |-> all, nob |-> nob, obs |-> all \ nob, lav |-> lvo \cup nob, lvo |-> lvo, ind |-> ind, end |-> end, exo |-> exo,
   lox |-> lvo \ (nob \cup end \cup ind), lvx |-> nob \ (ind \cup end), enx |-> end \ exo]
Has2(S, a, b) == \E s \in RanS(S) : s.r = "~~" /\ {s.l, s.p} = {a, b}
Pairs(V) == {q \in SUBSET V : Cardinality(q) = 2}
(* the rows of the model: key (relation, variables) -> kind.  Exogenous observed variables keep their sample moments. *)
Row(l, r, p, k, v, lab) == [l |-> l, r |-> r, p |-> p, k |-> k, v |-> v, lab |-> lab]
Two(q) == LET a == CHOOSE x \in q : TRUE IN <<a, CHOOSE x \in q : x # a>>
IsFirst(S, i) == S[i].r = "=~" /\ ~\E j \in 1..(i-1) : S[j].r = "=~" /\ S[j].l = S[i].l
AnyFixed(S, f) == \E s \in RanS(S) : s.r = "=~" /\ s.l = f /\ s.k = "fix"
Model(S, o) == LET c == Vars(S)
     given == {IF o.first /\ IsFirst(S, i) /\ ~AnyFixed(S, S[i].l) THEN Row(S[i].l, "=~", S[i].p, "fix", "1", "") ELSE S[i] : i \in 1..Len(S)}
     vars == {IF v \in c.lox THEN Row(v, "~~", v, "sample", "", "") ELSE IF v \in c.nob /\ o.lvvar THEN Row(v, "~~", v, "fix", "1", "") ELSE Row(v, "~~", v, "free", "", "") : v \in {v \in c.all : ~\E s \in RanS(S) : s.r = "~~" /\ s.l = v /\ s.p = v}}
     miss(V) == {q \in Pairs(V) : LET t == Two(q) IN ~Has2(S, t[1], t[2])}
     covs == {LET t == Two(q) IN Row(t[1], "~~", t[2], "sample", "", "") : q \in miss(c.lox)}
        \cup (IF o.lvx THEN {LET t == Two(q) IN Row(t[1], "~~", t[2], "free", "", "") : q \in miss(c.lvx)} ELSE {})
        \cup (IF o.y THEN {LET t == Two(q) IN Row(t[1], "~~", t[2], "free", "", "") : q \in miss(c.enx)} ELSE {})
     means == {IF v \in c.lox THEN Row(v, "~", "1", "sample", "", "") ELSE IF v \in c.nob /\ o.lvmean THEN Row(v, "~", "1", "fix", "0", "") ELSE Row(v, "~", "1", "free", "", "") : v \in {v \in c.all : ~\E s \in RanS(S) : s.r = "~" /\ s.l = v /\ s.p = "1"}}
  IN given \cup vars \cup covs \cup means
Free(R) == {t \in R : t.k \in {"free", "label"}}
Key(t) == IF t.r = "~~" THEN <<t.r, {t.l, t.p}>> ELSE <<t.r, <<t.l, t.p>> >>
(* matrix a row belongs to; sharing across groups is declared by matrix *)
MatOf(c, t) == IF t.r = "=~" THEN (IF t.p \in c.lav THEN 2 ELSE 1) ELSE IF t.r = "~~" THEN (IF t.l \in c.lav THEN 3 ELSE 4) ELSE IF t.p = "1" THEN (IF t.l \in c.lav THEN 6 ELSE 5) ELSE 2
(* two free rows (in groups g, h) are one parameter *)
SameParam(c, sh, g, t, h, u) == LET a == sh[MatOf(c, t)] b == sh[MatOf(c, u)] IN
   IF t.k = "label" /\ u.k = "label" THEN t.lab = u.lab /\ (g = h \/ (a /\ b)) ELSE Key(t) = Key(u) /\ t.k = u.k /\ (g = h \/ a)
(* graph: V is the sequence of all variables, val a function from keys to numbers *)
Pos(V, x) == CHOOSE i \in 1..Len(V) : V[i] = x
RECURSIVE SetAll(_, _, _, _)
SetAll(M, nr, es, i) == IF i > Len(es) THEN M ELSE SetAll(NSetAt(M, es[i][1], es[i][2]), nr, es, i + 1)
(* rows: sequence of [m (1 path, 2 covariance, 3 intercept), i, j, th (0: constant), v].  The graph is linear in theta:
   every matrix, stacked by columns, is a constant plus a selection of theta *)
Entries(rows, m, n) == LET s == SelectSeq(rows, LAMBDA t : t.m = m) IN
   [x \in 1..Len(s) |-> [p |-> (s[x].j - 1) * n + s[x].i, th |-> s[x].th, v |-> s[x].v]] \o (IF m = 2 THEN [x \in 1..Len(s) |-> [p |-> (s[x].i - 1) * n + s[x].j, th |-> s[x].th, v |-> s[x].v]] ELSE <<>>)
Lin1(rows, m, n, sz, k) == LET e == Entries(rows, m, n) c == SelectSeq(e, LAMBDA t : t.th = 0) f == SelectSeq(e, LAMBDA t : t.th # 0) IN
   [c |-> SetAll(NFull(sz, 1, 0), sz, Tup([x \in 1..Len(c) |-> <<c[x].p, c[x].v>>]), 1),
    J |-> SetAll(NFull(sz, k, 0), sz, Tup([x \in 1..Len(f) |-> <<(f[x].p - 1) * k + f[x].th, N(1)>>]), 1)]
Lin(rows, n, k, oix) == [A |-> Lin1(rows, 1, n, n * n, k), S |-> Lin1(rows, 2, n, n * n, k), b |-> Lin1(rows, 3, n, n, k), n |-> n, o |-> oix]
At(L, th) == NAdd(L.c, NMM(L.J, th))
Sq(v, n) == NUnvec(v, n, n)
Implied(L, th) == LET T == NInv(NSub(NEye(L.n), Sq(At(L.A, th), L.n))) G == NSub2(T, L.o, Tup([j \in 1..L.n |-> j])) IN [S |-> NMM(G, NMM(Sq(At(L.S, th), L.n), NT(G))), m |-> NMM(G, At(L.b, th))]
Kind(t) == IF t.r = "~~" THEN 2 ELSE IF t.r = "~" /\ t.p = "1" THEN 3 ELSE 1
RowI(V, t) == IF t.r = "=~" THEN Pos(V, t.p) ELSE Pos(V, t.l)
RowJ(V, t) == IF t.r = "=~" THEN Pos(V, t.l) ELSE IF t.p = "1" THEN 1 ELSE Pos(V, t.p)
(* sample moments with divisor n *)
SMean(Y) == NDiv(NColSum(Y), NNR(Y))
SCov(Y) == LET C == NSub(Y, NMM(NFull(NNR(Y), 1, 1), NT(SMean(Y)))) IN NDiv(NMM(NT(C), C), NNR(Y))
(* negative log-likelihood of normal observations, one entry each *)
ObsNll(Y, I) == LET n == NNR(Y) p == NNC(Y) C == NSub(Y, NMM(NFull(n, 1, 1), NT(I.m))) q == NRowSum(NMul(NT(NSolve(I.S, NT(C))), C)) IN
   NMul("0.5", NAdd(q, NAdd(NLogDet(I.S), NMul(p, NLn(NMul(2, NPi))))))
(* half n times the maximum likelihood discrepancy *)
Discr(n, S, m, I) == LET r == NSub(m, I.m) p == NLen(m) IN NMul(NDiv(n, 2), NSub(NSub(NAdd(NAdd(NDot(r, NSolve(I.S, r)), NLogDet(I.S)), NTr(NSolve(I.S, S))), NLogDet(S)), p))
=============================================================================
