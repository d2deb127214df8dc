------------------------------ MODULE SemBase ------------------------------
(* The model of a session: formula Tr.stm with options Tr.opt, variables Tr.V  *)
(* (observed Tr.O), data of each group Tr.Y, sharing Tr.sh per matrix, and the    *)
(* table of free parameters the code made, Tr.tab: rows [g, l, r, p, th].         *)
EXTENDS TraceBase, Ram
C == Vars(Tr.stm)
R == Model(Tr.stm, Tr.opt)
V == Tr.V
G == 1..Len(Tr.Y)
Oix == Tup([i \in 1..Len(Tr.O) |-> Pos(V, Tr.O[i])])
Col(x) == CHOOSE j \in 1..Len(Tr.O) : Tr.O[j] = x
SampleOf(g, t, S, m) == IF t.r = "~~" THEN NEl(S, Col(t.l), Col(t.p)) ELSE NAt(m, Col(t.l))
ThOf(g, t) == Tr.tab[CHOOSE i \in 1..Len(Tr.tab) : Tr.tab[i].g = g /\ Key(Tr.tab[i]) = Key(t)].th
(* linear map of group g.  which(g, t): index of the parameter of a free row *)
GroupLin(g, k, which(_, _)) == LET S == SCov(Tr.Y[g]) m == SMean(Tr.Y[g]) s == SetToSeq(R) IN
   Lin(Tup([x \in 1..Len(s) |-> LET t == s[x] f == t.k \in {"free", "label"} IN
        [m |-> Kind(t), i |-> RowI(V, t), j |-> RowJ(V, t), th |-> IF f THEN which(g, t) ELSE 0,
         v |-> IF f THEN N(0) ELSE IF t.k = "sample" THEN SampleOf(g, t, S, m) ELSE N(t.v)]]), Len(V), k, Oix)
Models == Tup([g \in G |-> GroupLin(g, Tr.k, ThOf)])
NG(g) == NNR(Tr.Y[g])
Moments(I) == N(Tup(<<NVech(I.S), I.m>>))
=============================================================================
