-------------------------------- MODULE P01 --------------------------------
EXTENDS TraceBase, Layout

TriA == Is("tri") /\ st' = st /\ Judge(LET e == Ev IN <<
   <<"tril-positions", Zip(e.lr, e.lc) = TriSeq(e.n, e.m, e.k, e.order, Lower)>>,
   <<"triu-positions", Zip(e.ur, e.uc) = TriSeq(e.n, e.m, e.k, e.order, Upper)>> >>)
DiagA == Is("diag") /\ st' = st /\ Judge(LET e == Ev IN <<
   <<"diag-positions", Zip(e.r, e.c) = SelectSeq(CellsC(e.n, e.n), LAMBDA x : x[2] = x[1] + e.k)>> >>)
VechA == Is("vech") /\ st' = st /\ Judge(LET e == Ev  S == Tup(IF e.strict THEN VeclSeq(e.n) ELSE VechSeq(e.n))  w == IF e.strict THEN "vecl" ELSE "vech" IN <<
   <<w \o "-reverse-array", Zip(e.rr, e.rc) = S>>,
   <<w \o "-reverse-scalar", Zip(e.sr, e.sc) = S>>,
   <<w \o "-forward-array", e.fw = [k \in 1..Len(S) |-> k - 1]>>,
   <<w \o "-forward-scalar", e.fs = [k \in 1..Len(S) |-> k - 1]>> >>)
(* far positions: the map is characterised by the column starts *)
BigVechA == Is("bigvech") /\ st' = st /\ Judge(LET e == Ev
      d == IF e.strict THEN 1 ELSE 0
      start(c) == c * (e.n - d) - (c * (c - 1)) \div 2
      w == IF e.strict THEN "vecl" ELSE "vech" IN <<
   <<w \o "-far-reverse", \A k \in 1..Len(e.pos) : e.c[k] \in 0..(e.n - 1 - d) /\ e.r[k] \in (e.c[k] + d)..(e.n - 1) /\ start(e.c[k]) + (e.r[k] - e.c[k] - d) = e.pos[k]>>,
   <<w \o "-far-forward", e.back = e.pos>> >>)
LargestTriA == Is("largesttri") /\ st' = st /\ Judge(LET e == Ev IN <<
   <<"largest-triangular", \A k \in 1..Len(e.a) : Tri(e.s[k]) <= e.a[k] /\ (e.a[k] - Tri(e.s[k])) < e.s[k] + 1>>,
   <<"largest-triangular-array", e.v = e.s>> >>)
DiagPosA == Is("diagpos") /\ st' = st /\ Judge(LET e == Ev  S == Tup(VechSeq(e.n))  F == Tup(CellsF(e.n, e.n)) IN <<
   <<"vecl-mask", e.mask = [k \in 1..(e.n * e.n) |-> F[k][1] > F[k][2]]>>,
   <<"vech-diagonal", \A k \in 1..e.n : e.dg[k] = PosOf(S, <<k-1, k-1>>) /\ e.dk[k] = e.dg[k]>>,
   <<"vech-diagonal-len", Len(e.dg) = e.n>> >>)
InvTrilA == Is("invtril") /\ st' = st /\ Judge(LET e == Ev  S == Tup(TriSeq(e.n, e.n, e.k, e.order, Lower)) IN <<
   <<"inverse-index-table", \A k \in 1..Len(S) : LET r == S[k][1] + 1  c == S[k][2] + 1 IN e.tab[r][c] = k - 1 + e.base /\ e.tab[c][r] = k - 1 + e.base>>,
   <<"inverse-index-table-rest", e.k = 0 \/ \A r \in 1..e.n : e.tab[r][r] = 0>> >>)
VecA == Is("vec") /\ st' = st /\ Judge(LET e == Ev  S == Tup(CellsF(e.a, e.b)) IN <<
   <<"vec-reverse", Zip(e.r, e.c) = S>>,
   <<"vec-forward", e.fw = [k \in 1..(e.a * e.b) |-> k - 1]>>,
   (* row k of the commutation matrix picks the entry of vec(X) that vec(X') has at k *)
   <<"commutation-indices", /\ e.ci = [k \in 1..(e.a * e.b) |-> k - 1]
                            /\ \A k \in 1..(e.a * e.b) : LET t == CellsF(e.b, e.a)[k] IN e.cj[k] = PosOf(S, <<t[2], t[1]>>)>> >>)
DupElimA == Is("dupelim") /\ st' = st /\ Judge(LET e == Ev  F == Tup(CellsF(e.n, e.n))  S == Tup(VechSeq(e.n))  lo(x) == IF x[1] >= x[2] THEN x ELSE <<x[2], x[1]>> IN <<
   <<"duplication-indices", /\ Len(e.dr) = e.n * e.n /\ Range(e.dr) = 0..(e.n * e.n - 1)
                            /\ \A k \in 1..Len(e.dr) : e.dc[k] = PosOf(S, lo(F[e.dr[k] + 1]))>>,
   <<"elimination-indices", /\ Len(e.er) = Len(S) /\ Range(e.er) = 0..(Len(S) - 1)
                            /\ \A k \in 1..Len(e.er) : F[e.ec[k] + 1] = S[e.er[k] + 1]>> >>)
KronA == Is("kron") /\ st' = st /\ Judge(LET e == Ev
      G == Tup(CellsC(e.a * e.p, e.b * e.q))  H == Tup(LexSeq(<<e.a, e.b, e.p, e.q>>)) IN <<
   <<"kron-forward", \A k \in 1..Len(G) : LET x == e.fw[k] IN /\ x[1] \in 0..(e.a-1) /\ x[2] \in 0..(e.b-1) /\ x[3] \in 0..(e.p-1) /\ x[4] \in 0..(e.q-1)
                               /\ x[1] * e.p + x[3] = G[k][1] /\ x[2] * e.q + x[4] = G[k][2]>>,
   <<"kron-reverse", \A k \in 1..Len(H) : e.rv[k] = <<H[k][1] * e.p + H[k][3], H[k][2] * e.q + H[k][4]>>>> >>)
ShapeA == Is("shape") /\ st' = st /\ Judge(LET e == Ev  L == Tup(LexSeq(e.shape))  C == Tup(ColexSeq(e.shape)) IN <<
   <<"lex-reverse", e.lexrev = L>>, <<"colex-reverse", e.colexrev = C>>,
   <<"lex-forward", e.lexfwd = [k \in 1..Len(L) |-> k - 1]>>,
   <<"colex-forward", \A k \in 1..Len(L) : C[e.colexfwd[k] + 1] = L[k]>>,
   <<"ndindex-colex", e.ndf = C>>, <<"ndindex-lex", e.ndc = L>> >>)
MonoA == Is("mono") /\ st' = st /\ Judge(LET e == Ev  L == Tup(LexSeq(e.shape))  C == Tup(ColexSeq(e.shape)) IN <<
   <<"ascending-list", e.py = SelectSeq(L, Asc) /\ e.cy = e.py /\ e.gen = e.py>>,
   <<"descending-list", e.desc = Rev(SelectSeq(L, Desc))>>,
   <<"generated-weak-asc", e.alw = SelectSeq(L, Asc) /\ e.acw = SelectSeq(C, Asc)>>,
   <<"generated-strict-asc", e.als = SelectSeq(L, SAsc) /\ e.acs = SelectSeq(C, SAsc)>>,
   <<"generated-weak-desc", e.dlw = SelectSeq(L, Desc) /\ e.dcw = SelectSeq(C, Desc)>>,
   <<"generated-strict-desc", e.dls = SelectSeq(L, SDesc) /\ e.dcs = SelectSeq(C, SDesc)>> >>)
RankA == Is("rank") /\ st' = st /\ Judge(LET e == Ev  C == Tup(SelectSeq(ColexSeq([k \in 1..e.n |-> e.p]), Asc)) IN <<
   <<"multiset-rank", \A k \in 1..Len(C) : C[e.fw[k] + 1] = e.idx[k] /\ e.fn[k] = e.fw[k] /\ e.fd[k] = e.fw[k]>>,
   <<"multiset-rank-order-free", e.fp = e.fw>>,
   <<"multiset-unrank", e.rv = C /\ e.rn = C /\ Len(e.idx) = Len(C)>>,
   <<"multiset-unrank-descending", e.rd = [k \in 1..Len(C) |-> Rev(C[k])]>> >>)
TensorA == Is("tensor") /\ st' = st /\ Judge(LET e == Ev
      cells == Tup(LexSeq([k \in 1..e.d |-> e.p]))  A == Tup(SelectSeq(LexSeq([k \in 1..e.d |-> e.p]), Asc))
      nl == Len(e.flat) \div Len(cells) IN <<
   <<"tensor-shape", e.shape = e.lead \o [k \in 1..e.d |-> e.p]>>,
   <<"tensor-symmetric-fill", \A b \in 1..nl : \A k \in 1..Len(cells) : e.flat[(b-1) * Len(cells) + k] = (b - 1) * Len(A) + PosOf(A, SortSeqN(cells[k])) + 1>> >>)
MultisetA == Is("multiset") /\ st' = st /\ Judge(LET e == Ev IN <<
   <<"multiset-permutations", /\ \A k \in 1..Len(e.perms) : SortSeqN(e.perms[k]) = SortSeqN(e.seq)
                              /\ \A k \in 1..(Len(e.perms)-1) : LexLt(e.perms[k], e.perms[k+1])
                              /\ Len(e.perms) = MultiNom(e.seq, Range(e.seq))>> >>)
MatchA == Is("match") /\ st' = st /\ Judge(LET e == Ev  hits == SelectSeq(e.y, LAMBDA v : v \in Range(e.x)) IN <<
   <<"lookup-positions", e.res = [k \in 1..Len(hits) |-> PosOf(e.x, hits[k])]>>,
   <<"lookup-mask", \A k \in 1..Len(e.y) : (e.mmask[k] <=> e.y[k] \notin Range(e.x)) /\ (~e.mmask[k] => e.x[e.mdata[k] + 1] = e.y[k])>> >>)
UniqueA == Is("unique") /\ st' = st /\ Judge(LET e == Ev
      firsts == SelectSeq([k \in 1..Len(e.a) |-> k], LAMBDA k : \A j \in 1..(k-1) : e.a[j] # e.a[k]) IN <<
   <<"unique-first-occurrence", e.ind = [k \in 1..Len(firsts) |-> firsts[k] - 1] /\ e.u = [k \in 1..Len(firsts) |-> e.a[firsts[k]]]>>,
   <<"unique-inverse", Len(e.inv) = Len(e.a) /\ \A k \in 1..Len(e.a) : e.inv[k] \in 0..(Len(e.u)-1) /\ e.u[e.inv[k] + 1] = e.a[k]>> >>)
NonzeroA == Is("nonzero") /\ st' = st /\ Judge(LET e == Ev  L == Tup(LexSeq(e.shape))
      C == Tup(ColexSeq(e.shape))  on(x) == e.flat[PosOf(L, x) + 1] # 0  want == SelectSeq(C, on) IN <<
   <<"nonzero-colex", Len(e.nz) = Len(e.shape) /\ \A d \in 1..Len(e.shape) : e.nz[d] = [k \in 1..Len(want) |-> want[k][d]]>>,
   <<"nonzero-tuple", e.nt = e.nz>> >>)
MgridA == Is("mgrid") /\ st' = st /\ Judge(LET e == Ev IN << <<"flat-grid", Zip(e.i, e.j) = CellsC(e.a, e.b)>> >>)

Init == TInit("none")
Next == TriA \/ DiagA \/ VechA \/ BigVechA \/ LargestTriA \/ DiagPosA \/ InvTrilA \/ VecA \/ DupElimA \/ KronA \/ ShapeA \/ MonoA \/ RankA
        \/ TensorA \/ MultisetA \/ MatchA \/ UniqueA \/ NonzeroA \/ MgridA \/ Unchanged \/ Raised \/ Finished
=============================================================================
