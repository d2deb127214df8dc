-------------------------------- MODULE P03 --------------------------------
(* Sparse kernels equal their dense definitions; a factor object answers for   *)
(* the matrix in st (the last one it was given).                               *)
EXTENDS TraceBase
T == "1e-11"
eqs(got, want) == NNear(got, want, T)
AddA == Is("add") /\ st' = st /\ Judge(LET e == Ev IN <<
   <<"sparse-add", eqs(e.C, NAdd(NMul(e.alpha, e.A), NMul(e.beta, e.B)))>>,
   <<"same-object-returned", e.same>> >>)
AddCA == Is("addc") /\ st' = st /\ Judge(LET e == Ev IN <<   \* (ar + i ai)(A + iB) etc., by real and imaginary part
   <<"complex-sparse-add", /\ eqs(e.Cr, NAdd(NSub(NMul(e.ar, e.Ar), NMul(e.ai, e.Ai)), NSub(NMul(e.br, e.Br), NMul(e.bi, e.Bi))))
                           /\ eqs(e.Ci, NAdd(NAdd(NMul(e.ar, e.Ai), NMul(e.ai, e.Ar)), NAdd(NMul(e.br, e.Bi), NMul(e.bi, e.Br))))>> >>)
MulA == Is("mul") /\ st' = st /\ Judge(LET e == Ev IN <<
   <<"sparse-matmul:" \o e.how, eqs(e.C, NMM(e.A, e.B))>>, <<"canonical-output:" \o e.how, e.sorted>> >>)
MulCA == Is("mulc") /\ st' = st /\ Judge(LET e == Ev IN <<
   <<"complex-sparse-matmul", eqs(e.Cr, NSub(NMM(e.Ar, e.Br), NMM(e.Ai, e.Bi))) /\ eqs(e.Ci, NAdd(NMM(e.Ar, e.Bi), NMM(e.Ai, e.Br)))>> >>)
KronA == Is("kron") /\ st' = st /\ Judge(LET e == Ev IN <<
   <<"kronecker:" \o e.how, eqs(e.C, NKron(e.A, e.B))>>, <<"well-formed:" \o e.how, e.ok>> >>)
IdKronA == Is("idkron") /\ st' = st /\ Judge(LET e == Ev IN << <<"identity-kronecker:" \o e.how, eqs(e.C, NKron(NEye(e.m), e.B))>>, <<"well-formed:" \o e.how, e.ok>> >>)
CooA == Is("coo") /\ st' = st /\ Judge(LET e == Ev  n == Len(e.i) IN <<
   <<"coo-to-csc", eqs(e.C, NMat(e.r, e.c, N(Tup([k \in 1..(e.r*e.c) |->
        LET S == SelectSeq([z \in 1..n |-> z], LAMBDA z : e.i[z] = ((k-1) \div e.c) /\ e.j[z] = ((k-1) % e.c)) IN
        IF Len(S) = 0 THEN N(0) ELSE NSum(N(Tup([z \in 1..Len(S) |-> NAt(e.x, S[z])])))]))))>>,
   <<"coo-keeps-every-entry", e.nnz = n>>,
   <<"coo-parts-agree", eqs(e.C2, e.C)>> >>)
RepA == Is("rep") /\ st' = st /\ Judge(LET e == Ev  n == NLen(e.x) IN <<
   <<"tile", \A w \in {e.tile, e.tile2} : eqs(w, N(Tup([k \in 1..(n*e.r) |-> NAt(e.x, ((k-1) % n) + 1)])))>>,
   <<"repeat", \A w \in {e.rep, e.rep2} : eqs(w, N(Tup([k \in 1..(n*e.r) |-> NAt(e.x, ((k-1) \div e.r) + 1)])))>>,
   <<"tile-complex", eqs(e.tcr, e.tile) /\ eqs(e.tci, N(Tup([k \in 1..(n*e.r) |-> NAt(e.y, ((k-1) % n) + 1)])))>> >>)
DotA == Is("dot") /\ st' = st /\ Judge(LET e == Ev IN <<
   <<"sparse-dot", eqs(e.d, NDot(e.a, e.b)) /\ eqs(e.d2, NAdd(NDot(e.a, e.b), e.c))>>,
   <<"pattern-trace", eqs(e.t, NSum(NMul(e.K, NT(NMM(NT(e.B), e.B))))) /\ eqs(e.t2, NAdd(e.t, e.c))>> >>)
BlockA == Is("block") /\ st' = st /\ Judge(LET e == Ev
     rows(a) == NRowsOf(e.L, [j \in 1..e.ng |-> (j-1)*e.nv + a]) IN <<
   <<"block-self-product", \A w \in {e.o1, e.o2} : \A a, b \in 1..e.nv : NNear(NEl(w, a, b), NSum(NMul(rows(a), rows(b))), T)>> >>)
(* factor objects *)
Perm(e) == [k \in 1..Len(e.perm) |-> e.perm[k] + 1]
Permuted(A, e) == NSub2(A, Perm(e), Perm(e))
LowTri(M) == \A i \in 1..NNR(M) : \A j \in (i+1)..NNC(M) : NEq(NEl(M, i, j), 0)
FactorA == Is("factor") /\ st' = Ev.A /\ Judge(LET e == Ev IN <<
   <<"permutation", {e.perm[k] : k \in 1..Len(e.perm)} = 0..(Len(e.perm)-1)>> >>)
ObsA == Is("obs") /\ st' = st /\ Judge(LET e == Ev  A == Permuted(st, e)  L == NChol(A)  d == NDg(L)  U == NMM(L, NDiag(NDiv(1, d)))
                                ldl == e.unit /\ e.call \in {"solve_L_ldl", "solve_Lt_ldl"} IN <<
   <<"factor-L", e.call # "L" \/ (LowTri(e.v) /\ NNear(NMM(e.v, NT(e.v)), A, "1e-10"))>>,
   <<"factor-D", e.call # "D" \/ NNear(e.v, NMul(d, d), "1e-10")>>,
   <<"solve-A", e.call # "solve_A" \/ NNear(NMM(st, e.v), e.b, "1e-9")>>,
   <<"solve-L", e.call \notin {"solve_L_ll", "solve_L_ldl"} \/ NNear(NMM(IF ldl THEN U ELSE L, e.v), e.b, "1e-9")>>,
   <<"solve-Lt", e.call \notin {"solve_Lt_ll", "solve_Lt_ldl"} \/ NNear(NMM(NT(IF ldl THEN U ELSE L), e.v), e.b, "1e-9")>>,
   <<"logdet", e.call # "slogdet" \/ (NNear(NAt(e.v, 1), 1, T) /\ NNear(NAt(e.v, 2), NLogDet(st), "1e-10"))>>,
   <<"inverse", e.call # "inv" \/ NNear(NMM(e.v, st), NEye(NNR(st)), "1e-8")>>,
   <<"apply-permutation", e.call # "perm" \/ (NNear(e.v, NRowsOf(e.b, Perm(e)), T) /\ NNear(e.w, e.b, T))>> >>)
Init == TInit(<<>>)
Next == AddA \/ AddCA \/ MulA \/ MulCA \/ KronA \/ IdKronA \/ CooA \/ RepA \/ DotA \/ BlockA \/ FactorA \/ ObsA \/ Unchanged \/ Raised \/ Finished
=============================================================================
