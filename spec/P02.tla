-------------------------------- MODULE P02 --------------------------------
(* Structure matrices are judged by what they do to vec(X) of a generic X and  *)
(* by their 0/1/half pattern; every apply form must equal the matrix product   *)
(* with the matrix built here from the definition.                             *)
EXTENDS TraceBase, Layout
T == "1e-11"
IntMat(r, c, f(_,_)) == NMat(r, c, N(Tup([k \in 1..(r*c) |-> f((k-1) \div c, (k-1) % c)])))
TransposeOf(r, c, k) == LET x == CellsF(c, r)[k+1] IN x[2] + x[1] * r  \* position in vec(X) of entry k of vec(X'), X r x c
Kmat(r, c) == IntMat(r*c, r*c, LAMBDA i, j : IF j = TransposeOf(r, c, i) THEN 1 ELSE 0)
VechPos(n, i, j) == IF i >= j THEN i + j*n - (j*(j+1)) \div 2 ELSE j + i*n - (i*(i+1)) \div 2
Lmat(n) == LET S == Tup(VechSeq(n)) IN IntMat(Len(S), n*n, LAMBDA i, j : IF S[i+1][1] + S[i+1][2]*n = j THEN 1 ELSE 0)
Dmat(n) == IntMat(n*n, (n*(n+1)) \div 2, LAMBDA i, j : IF VechPos(n, i % n, i \div n) = j THEN 1 ELSE 0)
Sym(X) == NMul(NAdd(X, NT(X)), "0.5")
DgM(X) == NDiag(NDg(X))
SquareA == Is("square") /\ st' = st /\ Judge(LET e == Ev  n == e.n  X == N(e.X)  S == Sym(X)  v == NVec(X)  K == Kmat(n,n)  L == Lmat(n)  D == Dmat(n) IN <<
   <<"commutation", NNear(e.K, K, T) /\ NNear(e.K2, K, T) /\ NNear(e.K3, K, T) /\ NNear(NMM(e.K, v), NVec(NT(X)), T)>>,
   <<"elimination", NNear(e.L, L, T) /\ NNear(e.L2, L, T) /\ NNear(e.L3, L, T) /\ NNear(NMM(e.L, v), NVech(X), T)>>,
   <<"duplication", NNear(e.D, D, T) /\ NNear(e.D3, D, T) /\ NNear(NMM(e.D, NVech(S)), NVec(S), T)>>,
   <<"duplication-pinv", NNear(NMM(e.Dp, v), NVech(S), T) /\ NNear(NMM(e.Dp, e.D), NEye((n*(n+1)) \div 2), T) /\ NNear(e.Dp3, e.Dp, T)>>,
   <<"symmetriser", NNear(NMM(e.N, v), NVec(NMul(2, S)), T)>>,
   <<"pattern-offdiag", NNear(NMM(e.Pc, v), NVec(NSub(S, DgM(X))), T)>>,
   <<"pattern-diag", NNear(NMM(e.Pd, v), NVec(DgM(X)), T)>>,
   <<"pattern-sym", NNear(NMM(e.Ps, v), NVec(S), T)>>,
   <<"pattern-diagvec", NNear(NMM(e.Kd, e.d), NVec(NDiag(e.d)), T)>> >>)
MakeA == Is("makemats") /\ st' = st /\ Judge(LET e == Ev  n == e.n  c == NVech(e.C)  p == NLen(c)
      prod(x) == LET M == NLowerOf(x) IN NVech(NMM(M, NT(M)))
      jac(x) == NVec(NumJac(prod, x)) IN <<
   <<"first-derivative-of-CCt", NNear(NMM(NMM(e.LN, NKron(e.C, e.I)), NT(e.L)), NumJac(prod, c), "1e-9")>>,
   <<"second-derivative-of-CCt", NNear(NMM(e.D2, c), jac(c), "1e-9")>>,
   <<"derivative-identity", NNear(e.I, NEye(n), T) /\ NNear(e.L, Lmat(n), T)>> >>)
RectA == Is("rect") /\ st' = st /\ Judge(LET e == Ev  K == Kmat(e.m, e.n) IN <<
   <<"commutation-rect", NNear(e.K, K, T) /\ NNear(e.K2, K, T) /\ NNear(e.K3, K, T) /\ NNear(NMM(e.K, NVec(e.X)), NVec(NT(e.X)), T)>>,
   <<"commutation-apply", NNear(e.kx, NVec(NT(e.X)), T) /\ NNear(e.kx2, e.kx, T) /\ NNear(e.kx3, e.kx, T)>>,
   <<"kron-vec", NNear(NMM(e.Kv, NKron(NVec(e.X), NVec(e.Y))), NVec(NKron(e.X, e.Y)), T)>> >>)
RECURSIVE Diffs(_, _)
Diffs(M, o) == IF o = 0 THEN M ELSE LET r == NNR(M) IN Diffs(NSub(NRowsOf(M, [k \in 1..(r-1) |-> k+1]), NRowsOf(M, [k \in 1..(r-1) |-> k])), o - 1)
DiffA == Is("diffmat") /\ st' = st /\ Judge(<< <<"difference-matrix", NNear(Ev.D, Diffs(NEye(Ev.k), Ev.order), T)>> >>)
ApplyA == Is("apply") /\ st' = st /\ Judge(LET e == Ev  n == e.n  r == e.res  K == Kmat(n,n)  L == Lmat(n)  D == Dmat(n)  Dt == NT(D)
      Dp == NMM(NInv(NMM(Dt, D)), Dt)  p == (n*(n+1)) \div 2  n2 == n*n
      eq(f, M) == f \notin DOMAIN r \/ NNear(r[f], M, T)
      Z1 == NRowsOf(e.Z, [k \in 1..n2 |-> k])  Z2 == NRowsOf(e.Z, [k \in 1..n2 |-> k + n2])
      all(fs, M) == \A k \in 1..Len(fs) : eq(fs[k], M) IN <<
   <<"apply-commutation", all(<<"kA","kA2","kA3","kA4">>, NMM(K, e.A))>>,
   <<"apply-elimination-pre", all(<<"lA","lA2","lA3","lA4","lA5","lA6">>, NMM(L, e.A))>>,
   <<"apply-elimination-post", all(<<"BLt","BLt2","BLt3">>, NMM(e.B, NT(L))) /\ all(<<"WL","WL2">>, NMM(e.W, L))>>,
   <<"apply-elimination-both", all(<<"LQLt","LQLt2">>, NMM(L, NMM(e.Q, NT(L))))>>,
   <<"apply-duplication-pre", all(<<"DtA","DtA2","DtA3","DtA4">>, NMM(Dt, e.A)) /\ all(<<"DU","DU2">>, NMM(D, e.U))>>,
   <<"apply-duplication-post", all(<<"BD","BD2","BD3","BD4">>, NMM(e.B, D)) /\ all(<<"WDt","WDt2">>, NMM(e.W, Dt))>>,
   <<"apply-duplication-both", all(<<"DtQD","DtQD2","DtQD3">>, NMM(Dt, NMM(e.Q, D)))>>,
   <<"apply-duplication-batch", eq("DtZ", NVcat(NMM(Dt, Z1), NMM(Dt, Z2))) /\ eq("DtZD", NVcat(NMM(Dt, NMM(Z1, D)), NMM(Dt, NMM(Z2, D))))>>,
   <<"apply-pinv", eq("DpA", NMM(Dp, e.A)) /\ eq("BDpt", NMM(e.B, NT(Dp))) /\ eq("DpQDpt", NMM(Dp, NMM(e.Q, NT(Dp))))>> >>)
Vecl(X) == LET S == Tup(VeclSeq(NNR(X))) IN N(Tup([k \in 1..Len(S) |-> NEl(X, S[k][1] + 1, S[k][2] + 1)]))
FromVecl(u, n, d) == LET S == Tup(VeclSeq(n)) IN IntMat(n, n, LAMBDA i, j : IF i = j THEN N(d) ELSE IF i > j THEN NAt(u, PosOf(S, <<i, j>>) + 1) ELSE NAt(u, PosOf(S, <<j, i>>) + 1))
LowVecl(u, n) == LET S == Tup(VeclSeq(n)) IN IntMat(n, n, LAMBDA i, j : IF i > j THEN NAt(u, PosOf(S, <<i, j>>) + 1) ELSE N(0))
RowMat(T3, k, n) == NMat(n, n, NRow(T3, k))
VecopsA == Is("vecops") /\ st' = st /\ Judge(LET e == Ev  n == e.n  r == e.res  X == N(e.X)
      eq(f, M) == f \notin DOMAIN r \/ NNear(r[f], M, T)
      nb == NNR(e.T)
      byrow(g(_)) == N(Tup([k \in 1..nb |-> g(k)]))
      offd == SelectSeq(CellsF(n, n), LAMBDA x : x[1] # x[2])
      flat(M) == NVec(NT(M)) IN <<
   <<"vec", eq("vec", NVec(e.R)) /\ eq("invec", N(e.R))>>,
   <<"vech", eq("vech", NVech(X)) /\ eq("vechnb", NVech(X)) /\ eq("tril0", NVech(X))>>,
   <<"invech", eq("invech", NInvech(e.v))>>,
   <<"vecl", n = 1 \/ (eq("vecl", Vecl(X)) /\ eq("tril", Vecl(X)))>>,
   <<"invecl", n = 1 \/ eq("invecl", FromVecl(e.u, n, 1))>>,
   <<"lower-from-vech", eq("invech_chol", NLowerOf(e.v))>>,
   <<"batched-vech", eq("bvech", byrow(LAMBDA k : NVech(RowMat(e.T, k, n)))) /\ eq("binvech", byrow(LAMBDA k : flat(NInvech(NRow(e.Vb, k)))))>>,
   <<"batched-vecl", n = 1 \/ (eq("bvecl", byrow(LAMBDA k : Vecl(RowMat(e.T, k, n)))) /\ eq("blhv", byrow(LAMBDA k : Vecl(RowMat(e.T, k, n)))) /\ eq("bilhv", byrow(LAMBDA k : flat(LowVecl(NRow(e.Ub, k), n)))))>>,
   <<"offdiagonal-vec", n = 1 \/ eq("ndg", N(Tup([k \in 1..Len(offd) |-> NEl(X, offd[k][1] + 1, offd[k][2] + 1)])))>>,
   <<"diag-of-vec", eq("vdg", NDiag(NVec(X)))>>,
   <<"block-diagonal", eq("gb", NBdiag(NBdiag(X, e.R), NT(e.R)))>>,
   <<"half-vector-sizes", eq("sizes", N(<<n, (n*(n+1)) \div 2, n, (n*(n-1)) \div 2>>)) \/ n = 1>> >>)
LinalgA == Is("linalg") /\ st' = st /\ Judge(LET e == Ev  r == e.res  X == N(e.X)  S == N(e.S)  k == e.k  Xt == NT(X)
      eq(f, M) == f \notin DOMAIN r \/ NNear(r[f], M, "1e-8")
      wls(w) == NSolve(NMM(Xt, NMul(X, w)), NMM(Xt, NMul(e.y, w)))
      ev == IF "ev" \in DOMAIN r THEN N(r.ev) ELSE NNaN
      V == IF "eV" \in DOMAIN r THEN N(r.eV) ELSE NNaN
      vand == IntMat(k, k, LAMBDA i, j : NPow(NAt(e.a, j+1), i))
      drop(q) == SelectSeq([z \in 1..k |-> z], LAMBDA z : z # q)
      ar == IntMat(k, k, LAMBDA i, j : NPow(e.rho, IF i > j THEN i - j ELSE j - i))
      tp == IntMat(k, k, LAMBDA i, j : NAt(e.tp, (IF i > j THEN i - j ELSE j - i) + 1))
      low(M) == \A i1 \in 1..k : \A j1 \in (i1+1)..k : NEq(NEl(M, i1, j1), 0)
      n == e.n IN <<
   <<"weighted-crossproduct", eq("wcrossp", NMM(Xt, NMul(X, e.w))) /\ eq("wdcrossp", NMM(Xt, NMul(e.Y, e.w)))>>,
   <<"weighted-least-squares", eq("wls_chol", wls(e.w)) /\ eq("wls_qr", wls(e.w)) /\ eq("nwls_pos", wls(e.w))>>,
   <<"negative-weight-least-squares", eq("nwls", wls(e.wn))>>,
   <<"least-squares", eq("lsqr", wls(NFull(n, 1, 1)))>>,
   <<"rowwise-products", eq("dop", NRowSum(NMul(X, NAdd(NMul(X, 2), 1)))) /\ eq("wdop", NDg(NMM(NMM(X, S), NT(NAdd(X, 1)))))>>,
   <<"projection", eq("cproj", NMM(X, NMM(NInv(NMM(Xt, X)), Xt)))>>,
   <<"matrix-roots", /\ ("sqrtm" \notin DOMAIN r \/ (NNear(NMM(r.sqrtm, r.sqrtm), S, "1e-9") /\ NNear(r.sqrtm, NT(r.sqrtm), "1e-9")))
                     /\ ("isqrt" \notin DOMAIN r \/ NNear(NMM(NMM(r.isqrt, S), r.isqrt), NEye(k), "1e-8"))>>,
   <<"eigen-descending", NNear(NMM(S, V), NMM(V, NDiag(ev)), "1e-8") /\ \A j \in 1..(k-1) : NLe(NAt(ev, j+1), NAt(ev, j))>>,
   <<"vandermonde", "vander" \notin DOMAIN r \/ NClose(NMM(vand, r.vander), e.b, "1e-6", "1e-6")>>,
   <<"toeplitz-cholesky", "toep" \notin DOMAIN r \/ (NNear(NMM(r.toep, NT(r.toep)), tp, "1e-9") /\ low(r.toep))>>,
   <<"ar1-cholesky", "ar1" \notin DOMAIN r \/ k = 1 \/ (NNear(NMM(r.ar1, NT(r.ar1)), ar, "1e-9") /\ low(r.ar1))>>,
   <<"cholesky-append", "append" \notin DOMAIN r \/ (NNear(NMM(r.append, NT(r.append)), S, "1e-9") /\ low(r.append))>>,
   <<"cholesky-row-deletion", \A q \in 1..(k-1) : LET f == "down" \o ToString(q - 1) IN f \notin DOMAIN r \/ NNear(NMM(r[f], NT(r[f])), NSub2(S, drop(q), drop(q)), "1e-8")>>,
   <<"sparse-post-multiply", eq("spm", NMM(X, e.Ss))>>,
   <<"matrix-exponential-derivative", "dexp" \notin DOMAIN r \/
       LET A == NMul(S, "0.25")  ex(v) == LET M == NUnvec(v, k, k)  s == Sym(M)  V2 == NEigVec(s) IN NVec(NMM(V2, NMM(NDiag(NExp(NEig(s))), NT(V2))))
           Hs == Sym(IntMat(k, k, LAMBDA i, j : N(i + 2*j + 1)))
       IN NNear(NMM(r.dexp, NVec(Hs)), D1(LAMBDA t : ex(NAdd(NVec(A), NMul(t, NVec(Hs)))), N(0)), "1e-7")>> >>)
Init == TInit("none")
Next == SquareA \/ MakeA \/ RectA \/ DiffA \/ ApplyA \/ VecopsA \/ LinalgA \/ Unchanged \/ Raised \/ Finished
=============================================================================
