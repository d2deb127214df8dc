------------------------------ MODULE Num ------------------------------
(* Real scalars, vectors and matrices.  TLC evaluates every operator of   *)
(* this module with the Java override java/Num.java (double-double, about *)
(* 31 significant digits, total: bad shapes give NaN, comparisons with    *)
(* NaN are FALSE).  The bodies below are the meaning of the override; a   *)
(* value is [r, c, e], r rows, c columns, e[i][j] real; a scalar is 1x1   *)
(* and a vector is n x 1.  spec/NumSelf.tla checks the override against   *)
(* independent TLA+ definitions.                                          *)
EXTENDS Reals, Sequences
LOCAL Any == CHOOSE v : TRUE
LOCAL Mk(r, c, E(_,_)) == [r |-> r, c |-> c, e |-> [i \in 1..r |-> [j \in 1..c |-> E(i,j)]]]
LOCAL Sc(x) == Mk(1, 1, LAMBDA i, j : x)
LOCAL Sum[s \in Seq(Real)] == IF s = <<>> THEN 0 ELSE Head(s) + Sum[Tail(s)]
LOCAL El(a, i, j) == a.e[i][j]
LOCAL At(a, k) == a.e[((k-1) \div a.c) + 1][((k-1) % a.c) + 1]
LOCAL Len1(a) == a.r * a.c
LOCAL Bc(a, b, F(_,_)) == IF b.r = 1 /\ b.c = 1 THEN Mk(a.r, a.c, LAMBDA i, j : F(El(a,i,j), El(b,1,1)))
                          ELSE IF a.r = 1 /\ a.c = 1 THEN Mk(b.r, b.c, LAMBDA i, j : F(El(a,1,1), El(b,i,j)))
                          ELSE Mk(a.r, a.c, LAMBDA i, j : F(El(a,i,j), El(b,i,j)))
LOCAL Un(a, F(_)) == Mk(a.r, a.c, LAMBDA i, j : F(El(a,i,j)))
---------------------------------------------------------------------------
(* construction and access *)
N(v) == Any                    \* from a decimal / "RxC|row-major entries" string, an integer, or a tuple of scalars / vectors
NShow(a) == Any
NLen(a) == Len1(a)
NNR(a) == a.r
NNC(a) == a.c
NToInt(a) == Any               \* nearest integer
NAt(a, k) == Sc(At(a, k))
NEl(a, i, j) == Sc(El(a, i, j))
NRow(a, i) == Mk(a.c, 1, LAMBDA k, z : El(a, i, k))
NColumn(a, j) == Mk(a.r, 1, LAMBDA k, z : El(a, k, j))
NRowsOf(a, ix) == Mk(Len(ix), a.c, LAMBDA i, j : El(a, ix[i], j))
NColsOf(a, ix) == Mk(a.r, Len(ix), LAMBDA i, j : El(a, i, ix[j]))
NSub2(a, ri, ci) == Mk(Len(ri), Len(ci), LAMBDA i, j : El(a, ri[i], ci[j]))
NSetAt(a, k, x) == Mk(a.r, a.c, LAMBDA i, j : IF (i-1)*a.c + j = k THEN El(x,1,1) ELSE El(a,i,j))
NEye(n) == Mk(n, n, LAMBDA i, j : IF i = j THEN 1 ELSE 0)
NFull(r, c, x) == Mk(r, c, LAMBDA i, j : El(x, 1, 1))
NMat(r, c, v) == Mk(r, c, LAMBDA i, j : At(v, (i-1)*c + j))
NVec(a) == Mk(Len1(a), 1, LAMBDA k, z : El(a, ((k-1) % a.r) + 1, ((k-1) \div a.r) + 1))
NUnvec(v, r, c) == Mk(r, c, LAMBDA i, j : At(v, (j-1)*r + i))
NVech(a) == Mk((a.r*(a.r+1)) \div 2, 1, LAMBDA k, z : Any)   \* lower triangle, column by column
NInvech(v) == Any              \* symmetric matrix with NVech = v
NLowerOf(v) == Any             \* lower-triangular matrix with NVech = v
NVcat(a, b) == Mk(a.r + b.r, a.c, LAMBDA i, j : IF i <= a.r THEN El(a,i,j) ELSE El(b,i-a.r,j))
NHcat(a, b) == Mk(a.r, a.c + b.c, LAMBDA i, j : IF j <= a.c THEN El(a,i,j) ELSE El(b,i,j-a.c))
NPos(v, i, j) == Mk(j - i + 1, 1, LAMBDA k, z : At(v, i + k - 1))
(* elementwise, 1x1 operands broadcast *)
NAdd(a, b) == Bc(a, b, LAMBDA x, y : x + y)
NSub(a, b) == Bc(a, b, LAMBDA x, y : x - y)
NMul(a, b) == Bc(a, b, LAMBDA x, y : x * y)
NDiv(a, b) == Bc(a, b, LAMBDA x, y : x / y)
NPow(a, b) == Bc(a, b, LAMBDA x, y : Any)
NMax2(a, b) == Bc(a, b, LAMBDA x, y : IF x >= y THEN x ELSE y)
NMin2(a, b) == Bc(a, b, LAMBDA x, y : IF x <= y THEN x ELSE y)
NGeI(a, b) == Bc(a, b, LAMBDA x, y : IF x >= y THEN 1 ELSE 0)
NGtI(a, b) == Bc(a, b, LAMBDA x, y : IF x > y THEN 1 ELSE 0)
NEqI(a, b) == Bc(a, b, LAMBDA x, y : IF x = y THEN 1 ELSE 0)
NIf(m, a, b) == Mk(m.r, m.c, LAMBDA i, j : IF El(m,i,j) # 0 THEN El(a,i,j) ELSE El(b,i,j))
NNeg(a) == Un(a, LAMBDA x : 0 - x)
NAbs(a) == Un(a, LAMBDA x : IF x < 0 THEN 0 - x ELSE x)
NSign(a) == Un(a, LAMBDA x : IF x < 0 THEN 0 - 1 ELSE IF x > 0 THEN 1 ELSE 0)
NSqrt(a) == Un(a, LAMBDA x : CHOOSE y \in Real : y >= 0 /\ y * y = x)
NFloor(a) == Un(a, LAMBDA x : CHOOSE k \in Int : k <= x /\ x < k + 1)
NExp(a) == Any
NExpm1(a) == Any
NLn(a) == Any
NLog1p(a) == Any
NSin(a) == Any
NCos(a) == Any
NTan(a) == Any
NAtan(a) == Any
NTanh(a) == Any
NAsinh(a) == Any
NLgamma(a) == Any
NDigamma(a) == Any
NErf(a) == Any
NPhi(a) == Any                 \* standard normal distribution function
NPdf(a) == Any                 \* standard normal density
NProbit(a) == Any              \* inverse of NPhi
NGammaP(a, x) == Any           \* regularised lower incomplete gamma
NGammaQ(a, x) == Any
NBetaInc(a, b, x) == Any       \* regularised incomplete beta
NBvn(a, b, r) == Any           \* P(X <= a, Y <= b), bivariate standard normal with correlation r
NPi == Any
NNaN == Any
NInf == Any
(* reductions *)
NSum(a) == Sc(Sum[[k \in 1..Len1(a) |-> At(a, k)]])
NProd(a) == Any
NMean(a) == Sc(Sum[[k \in 1..Len1(a) |-> At(a, k)]] / Len1(a))
NMax(a) == Any
NMin(a) == Any
NDot(a, b) == Sc(Sum[[k \in 1..Len1(a) |-> At(a, k) * At(b, k)]])
NRowSum(a) == Mk(a.r, 1, LAMBDA i, z : Sum[[j \in 1..a.c |-> El(a, i, j)]])
NColSum(a) == Mk(a.c, 1, LAMBDA j, z : Sum[[i \in 1..a.r |-> El(a, i, j)]])
NCumSum(a) == Mk(Len1(a), 1, LAMBDA k, z : Sum[[j \in 1..k |-> At(a, j)]])
NSort(a) == Any                \* ascending
NArgsort(a) == Any             \* 1-based positions, ascending, stable
(* linear algebra *)
NMM(a, b) == Mk(a.r, b.c, LAMBDA i, j : Sum[[k \in 1..a.c |-> El(a,i,k) * El(b,k,j)]])
NT(a) == Mk(a.c, a.r, LAMBDA i, j : El(a, j, i))
NTr(a) == Sc(Sum[[k \in 1..a.r |-> El(a, k, k)]])
NDiag(v) == Mk(Len1(v), Len1(v), LAMBDA i, j : IF i = j THEN At(v, i) ELSE 0)
NDg(a) == Mk(a.r, 1, LAMBDA i, z : El(a, i, i))
NKron(a, b) == Mk(a.r*b.r, a.c*b.c, LAMBDA i, j : El(a, ((i-1) \div b.r)+1, ((j-1) \div b.c)+1) * El(b, ((i-1) % b.r)+1, ((j-1) % b.c)+1))
NBdiag(a, b) == Any            \* block diagonal
NSolve(a, b) == CHOOSE x : NMM(a, x) = b
NInv(a) == CHOOSE x : NMM(a, x) = NEye(a.r)
NDet(a) == Any
NLogDet(a) == Any              \* ln |det a|
NChol(a) == Any                \* lower Cholesky factor
NEig(a) == Any                 \* ascending eigenvalues of a symmetric matrix
NEigVec(a) == Any              \* matching orthonormal eigenvectors, by columns
(* predicates *)
NLt(a, b) == \A k \in 1..Len1(a) : At(a, k) < At(b, k)
NLe(a, b) == \A k \in 1..Len1(a) : At(a, k) <= At(b, k)
NEq(a, b) == a = b
NSame(a, b) == a = b           \* NaN equals NaN
NFin(a) == TRUE                \* no NaN or infinity
NAnyNaN(a) == FALSE
NNear(a, b, tol) == Any        \* same shape, max|a-b| <= tol (1 + max|b|)
NNearNaN(a, b, tol) == Any     \* the same, with NaN equal to NaN
NClose(a, b, rt, at) == Any    \* same shape, |a-b| <= at + rt |b| elementwise
NDist(a, b) == Any             \* max |a-b|
Tup(f) == f                    \* evaluate a function on 1..n once
Chk(name, b) == b              \* counts how often a clause was judged
ChkReport == TRUE
=============================================================================
