----------------------------- MODULE Transforms -----------------------------
(* Reparameterisations as mathematical maps: Fw (natural -> working) and Rv     *)
(* (working -> natural).  Vectors are half-vectorised column by column (vech:  *)
(* with diagonal, vecl: without).                                              *)
EXTENDS Naturals, Integers, Sequences, Num, NumDiff, Layout
VecOf(m, f(_)) == N(Tup([k \in 1..m |-> f(k)]))
HvN(m) == CHOOSE n \in 0..m : (n*(n+1)) \div 2 = m
LhN(m) == CHOOSE n \in 1..(m+1) : (n*(n-1)) \div 2 = m
HPos(n, i, j) == IF i >= j THEN i + (j-1)*n - ((j-1)*j) \div 2 ELSE j + (i-1)*n - ((i-1)*i) \div 2   \* 1-based place of entry i, j in vech
LPos(n, i, j) == IF i > j THEN i + (j-1)*n - (j*(j+1)) \div 2 ELSE j + (i-1)*n - (i*(i+1)) \div 2       \* in vecl
HCells(n) == Tup([k \in 1..Len(VechSeq(n)) |-> <<VechSeq(n)[k][1] + 1, VechSeq(n)[k][2] + 1>>])
LCells(n) == Tup([k \in 1..Len(VeclSeq(n)) |-> <<VeclSeq(n)[k][1] + 1, VeclSeq(n)[k][2] + 1>>])
Hv(n, f(_,_)) == LET C == HCells(n) IN VecOf(Len(C), LAMBDA k : f(C[k][1], C[k][2]))
Lv(n, f(_,_)) == LET C == LCells(n) IN VecOf(Len(C), LAMBDA k : f(C[k][1], C[k][2]))
SqSum(n, v, i, upto) == IF upto = 0 THEN N(0) ELSE NSum(VecOf(upto, LAMBDA j : LET a == NAt(v, LPos(n, i, j)) IN NMul(a, a)))
CorrOf(v, n) == NMat(n, n, VecOf(n*n, LAMBDA k : LET i == ((k-1) \div n) + 1  j == ((k-1) % n) + 1 IN IF i = j THEN N(1) ELSE NAt(v, LPos(n, i, j))))
OffPart(v, n) == Lv(n, LAMBDA i, j : NAt(v, HPos(n, i, j)))
WithOff(v, o, n) == Hv(n, LAMBDA i, j : IF i = j THEN NAt(v, HPos(n, i, i)) ELSE NAt(o, LPos(n, i, j)))
Atanh(x) == NMul("0.5", NSub(NLog1p(x), NLog1p(NNeg(x))))
Slice(x, a, len) == IF len = 0 THEN <<>> ELSE NPos(x, a, a + len - 1)
RECURSIVE Fw(_, _), Rv(_, _), Compose(_, _)
Compose(ms, x) == IF Len(ms) = 0 THEN x ELSE Compose(Tail(ms), Fw(ms[1], x))
RECURSIVE Uncompose(_, _)
Uncompose(ms, y) == IF Len(ms) = 0 THEN y ELSE Uncompose(SubSeq(ms, 1, Len(ms) - 1), Rv(ms[Len(ms)], y))
CholCov1 == <<[t |-> "covcorr"], [t |-> "mask", of |-> [t |-> "corrchol"]], [t |-> "mask", of |-> [t |-> "rownorm"]], [t |-> "logscale"]>>
CholCov2 == <<[t |-> "covcorr"], [t |-> "mask", of |-> [t |-> "corrchol"]], [t |-> "mask", of |-> [t |-> "partial"]], [t |-> "mask", of |-> [t |-> "tanh"]], [t |-> "logscale"]>>
Fw(map, x0) == LET x == N(x0)  m == NLen(x)  t == map.t IN
  CASE t = "identity" -> x
    [] t = "log" -> NLn(x)
    [] t = "tanh" -> Atanh(x)
    [] t = "ordered" -> VecOf(m, LAMBDA k : IF k = 1 THEN NAt(x, 1) ELSE NLn(NSub(NAt(x, k), NAt(x, k-1))))
    [] t = "covcorr" -> LET n == HvN(m) IN Hv(n, LAMBDA i, j : IF i = j THEN NAt(x, HPos(n, i, i)) ELSE NDiv(NAt(x, HPos(n, i, j)), NSqrt(NMul(NAt(x, HPos(n, i, i)), NAt(x, HPos(n, j, j))))))
    [] t = "logscale" -> LET n == HvN(m) IN Hv(n, LAMBDA i, j : IF i = j THEN NLn(NAt(x, HPos(n, i, i))) ELSE NAt(x, HPos(n, i, j)))
    [] t = "corrchol" -> LET n == LhN(m)  L == NChol(CorrOf(x, n)) IN Lv(n, LAMBDA i, j : NEl(L, i, j))
    [] t = "partial" -> LET n == LhN(m) IN Lv(n, LAMBDA i, j : NDiv(NAt(x, LPos(n, i, j)), NSqrt(NSub(1, SqSum(n, x, i, j-1)))))
    [] t = "rownorm" -> LET n == LhN(m) IN Lv(n, LAMBDA i, j : NDiv(NAt(x, LPos(n, i, j)), NSqrt(NAdd(1, SqSum(n, x, i, i-1)))))
    [] t = "mask" -> LET n == HvN(m) IN WithOff(x, Fw(map.of, OffPart(x, n)), n)
    [] t = "cholcov1" -> Compose(CholCov1, x)
    [] t = "cholcov2" -> Compose(CholCov2, x)
    [] t = "composed" -> Compose(map.of, x)
    [] OTHER -> NNaN
RECURSIVE PartialRow(_, _, _, _, _)
(* rebuild row i of the triangle from its partial values, left to right *)
PartialRow(y, n, i, j, acc) == IF j = i THEN acc ELSE
   LET s == IF j = 1 THEN N(0) ELSE NDot(N(acc), N(acc)) IN PartialRow(y, n, i, j + 1, Append(acc, NMul(NAt(y, LPos(n, i, j)), NSqrt(NSub(1, s)))))
Rv(map, y0) == LET y == N(y0)  m == NLen(y)  t == map.t IN
  CASE t = "identity" -> y
    [] t = "log" -> NExp(y)
    [] t = "tanh" -> NTanh(y)
    [] t = "ordered" -> NCumSum(VecOf(m, LAMBDA k : IF k = 1 THEN NAt(y, 1) ELSE NExp(NAt(y, k))))
    [] t = "covcorr" -> LET n == HvN(m) IN Hv(n, LAMBDA i, j : IF i = j THEN NAt(y, HPos(n, i, i)) ELSE NMul(NAt(y, HPos(n, i, j)), NSqrt(NMul(NAt(y, HPos(n, i, i)), NAt(y, HPos(n, j, j))))))
    [] t = "logscale" -> LET n == HvN(m) IN Hv(n, LAMBDA i, j : IF i = j THEN NExp(NAt(y, HPos(n, i, i))) ELSE NAt(y, HPos(n, i, j)))
    [] t = "corrchol" -> LET n == LhN(m)
                             L == NMat(n, n, VecOf(n*n, LAMBDA k : LET i == ((k-1) \div n) + 1  j == ((k-1) % n) + 1 IN
                                    IF i < j THEN N(0) ELSE IF i > j THEN NAt(y, LPos(n, i, j)) ELSE NSqrt(NSub(1, SqSum(n, y, i, i-1)))))
                             R == NMM(L, NT(L)) IN Lv(n, LAMBDA i, j : NEl(R, i, j))
    [] t = "partial" -> LET n == LhN(m)  rows == Tup([i \in 1..n |-> PartialRow(y, n, i, 1, <<>>)]) IN Lv(n, LAMBDA i, j : rows[i][j])
    [] t = "rownorm" -> LET n == LhN(m) IN Lv(n, LAMBDA i, j : NDiv(NAt(y, LPos(n, i, j)), NSqrt(NSub(1, SqSum(n, y, i, i-1)))))
    [] t = "mask" -> LET n == HvN(m) IN WithOff(y, Rv(map.of, OffPart(y, n)), n)
    [] t = "cholcov1" -> Uncompose(CholCov1, y)
    [] t = "cholcov2" -> Uncompose(CholCov2, y)
    [] t = "composed" -> Uncompose(map.of, y)
    [] OTHER -> NNaN
(* block maps: parts that touch disjoint stretches of the vector; uncovered stretches are left alone *)
RECURSIVE FwB(_, _, _), RvB(_, _, _)
FwB(parts, x, a) == IF Len(parts) = 0 THEN <<>> ELSE LET p == parts[1] y == IF p.len = 0 THEN <<>> ELSE Fw(p.map, Slice(x, a, p.len)) IN Tup([k \in 1..p.len |-> NAt(y, k)]) \o FwB(Tail(parts), x, a + p.len)
RvB(parts, x, a) == IF Len(parts) = 0 THEN <<>> ELSE LET p == parts[1] y == IF p.len = 0 THEN <<>> ELSE Rv(p.map, Slice(x, a, p.len)) IN Tup([k \in 1..p.len |-> NAt(y, k)]) \o RvB(Tail(parts), x, a + p.len)
FwM(map, x) == IF map.t = "blocks" THEN N(FwB(map.of, N(x), 1)) ELSE Fw(map, x)
RvM(map, y) == IF map.t = "blocks" THEN N(RvB(map.of, N(y), 1)) ELSE Rv(map, y)
(* second derivatives of a vector map: row = component, column (j-1)*m + k *)
Hess3(F(_), x0) == LET x == N(x0)  m == NLen(x)  h == N("1e-7")  f0 == F(x)
      pt(i, a, j, b) == F(Bump(Bump(x, i, a), j, b))
      d(i, j) == IF i = j THEN NDiv(NAdd(NSub(F(Bump(x, i, h)), NMul(2, f0)), F(Bump(x, i, NNeg(h)))), NMul(h, h))
                 ELSE NDiv(NSub(NAdd(pt(i,h,j,h), pt(i,NNeg(h),j,NNeg(h))), NAdd(pt(i,h,j,NNeg(h)), pt(i,NNeg(h),j,h))), NMul(4, NMul(h, h)))
      low == Tup([i \in 1..m |-> Tup([j \in 1..i |-> d(i, j)])])
   IN NT(N(Tup([k \in 1..(m*m) |-> LET i == ((k-1) \div m) + 1  j == ((k-1) % m) + 1 IN IF i >= j THEN low[i][j] ELSE low[j][i]])))
=============================================================================
