------------------------------ MODULE NumDiff ------------------------------
(* Reference derivatives of a definition given in the specification: central *)
(* differences evaluated in the 31-digit arithmetic of Num, so the reference  *)
(* is accurate to about 1e-17 (first) and 1e-13 (second derivatives).         *)
EXTENDS Naturals, Sequences, Num
LOCAL H1 == N("1e-9")
LOCAL H2 == N("1e-7")
LOCAL H3 == N("1e-6")
Bump(x, j, d) == NSetAt(x, j, NAdd(NAt(x, j), d))
D1(F(_), z) == NDiv(NSub(F(NAdd(z, H1)), F(NSub(z, H1))), NMul(2, H1))
D2(F(_), z) == NDiv(NAdd(NSub(F(NAdd(z, H3)), NMul(2, F(z))), F(NSub(z, H3))), NMul(H3, H3))
D3(F(_), z) == LET h == N("1e-5") IN NDiv(NSub(NSub(F(NAdd(z, NMul(2,h))), NMul(2, F(NAdd(z, h)))), NSub(F(NSub(z, NMul(2,h))), NMul(2, F(NSub(z, h))))), NMul(2, NMul(h, NMul(h, h))))
NumGrad(F(_), x) == N(Tup([j \in 1..NLen(x) |-> NDiv(NSub(F(Bump(x, j, H1)), F(Bump(x, j, NNeg(H1)))), NMul(2, H1))]))
(* Jacobian of a vector function: row j of the transpose is dF/dx_j *)
NumJac(F(_), x) == NT(N(Tup([j \in 1..NLen(x) |-> NDiv(NSub(F(Bump(x, j, H1)), F(Bump(x, j, NNeg(H1)))), NMul(2, H1))])))
NumHess(F(_), x) ==
  LET p == NLen(x)
      pt(i, a, j, b) == F(Bump(Bump(x, i, a), j, b))
      m == NNeg(H2)
      ent(i, j) == IF i = j THEN NDiv(NAdd(NSub(F(Bump(x, i, H2)), NMul(2, F(x))), F(Bump(x, i, m))), NMul(H2, H2))
                   ELSE NDiv(NSub(NAdd(pt(i,H2,j,H2), pt(i,m,j,m)), NAdd(pt(i,H2,j,m), pt(i,m,j,H2))), NMul(4, NMul(H2, H2)))
      low == Tup([i \in 1..p |-> Tup([j \in 1..i |-> ent(i, j)])])
  IN NMat(p, p, N(Tup([k \in 1..(p*p) |-> LET i == ((k-1) \div p) + 1 j == ((k-1) % p) + 1 IN IF i >= j THEN low[i][j] ELSE low[j][i]])))
=============================================================================
