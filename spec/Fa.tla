--------------------------------- MODULE Fa ---------------------------------
(* Exploratory factor analysis: rotation criteria, rotation groups, the        *)
(* identification constraints they induce, the covariance structure            *)
(* Sigma = L Phi L' + diag(psi) and its discrepancy.  Parameter order:         *)
(* vec(L), strict lower triangle of Phi column by column, psi.                 *)
EXTENDS Naturals, Integers, Sequences, Num, NumDiff
Ones(r, c) == NFull(r, c, 1)
(* ----- rotation criteria ---------------------------------------------------*)
Kappa(name, p, m) ==
  CASE name = "quartimax" -> N(0)
    [] name = "varimax" -> NDiv(1, p)
    [] name = "equamax" -> NDiv(m, 2 * p)
    [] name = "parsimax" -> NDiv(m - 1, p + m - 2)
    [] name = "parsimony" -> N(1)
(* Crawford-Ferguson: row complexity against column complexity *)
CF(L, k) == LET B == NMul(L, L) r == NRowSum(B) c == NColSum(B) s4 == NSum(NMul(B, B)) IN
  NDiv(NAdd(NMul(NSub(1, k), NSub(NDot(r, r), s4)), NMul(k, NSub(NDot(c, c), s4))), 4)
CFGrad(L, k) == LET B == NMul(L, L) p == NNR(L) m == NNC(L) r == NMM(NRowSum(B), Ones(1, m)) c == NMM(Ones(p, 1), NT(NColSum(B))) IN
  NMul(L, NAdd(NMul(NSub(1, k), NSub(r, B)), NMul(k, NSub(c, B))))
(* direct oblimin with parameter g *)
Oblimin(L, g) == LET B == NMul(L, L) r == NRowSum(B) c == NColSum(B) IN
  NDiv(NSub(NSub(NDot(r, r), NSum(NMul(B, B))), NMul(NDiv(g, NNR(L)), NSub(NPow(NSum(B), 2), NDot(c, c)))), 4)
Target(L, H, W) == NDiv(NSum(NMul(W, NPow(NSub(L, H), 2))), 2)
(* c: record with kind "cf" (name), "ob" (g) or "target" (H, W) *)
Crit(c, L) == CASE c.kind = "cf" -> CF(L, Kappa(c.name, NNR(L), NNC(L)))
                [] c.kind = "ob" -> Oblimin(L, N(c.g))
                [] c.kind = "target" -> Target(L, N(c.H), N(c.W))
GradOf(F(_), X) == LET G(v) == F(NUnvec(v, NNR(X), NNC(X))) IN NUnvec(NumGrad(G, NVec(X)), NNR(X), NNC(X))
CritGrad(c, L) == IF c.kind = "cf" THEN CFGrad(L, Kappa(c.name, NNR(L), NNC(L)))
                  ELSE IF c.kind = "target" THEN NMul(c.W, NSub(L, c.H)) ELSE LET F(z) == Oblimin(z, N(c.g)) IN GradOf(F, L)
(* ----- strict lower triangle, column by column --------------------------- *)
Col0(m, j) == ((j - 1) * (2 * m - j)) \div 2          \* entries before column j (1-based)
LowPos(m, i, j) == Col0(m, j) + (i - j)
Vecl(M) == LET m == NNR(M) k == (m * (m - 1)) \div 2
               at == [q \in 1..k |-> CHOOSE x \in (1..m) \X (1..m) : x[1] > x[2] /\ LowPos(m, x[1], x[2]) = q] IN
           N(Tup([q \in 1..k |-> NEl(M, at[q][1], at[q][2])]))
Fill(v, m, D, sg) == NMat(m, m, N(Tup([q \in 1..(m * m) |-> LET i == ((q - 1) \div m) + 1 j == ((q - 1) % m) + 1 IN
                      IF i = j THEN N(D) ELSE IF i > j THEN NAt(v, LowPos(m, i, j)) ELSE NMul(sg, NAt(v, LowPos(m, j, i)))])))
Corr(v, m) == IF m = 1 THEN NEye(1) ELSE Fill(v, m, 1, 1)
Skew(v, m) == Fill(v, m, 0, -1)
(* off-diagonal entries column by column *)
OffDiag(M) == LET m == NNR(M) IN N(Tup([q \in 1..(m * (m - 1)) |-> LET j == ((q - 1) \div (m - 1)) + 1 a == ((q - 1) % (m - 1)) + 1 IN NEl(M, IF a >= j THEN a + 1 ELSE a, j)]))
Cay(v, m) == LET S == Skew(v, m) IN NMM(NSub(NEye(m), S), NInv(NAdd(NEye(m), S)))
Rotated(kind, A, T) == IF kind = "ortho" THEN NMM(A, T) ELSE NMM(A, NT(NInv(T)))
Sym(M) == NDiv(NAdd(M, NT(M)), 2)
(* projection on the tangent space of the rotation group at T *)
Project(kind, T, G) == IF kind = "ortho" THEN NSub(G, NMM(T, Sym(NMM(NT(T), G)))) ELSE NSub(G, NMM(T, NDiag(NDg(NMM(NT(T), G)))))
IsRot(T) == NNear(NMM(NT(T), T), NEye(NNC(T)), "1e-9")
IsOblique(T) == NNear(NDg(NMM(NT(T), T)), NFull(NNC(T), 1, 1), "1e-9")
InGroup(kind, T) == IF kind = "ortho" THEN IsRot(T) ELSE IsOblique(T)
(* ----- parameters ---------------------------------------------------------*)
NL(p, m) == p * m
NS(m) == (m * (m - 1)) \div 2
LOf(t, p, m) == NUnvec(NPos(t, 1, p * m), p, m)
PhiOf(t, p, m) == IF m = 1 THEN NEye(1) ELSE Corr(NPos(t, p * m + 1, p * m + NS(m)), m)
PsiOf(t, p, m) == NPos(t, p * m + NS(m) + 1, p * m + NS(m) + p)
SigmaOf(L, Phi, psi) == NAdd(NMM(L, NMM(Phi, NT(L))), NDiag(psi))
SigOf(t, p, m) == SigmaOf(LOf(t, p, m), PhiOf(t, p, m), PsiOf(t, p, m))
(* identification constraints *)
RotCons(kind, c, L, Phi) == LET M == NMM(NT(L), CritGrad(c, L)) IN IF kind = "ortho" THEN Vecl(NSub(M, NT(M))) ELSE OffDiag(NMM(M, NInv(Phi)))
CanonMat(L, psi) == NMM(NT(L), NMM(NDiag(NDiv(1, psi)), L))
CanonCons(L, psi) == Vecl(CanonMat(L, psi))
(* ----- discrepancy ----------------------------------------------------------*)
FML(S, Sg) == NAdd(NLogDet(Sg), NTr(NSolve(Sg, S)))
(* -2 log-likelihood profiled over the loadings: the p - m smallest eigenvalues of psi^-1/2 S psi^-1/2 *)
Scaled(S, psi) == LET d == NDiag(NDiv(1, NSqrt(psi))) IN NMM(d, NMM(S, d))
Profile(S, psi, m) == LET u == NPos(NEig(Scaled(S, psi)), 1, NLen(psi) - m) IN NSum(NSub(NSub(u, NLn(u)), 1))
(* bordered information: inverse block belonging to the free parameters (sorted index sequence) *)
Bordered(H, C, fr) == LET k == Len(fr) q == NNR(C) Hf == NRowsOf(NColsOf(H, fr), fr) Cf == NColsOf(C, fr)
                          A == NInv(NVcat(NHcat(Hf, NT(Cf)), NHcat(Cf, NFull(q, q, 0)))) ix == [j \in 1..k |-> j] IN NRowsOf(NColsOf(A, ix), ix)
=============================================================================
