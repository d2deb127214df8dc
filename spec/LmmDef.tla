-------------------------------- MODULE LmmDef --------------------------------
(* The Gaussian mixed model y = X b + sum_k Z_k u_k + e of one session:         *)
(* Tr.X, Tr.y, Tr.terms[k] = [g (level of each row, 1..lv), lv, x (covariates),  *)
(* p, order (level carried by each position)].  Parameters: packed lower         *)
(* triangles (column by column) of the term covariances, then the residual       *)
(* variance.  Nothing here refers to sparse storage, caches or orderings.        *)
EXTENDS TraceBase
Nn == NNR(N(Tr.X))
Pn == NNC(N(Tr.X))
NT_ == Len(Tr.terms)
Mk(k) == (Tr.terms[k].p * (Tr.terms[k].p + 1)) \div 2
TOff(k) == LET f[j \in 0..NT_] == IF j = 0 THEN 0 ELSE f[j-1] + Mk(j) IN f[k-1]
NPar == TOff(NT_ + 1) + 1
Gk(th, k) == NInvech(NPos(th, TOff(k) + 1, TOff(k) + Mk(k)))
S2(th) == NAt(th, NPar)
(* rows sharing a level of term k *)
Same(k) == NMat(Nn, Nn, N(Tup([c \in 1..(Nn*Nn) |-> IF Tr.terms[k].g[((c-1) \div Nn) + 1] = Tr.terms[k].g[((c-1) % Nn) + 1] THEN 1 ELSE 0])))
Zk(k) == LET t == Tr.terms[k] w == t.p * t.lv IN
         NMat(Nn, w, N(Tup([c \in 1..(Nn*w) |-> LET i == ((c-1) \div w) + 1 j == (c-1) % w IN IF t.order[(j \div t.p) + 1] = t.g[i] THEN NEl(t.x, i, (j % t.p) + 1) ELSE 0])))
Zall == LET f[k \in 1..NT_] == IF k = 1 THEN Zk(1) ELSE NHcat(f[k-1], Zk(k)) IN f[NT_]
Gall(th) == LET f[k \in 1..NT_] == LET b == NKron(NEye(Tr.terms[k].lv), Gk(th, k)) IN IF k = 1 THEN b ELSE NBdiag(f[k-1], b) IN f[NT_]
Masks == Tup([k \in 1..NT_ |-> Same(k)])
(* marginal covariance, given the level masks M *)
VofM(M, th) == LET f[k \in 0..NT_] == IF k = 0 THEN NMul(S2(th), NEye(Nn)) ELSE NAdd(f[k-1], NMul(M[k], NMM(NMM(Tr.terms[k].x, Gk(th, k)), NT(Tr.terms[k].x)))) IN f[NT_]
DevOfV(v, reml) == LET X == N(Tr.X) y == N(Tr.y) vx == NSolve(v, NHcat(X, y))
                       ViX == NColsOf(vx, [j \in 1..Pn |-> j]) Viy == NColumn(vx, Pn + 1)
                       XtX == NMM(NT(X), ViX) Xty == NMM(NT(X), Viy) b == NSolve(XtX, Xty)
                       q == NSub(NDot(y, Viy), NDot(Xty, b)) IN
                   NAdd(NAdd(NLogDet(v), q), IF reml THEN NLogDet(XtX) ELSE 0)
(* generalised least squares and best linear predictors *)
Gls(v) == LET X == N(Tr.X) y == N(Tr.y) ViX == NSolve(v, X) C == NInv(NMM(NT(X), ViX)) b == NMM(C, NMM(NT(ViX), y)) w == NSolve(v, NSub(y, NMM(X, b))) IN [b |-> b, C |-> C, w |-> w, ViX |-> ViX]
=============================================================================
