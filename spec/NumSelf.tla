------------------------------ MODULE NumSelf ------------------------------
(* Self-test of the Num override against independent TLA+ definitions and identities. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, Num, TLC, NumDiff
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN N(0) ELSE NAdd(Head(s), SumSeq(Tail(s)))
A == N("3x3|4.0 1.0 0.5 1.0 3.0 -0.25 0.5 -0.25 2.0")
Bm == N("3x2|1.5 -2.0 0.25 3.0 7.0 0.125")
x == N("3x1|0.3 -1.7 2.9")
Def_MM(a, b) == N(Tup([i \in 1..NNR(a) |-> N(Tup([j \in 1..NNC(b) |-> SumSeq(Tup([k \in 1..NNC(a) |-> NMul(NEl(a,i,k), NEl(b,k,j))]))]))]))
Laplace3(a) == LET e(i,j) == NEl(a,i,j) IN
   NAdd(NSub(NMul(e(1,1), NSub(NMul(e(2,2),e(3,3)), NMul(e(2,3),e(3,2)))), NMul(e(1,2), NSub(NMul(e(2,1),e(3,3)), NMul(e(2,3),e(3,1))))),
        NMul(e(1,3), NSub(NMul(e(2,1),e(3,2)), NMul(e(2,2),e(3,1)))))
T == "1e-28"
G == <<"0.07", "0.5", "1.25", "2.5", "7.3", "33.0">>
RECURSIVE ExpSer(_,_,_)
ExpSer(z, k, t) == IF k > 80 THEN N(0) ELSE NAdd(t, ExpSer(z, k + 1, NDiv(NMul(t, z), k)))
Quad(v) == NAdd(NDot(v, NMM(A, v)), NProd(v))
Tests == <<
 <<"mm", NNear(NMM(A,Bm), Def_MM(A,Bm), T)>>,
 <<"inv", NNear(NMM(A,NInv(A)), NEye(3), T)>>,
 <<"det", NNear(NDet(A), Laplace3(A), T)>>,
 <<"logdet", NNear(NExp(NLogDet(A)), Laplace3(A), T)>>,
 <<"chol", NNear(NMM(NChol(A), NT(NChol(A))), A, T) /\ NLe(NAbs(NEl(NChol(A),1,2)), 0)>>,
 <<"eig", NNear(NMM(NEigVec(A), NMM(NDiag(NEig(A)), NT(NEigVec(A)))), A, T)>>,
 <<"vech", NNear(NVech(A), N("6x1|4.0 1.0 0.5 3.0 -0.25 2.0"), T) /\ NNear(NInvech(NVech(A)), A, T)>>,
 <<"vec", NNear(NVec(Bm), N("6x1|1.5 0.25 7.0 -2.0 3.0 0.125"), T) /\ NNear(NUnvec(NVec(Bm),3,2), Bm, T)>>,
 <<"kron", NNear(NMM(NKron(A,Bm), NVec(N("2x3|1.0 2.0 3.0 4.0 5.0 6.0"))), NVec(NMM(Bm, NMM(N("2x3|1.0 2.0 3.0 4.0 5.0 6.0"), NT(A)))), T)>>,
 <<"exp", \A i \in 1..5 : NClose(NExp(G[i]), ExpSer(N(G[i]), 1, N(1)), T, 0)>>,
 <<"expln", \A i \in 1..6 : NClose(NLn(NExp(G[i])), G[i], T, T) /\ NClose(NExp(NLn(G[i])), G[i], T, 0)>>,
 <<"exp1", NClose(NExp(1), NAdd("2.718281828459045", "1.4456468917292502e-16"), T, 0)>>,
 <<"log1p", NClose(NLog1p("1e-10"), NSub("1e-10", NSub("5e-21", NMul("1e-30", NDiv(1,3)))), "1e-24", 0)>>,
 <<"expm1", \A i \in 1..4 : NClose(NExpm1(G[i]), NSub(NExp(G[i]), 1), T, 0)>>,
 <<"trig", \A i \in 1..6 : NClose(NAdd(NPow(NSin(G[i]),2), NPow(NCos(G[i]),2)), 1, T, 0)>>,
 <<"atan", NClose(NMul(4, NAtan(1)), NPi, T, 0) /\ NClose(NTan(NAtan("7.25")), "7.25", T, 0)>>,
 <<"tanh", \A i \in 1..5 : NClose(NTanh(G[i]), NDiv(NSub(NExp(G[i]), NExp(NNeg(G[i]))), NAdd(NExp(G[i]), NExp(NNeg(G[i])))), T, 0)>>,
 <<"gammarec", \A i \in 1..6 : NNear(NLgamma(NAdd(G[i],1)), NAdd(NLgamma(G[i]), NLn(G[i])), T)>>,
 <<"gammahalf", NClose(NLgamma("0.5"), NDiv(NLn(NPi),2), T, 0) /\ NClose(NLgamma(10), NLn(362880), T, 0)>>,
 <<"gammadup", \A i \in 1..5 : NNear(NAdd(NLgamma(G[i]), NLgamma(NAdd(G[i],"0.5"))), NAdd(NMul(NSub(1, NMul(2,G[i])), NLn(2)), NAdd(NDiv(NLn(NPi),2), NLgamma(NMul(2,G[i])))), "1e-27")>>,
 <<"digamma", \A i \in 1..6 : NNear(NDigamma(NAdd(G[i],1)), NAdd(NDigamma(G[i]), NDiv(1,G[i])), T)
      /\ NNear(NDigamma(G[i]), D1(LAMBDA z : NLgamma(z), N(G[i])), "1e-14")>>,
 <<"phisym", \A i \in 1..5 : NNear(NAdd(NPhi(G[i]), NPhi(NNeg(G[i]))), 1, T)>>,
 <<"phival", NClose(NPhi("1.0"), "0.8413447460685429", "1e-15", 0) /\ NClose(NPhi("-10.0"), "7.619853024160525e-24", "1e-14", 0) /\ NClose(NPhi("-2.9"), "0.0018658133003840378","1e-14",0)>>,
 <<"phider", \A i \in 1..4 : NNear(D1(LAMBDA z : NPhi(z), N(G[i])), NPdf(G[i]), "1e-16")>>,
 <<"probit", \A p \in {"0.001","0.3","0.5","0.77","0.9999"} : NClose(NPhi(NProbit(p)), p, "1e-27", 0)>>,
 <<"erfc", NClose(NErf("1.0"), "0.8427007929497149", "1e-15", 0)>>,
 <<"gammainc", \A a \in {"0.5","3.0","12.5"} : \A z \in {"0.2","3.7","15.0"} : NNear(NAdd(NGammaP(a,z), NGammaQ(a,z)), 1, T)
      /\ NNear(D1(LAMBDA q : NGammaP(a,q), N(z)), NExp(NSub(NSub(NMul(NSub(a,1), NLn(z)), z), NLgamma(a))), "1e-16")>>,
 <<"chi2", NClose(NGammaQ("0.5", "1.9207294103470605"), "0.05", "1e-12", 0)>>,
 <<"betainc", \A a \in {"0.5","3.0"} : \A b \in {"1.5","8.0"} : \A z \in {"0.1","0.5","0.93"} : NNear(NAdd(NBetaInc(a,b,z), NBetaInc(b,a,NSub(1,z))), 1, T)
      /\ NNear(D1(LAMBDA q : NBetaInc(a,b,q), N(z)), NExp(NAdd(NAdd(NMul(NSub(a,1),NLn(z)), NMul(NSub(b,1),NLn(NSub(1,z)))), NSub(NLgamma(NAdd(a,b)), NAdd(NLgamma(a),NLgamma(b))))), "1e-16")>>,
 <<"bvn0", NClose(NBvn("0.3","-1.1","0.0"), NMul(NPhi("0.3"),NPhi("-1.1")), T, 0) /\ NNear(NBvn(0,0,"0.5"), NDiv(1,3), "1e-26") /\ NNear(NBvn(0,0,"-0.95"), NAdd("0.25", NDiv(NAtan(NDiv("-0.95",NSqrt(NSub(1,NMul("0.95","0.95"))))), NMul(2,NPi))), "1e-20")>>,
 <<"bvnder", \A r \in {"-0.8","0.4","0.97"} : NNear(D1(LAMBDA z : NBvn("0.4",z,r), N("-0.2")), NMul(NPdf("-0.2"), NPhi(NDiv(NSub("0.4",NMul(r,"-0.2")),NSqrt(NSub(1,NMul(r,r)))))), "1e-15")>>,
 <<"grad", NNear(NumGrad(Quad, x), NAdd(NMul(2, NMM(A,x)), N(<<NMul(NAt(x,2),NAt(x,3)), NMul(NAt(x,1),NAt(x,3)), NMul(NAt(x,1),NAt(x,2))>>)), "1e-17")>>,
 <<"hess", NNear(NumHess(Quad, x), NAdd(NMul(2, A), N(<<N(<<0, NAt(x,3), NAt(x,2)>>), N(<<NAt(x,3), 0, NAt(x,1)>>), N(<<NAt(x,2),NAt(x,1),0>>)>>)), "1e-12")>>,
 <<"jac", NNear(NumJac(LAMBDA v : NMM(A,v), x), A, "1e-17")>>,
 <<"nan", ~NNear("nan", "nan", 1) /\ NSame("nan","nan") /\ ~NLt("nan",1) /\ ~NLt(1,"nan") /\ NAnyNaN(NAdd(1,"nan")) /\ ~NNear(A, Bm, 100) /\ NNear("inf","inf",0) /\ ~NFin("inf")>>,
 <<"sort", NEq(NSort("4x1|3.0 -1.0 2.0 0.5"), N("4x1|-1.0 0.5 2.0 3.0")) /\ NArgsort("4x1|3.0 -1.0 2.0 0.5") = <<2,4,3,1>>>>,
 <<"sub", NEq(NSub2(A, <<1,3>>, <<2>>), N("2x1|1.0 -0.25")) /\ NEq(NRow(Bm,2), N("2x1|0.25 3.0")) /\ NEq(NHcat(Bm,Bm), NT(NVcat(NT(Bm),NT(Bm))))>>
 >>
VARIABLE k
Init == k = 1
Next == k <= Len(Tests) /\ k' = k + 1 /\ (Chk(Tests[k][1], Tests[k][2]) \/ PrintT(<<"FAIL", 1, k, Tests[k][1]>>))
Done == ChkReport /\ TLCGet("distinct") > 0
=============================================================================
