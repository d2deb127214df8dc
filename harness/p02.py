"""P02: structure matrices of vec/vech algebra, their apply forms, vec/vech operators and small linear algebra."""
import numpy as np
import scipy as sp
import scipy.sparse
from vlib import run, num, ints
from pystatsm.utilities import special_mats as sm
from pystatsm.utilities import linalg_operations as lo


def rnd(rng, *s):
    return np.round(rng.normal(size=s), 6)


def dense(x):
    return x.toarray() if hasattr(x, "toarray") else np.asarray(x)


def square_case(n):
    def f(tr):
        rng = tr.rng
        p = n * (n + 1) // 2
        mats = {}
        for nm, g in dict(L=lambda: sm.lmat(n), K=lambda: sm.kmat(n, n), D=lambda: sm.dmat(n), N=lambda: sm.nmat(n), Dp=lambda: sm.dpmat(n),
                          K2=lambda: sm.comm_mat(n, n), L2=lambda: sm.elim_mat(n), Pc=lambda: sm.pattern_mat_c(n), Pd=lambda: sm.pattern_mat_d(n),
                          Ps=lambda: sm.pattern_mat_s(n), Kd=lambda: sm.pattern_mat_k(n), L3=lambda: sm.EliminationMatrix(n).L,
                          D3=lambda: sm.DuplicationMatrix(n).D, Dp3=lambda: sm.DpMatrix(n).D, K3=lambda: sm.CommutationMatrix(n, n).K).items():
            v = tr.call(nm, g)
            if v is None:
                return
            mats[nm] = dense(v)
        X = rnd(rng, n, n)
        C = np.tril(rnd(rng, n, n))
        tr.ev("square", n=n, X=X, C=C, d=rnd(rng, n), **mats)
        for nm, fn in (("make_mats", sm.make_mats), ("make_mats2", sm.make_mats2)):
            mm = tr.call(nm, fn, n)
            if mm is not None:
                tr.ev("makemats", n=n, C=C, LN=dense(mm[0]), I=dense(mm[1]), L=dense(mm[2]), D2=dense(mm[3]))
        # apply forms against the explicit matrices
        for m in (1, 3):
            A = rnd(rng, n * n, m)
            B = rnd(rng, m, n * n)
            Q = rnd(rng, n * n, n * n)
            U = rnd(rng, p, m)
            W = rnd(rng, m, p)
            Z = rnd(rng, 2, n * n, n * n)
            fz = tr.frozen("apply", A, B, Q, U, W, Z)
            E, Du, Dq, Km = sm.EliminationMatrix(n), sm.DuplicationMatrix(n), sm.DpMatrix(n), sm.CommutationMatrix(n, n)
            r = {}
            for nm, g in dict(
                    kA=lambda: sm.apply_kmat1(A, n, n), kA2=lambda: sm.apply_kmat2(A, n, n), kA3=lambda: Km.apply(A), kA4=lambda: Km.apply_alt(A),
                    lA=lambda: sm.apply_lmat1(A), lA2=lambda: sm.apply_lmat2(A), lA3=lambda: E.apply(A), lA4=lambda: E.apply_alt(A), lA5=lambda: E.app(A), lA6=lambda: sm.apply_lmat1(A, n),
                    BLt=lambda: sm.apply_lmat_post1(B), BLt2=lambda: E.apply_post(B), BLt3=lambda: E.app(B, pre=False, post=True),
                    WL=lambda: sm.apply_lmat_post2(W, n), WL2=lambda: E.apply_post_alt(W),
                    LQLt=lambda: sm.apply_lmat_pre_post1(Q), LQLt2=lambda: E.app(Q, pre=True, post=True),
                    DtA=lambda: sm.apply_dmat1(A), DtA2=lambda: sm.apply_dmat2_pre(A), DtA3=lambda: Du.apply(A), DtA4=lambda: Du.apply_pre(A),
                    DU=lambda: sm.apply_dmat2_pre(U, n, transpose=False), DU2=lambda: Du.apply_pre(U, transpose=False),
                    BD=lambda: sm.apply_dmat1(B, n, pre_mult=False, post_mult=True), BD2=lambda: sm.apply_dmat2_post(B, transpose=False), BD3=lambda: Du.apply(B, False, True), BD4=lambda: Du.apply_post(B, transpose=True),
                    WDt=lambda: sm.apply_dmat2_post(W, n, transpose=True), WDt2=lambda: Du.apply_post(W, transpose=False),
                    DtQD=lambda: sm.apply_dmat1(Q, pre_mult=True, post_mult=True), DtQD2=lambda: sm.apply_dmat2_pre_post(Q), DtQD3=lambda: Du.apply(Q, True, True), DtQD4=lambda: Du.apply_pre_post(Q, t1=True, t2=True),
                    DtZ=lambda: sm.apply_dmat3(Z).reshape(2 * p, n * n), DtZD=lambda: sm.apply_dmat3(Z, pre_mult=True, post_mult=True).reshape(2 * p, p),
                    DpA=lambda: Dq.apply(A), BDpt=lambda: Dq.apply(B, False, True), DpQDpt=lambda: Dq.apply(Q, True, True)).items():
                v = tr.call(nm, g)
                if v is not None:
                    r[nm] = dense(v)
            fz.check()
            tr.ev("apply", n=n, A=A, B=B, Q=Q, U=U, W=W, Z=Z.reshape(2 * n * n, n * n), res=r)
    return f


def rect_case(m, n):
    def f(tr):
        rng = tr.rng
        X = rnd(rng, m, n)
        p, q = 2, 3
        Y = rnd(rng, p, q)
        out = {}
        for nm, g in dict(K=lambda: sm.kmat(m, n), K2=lambda: sm.comm_mat(m, n), K3=lambda: sm.CommutationMatrix(m, n).K, Kv=lambda: sm.kronvec_mat((m, n), (p, q)),
                          kx=lambda: sm.apply_kmat1(X.reshape(-1, order="F"), m, n), kx2=lambda: sm.apply_kmat2(X.reshape(-1, order="F"), m, n),
                          kx3=lambda: sm.CommutationMatrix(m, n).apply(X.reshape(-1, order="F"))).items():
            v = tr.call(nm, g)
            if v is None:
                return
            out[nm] = dense(v)
        tr.ev("rect", m=m, n=n, X=X, Y=Y, **out)
        for k, o in ((m + n, 1), (m + n, 2), (m + n + 1, 3)):
            d = tr.call("difference_mat", sm.difference_mat, k, o)
            if d is not None:
                tr.ev("diffmat", k=k, order=o, D=d)
    return f


def vecops_case(n, j):
    def f(tr):
        rng = tr.rng
        X, S = rnd(rng, n, n), rnd(rng, n, n)
        S = S + S.T
        v, u = rnd(rng, n * (n + 1) // 2), rnd(rng, n * (n - 1) // 2)
        T = rnd(rng, 2, 3, n, n)
        Sb, Vb, Ub = T + np.swapaxes(T, -1, -2), rnd(rng, 2, 3, n * (n + 1) // 2), rnd(rng, 2, 3, n * (n - 1) // 2)
        R = rnd(rng, n, n + 2)
        fl = lambda x, k: np.asarray(x).reshape(-1, k)
        fz = tr.frozen("vecops", X, S, v, u, T, R)
        r = {}
        for nm, g in dict(vec=lambda: lo.vec(R), invec=lambda: lo.invec(lo.vec(R), n, n + 2), vech=lambda: lo.vech(X), invech=lambda: lo.invech(v),
                          vecl=lambda: lo.vecl(X), invecl=lambda: lo.invecl(u), invech_chol=lambda: lo.invech_chol(v), vechnb=lambda: lo._vech_nb(X),
                          bvech=lambda: fl(lo._vech(T), n * (n + 1) // 2), binvech=lambda: fl(lo._invech(Vb), n * n), bvecl=lambda: fl(lo._vecl(T), n * (n - 1) // 2),
                          blhv=lambda: fl(lo.lower_half_vec(T), n * (n - 1) // 2), bilhv=lambda: fl(lo.inv_lower_half_vec(Ub), n * n),
                          tril=lambda: X.reshape(-1, order="F")[lo._vec_tril_mask(n)], tril0=lambda: X.reshape(-1, order="F")[lo._vec_tril_mask(n, 0)],
                          ndg=lambda: lo._vec_ndg(X), vdg=lambda: lo.vdg(X), gb=lambda: lo.gb_diag(X, R, R.T),
                          sizes=lambda: [lo.hv_size_to_mat_size(len(v)), lo.mat_size_to_hv_size(n), lo.lhv_size_to_mat_size(len(u)), lo.mat_size_to_lhv_size(n)]).items():
            if n == 1 and nm in ("invecl", "binvecl", "vecl", "bvecl", "blhv", "bilhv", "tril", "ndg"):
                continue
            w = tr.call(nm, g)
            if w is not None:
                r[nm] = w
        fz.check()
        tr.ev("vecops", n=n, X=X, S=S, v=v, u=u, R=R, T=T.reshape(-1, n * n), Vb=Vb.reshape(-1, Vb.shape[-1]), Ub=Ub.reshape(-1, max(1, Ub.shape[-1])) if n > 1 else np.zeros((1, 1)), res=r)
    return f


def linalg_case(n, k, j):
    def f(tr):
        rng = tr.rng
        X, y, w = rnd(rng, n, k), rnd(rng, n), np.round(rng.uniform(0.2, 2, n), 4)
        G = rnd(rng, k, k + 3)
        S = G @ G.T / k + np.eye(k)
        Y = rnd(rng, n, 2)
        # some, not all, weights negative, X'WX still non-singular
        wn = w.copy()
        wn[: max(1, n // 6)] *= -0.3
        a = np.sort(rng.choice(np.arange(1, 30), k, replace=False)) / 7.0
        b = rnd(rng, k)
        L = np.linalg.cholesky(S)
        rho = float(np.round(rng.uniform(-0.8, 0.8), 3))
        tp = np.r_[1.0, np.round(np.sort(rng.uniform(0.02, 0.3, k - 1))[::-1], 4)] if k > 1 else np.ones(1)
        fz = tr.frozen("linalg", X, y, w, S, Y, wn, a, b, L)
        r = {}
        for nm, g in dict(wcrossp=lambda: lo.wcrossp(X, w), wdcrossp=lambda: lo.wdcrossp(X, w, Y), wls_chol=lambda: lo.wls_chol(X, y, w), wls_qr=lambda: lo.wls_qr(X, y, w),
                          nwls=lambda: lo.nwls(X, y, wn), nwls_pos=lambda: lo.nwls(X, y, w), lsqr=lambda: lo.lsqr(X, y), dop=lambda: lo.diag_outer_prod(X, X * 2 + 1), wdop=lambda: lo.wdiag_outer_prod(X, S, X + 1),
                          cproj=lambda: lo.cproject(X), isqrt=lambda: lo.inv_sqrt(S), sqrtm=lambda: lo.mat_sqrt(S), ev=lambda: lo.eighs(S)[0], eV=lambda: lo.eighs(S)[1],
                          vander=lambda: lo.solve_vander(a, b), toep=lambda: lo.toeplitz_cholesky_lower_nb(k, np.ascontiguousarray(tp[:, None])), ar1=lambda: lo.ar1_chol(k, rho),
                          dexp=lambda: lo.dmat_exp(S / 4)).items():
            v = tr.call(nm, g)
            if v is not None:
                r[nm] = v
        # Cholesky row append / row deletion
        A = np.zeros((k, k))
        for i in range(k):
            A = tr.call("add_chol_row", lo.add_chol_row, S, A, i)
            if A is None:
                break
        if A is not None:
            r["append"] = A
        for i in range(k - 1):
            B = tr.call("chol_downdate", lo.chol_downdate, L.copy(), i)
            if B is not None:
                r[f"down{i}"] = B[:k - 1, :k - 1]
        Ss = sp.sparse.csc_array(np.where(np.abs(S) > 0.3, S, 0))
        v = tr.call("_sparse_post_mult", lo._sparse_post_mult, X, Ss)
        if v is not None:
            r["spm"] = np.asarray(v)
        fz.check()
        tr.ev("linalg", n=n, k=k, X=X, y=y, w=w, wn=wn, S=S, Y=Y, a=a, b=b, rho=rho, tp=tp, Ss=Ss, res=r)
    return f


def cases(seed, tier):
    th = tier == "thorough"
    out = [(f"square-{n}", square_case(n)) for n in range(1, 7 if th else 6)]
    out += [(f"rect-{m}-{n}", rect_case(m, n)) for m in range(1, 6) for n in range(1, 6)]
    out += [(f"vecops-{n}-{j}", vecops_case(n, j)) for n in range(1, 8) for j in range(4 if th else 2)]
    out += [(f"linalg-{n}-{k}-{j}", linalg_case(n, k, j)) for n, k in ((9, 1), (10, 2), (14, 3), (20, 4), (25, 6)) for j in range(8 if th else 3)]
    return out


if __name__ == "__main__":
    run(cases)
