"""P23: canonical correlations, sparse canonical correlations, independent components, convolutive factors, dependence statistics."""
import os
import numpy as np, pandas as pd
from vlib import run, num, ints
from pystatsm.pyscca.base_cca import CCA
from pystatsm.pyscca.cca_sim import SimCCA
from pystatsm.pyscca import scca as S
from pystatsm.pyica.ica import ICA
from pystatsm.pynmf import hfuncs as H
from pystatsm.misc import independence_tests as I


def blocks(rng, n, p, q, strength=1.0):
    Z = rng.normal(size=(n, 2))
    X = Z @ rng.normal(size=(2, p)) * strength + rng.normal(size=(n, p))
    Y = Z @ rng.normal(size=(2, q)) * strength + rng.normal(size=(n, q))
    return X * rng.uniform(.2, 5, p) + rng.normal(size=p) * 3, Y * rng.uniform(.2, 5, q) + rng.normal(size=q)


def lags(W):
    return [num(W[:, :, j]) for j in range(W.shape[2])]


def cca_case(p, q, k, frames):
    def go(tr):
        rng = tr.rng
        n = int(rng.integers(15, 40))
        X, Y = blocks(rng, n, p, q)
        if frames:
            ix = [f"r{i}" for i in range(n)]
            X = pd.DataFrame(X, index=ix, columns=[f"a{j}" for j in range(p)])
            Y = pd.DataFrame(Y, index=ix, columns=[f"b{j}" for j in range(q)])
        with tr.frozen("cca", X, Y):
            m = tr.call("CCA", lambda: CCA(X, Y))
            if m is not None and tr.call("fit", lambda: (m._fit(k or None), 1)[1]):
                kk = m.Wx.shape[1]
                lab = m.x_coefs.shape == (p, kk) and m.canvar.shape == (n, 2 * kk) and np.array_equal(m.x_coefs.values, m.Wx) and np.array_equal(m.y_loadings.values, m.Ly) \
                    and np.array_equal(m.x_loadings.values, m.Lx) and np.array_equal(m.y_coefs.values, m.Wy) and np.array_equal(m.canvar.values, m.Z) \
                    and list(m.x_coefs.columns) == [f"u{i+1}" for i in range(kk)] and list(m.y_coefs.columns) == [f"v{i+1}" for i in range(kk)]
                if frames:
                    lab = lab and list(m.x_coefs.index) == list(X.columns) and list(m.y_loadings.index) == list(Y.columns) and list(m.canvar.index) == ix
                tr.ev("cca", X=np.asarray(X), Y=np.asarray(Y), k=k, Wx=m.Wx, Wy=m.Wy, rhos=m.rhos, Lx=m.Lx, Ly=m.Ly, Zx=m.Zx, Zy=m.Zy, Z=m.Z, PWx=m.PWx, PWy=m.PWy, PLx=m.PLx, PLy=m.PLy, labels=bool(lab))
        # simulated blocks of the same shape
        seed = int(rng.integers(1 << 30))
        m = k or min(p, q)
        rh = np.sort(rng.uniform(.1, .95, m))[::-1]
        given = k > 0 and k % 2 == 0
        kw = dict(rhos=rh) if k else {}
        if given:
            kw.update(x_coefs=rng.normal(size=(p, m)), y_coefs=rng.normal(size=(q, m)), rhos=rh * .3)
        s = tr.call("SimCCA", lambda: SimCCA(p, q, seed=seed, **kw))
        if s is not None:
            X, Y = s.simulate_data(40, exact=True)
            X2, Y2 = s.simulate_data(2000) if np.linalg.eigvalsh(s.S).min() > 0 else (X / X.std(0), Y / Y.std(0))
            tr.ev("simcca", given=given, Sxx=s.Sxx, Syy=s.Syy, Sxy=s.Sxy, S=s.S, rhos=s.rhos, Wx=s.Wx, Wy=s.Wy, X=X, Y=Y, X2=X2, Y2=Y2)
    return go


def scca_case(p, q, k):
    def go(tr):
        rng = tr.rng
        n = int(rng.integers(30, 50))
        X, Y = blocks(rng, n, p, q)
        frames = rng.integers(2) == 1
        A, B = (pd.DataFrame(X), pd.DataFrame(Y)) if frames else (X, Y)
        with tr.frozen("scca", A, B):
            m = tr.call("SCCA", lambda: S.SCCA(A, B))
            if m is None:
                return
            for lx, ly in ((.95, .95), (.7, .75), (max(.6, 1.05 / np.sqrt(p)), max(.6, 1.05 / np.sqrt(q)))):
                if lx * np.sqrt(p) < 1 or ly * np.sqrt(q) < 1:
                    continue
                r = tr.call("fit", lambda: m._fit(lx, ly, k, ortho=False))
                o = tr.call("fit orthogonal", lambda: m._fit(lx, ly, k))
                if r is not None and o is not None:
                    tr.ev("scca", X=X, Y=Y, lx=lx, ly=ly, Wx=r[0], Wy=r[1], rho0=r[2], Bx=o[0], By=o[1], rho=o[2], conv=[bool(c[0] < 1e-6) for c in r[3]])
            cv = int(rng.integers(2, 5))
            Xf, Yf, Xt, Yt = S.crossval_mats(X, Y, n, cv)
            ix = S.kfold_indices(n, cv)
            tr.ev("folds", X=X, Y=Y, k=cv, fit=[ints(a + 1) for a, _ in ix], test=[ints(b + 1) for _, b in ix], Xf=[num(a) for a in Xf], Yf=[num(a) for a in Yf], Xt=[num(a) for a in Xt], Yt=[num(a) for a in Yt])
            lams = np.linspace(max(.6, 1.02 / np.sqrt(min(p, q))), .98, 3)
            if tr.call("cross-validated fit", lambda: (m.fit(cv, k, cv_kws=dict(lambdas=lams)), 1)[1]):
                tr.ev("sccacv", fit=True, X=X, Y=Y, k=cv, lam=[num(l) for l in lams], best=m.lam, Wx=[[num(m.Wxcv[i, j]) for j in range(cv)] for i in range(3)], Wy=[[num(m.Wycv[i, j]) for j in range(cv)] for i in range(3)],
                      rf=[[num(m.rf[i, j]) for j in range(cv)] for i in range(3)], rt=[[num(m.rt[i, j]) for j in range(cv)] for i in range(3)])
                o = m._fit(m.lam, m.lam, k)
                r = m._fit(m.lam, m.lam, k, ortho=False)
                tr.ev("scca", X=X, Y=Y, lx=m.lam, ly=m.lam, Wx=r[0], Wy=r[1], rho0=r[2], Bx=m.Wx, By=m.Wy, rho=m.rho, conv=[bool(c[0] < 1e-6) for c in r[3]])
        for t in range(4):
            v = rng.normal(size=int(rng.integers(2, 7))) * rng.uniform(.5, 20)
            c = float(rng.uniform(1.02, np.sqrt(len(v)) + .3))
            t0 = float(rng.uniform(0, abs(v).max()))
            tr.ev("thresh", v=v, c=c, t=S.threshold_search(v, c), t0=t0, s=S.sft(v, t0), l1=S.l1_constraint(v))
    return go


def resample_case(p, q):
    def go(tr):
        rng = tr.rng
        X, Y = blocks(rng, 60, p, q, 2.0)
        np.random.seed(int(rng.integers(1 << 30)))
        m = S.SCCA(X, Y)
        lx = ly = .9
        b = tr.call("bootstrap", lambda: m.bootstrap(lx, ly, n_boot=25))
        r = tr.call("permutation", lambda: m.permutation_test(lx, ly, n_perms=25))
        if b is not None and r is not None:
            tr.ev("sccares", Wx=[num(w) for w in b[0]], Wy=[num(w) for w in b[1]], r=b[2].values, rp=r.values, cx=lx * np.sqrt(p), cy=ly * np.sqrt(q))
    return go


SRC = [lambda r, n: r.laplace(size=n), lambda r, n: r.uniform(-1, 1, n), lambda r, n: r.exponential(size=n) - 1, lambda r, n: np.sign(r.normal(size=n)) * r.uniform(.6, 1.4, n)]


def ica_case(alg, kinds, comps, frames):
    def go(tr):
        rng = tr.rng
        k = len(kinds)
        n = 1500
        src = np.column_stack([SRC[j](rng, n) for j in kinds])
        while True:
            A = rng.normal(size=(k, k))
            if np.linalg.cond(A) < 15:
                break
        X = src @ A + rng.normal(size=k) * 4
        if comps < k:
            src = None
        np.random.seed(int(rng.integers(1 << 30)))
        D = pd.DataFrame(X, index=np.arange(n) + 7, columns=[f"v{j}" for j in range(k)]) if frames else X
        with tr.frozen("ica", D):
            def fit():
                m = ICA(D, n_comps=comps if comps < k else None, algorithm=alg)
                m.fit(300)
                return m
            m = tr.call("ICA." + alg, fit)
        if m is not None:
            lab = (not frames) or (list(m.W.index) == list(D.columns) and list(m.A.columns) == list(D.columns) and list(m.Y.index) == list(D.index) and list(m.W.columns) == list(m.A.index) == [f"component_{i+1}" for i in range(comps)])
            sep = src is not None and (alg == "fastica" or bool(m.dW_hist[-1] < 1e-6))
            tr.ev("ica", alg=alg, X=X, W=np.asarray(m.W), A=np.asarray(m.A), Y=np.asarray(m.Y), conv=bool(m.dW_hist[-1] < 1e-6), sep=sep, S=src if src is not None else np.zeros((2, 1)), labels=bool(lab))
    return go


def nmf_case(n, k, L, T):
    def go(tr):
        rng = tr.rng
        W, A = rng.uniform(0, 1, (n, k, L)), rng.uniform(0, 1, (k, T))
        X = rng.uniform(0, 2, (n, T))
        R = tr.call("reconstruct", H.reconstruct, W, A)
        f, pen, WtX = tr.call("seqnmf_objfunc", H.seqnmf_objfunc, X, W, A)
        tr.ev("recon", Ws=lags(W), H=A, X=X, R=R, f=f, pen=pen, WtX=WtX)
        lam, lw, lh = rng.uniform(0, .3, 3)
        np.random.seed(int(rng.integers(1 << 30)))
        m = H.NMFSeq(X, k=k, L=L, lambda_=lam, lambda_w=lw, lambda_h=lh, n_starts=1, n_iters=1)
        W0, H0 = m.W_init.copy(), m.H_init.copy()
        m.fit()
        tr.ev("nmfstep", X=m.X, W0=lags(W0), H0=H0, W1=lags(m.Ws[..., 0]), H1=m.Hs[..., 0], f=m.f_evals[0, 0], pen=m.penalty_evals[0, 0], lam=lam, lw=lw, lh=lh, ve=float(np.finfo(float).eps ** (1 / 3.9)))
        for shf in (False, True):
            def fit():
                m = H.NMFSeq(X, k=k, L=L, lambda_=.001, lambda_w=.001, lambda_h=.001, n_starts=2, n_iters=15, shift_factors=shf)
                m.fit()
                return m
            m = tr.call(f"NMFSeq shift={shf}", fit)
            if m is not None:
                for r in range(2):
                    tr.ev("nmf", X0=X, X=m.X, Ws=lags(m.Ws[..., r]), H=m.Hs[..., r], f=m.f_evals[-1, r], f1=m.f_evals[0, r] * 1.0000001 if shf else m.f_evals[0, r], pen=m.penalty_evals[-1, r])
        # factors with room to move: no mass is lost by centring
        Lc = 2 * L + 3
        Wc, Hc = np.zeros((n, k, Lc)), np.zeros((k, T + 4 * Lc))
        for j in range(k):
            a = int(rng.integers(0, Lc - 1))
            Wc[:, j, a:a + 2] = rng.uniform(.1, 1, (n, 2))
        Hc[:, 2 * Lc:-2 * Lc] = rng.uniform(0, 1, (k, T))
        Wc0, Hc0 = Wc.copy(), Hc.copy()
        r = tr.call("center_factors", H.center_factors, Wc, Hc)
        if r is not None:
            tr.ev("center", Ws=lags(Wc0), H=Hc0, Ws2=lags(r[0]), H2=r[1])
        Am, Bm = rng.integers(-3, 4, (n + 1, L + 2)).astype(float), rng.integers(-3, 4, (2 * int(rng.integers(0, 2)) + 1, 2 * int(rng.integers(0, 3)) + 1)).astype(float)
        sh = []
        for s in range(-3, 4):
            x = rng.normal(size=5)
            c = float(rng.normal())
            sh.append(dict(s=s, x=[num(v) for v in x], y=[num(v) for v in H.shift1d(x, s, c)], c=num(c)))
        tr.ev("conv", A=Am, B=Bm, full=H.conv2(Am, Bm), same=H.conv2(Am, Bm, "same"), sh=sh)
    return go


def dep_case(n, p, q, unb, perm):
    def go(tr):
        rng = tr.rng
        X, Y = rng.normal(size=(n, p)), rng.normal(size=(n, q))
        Y[:, 0] += X[:, 0] ** 2
        if p == 1 and rng.integers(2):
            X = X[:, 0]
        if q == 1 and rng.integers(2):
            Y = Y[:, 0]
        with tr.frozen("dep", X, Y):
            r = tr.call("dcorr", I.dcorr, X, Y, unb)
            B = 240
            if perm:
                r1, d, pv = I.dcorr_permutation_test(X, Y, B, unb)
                r2, none, p2 = I.dcorr_permutation_test(X, Y, 2000, unb, return_samples=False)
                kw = dict(draws=[num(v) for v in d], p=pv, p2=p2, B2=2000)
                assert r1 == r and abs(r2 - r) < 1e-12 and none is None
            else:
                kw = {}
            tr.ev("dcor", X=X, Y=Y, unb=unb, perm=perm, r=r, **kw)
            s, bx, by = tr.call("dhsic", I.dhsic, X, Y)
            kw = {}
            if perm:
                s1, b1, b2, d, pv = I.dhsic_test(X, Y, n_perms=B)
                kw = dict(draws=[num(v) for v in d], p=pv)
                assert s1 == s
            tr.ev("hsic", X=X, Y=Y, med=True, s=s, bx=bx, by=by, perm=perm, **kw)
            bw = [float(b) for b in rng.uniform(.4, 2, 2)]
            s, bx, by = I.dhsic(X, Y, bw)
            tr.ev("hsic", X=X, Y=Y, med=False, s=s, bx=bw[0], by=bw[1], perm=False)
    return go


def deps(tr):
    # one session: the parallel kernels compile once
    for unb in (True, False):
        for n, p, q, perm in ((4, 1, 2, True), (4, 2, 1, True), (12, 1, 1, False), (20, 3, 2, False)):
            dep_case(n, p, q, unb, perm)(tr)


def cases(seed, tier):
    big = tier == "thorough"
    shapes = []
    for ln in open(os.environ["GENFILE"]).read().split("\n"):
        h = [x.strip().strip('\\"') for x in ln.strip('"').replace("<<", "").replace(">>", "").split(",")]
        if len(h) == 3:
            shapes.append(tuple(int(x) for x in h))
    cs = [("dep", deps)]
    for i, (p, q, k) in enumerate(shapes):
        cs.append((f"cca-{p}-{q}-{k}", cca_case(p, q, k, (i + seed) % 2 == 1)))
        if k and p > 1 and q > 1 and k < 4:
            cs.append((f"scca-{p+1}-{q+1}-{k}", scca_case(p + 1, q + 1, k)))
    for p, q in ((4, 5), (6, 3)):
        cs.append((f"resample-{p}-{q}", resample_case(p, q)))
    for alg in ("fastica", "mle"):
        for kinds in ((0, 1), (0, 0), (1, 3), (0, 1, 2), (1, 1, 3), (2, 2, 0), (0, 1, 3, 2)):
            cs.append((f"ica-{alg}-{''.join(map(str, kinds))}", ica_case(alg, kinds, len(kinds), sum(kinds) % 2 == 1)))
        cs.append((f"ica-{alg}-reduced", ica_case(alg, (0, 1, 2, 3), 2, True)))
    for n, k, L, T in ((3, 2, 1, 8), (4, 2, 3, 12), (2, 1, 2, 7), (5, 3, 4, 10), (1, 2, 3, 9)):
        cs.append((f"nmf-{n}-{k}-{L}", nmf_case(n, k, L, T)))
    return [(f"{i}.{k}", f) for k in range(4) for i, f in cs] if big else cs


run(cases)
