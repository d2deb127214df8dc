"""P22: data utilities, correlation structures and random generators (utilities.data_utils, cov_utils, random)."""
import os, itertools
import numpy as np, pandas as pd
from scipy.spatial.distance import pdist, squareform
from vlib import run, num, ints
from pystatsm.utilities import data_utils as D, cov_utils as C, random as R
import numba
import vlib


@numba.njit
def seed_jit(s):
    np.random.seed(s)


vlib.per_case.append(seed_jit)

N = 3000


def spd(rng, p):
    A = rng.normal(size=(p, p + 3))
    return A @ A.T / (p + 3) + .1 * np.eye(p)


def corr_of(S):
    s = np.sqrt(np.diag(S))
    return S / np.outer(s, s)


def seq_case(seqs):
    def go(tr):
        rng = tr.rng
        for a in seqs:
            x = np.array(a)
            lab = x * int(rng.integers(1, 4)) + int(rng.integers(-3, 4))
            cats = np.sort(np.unique(np.r_[lab, 17]))
            v = tr.call("dummy", lambda: dict(D=D.dummy(pd.Series(lab)), D1=D.dummy(lab.reshape(-1, 1)), D0=D.dummy(lab, fullrank=False), E=D.dummy_encode(lab), Dc=D.dummy(lab, True, cats), Ec=D.dummy_encode(lab, cats)))
            if v:
                tr.ev("dummy", x=ints(lab), cats=ints(cats), **{k: num(w) for k, w in v.items()})
            y = x * 3 + rng.integers(-1, 2, size=5)
            res = []
            for k in (1, 2, 3):
                for b in (0, 1):
                    i = tr.call("sign_change", D.sign_change, y.astype(float), k, float(b))
                    if i is not None:
                        res.append(dict(k=k, b=b, ix=int(i)))
            tr.ev("signs", a=ints(y), res=res)
            M = np.c_[x, y, -y].astype(float)
            off = np.array([0., 1., -1.])
            for k in (1, 2):
                i = tr.call("sign_change", D.sign_change, M, k, off)
                if i is not None:
                    for j in range(3):
                        tr.ev("signs", a=ints(M[:, j].astype(int)), res=[dict(k=k, b=int(off[j]), ix=int(i[j]))])
    return go


def table_case(seqs, d):
    def go(tr):
        rng = tr.rng
        for k in range(0, len(seqs) - d, 3):
            rows = np.array([seqs[(k + j) % len(seqs)] for j in range(d)]).T * int(rng.integers(1, 3)) + 1
            if k % 2:
                rows = rows[rng.integers(0, 5, size=12)]
            col = int(rng.integers(0, d))
            v = tr.call("cross_tabulate", D.cross_tabulate, rows)
            f = tr.call("flat_cross_tabulate", D.flat_cross_tabulate, rows, col if k % 4 else col - d)
            if v is None or f is None:
                continue
            ex = tr.call("expand_crosstab", D.expand_crosstab, v[0])
            if ex is not None:
                tr.ev("table", rows=ints(rows), col=col + 1, levels=[ints(q) for q in v[1]], count=ints(v[0].ravel()), flat=ints(f[0]), rl=ints(np.asarray(f[1])) if d > 1 else [[]], cl=ints(f[2]), ex=ints(ex.astype(int)))
    return go


def stat_case(n, p, q):
    def go(tr):
        rng = tr.rng
        X = rng.normal(size=(n, p)) * rng.uniform(.5, 3, p) + rng.normal(size=p) * 3
        Y = rng.normal(size=(n, q)) + X[:, :1]
        with tr.frozen("column statistics", X, Y):
            def f():
                c2, m2, s2 = D._csd(X, return_stats=True)
                wm, wv = D.welford_variance(X)
                cm, c = D.welford_cov(X)
                xm, xy = D.welford_cov(X, Y)
                return dict(cov=D.cov(X), covxy=D.cov(X, Y), covnb=D.cov_nb(X), corr=D.corr(X), corrxy=D.corr(X, Y), corrnb=D.corr_nb(X), csd=D.csd(X), csd2=c2, csdm=m2, csds=s2, cent=D.center(X),
                            ssq0=D.ssq(X), ssq1=D.ssq(X, axis=1), wm=wm, wv=wv, wvu=D.welford_variance(X, unbiased=True)[1], wcm=cm, wc=c, wcu=D.welford_cov(X, unbiased=True)[1], wxy=xy, wxym=xm)
            v = tr.call("column statistics", f)
        if v:
            tr.ev("stats", X=num(X), Y=num(Y), **{k: num(w) for k, w in v.items()})
        A = rng.normal(size=(4, 3, 2)) + 2
        for arr in (A[:, 0, 0], A[:, :, 0], A):
            for ax in range(arr.ndim):
                for a in (ax, ax - arr.ndim):
                    v = tr.call("welford_variance", D.welford_variance, arr, axis=a)
                    if v is not None:
                        B = np.moveaxis(arr, ax, 0).reshape(arr.shape[ax], -1)
                        tr.ev("axis", cells=[num(B[:, j]) for j in range(B.shape[1])], m=num(np.ravel(v[0])), v=num(np.ravel(v[1])), ok=list(np.shape(v[0])) == list(np.delete(arr.shape, ax)))
        k, m, s = 0, 0.0, 0.0
        for x in X[:8, 0]:
            k, m, s = D._welford_update(x, k, m, s)
            tr.ev("push", x=num(x), n=int(k), m=num(m), s=num(s))
        S, d = spd(rng, p), rng.uniform(.5, 2, p)
        A0, A1, out = S.copy(), S.copy(), np.zeros((p, p))
        v = tr.call("scale", lambda: dict(sd=D.scale_diag(A0, d), sdc=D.scale_diag(A0, d.reshape(-1, 1)), sg=D.scale_dg(A0, d), sgo=D.scale_dg(A0, d, out=out), nd=D.norm_diag(A0)))
        g = tr.call("scale", D.scale_dg, A1, d, inplace=True)
        if v and g is not None:
            tr.ev("scale", A=num(S), d=num(d), sgi=num(g), inplace=bool(g is A1 and np.allclose(A1, g)), kept=bool(np.array_equal(A0, S)), out=bool(np.array_equal(out, v["sgo"])), **{k: num(w) for k, w in v.items()})
        V = rng.normal(size=(p, 3))
        tr.ev("flip", V=num(V), F=num(D.flip_signs(V)))
        tr.ev("xtrx", X=num(V), R=num(S), Y=num(D.normalize_xtrx(V, S)))
        for a in (rng.permutation(9) * 1.5, rng.permutation(12).reshape(3, 4) * 1.0):
            for ax in range(a.ndim):
                for lg in (True, False):
                    for k in (1, 2, a.shape[ax]):
                        ix = tr.call("extremal_indices", D.extremal_indices, a, k, axis=ax, largest=lg)
                        if ix is not None:
                            L, I = np.moveaxis(np.atleast_2d(a), ax if a.ndim == 2 else 1, -1), np.moveaxis(np.atleast_2d(ix), ax if a.ndim == 2 else 1, -1)
                            if L.shape[0] == I.shape[0]:
                                tr.ev("extremes", n=k, largest=lg, lines=[num(x) for x in L], ix=[ints(x) for x in I])
                            else:
                                tr.ev("equal", what="extremes-per-line", a=int(I.shape[0]), b=int(L.shape[0]))
        # containers
        df = pd.DataFrame(X, columns=[f"c{j}" for j in range(p)], index=np.arange(n) + 5)
        for nm, o, cols, ix, ispd in (("frame", df, list(df.columns), list(df.index), True), ("series", df["c0"], ["c0"], list(df.index), True), ("array", X, [f"X{j}" for j in range(1, p + 1)], list(range(n)), False), ("vector", X[:, 0], ["X1"], list(range(n)), False)):
            v = tr.call("_check_type", D._check_type, o)
            if v is not None:
                w = np.asarray(o)
                tr.ev("same", what="values-of-the-container:" + nm, a=num(v[0]), b=num(w.reshape(len(w), -1)), tol="0")
                tr.ev("equal", what="labels-of-the-container:" + nm, a=[str(c) for c in v[1]] + [int(i) for i in v[2]] + [bool(v[3])], b=cols + [int(i) for i in ix] + [ispd])
        v = tr.call("_handle_pandas", lambda: [D._handle_pandas(X), D._handle_pandas(df)])
        if v:
            tr.ev("equal", what="labels-of-the-container", a=[str(c) for c in v[0][1]] + [str(c) for c in v[1][1]] + [int(i) for i in v[0][2]] + [int(i) for i in v[1][2]], b=[f"x{j}" for j in range(1, p + 1)] + list(df.columns) + list(range(n)) + [int(i) for i in df.index])
            tr.ev("same", what="values-of-the-container", a=num(v[1][0]), b=num(X), tol="0")
        z = np.arange(4.)
        v = tr.call("_check_shape", lambda: [D._check_shape(z.reshape(-1, 1)), D._check_shape(z), D._check_shape(z, 2).ravel(), D._check_shape(np.repeat(z, 2).reshape(4, 2)[:, :1]), D._check_np(pd.Series(z))])
        if v:
            for w in v:
                tr.ev("same", what="reshaped-values", a=num(np.asarray(w)), b=num(z), tol="0")
    return go


def struct_case(n, k):
    def go(tr):
        rng = tr.rng
        r = lambda *s: rng.uniform(.05, .9, s)
        P = rng.normal(size=(n, 2))
        dv = pdist(P)
        dm = squareform(dv)
        rho, c = float(r()), float(rng.uniform(-1 / max(n - 1, 1), 1))
        sr = r(max(n - 1, 0)) * rng.choice([-1, 1], size=max(n - 1, 0))
        bands = [list(r(n - 1 - j) * .4) for j in range(min(n - 1, 1 + k % 3))]
        todo = [("exchangeable", lambda: C.get_exchangeable_corr(n, c), [c]), ("ar1", lambda: C.get_ar1_corr(n, rho), [rho])]
        if n > 1:
            todo += [("mdependent", lambda: C.get_mdependent_corr([np.array(b) for b in bands]), []), ("antedependence", lambda: C.get_antedependence1_corr(sr), list(sr)), ("toeplitz", lambda: C.get_toeplitz_corr(sr), list(sr))]
            for f, nm, q in ((C.get_spatialpower_corr, "spatialpower", rho), (C.get_spatialexp_corr, "spatialexp", rho + .3), (C.get_spatialgaussian_corr, "spatialgaussian", rho + .3)):
                todo += [(nm, lambda f=f, q=q: f(q, dv), [q]), (nm, lambda f=f, q=q: f(q, dm), [q])]
        for nm, f, p in todo:
            M = tr.call(nm, f)
            if M is not None:
                tr.ev("structure", kind=nm, n=n, R=num(M), p=[num(x) for x in p], bands=[[num(x) for x in b] for b in bands], dist=num(dm))
        tr.ev("rejects", what="exchangeable", err=tr.expect_error("exchangeable", C.get_exchangeable_corr, n + 1, 1.01))
        tr.ev("rejects", what="exchangeable", err=tr.expect_error("exchangeable", C.get_exchangeable_corr, n + 1, -1.0 / n - .01))
        A, psi, Phi = rng.normal(size=(n, 2)), r(n), corr_of(spd(rng, 2))
        for ps, ph in ((psi, None), (np.diag(psi), Phi)):
            S = tr.call("get_factor_cov", C.get_factor_cov, A, ps, ph)
            if S is not None:
                tr.ev("factor", A=num(A), psi=num(psi), Phi=num(np.eye(2) if ph is None else ph), S=num(S))
        if n > 1:
            u = rng.uniform(.2, 3, n)
            M = tr.call("get_eig_corr", C.get_eig_corr, u, rng=np.random.default_rng(k))
            if M is not None:
                tr.ev("eigcorr", u=num(u), R=num(M))
            for q in (1, n, n + 1, n - 1):
                if q < 1:
                    continue
                Sxx, Syy, m = corr_of(spd(rng, n)), corr_of(spd(rng, q)), min(n, q)
                rr = r(m)
                M = tr.call("get_canvar_corr", C.get_canvar_corr, Sxx, Syy, rr)
                if M is not None:
                    tr.ev("canonical", px=n, Sxx=num(Sxx), Syy=num(Syy), r=num(rr), S=num(M))
                Vx = np.linalg.inv(np.linalg.cholesky(Sxx)).T[:, :m] * rng.uniform(.5, 2, m)
                Vy = np.linalg.inv(np.linalg.cholesky(Syy)).T[:, :m] * rng.uniform(.5, 2, m)
                M = tr.call("get_canvar_corr", C.get_canvar_corr, Sxx, Syy, rr, Vx, Vy)
                if M is not None:
                    tr.ev("canonical", px=n, Sxx=num(Sxx), Syy=num(Syy), r=num(rr), S=num(M))
    return go


def psd_case(n, k):
    def go(tr):
        rng = tr.rng
        good = corr_of(spd(rng, n))
        B = good + np.triu(rng.uniform(-1, 1, (n, n)), 1) * .8
        bad = np.triu(B, 1) + np.triu(B, 1).T + np.eye(n)
        cand = [np.outer(s, s) for s in itertools.product([1., -1.], repeat=n) if s[0] > 0] + [np.eye(n), good]
        s = rng.uniform(.5, 2, n)
        for A, valid in ((good, True), (bad, False)):
            for kw in (dict(), dict(dykstra=False), dict(symmetrize=True), dict(return_info=True, n_iters=400)):
                v = tr.call("near_psd", C.near_psd, A.copy(), **kw)
                if v is not None:
                    X = v[0] if isinstance(v, tuple) else v
                    tr.ev("psd", A=num(A), X=num(X), diag="unit", valid=valid, nearest=bool(kw.get("dykstra", True)), cand=[num(c) for c in cand])
            G = A * np.outer(s, s)
            v = tr.call("near_psd", C.near_psd, G.copy(), unit_diag=False, keep_diag=True)
            if v is not None:
                tr.ev("psd", A=num(G), X=num(v), diag="keep", valid=valid, nearest=True, cand=[num(c * np.outer(s, s)) for c in cand])
            for t in (True, False):
                v = tr.call("project_psd", C.project_psd, A.copy(), use_transpose=t)
                if v is not None:
                    tr.ev("psd", A=num(A), X=num(v), diag="free", valid=False, nearest=False, cand=[], proj=True)
        # exact moments
        S, mu = spd(rng, n), rng.normal(size=n)
        Z = rng.standard_t(5, size=(n + 5, n)) * 2 + 1
        with tr.frozen("exact moments", Z, S, mu):
            v = tr.call("_exact_cov", lambda: [C._exact_cov(Z, cov=S), C._exact_cov(Z - Z.mean(0), mean=mu, cov=S), C._whiten(Z)])
        if v:
            tr.ev("exact", Z=num(v[0]), S=num(S), same=True)
            tr.ev("exact", Z=num(v[1]), S=num(S), m=num(mu), same=True)
            tr.ev("exact", Z=num(v[2]), S=num(np.eye(n)), same=True)
        for m in (None, mu):
            a = tr.call("exact_rmvnorm", lambda: [R.exact_rmvnorm(S, n + 6 + k, m, seed=k), R.exact_rmvnorm(S, n + 6 + k, m, seed=k)])
            if a:
                tr.ev("exact", Z=num(a[0]), S=num(S), m=num(np.zeros(n) if m is None else m), same=bool(np.array_equal(a[0], a[1])))
        # sampling covariances
        q = min(n, 3)
        S = spd(rng, q)
        kurt, kap = rng.uniform(.8, 2, q), float(rng.uniform(.7, 2))
        X = rng.normal(size=(20, q)) ** 3
        v = tr.call("acov", lambda: [C.cov_sample_cov(S=S, kurt=kurt), C.corr_acov_neudecker(S), C.corr_acov_browne(S, kap), C.cov_sample_cov(S=S), C.cov_sample_cov(S=S, excess_kurt=3 * kurt - 3), C.cov_sample_cov(X=X)])
        if v:
            SX = np.cov(X.T).reshape(q, q)
            Q = X - X.mean(0)
            kx = (Q ** 4).mean(0) / (Q ** 2).mean(0) ** 2 / 3
            for V, S1, ku in ((v[0], S, kurt), (v[3], S, np.ones(q)), (v[4], S, kurt), (v[5], SX, kx)):
                tr.ev("acov", S=num(S1), R=num(corr_of(S)), kurt=num(ku), kap=num(kap), V=num(V), neu=num(v[1]), bro=num(v[2]))
    return go


def law(tr, what, kind, x, p=(), **kw):
    tr.ev("law", what=what, kind=kind, x=num(np.asarray(x, float)), p=[num(a) for a in p], **kw)


def trunc_case(k):
    def go(tr):
        rng = tr.rng
        np.random.seed(k)
        R.vine_corr(2, seed=k)
        I = np.inf
        kinds = [(-2.5, -1.), (1., 2.5), (-.4, .3), (-2., 2.), (.8, I), (-I, -.8), (-1., I), (-I, 1.), (-I, I), (2.5, I), (-3., -2.5), (-I, -2.5)]
        for lb, ub in kinds[k % 4::4]:
            mu, sd = float(rng.normal() * 3), float(rng.uniform(.3, 3))
            h = float(rng.uniform(-.2, .2))
            lb, ub = lb + h, ub + h
            lb, ub = mu + sd * lb, mu + sd * ub
            x = tr.call("trnorm", R.trnorm, np.full(N, mu), np.full(N, sd), np.full(N, lb), np.full(N, ub))
            if x is not None:
                law(tr, "truncated-normal", "truncnorm", x, (mu, sd), lb=num(lb), ub=num(ub))
    return go


def mat_law(k):
    def go(tr):
        rng = tr.rng
        R.vine_corr(2, seed=k)
        np.random.seed(k)
        p = 2 + k % 2
        V, df = spd(rng, p), 12.0
        for nm, kind, f in (("wishart", "wishart", lambda: np.array([R.wishart(df, V) for _ in range(N)])), ("inverse-wishart", "invwishart", lambda: np.array([R.r_invwishart(df, V) for _ in range(N)])),
                            ("inverse-wishart", "invwishart", lambda: np.array([R.invwishart(df, np.linalg.inv(V)) for _ in range(N)]))):
            W = tr.call(nm, f)
            if W is not None:
                for i in range(p):
                    for j in range(i + 1):
                        law(tr, nm, kind, W[:, i, j], (df,), V=num(V), i=i + 1, j=j + 1)
                tr.ev("equal", what="symmetric-draws", a=bool(np.allclose(W, W.transpose(0, 2, 1))), b=True)
        x = tr.call("r_invgamma", lambda: np.array([R.r_invgamma(9., 2.5) for _ in range(N)]))
        if x is not None:
            law(tr, "inverse-gamma", "invgamma", x, (9., 2.5), lb="0")
        mu, S = rng.normal(size=p) * 4, spd(rng, p)
        x = tr.call("multivariate_t", R.multivariate_t, mu, S, nu=12, size=N, rng=rng)
        if x is not None:
            for j in range(p):
                law(tr, "multivariate-t", "t", x[:, j], (mu[j], np.sqrt(S[j, j]), 12.))
            a = np.array([1., -1.] + [0.] * (p - 2))
            law(tr, "multivariate-t", "t", x @ a, (mu @ a, np.sqrt(a @ S @ a), 12.))
        x = tr.call("students_t", R.students_t, 3., 2., nu=10, size=N, rng=rng)
        if x is not None:
            law(tr, "t", "t", x, (3., 2., 10.))
        x = tr.call("cauchy", R.cauchy, 3., 2., size=N, rng=rng)
        if x is not None:
            law(tr, "cauchy-median", "given", x < 3, (.5, .25))
            law(tr, "cauchy-quartiles", "given", np.abs(x - 3) < 2, (.5, .25))
        for n in (1, 2, 3, 4, 5):
            Q = tr.call("_special_ortho", R._special_ortho, n, seed=k)
            if Q is not None:
                tr.ev("ortho", Q=num(Q), n=n, p=n, special=True)
            for q in (None, max(1, n - 1)):
                Q = tr.call("_ortho_norm", R._ortho_norm, n, q, seed=k)
                if Q is not None:
                    tr.ev("ortho", Q=num(Q), n=n, p=n if q is None else q, special=False)
        a = tr.call("seed", lambda: [R._special_ortho(4, seed=k), R._special_ortho(4, seed=k), R.r_lkj(2., 1, 3, seed=k)[0, 0], R.r_lkj(2., 1, 3, seed=k)[0, 0], R.vine_corr(4, 1., seed=k), R.vine_corr(4, 1., seed=k)])
        if a:
            for i in (0, 2, 4):
                tr.ev("same", what="same-seed-same-draw", a=num(a[i]), b=num(a[i + 1]), tol="0")
    return go


def lkj_case(d, eta, k):
    def go(tr):
        L = tr.call("r_lkj_cholesky", R.r_lkj_cholesky, eta, N, d, seed=k)
        M = tr.call("r_lkj", R.r_lkj, eta, N, d, seed=k)
        if L is None or M is None:
            return
        M, L = M.reshape(N, d, d), L.reshape(N, d, d)
        for i in range(4):
            tr.ev("corrmat", what="lkj", R=num(M[i]), L=num(L[i]))
        for i in range(d):
            for j in range(i):
                law(tr, "lkj", "lkj", M[:, i, j], (eta,), d=d, lb="-1", ub="1")
        E = tr.call("r_lkj", R.r_lkj, np.array([eta, 3.]), 5, d, seed=k)
        if E is not None:
            for i in range(5):
                for q in range(2):
                    tr.ev("corrmat", what="lkj", R=num(E[i, q]))
        G = tr.call("get_lkj_corr", lambda: [C.get_lkj_corr(d, eta, dict(seed=k)), C.get_lkj_corr(d, eta, dict(n=4, seed=k))])
        if G:
            tr.ev("corrmat", what="lkj", R=num(G[0]))
            tr.ev("equal", what="number-of-matrices", a=[int(x) for x in np.shape(G[1])[-2:]] + [int(len(G[1]))], b=[d, d, 4])
        # onion and vine
        if d < 2:
            return
        R.vine_corr(2, seed=k)
        O = tr.call("onion_corr", lambda: np.array([R.onion_corr(d, eta) for _ in range(N)]))
        if O is not None:
            for i in range(4):
                tr.ev("corrmat", what="onion", R=num(O[i]))
            for i in range(d):
                for j in range(i):
                    law(tr, "onion", "lkj", O[:, i, j], (eta,), d=d, lb="-1", ub="1")
        V = tr.call("vine_corr", lambda: np.array([R.vine_corr(d, eta) for _ in range(N)]))
        if V is not None:
            for j in range(1, d):
                law(tr, "vine", "lkj", V[:, 0, j], (eta,), d=d, lb="-1", ub="1")
    return go


def vine_case(tr):
    for d in (2, 3, 4, 6):
        for s in range(6):
            M = tr.call("vine_corr", R.vine_corr, d, 1.0, seed=s, min_eig=True)
            if M is not None:
                tr.ev("corrmat", what="vine-repaired", R=num(M))
    for s in range(6):
        M = tr.call("vine_corr", R.vine_corr, 2, 1.0, seed=s)
        if M is not None:
            tr.ev("corrmat", what="vine", R=num(M))


def vine_known(tr):
    for s in range(3):
        M = tr.call("vine_corr", R.vine_corr, 6, 1.0, seed=s)
        if M is not None:
            tr.ev("corrmat", what=f"vine-6-{s}", R=num(M))


def cases(seed, tier):
    big = tier != "quick"
    seqs = []
    for ln in open(os.environ["GENFILE"]).read().split("\n"):
        h = ln.replace("<<", "").replace(">>", "").strip()
        if h:
            seqs.append([int(x) for x in h.split(",")])
    cs = [(f"seq-{j}", seq_case(seqs[j:j + 31])) for j in range(0, len(seqs), 31)]
    cs += [(f"table-{d}-{j}", table_case(seqs[j:j + 81], d)) for d in (2, 3) for j in range(0, len(seqs), 81)]
    for rep in range(4 if big else 1):
        t = f".{rep}" if rep else ""
        for j, (n, p, q) in enumerate([(9, 1, 2), (14, 3, 1), (25, 4, 3), (8, 2, 2)]):
            cs.append((f"stat-{j}{t}", stat_case(n, p, q)))
        for n in (1, 2, 3, 4, 5, 6):
            for k in range(2):
                cs.append((f"struct-{n}-{k}{t}", struct_case(n, k + seed)))
        for n in (2, 3, 4):
            for k in range(2):
                cs.append((f"psd-{n}-{k}{t}", psd_case(n, k + seed)))
        for k in range(4):
            cs.append((f"trunc-{k}{t}", trunc_case(k + 10 * seed + 100 * rep)))
        for k in range(2):
            cs.append((f"matlaw-{k}{t}", mat_law(k + 10 * seed + 100 * rep)))
        for d, eta in ((1, 1.), (2, 1.5), (3, 1.), (4, 2.), (5, 1.)):
            cs.append((f"lkj-{d}{t}", lkj_case(d, eta, 7 * seed + 100 * rep)))
    return cs + [("vine", vine_case), ("vine-known", vine_known)]


if __name__ == "__main__":
    run(cases)
