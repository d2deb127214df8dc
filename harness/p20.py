"""P20: penalised regression (pyglmnet): elastic nets, paths, cross-validation, LARS, lasso, the sparse simulator."""
import contextlib, io
import numpy as np, pandas as pd
from vlib import run, num, ints
from pystatsm.pyglmnet import gaussian_eln as GE, binomial_eln as BE, binom_eln2 as B2, eln_utils as EU, lars as LA, lasso as LS, sparse_model_sim as SM
from pystatsm.pyglmnet.glmen import GLMEN
from pystatsm.pyglmnet.glmen2 import ElasticNetGLM
from pystatsm.pyglmnet import glmen2 as G2
from pystatsm.pyglm.families import Binomial, Gaussian, Poisson, Gamma
from pystatsm.pyglm.links import LogLink
from pystatsm.utilities import func_utils as FU

sg = lambda e: 1 / (1 + np.exp(-e))


def quiet(fn, *a, **k):
    with contextlib.redirect_stderr(io.StringIO()):
        return fn(*a, **k)


def data(tr, fam, n, p, rho=.8, std=True, weights=False):
    rng = tr.rng
    S = rho ** np.abs(np.subtract.outer(np.arange(p), np.arange(p)))
    X = rng.normal(size=(n, p)) @ np.linalg.cholesky(S).T
    if std:
        X = (X - X.mean(0)) / X.std(0)
    else:
        X = X * rng.uniform(.5, 3, size=p) + rng.normal(size=p)
    Z = (X - X.mean(0)) / X.std(0)
    beta = rng.normal(size=p) * (rng.uniform(size=p) < .6)
    eta = Z @ beta
    while True:
        if fam == "Gaussian":
            y = eta + rng.normal(size=n) * 1.5 + 3.
        elif fam == "Binomial":
            y = (rng.uniform(size=n) < sg(eta * .6 + .3)).astype(float)
        elif fam == "Poisson":
            y = rng.poisson(np.exp(eta * .3 + .5)).astype(float)
        else:
            y = np.exp(eta * .3 + .5) * rng.gamma(4, .25, size=n)
        if fam != "Binomial" or .3 < y.mean() < .7:
            break
    w = rng.uniform(.3, 2, size=n) if weights else np.ones(n)
    w /= w.sum()
    tr.meta.update(X=num(X), y=num(y), w=num(w), n=n, fam=fam)
    return X, y, w


def all1(n):
    return list(range(1, n + 1))


def base(n, std=False, pre=False, wnorm=True, **k):
    return dict(rows=all1(n), std=std, pre=pre, wnorm=wnorm, **k)


def one(v):
    return [int(i) + 1 for i in v]


def folds(tr, X, y, cv, strat, randomize=False):
    n = len(y)
    ix = tr.call("kfold_indices", EU.kfold_indices, n, cv, y, strat, randomize, np.random.default_rng(5))
    if ix is None:
        return None
    out = dict(n=n, y=ints(np.unique(y, return_inverse=True)[1]), strat=strat, fit=[one(f) for f, _ in ix], test=[one(t) for _, t in ix])
    if not randomize:
        m = tr.call("crossval_mats", EU.crossval_mats, X, y, n, cv, strat)
        if m is not None:
            out.update(Xf=[num(v) for v in m[0]], yf=[num(v) for v in m[1]], Xt=[num(v) for v in m[2]], yt=[num(v) for v in m[3]])
    tr.ev("folds", **out)
    return ix


def select(tr, F, lams, **k):
    r = tr.call("process_cv", EU.process_cv, F, lams)
    if r is not None:
        tab, lam = r
        at = int(tab["mean"].idxmin()) + 1
        tr.ev("select", F=F, lams=lams, at=at, lam=lam, mean=tab["mean"].values, se=tab["std"].values, **k)


def lmax(X, y, al):
    return np.abs(X.T @ (y - y.mean()) / len(y)).max() / al


def gauss(rho, al, warm, seq, icpt):
    def go(tr):
        rng = tr.rng
        n, p = int(rng.integers(31, 45)), int(rng.integers(4, 8))
        X, y, w = data(tr, "Gaussian", n, p, rho)
        top = lmax(X, y, al)
        for i, frac in enumerate((.6, .2, .04)):
            lam = float(top * frac)
            kw = {}
            if i == 1:
                kw["b"] = rng.normal(size=p)
            if i == 2:
                kw["active"] = np.ones(p, dtype=bool)
            with tr.frozen("elnet", X, y, *kw.values()):
                r = tr.call("elnet", GE.elnet, X, y, lam, al, n_iters=50000, dtol=1e-18, intercept=icpt, **kw)
            if r is None:
                continue
            b, f, act, it = r
            tr.ev("path", **base(n), B=b[None], lams=np.array([lam]), alpha=al, icpt="mean" if icpt else "zero", tol="1e-6", grid=False)
            tr.ev("fvals", **base(n), hist=f[:, [0, 1, 2]], b=b, alpha=al, lam=lam, icpt="mean" if icpt else "zero", rows3=True)
            bb = rng.normal(size=p) * rng.choice([1, .1, 2], size=p)
            yc = y - y.mean() if icpt else y
            ll = tr.call("elnet_loglike", GE.elnet_loglike, X, yc, bb, al, lam)
            g = tr.call("elnet_grad", GE.elnet_grad, bb, X, yc, lam, al)
            pe = tr.call("elnet_penalty", GE.elnet_penalty, bb, al, lam)
            if ll is not None and g is not None:
                tr.ev("obj", **base(n), b=bb, b0=y.mean() if icpt else 0., lam=lam, alpha=al, pen=[num(pe), num(ll[1])], dev=[], hdev=[num(ll[0])], obj=[num(ll[2])], dobjb=g)
        cv, L = int(rng.integers(2, 5)), 5
        ix = folds(tr, X, y, cv, False)
        folds(tr, X, y, cv, False, True)
        with tr.frozen("cv_glmnet", X, y):
            r = tr.call("cv_glmnet", quiet, GE.cv_glmnet, cv, X, y, alpha=al, lambdas=L, dtol=1e-17, n_iters=50000, path_len=.02, warm_start=warm, seq_rule=seq, intercept=icpt)
        if r is None:
            return
        Bcv, _, F, lams, B, _, its = r
        tr.ev("grid", **base(n), lams=lams, alpha=al, icpt="mean", top=True, ratio=".02")
        ic = "mean" if icpt else "zero"
        tr.ev("path", **base(n), B=B, lams=lams, alpha=al, icpt=ic, tol="1e-6", grid=False)
        for k, (f_, t_) in enumerate(ix):
            tr.ev("path", **{**base(n), "rows": one(f_)}, B=Bcv[:, k], lams=lams, alpha=al, icpt=ic, tol="1e-6", grid=False)
            tr.ev("held", rows=one(f_), test=one(t_), pre=False, std=False, centre=icpt, icpt="zero", B=Bcv[:, k], lams=lams, alpha=al, scale=1, dev=F[:, k, 0], pen=F[:, k, 1], obj=F[:, k, 2])
        select(tr, F[:, :, 0], lams)
    return go


def binom(rho, al, nr, icpt, warm):
    def go(tr):
        rng = tr.rng
        n, p = int(rng.integers(45, 61)), int(rng.integers(4, 7))
        X, y, w = data(tr, "Binomial", n, p, rho)
        top = lmax(X, y, al)
        ic = "free" if icpt else "zero"
        kws = dict(btol=1e-24, dtol=0., n_iters=20000, nr_ent=nr, intercept=icpt)
        for frac in (.5, .15, .05):
            lam = float(top * frac)
            kw = {} if frac == .5 else {"b": rng.normal(size=p) * .1}
            if frac == .15:
                kw["active"] = np.ones(p, dtype=bool)
            with tr.frozen("binom_glmnet", X, y, *kw.values()):
                r = tr.call("binom_glmnet", BE.binom_glmnet, X, y, lam, al, **kw, **kws)
            if r is None:
                continue
            b, b0, act, f, it = r
            tr.ev("path", **base(n), B=b[None], b0=np.array([b0]), lams=np.array([lam]), alpha=al, icpt=ic, tol="1e-8", grid=False)
            bb, c = rng.normal(size=p), float(rng.normal())
            v = tr.call("binom_eval", BE.binom_eval, y, X @ bb + c, bb, al, lam)
            pe = tr.call("penalty", BE.elnet_penalty, bb, al, lam)
            if v is not None:
                tr.ev("obj", **base(n), b=bb, b0=c, lam=lam, alpha=al, pen=[num(v[1]), num(pe)], dev=[num(v[0])], hdev=[], obj=[num(v[2])])
        cv, L = int(rng.integers(2, 4)), 5
        ix = folds(tr, X, y, cv, True)
        folds(tr, X, y, cv, True, True)
        with tr.frozen("cv_binom_glmnet", X, y):
            r = tr.call("cv_binom_glmnet", quiet, BE.cv_binom_glmnet, cv, X, y, al, lambdas=L, lmin=float(top * .05), warm_start=warm, **kws)
        if r is None:
            return
        Bcv, b0cv, F, lams, B, b0, its = r
        tr.ev("grid", **base(n), lams=lams, alpha=al, icpt=ic, top=True, ratio=repr(float(top * .05 / lams[0])))
        tr.ev("path", **base(n), B=B, b0=b0, lams=lams, alpha=al, icpt=ic, tol="1e-8", grid=False)
        for k, (f_, t_) in enumerate(ix):
            tr.ev("path", **{**base(n), "rows": one(f_)}, B=Bcv[:, k], b0=b0cv[:, k], lams=lams, alpha=al, icpt=ic, tol="1e-8", grid=False)
            tr.ev("held", rows=one(f_), test=one(t_), pre=False, std=False, centre=False, icpt="free", B=Bcv[:, k], b0=b0cv[:, k], lams=lams, alpha=al, scale=1, dev=F[:, k, 0], pen=F[:, k, 1], obj=F[:, k, 2])
        select(tr, F[:, :, 0], lams)
    return go


TIGHT2 = dict(dtol=1e-24, ftol=1e-16, n_iters=3000, max_iters=5000)


def binom2(rho, al, weights):
    def go(tr):
        rng = tr.rng
        n, p = int(rng.integers(45, 61)), int(rng.integers(4, 7))
        X, y, w = data(tr, "Binomial", n, p, rho, std=False, weights=weights)
        Z = (X - X.mean(0)) / X.std(0)
        wt = w if weights else np.ones(n)
        top = lmax(Z, y, al)
        for frac in (.4, .05):
            lam = float(top * frac)
            with tr.frozen("binom_elnet", Z, y, wt):
                r = tr.call("binom_elnet", B2.binom_elnet, Z, y, lam, al, weights=wt if weights else None, cd_kws=TIGHT2)
            if r is None:
                continue
            b, f, _, _ = r
            tr.ev("path", **base(n, pre=True), B=b[None, 1:], b0=b[:1], lams=np.array([lam]), alpha=al, icpt="free", tol="1e-8", grid=False)
            tr.ev("fvals", **base(n, pre=True), hist=f, b=b[1:], b0=b[:1], alpha=al, lam=lam, icpt="free", rows3=False)
            bb, c = rng.normal(size=p), float(rng.normal())
            mu = sg(Z @ bb + c)
            W = wt / wt.sum()
            pe = tr.call("penalty_func", B2.penalty_func, bb, al, (1 - al) / 2, lam)
            d = tr.call("binomial_deviance", B2.binomial_deviance, y, mu, W)
            o = tr.call("objective_function", B2.objective_function, y, mu, W, bb, al, (1 - al) / 2, lam)
            if d is not None and o is not None:
                tr.ev("obj", **base(n, pre=True), b=bb, b0=c, lam=lam, alpha=al, pen=[num(pe)], dev=[num(np.sum(d))], hdev=[], obj=[num(o)])
        L = 5
        with tr.frozen("binom_elnet_path", X, y, wt):
            r = tr.call("binom_elnet_path", quiet, B2.binom_elnet_path, X, y, wt, al, lambdas=L, cd_kws=TIGHT2)
        if r is not None:
            B, f, fh, lams = r
            tr.ev("grid", **base(n, std=True), lams=lams, alpha=al, icpt="free", top=True, ratio="1e-4")
        lams = np.exp(np.linspace(np.log(top), np.log(top * .03), L))
        r = tr.call("binom_elnet_path", quiet, B2.binom_elnet_path, X, y, wt, al, lambdas=lams, cd_kws=TIGHT2)
        if r is not None:
            tr.ev("path", **base(n, std=True), B=r[0][:, 1:], b0=r[0][:, 0], lams=lams, alpha=al, icpt="free", tol="1e-8", grid=False)
            for k in (1, L - 1):
                tr.ev("fvals", **base(n, std=True), hist=r[1][k:k + 1], b=r[0][k, 1:], b0=r[0][k, :1], alpha=al, lam=float(lams[k]), icpt="free", rows3=False)
        if weights:
            return
        cv = 3
        ix = folds(tr, X, y, cv, True)
        r = tr.call("binom_glmnet_cv", quiet, B2.binom_glmnet_cv, X, y, al, lambdas=lams, cv=cv, cd_kws=TIGHT2)
        if r is not None:
            B, F, _ = r
            for k, (f_, t_) in enumerate(ix):
                tr.ev("path", **{**base(n, std=True), "rows": one(f_)}, B=B[0, k][:, 1:], b0=B[0, k][:, 0], lams=lams, alpha=al, icpt="free", tol="1e-8", grid=False)
                tr.ev("held", rows=one(f_), test=one(t_), pre=False, std=True, centre=False, icpt="free", B=B[0, k][:, 1:], b0=B[0, k][:, 0], lams=lams, alpha=al, scale=".5", dev=F[0, :, k, 0], pen=F[0, :, k, 1])
        r = tr.call("binom_glmnet_cv", quiet, B2.binom_glmnet_cv, X, y, al, lambdas=4, cv=2, cd_kws=TIGHT2)
        if r is not None:
            tr.ev("grid", **base(n, std=True), lams=r[2], alpha=al, icpt="free", top=True, ratio="1e-4")
    return go


FAMS = {"Gaussian": Gaussian, "Binomial": Binomial, "Poisson": Poisson, "Gamma": lambda: Gamma(link=LogLink)}


def engl(fam, rho, al, weights, fit=False):
    def go(tr):
        rng = tr.rng
        n, p = int(rng.integers(40, 56)), int(rng.integers(4, 7))
        X, y, w = data(tr, fam, n, p, rho, std=False, weights=weights)
        with tr.frozen("ElasticNetGLM", X, y, w):
            m = tr.call("ElasticNetGLM", ElasticNetGLM, X, y, FAMS[fam](), wobs=w if weights else None, alpha=al)
            if m is None:
                return
            r = tr.call("get_start_param", m.get_start_param, 6, lambda_min_ratio=.02)
            if r is None:
                return
            lams = r[0]
            tr.ev("grid", **base(n, pre=True), lams=lams, alpha=al, icpt="free", top=True, ratio=".02", null=[num(v) for v in r[1:]])
            kws = dict(n_iters=20000, ftol=1e-15, inner_kws=dict(max_iters=20000, dtol=1e-26))
            r = tr.call("path", quiet, m._glm_elnet_path, m.X, m.Xsq, y, m.wobs, lams, kws=kws)
            done = lambda h: len(h) < 20000
            if r is not None:
                B = r[0]
                tr.ev("path", **base(n, pre=True), conv=[done(h) for h in r[2]], B=B[:, 1:], b0=B[:, 0], lams=lams, alpha=al, icpt="free", tol="1e-5", grid=False)
            # one fit from a start of its own
            lam = float(lams[3])
            r = tr.call("one", m._glm_elnet, np.r_[float(m.get_intercept()[0]), rng.normal(size=p) * .1], m.X, m.Xsq, y, m.wobs, lam, **kws)
            if r is not None:
                b = r[0]
                tr.ev("path", **base(n, pre=True), conv=[done(r[1])], B=b[None, 1:], b0=b[:1], lams=np.array([lam]), alpha=al, icpt="free", tol="1e-5", grid=False)
            z = rng.normal(size=p + 1) * .4
            canon = fam != "Gamma"
            o = tr.call("objective", lambda: dict(pen=[num(m.pen_func(z, lam))], dev=[num(m._dev_beta(z)), num(m._dev_mu(m._get_mu(z)))], hdev=[], obj=[num(m.obj_func(z, lam)), num(m._obj_func_mu(m._get_mu(z), z, lam, m.X, y, m.wobs))],
                                                  dpen=m.pen_grad(z, lam), hpen=m.penalty_hess(z, lam),
                                                  **(dict(ddev=m.dev_grad(z, lam), dobj=m.obj_grad(z, lam), hdevm=m.dev_hess(z, lam), hobj=m.obj_hess(z, lam)) if canon else {})))
            if o is not None:
                tr.ev("obj", **base(n, pre=True), b=z[1:], b0=z[0], lam=lam, alpha=al, **o)
            if fit:
                cv, L = 3, 6
                r = tr.call("fit", quiet, m.fit, n_lambdas=L, cv=cv, lambda_min_ratio=.02, kws=kws)
                if not hasattr(m, "beta"):
                    return
                strat = fam == "Binomial"
                ix = folds(tr, X, y, cv, strat)
                P = m.beta_path
                Z = m.X
                # scoring without step control may cycle; such points are not judged
                conv = [[fam != "Gamma"] * L for _ in ix]
                if fam == "Gamma":
                    conv = [[done(h) for h in quiet(m._glm_elnet_path, Z[f_], Z[f_] ** 2, y[f_], m.wobs[f_], m.lambdas, kws=kws)[2]] for f_, _ in ix]
                for k, (f_, t_) in enumerate(ix):
                    Bk = P[:, :, 0, k]
                    tr.ev("path", **{**base(n, pre=True, std=True, wnorm=False), "rows": one(f_)}, conv=conv[k], B=Bk[:, 1:], b0=Bk[:, 0], lams=m.lambdas, alpha=al, icpt="free", tol="1e-5", grid=False)
                    tr.ev("held", rows=one(f_), test=one(t_), pre=True, std=False, centre=False, icpt="free", B=Bk[:, 1:], b0=Bk[:, 0], lams=m.lambdas, alpha=al, scale=1, dev=m.f_paths[:, 0, k])
                tr.ev("select", F=m.f_paths[:, 0, :], lams=m.lambdas, at=int(m.lmin_idx) + 1, lam=m.lmin, B=m.betas, beta=m.beta)
                tr.ev("fitted", **base(n, pre=True), B=m.betas, devs=m.dev_vals, ratios=m.dev_ratios, beta=m.beta, eta=m.eta, mu=m.mu)
                tr.ev("path", **base(n, pre=True), conv=[len(h) < 10000 for h in m.fvals_hist], B=m.betas[:, 1:], b0=m.betas[:, 0], lams=m.lambdas, alpha=al, icpt="free", tol="1e-2", grid=False)
    return go


def glmen(fam, form, al):
    def go(tr):
        rng = tr.rng
        n, p = 50, 4
        X, y, w = data(tr, fam, n, p, .7)
        if form:
            df = pd.DataFrame(X, columns=[f"x{i}" for i in range(p)])
            df["y"] = y
            with tr.frozen("GLMEN", df):
                m = tr.call("GLMEN", GLMEN, "y~" + "+".join(df.columns[:p]), df, family=fam.lower())
        else:
            with tr.frozen("GLMEN", X, y):
                m = tr.call("GLMEN", GLMEN, X=X, y=y, family=fam.lower())
        if m is None:
            return
        tight = dict(dtol=0., btol=1e-24) if fam == "Binomial" else dict(dtol=1e-18)
        lam = float(lmax(X, y, al) * .15)
        b0 = lambda: np.array([m.intercept])
        r = tr.call("fit", m.fit, lam, al, n_iters=20000, **tight)
        if hasattr(m, "beta"):
            tr.ev("path", **base(n), B=m.beta[None], b0=b0(), lams=np.array([lam]), alpha=al, icpt="free", tol="1e-6", grid=False)
            tr.ev("predict", **base(n), b=m.beta, b0=b0(), yhat=m.predict())
            V = rng.normal(size=(5, p))
            if fam == "Gaussian":
                tr.ev("fvals", **base(n), hist=m.fvals[:, :3], b=m.beta, alpha=al, lam=lam, icpt="mean", rows3=True)
        if fam == "Binomial":
            tight["lmin"] = float(lam / 3)
        r = tr.call("fit_cv", quiet, m.fit_cv, cv=3, alpha=al, n_iters=20000, lambdas=5, **tight)
        if hasattr(m, "lambda_min"):
            F = m.f_path[:, :, 0]
            B0 = m.b0 if m.b0 is not None else np.full(len(m.lambdas), y.mean())
            tr.ev("path", **base(n), B=m.bfits, b0=B0, lams=m.lambdas, alpha=al, icpt="free", tol="1e-6", grid=False)
            tr.ev("select", F=F, lams=m.lambdas, at=int(m.lmin_idx) + 1, lam=m.lambda_min, B=m.bfits, beta=m.beta, mean=m.cvres["mean"].values, se=m.cvres["std"].values, nnz=ints(m.n_nonzero), b0=m.intercept, b0s=B0[m.lmin_idx])
            tr.ev("predict", **base(n), b=m.beta, b0=b0(), yhat=m.predict())
    return go


def lars(p, rho, method, std, norm, icpt):
    def go(tr):
        rng = tr.rng
        n = int(rng.integers(p + 15, p + 30))
        for _ in range(200):
            X, y, w = data(tr, "Gaussian", n, p, rho, std=norm)
            # look for a path on which a predictor is dropped half of the time
            Z = (X - X.mean(0))
            if method == "lars" or np.min(np.sign(np.linalg.lstsq(Z, y - y.mean(), rcond=None)[0]) * (Z.T @ y)) < 0:
                break
        with tr.frozen("lars", X, y):
            r = tr.call("lars", LA.lars, X, y, method=method, intercept=icpt, standardize=std)
        if r is None:
            return
        lams, act, B = r
        for k in range(len(lams)):
            tr.ev("knot", **base(n, std=std), icpt=icpt, lam=num(lams[k]), b=num(B[k]), lasso=method == "lasso", last=k == len(lams) - 1)
        Z = X - X.mean(0)
        if std:
            Z = Z / X.std(0)
        if std:
            for how, kw in (("yvar", {}), ("ols", {}), ("given", {"s2": 2.5})):
                yc = y - y.mean()
                t = tr.call("sumstats", LA._lars_sumstats, Z, yc, lams, act, B, s2_method=how if how != "given" else "yvar", **kw)
                if t is not None:
                    tr.meta["y"] = num(yc)
                    tr.ev("sumstats", **base(n, std=True), B=B, how=how, s2=2.5, ssr=t["SSR"].values, df=t["df"].values, aic=t["AIC"].values, bic=t["BIC"].values, rsq=t["Rsq"].values)
    return go


def lasso(rho, p):
    def go(tr):
        rng = tr.rng
        n = 40
        X, y, w = data(tr, "Gaussian", n, p, rho)
        y = y - y.mean()
        tr.meta["y"] = num(y)
        XtX, Xty = X.T @ X, X.T @ y
        L = float(np.linalg.eigvalsh(XtX / n)[-1])
        for frac in (1.05, .4, .1, .02):
            lam = float(lmax(X, y, 1) * frac)
            for start in (np.zeros(p), rng.normal(size=p)):
                for nm, fn in (("prox", LS.lasso_prox_grad), ("accelerated", LS.lasso_accelerated_grad)):
                    with tr.frozen(nm, start, X, y):
                        r = tr.call(nm, fn, start, X, y, Xty, XtX, lam, L, n_iters=30000, rtol=1e-12, atol=1e-14)
                    if r is None:
                        continue
                    b, h = r
                    h = h if len(h) < 40 else np.r_[h[:20], h[-20:]]
                    tr.ev("prox", **base(n), b=b, lam=lam, hist=h, start=start, tol="1e-5")
        x = np.r_[rng.normal(size=9) * 2, 0.]
        for t in (0., .5, 1.7):
            v = [tr.call("soft", f, x, t) for f in (LS.soft_threshold, GE.sft, BE.sft)]
            w_ = [FU.soft_threshold(float(z), t) for z in x]
            tr.ev("soft", x=x, t=t, v=[num(z) for z in v] + [num(np.array(w_))])
    return go


def sparse(n, p, q, rho, rsq, dist, bn, ns, vals=False):
    def go(tr):
        rng = tr.rng
        kw = {}
        if vals:
            kw["beta_vals"] = rng.normal(size=q) + 2
        m = tr.call("SparseRegressionModel", SM.SparseRegressionModel, n_obs=n, n_var=p, n_nnz=q, rho=rho, rsq=rsq, seed=int(rng.integers(1 << 30)), **kw)
        if m is None:
            return
        y = tr.call("simulate", m.simulate_dependent, dist, ns, bn)
        if y is not None:
            tr.ev("sparse", X=m.X, beta=m.beta, eta=m.lpred, nnz=q, rho=.9 if rho is None else rho, rsq=.5 if rsq is None else rsq, scale=m.resid_scale, exact=n > p, default=not vals, dist=dist, bn=bn, y=y if y.ndim == 2 else y[:, None], shape=list(y.shape))
    return go


def cases(seed, tier):
    out = []
    for r in range(1 if tier == "quick" else 8):
        sfx = "" if r == 0 else f".{r}"
        A = lambda k, f: out.append((k + sfx, f))
        for i, (rho, al, warm, seq, ic) in enumerate([(.9, .99, True, True, True), (.95, .5, False, False, True), (.3, .9, True, False, False)]):
            A(f"gauss{i}", gauss(rho, al, warm, seq, ic))
        for i, (rho, al, nr, ic, warm) in enumerate([(.9, .99, True, True, True), (.9, .4, False, True, False), (.7, .9, False, False, True)]):
            A(f"binom{i}", binom(rho, al, nr, ic, warm))
        for i, (rho, al, w) in enumerate([(.9, .99, False), (.9, .4, False), (.8, .8, True)]):
            A(f"binom2_{i}", binom2(rho, al, w))
        for i, (fam, rho, al, w, fit) in enumerate([("Gaussian", .9, .99, False, True), ("Gaussian", .9, .2, True, False), ("Binomial", .9, .99, False, True), ("Binomial", .9, .3, True, False),
                                                    ("Poisson", .9, .9, False, True), ("Poisson", .8, .2, True, False), ("Gamma", .8, .8, False, True), ("Gamma", .8, .3, True, False)]):
            A(f"engl-{fam}{i}", engl(fam, rho, al, w, fit))
        for fam in ("Gaussian", "Binomial"):
            for form in (False, True):
                A(f"glmen-{fam}-{form}", glmen(fam, form, .9 if form else .5))
        for i, (p, rho, me, std, norm, ic) in enumerate([(5, .9, "lasso", False, True, True), (9, .9, "lasso", True, False, True), (12, .8, "lasso", True, False, True), (7, .95, "lasso", False, False, True), (6, .7, "lars", True, False, True), (6, .8, "lasso", False, True, False), (16, .9, "lasso", False, True, True)]):
            A(f"lars{i}", lars(p, rho, me, std, norm, ic))
        A("lasso0", lasso(.9, 5))
        A("lasso1", lasso(.3, 8))
        for i, a in enumerate([(60, 12, 4, None, None, "gaussian", 1, 1), (80, 10, 3, .5, .8, "gaussian", 1, 3), (50, 9, 5, .3, .2, "binomial", 4, 1), (20, 30, 6, .7, .5, "binomial", 1, 2), (60, 11, 1, .2, .6, "gaussian", 1, 1, True)]):
            A(f"sparse{i}", sparse(*a))
    return out


if __name__ == "__main__":
    run(cases)
