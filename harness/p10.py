"""P10: bootstrap and permutation inference."""
import contextlib, os
import numpy as np
import pandas as pd
from vlib import run, num
from pystatsm.pyglm.ols import OLS as OLS1
from pystatsm.pyglm.linear_model import LinearModel, GLM as GLML
from pystatsm.pyglm.glm import GLM as GLM1
from pystatsm.pyglm import links as l1, families as f1, nb2, clm as clm1
from pystatsm.pyglm2.ols import OLS as OLS2
from pystatsm.pyglm2.glm import GLM as GLM2
from pystatsm.pyglm2 import families as f2, clm as clm2, links as l2
from pystatsm.utilities.output import compute_bias_corrected_bootstrap_intervals as bca

LNK = dict(Gaussian="IdentityLink", Poisson="LogLink", Gamma="LogLink", Binomial="LogitLink")


@contextlib.contextmanager
def quiet():
    with open(os.devnull, "w") as f, contextlib.redirect_stderr(f):
        yield


def frame(X, y, icpt):
    cols = [f"v{j}" for j in range(X.shape[1] - icpt)]
    df = pd.DataFrame(X[:, icpt:], columns=cols)
    df["resp"] = y
    return df, "resp ~ " + ("" if icpt else "-1 + ") + " + ".join(cols or ["1"])


def small(rng, n, p, icpt):
    # small integers: the Gram matrix of any draw is exact, so a singular draw is exactly singular
    X = np.stack([rng.permutation(np.arange(1, n + 3))[:n] for _ in range(p)], 1).astype(float)
    if icpt:
        X[:, 0] = 1.0
    y = np.round(rng.normal(size=n) * 3 + X[:, -1] * rng.choice([-.6, 0, .6]), 3)
    return X, y


def ols_boot(n, p, icpt, B):
    def fn(tr):
        rng = tr.rng
        X, y = small(rng, n, p, icpt)
        tr.meta.update(X=num(X), y=num(y), w=num(np.ones(n)), f="none")
        df, fml = frame(X, y, icpt)
        with tr.frozen("bootstrap", X, y, df), quiet():
            m = OLS1(fml, df)
            m.fit()
            b0 = m.beta.copy()
            if tr.call("bootstrap:pyglm", lambda: (m.bootstrap(n_boot=B, ssq=icpt and p > 1), 1)[1]):
                k = dict(ssq=m.ssq_samples.values) if icpt and p > 1 else {}
                tr.ev("boot", nm="pyglm", S=m.beta_samples, se=m.beta_se_samples, **k)
                r = m.res
                tr.ev("table", nm="pyglm", S=m.beta_samples, b=b0, se=r["SE_boot"].values, t=r["t_boot"].values, p=r["p_boot"].values, df=n - p)
                tr.ev("state", nm="pyglm", a=np.r_[m.X.ravel(), m.y, m.beta], b=np.r_[X.ravel(), y, b0])
            for nm, C in (("linear", LinearModel), ("pyglm2", OLS2)):
                m = C(fml, df)
                m._fit()
                S = tr.call("bootstrap:" + nm, m._bootstrap, B, verbose=False)
                if S is not None:
                    tr.ev("boot", nm=nm, S=S[:, :-1], sse=S[:, -1])
                if p == 1:
                    S = tr.call("bootstrap-compiled:" + nm, m._bootstrap_jitted, B)
                    if S is not None:
                        tr.ev("boot", nm=nm + "-compiled", S=S[:, :-1], sse=S[:, -1])
                tr.ev("state", nm=nm, a=np.r_[m.X.ravel(), m.y, m.beta], b=np.r_[X.ravel(), y, b0])
    return fn


def ols_perm(n, p, icpt, M):
    def fn(tr):
        rng = tr.rng
        X = rng.normal(size=(n, p))
        if icpt:
            X[:, 0] = 1.0
        y = X.dot(rng.normal(size=p) * .7) + rng.normal(size=n)
        tr.meta.update(X=num(X), y=num(y), w=num(np.ones(n)), f="none")
        df, fml = frame(X, y, icpt)
        every = list(range(p))
        sets = ([every[1:]] if p > 1 else []) + ([every[2:]] if p > 2 else []) + ([] if icpt else [[0]])
        with tr.frozen("permutation", X, y, df), quiet():
            m = OLS1(fml, df)
            if tr.call("permutation:pyglm", lambda: (m.permutation_test(n_perms=M, verbose=False), 1)[1]):
                tr.ev("perm", nm="pyglm", m=M, vars=[j + 1 for j in every], rest=[], pv=m.res["permutation_p"].values.astype(float), pf=m.res["permutation_p_fwer"].values.astype(float))
            m = OLS1(fml, df)
            K = 400
            if tr.call("permutation-stored:pyglm", lambda: (m.permutation_test(n_perms=K, store_samples=True, verbose=False), 1)[1]):
                tr.ev("perm", nm="pyglm-stored", m=K, vars=[j + 1 for j in every], rest=[], T=m.permutation_t_samples, pv=m.res["permutation_p"].values.astype(float), pf=m.res["permutation_p_fwer"].values.astype(float))
            for vi in sets:
                k = dict(vars=[j + 1 for j in vi], rest=[j + 1 for j in every if j not in vi])
                m = OLS1(fml, df)
                if tr.call("freedman-lane:pyglm", lambda: (m.freedman_lane(vars_of_interest=np.array(vi), n_perms=M, verbose=False), 1)[1]):
                    r = m.res.iloc[vi]
                    tr.ev("perm", nm="freedman-lane", m=M, pv=r["freedman_lane_p"].values.astype(float), pf=r["freedman_lane_p_fwer"].values.astype(float), **k)
                for nm, C in (("linear", LinearModel), ("pyglm2", OLS2)):
                    m = C(fml, df)
                    m._fit()
                    r = tr.call("permutation:" + nm, m._permutation_test, vi, n_perms=M, verbose=False, rng=np.random.default_rng(int(rng.integers(1 << 30))))
                    if r is not None:
                        tr.ev("perm", nm=nm, m=M, pv=r[1], pf=r[0], **k)
            if icpt and p > 1:
                m = OLS1(fml, df)
                if tr.call("freedman-lane-default:pyglm", lambda: (m.freedman_lane(n_perms=M, verbose=False), 1)[1]):
                    r = m.res.iloc[1:]
                    tr.ev("perm", nm="freedman-lane-default", m=M, vars=[j + 1 for j in every[1:]], rest=[1], pv=r["freedman_lane_p"].values.astype(float), pf=r["freedman_lane_p_fwer"].values.astype(float))
    return fn


def glm_boot(f, n, p, weighted, B):
    def fn(tr):
        rng = tr.rng
        X = rng.uniform(.5, 1.6, size=(n, p))
        mu = dict(Gaussian=lambda e: e, Poisson=np.exp, Gamma=np.exp, Binomial=lambda e: 1 / (1 + np.exp(-e)))[f](X.dot(np.full(p, .6)))
        w = rng.integers(4, 12, n).astype(float) if f == "Binomial" else rng.uniform(.5, 2, n) if weighted else np.ones(n)
        y = {"Gaussian": lambda: rng.normal(mu, .5), "Poisson": lambda: rng.poisson(mu) + 1.0, "Gamma": lambda: rng.gamma(4, mu / 4),
             "Binomial": lambda: np.clip(rng.binomial(w.astype(int), mu), 1, w - 1) / w}[f]()
        tr.meta.update(X=num(X), y=num(y), w=num(w), f=f)
        df, fml = frame(X, y, 0)
        with tr.frozen("glm-bootstrap", X, y, w, df), quiet():
            if not weighted and f != "Binomial":
                for meth in ("sp", "ee", "nr"):
                    if meth == "ee" and p > 1 or meth == "nr" and p > 1:
                        continue
                    m = GLM1(formula=fml, data=df, fam=getattr(f1, f)(link=getattr(l1, LNK[f])), scale_estimator="M")
                    m.fit()
                    b0 = np.array(m.params)
                    if tr.call("bootstrap:pyglm-" + meth, lambda: (m.bootstrap(n_boot=B, method=meth), 1)[1]):
                        tr.ev("glmboot", nm="pyglm-" + meth, S=m.theta_samples, tol="2e-3")
                        r = m.res
                        tr.ev("table", nm="pyglm-" + meth, S=m.theta_samples, b=b0, se=r["SE_boot"].values, t=r["t_boot"].values, p=r["p_boot"].values, df=n - p)
                        tr.ev("state", nm="pyglm-" + meth, a=np.r_[m.X.ravel(), np.ravel(m.Y), m.params], b=np.r_[X.ravel(), y, b0])
            for nm, C in (("linear", GLML), ("pyglm2", GLM2)):
                F = getattr(f1 if nm == "linear" else f2, f)
                F = F(link=(l1 if nm == "linear" else l2).LogLink) if f == "Gamma" else F()
                m = C(fml, df, family=F, scale_estimator="M", weights=w if weighted or f == "Binomial" else None)
                m.fit()
                b0 = np.array(m.params)
                g = np.random.default_rng(int(rng.integers(1 << 30)))
                S = tr.call("bootstrap:" + nm, m._bootstrap, n_boot=B, verbose=False, rng=g)
                if S is not None:
                    S = (S[0] if isinstance(S, tuple) else S)
                    tr.ev("glmboot", nm=nm, S=S.values, tol="2e-3")
                    tr.ev("state", nm=nm, a=np.r_[np.asarray(m.X).ravel(), np.ravel(m.y), m.params], b=np.r_[X.ravel(), y, b0])
    return fn


def moderate(kind, B):
    def fn(tr):
        rng = tr.rng
        n = 150
        X = rng.normal(size=(n, 2)) * .6
        e = X.dot([.6, -.4])
        df = pd.DataFrame(X, columns=["v0", "v1"])
        tr.meta.update(X=num(X), w=num(np.ones(n)), f="none", y=num(np.zeros(n)))
        g = np.random.default_rng(int(rng.integers(1 << 30)))
        with quiet():
            if kind == "nb":
                df["resp"] = rng.negative_binomial(1.5, 1 / (1 + np.exp(1 + e) / 1.5))
                m = nb2.NegativeBinomial("resp ~ v0 + v1", df)
                m.fit()
                d0, par = np.r_[m.X.ravel(), np.ravel(m.Y), np.ravel(m.y)], m.params.copy()
                t = par + .2
                l0 = m.loglike(t)
                if tr.call("bootstrap:nb", lambda: (m.bootstrap(n_boot=B), 1)[1]):
                    S, r = m.beta_samples, m.boot_res
                    tr.ev("spread", nm="nb", S=S[:, :-1], se=m.res.iloc[:-1, 1].values, b=par[:-1])
                    pct = [1, 2.5, 97.5, 99]
                    tr.ev("summary", nm="nb", S=S, mean=r["mean"].values, std=r["std"].values, min=r["min"].values, max=r["max"].values, t=r["t"].values, p=r["p"].values, df=n, pct=[num(x) for x in pct], q=[r[f"pct{x:.1f}%"].values for x in pct])
                    d1, l1_ = np.r_[m.X.ravel(), np.ravel(m.Y), np.ravel(m.y)], m.loglike(t)
                    tr.call("refit:nb", m.fit)
                    tr.ev("state", nm="nb", a=np.r_[d1, l1_], b=np.r_[d0, l0], f=m.params, g=par)
            elif kind == "clm":
                df["resp"] = np.digitize(e + rng.logistic(size=n), [-.8, .9])
                m = clm1.CLM("resp ~ v0 + v1 - 1", df)
                m.fit()
                par = m.params.copy()
                l0 = m.loglike(par + .1)
                d0 = np.r_[m.X.ravel(), m.o1.ravel(), m.o2.ravel(), np.ravel(m.ix), m.B1.ravel()]
                if tr.call("bootstrap:clm", lambda: (m.bootstrap(n_boot=B), 1)[1]):
                    S, r = m.beta_samples, m.boot_res
                    tr.ev("spread", nm="clm", S=S[:, 2:], se=m.res.iloc[2:, 1].values, b=par[2:])
                    pct = [1, 2.5, 97.5, 99]
                    tr.ev("summary", nm="clm", S=S, mean=r["mean"].values, std=r["std"].values, min=r["min"].values, max=r["max"].values, t=r["t"].values, p=r["p"].values, df=n, pct=[num(x) for x in pct], q=[r[f"pct{x:.1f}%"].values for x in pct])
                    d1, l1_ = np.r_[m.X.ravel(), m.o1.ravel(), m.o2.ravel(), np.ravel(m.ix), m.B1.ravel()], m.loglike(par + .1)
                    tr.call("refit:clm", m.fit)
                    tr.ev("state", nm="clm", a=np.r_[d1, l1_], b=np.r_[d0, l0], f=m.params, g=par)
            elif kind == "clm2":
                df["resp"] = np.digitize(e + rng.logistic(size=n), [-.8, .9])
                m = clm2.CLM("resp ~ v0 + v1", df)
                m.fit()
                par = np.array(m.params)
                l0 = m.loglike(par + .1)
                S = tr.call("bootstrap:clm2", m._bootstrap, n_boot=B, verbose=False, rng=g)
                if S is not None:
                    tr.ev("spread", nm="clm2", S=S[0].values, se=m.res.iloc[:, 1].values, b=par)
                    tr.ev("state", nm="clm2", a=np.r_[m.loglike(par + .1), m.params], b=np.r_[l0, par])
            else:
                mu = np.exp(1 + e)
                df["resp"] = rng.poisson(mu) if kind == "Poisson" else rng.gamma(3, mu / 3)
                for nm, C, F in (("linear", GLML, f1), ("pyglm2", GLM2, f2)):
                    m = C("resp ~ v0 + v1", df, family=getattr(F, kind)(link=(l1 if nm == "linear" else l2).LogLink), scale_estimator="M")
                    m.fit()
                    par = np.array(m.params)
                    S = tr.call("bootstrap:" + nm, m._bootstrap, n_boot=B, verbose=False, rng=g)
                    if S is not None:
                        S = (S[0] if isinstance(S, tuple) else S).values
                        tr.ev("spread", nm=nm + kind, S=S[:, :3], se=m.res.iloc[:3, 1].values, b=par[:3])
    return fn


def bca_case(kind, q):
    def fn(tr):
        rng = tr.rng
        tr.meta.update(X=num(np.eye(1)), y=num([1.0]), w=num([1.0]), f="none")
        for al in (.05, .2, .01):
            nj, B = int(rng.integers(5, 40)), int(rng.integers(60, 400))
            b = rng.normal(size=q)
            J = b + rng.normal(size=(nj, q)) * .1
            S = b + (rng.normal(size=(B, q)) if kind == "normal" else rng.gamma(1.2, 1, size=(B, q)) - .6)
            if kind == "skew":
                J = b + rng.gamma(.8, .1, size=(nj, q))
            S[0], S[1] = b + 1e-3, b - 1e-3
            a = (S < b).mean(0)
            k = float(rng.uniform(.5, 4))
            with tr.frozen("bca", b, J, S):
                ci = tr.call("bca", bca, b, J, S, al)
                mci = tr.call("bca", bca, -k * b, -k * J, -k * S, al)
            if ci is not None and mci is not None:
                tr.ev("bca", alpha=num(al), b=b, J=J, S=S, ci=ci, mci=mci, k=num(k))
                ci2 = bca(pd.Series(b), pd.DataFrame(J), pd.DataFrame(S), al)
                tr.ev("bca", alpha=num(al), b=b, J=J, S=S, ci=ci2, mci=mci, k=num(k))
    return fn


def cases(seed, tier):
    deep = tier == "thorough"
    out = []
    B = 600 if deep else 250
    for n, p, ic in ((4, 1, 0), (5, 1, 0), (4, 2, 1)) + (((6, 1, 0),) if deep else ()):
        out.append((f"boot-{n}-{p}-{ic}", ols_boot(n, p, ic, B)))
    for n, p, ic in ((5, 2, 1), (5, 1, 0), (5, 2, 0), (5, 3, 1)) + (((6, 3, 1), (6, 2, 0), (6, 4, 1)) if deep else ()):
        out.append((f"perm-{n}-{p}-{ic}", ols_perm(n, p, ic, 4000 if deep else 1000)))
    for f in ("Gaussian", "Poisson", "Gamma", "Binomial"):
        for p in (1, 2):
            for wt in (False, True):
                if f == "Binomial" and not wt:
                    continue
                if not deep and (p == 2) == wt and f == "Gaussian":
                    continue
                out.append((f"glm-{f}-{p}-{wt}", glm_boot(f, 5, p, wt, 60 if deep else 16)))
    for k in ("nb", "clm", "clm2", "Poisson", "Gamma"):
        out.append((f"moderate-{k}", moderate(k, 120 if deep else 50)))
    for r in range(6 if deep else 2):
        for k in ("normal", "skew"):
            out.append((f"bca-{k}-{r}", bca_case(k, 1 + r % 3)))
    return out


run(cases)
