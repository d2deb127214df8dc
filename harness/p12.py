"""P12: linear mixed models (both implementations), in every call order."""
import os
import numpy as np
import pandas as pd
import patsy
from sksparse.cholmod import CholmodNotPositiveDefiniteError
from vlib import run, num, ints, jsonable
from pystatsm.pylmm.lmm import LMM
from pystatsm.pylmm.re_mod import LMM2, RandomEffects, MMEBlocked
from pystatsm.utilities.linalg_operations import invech, vech


def frame(rng, n, qs, labels="int", unbalanced=True, scale=1.0):
    d = {"x1": rng.normal(size=n), "x2": rng.normal(size=n)}
    if not unbalanced:
        d["x1"] = np.resize([-1.0, -0.5, 0.5, 1.0], n)   # the same centred design at every level
    for nm, q in qs.items():
        g = np.r_[np.arange(q), rng.integers(q, size=n - q)] if unbalanced else np.arange(n) % q
        g = rng.permutation(g) if unbalanced else np.arange(n) // (n // q)
        if labels == "str":
            names = rng.permutation([f"{nm}{chr(97 + k)}" for k in range(q)])
            g = names[g]
        elif labels == "neg":
            g = 10 * (g - q // 2)
        d[nm] = g
    df = pd.DataFrame(d)
    y = 0.5 + df.x1 - 0.5 * df.x2 + rng.normal(size=n)
    for nm in qs:
        lv = {v: scale * rng.normal(size=2) for v in pd.unique(df[nm])}
        y = y + np.array([lv[v][0] + lv[v][1] * x for v, x in zip(df[nm], df.x1)])
    df["y"] = y
    return df


# name -> (fixed part, [(re formula, group)], group sizes)
CFG = {
    "ri": ("x1 + x2", [("1", "g")], {"g": 5}),
    "rs": ("x1", [("1+x1", "g")], {"g": 5}),
    "crossed": ("x1", [("1", "g"), ("1", "h")], {"g": 4, "h": 3}),
    "mixed": ("x1", [("1+x1", "g"), ("1", "h")], {"g": 4, "h": 3}),
    "three": ("1", [("1+x1+x2", "g")], {"g": 5}),
    "nointercept": ("x2", [("0+x1", "g"), ("1", "h")], {"g": 4, "h": 5}),
    "many": ("x1", [("1", "g")], {"g": 14}),
    "centred": ("x1", [("1+x1", "g")], {"g": 6}),
    "absent": ("x1", [("1+x2", "g"), ("0+x1", "h")], {"g": 4, "h": 3}),
}


def design(rng, cfgname, lab):
    df = frame(rng, 24, CFG[cfgname][2], lab, unbalanced=cfgname != "centred")
    if cfgname == "absent":   # a covariate that is zero throughout one level
        df.loc[df.g == df.g.iloc[3], "x2"] = 0.0
    return df


def formula(cfg):
    fe, re_, _ = cfg
    return "y ~ " + fe + "".join(f" + ({a}|{b})" for a, b in re_)


def thetas(rng, re_, df):
    out = []
    for _ in range(2):
        t = []
        for a, b in re_:
            p = patsy.dmatrix(a, df).shape[1]
            A = rng.normal(size=(p, p + 2))
            t.append(vech(A @ A.T / (p + 2) + 0.2 * np.eye(p)))
        out.append(np.concatenate(t + [rng.uniform(0.3, 2, size=1)]))
    return out


def meta(tr, cfg, df, order):
    fe, re_, _ = cfg
    X = patsy.dmatrix(fe, df, return_type="dataframe").values
    terms, mp = [], []
    for a, b in re_:
        lab = sorted(pd.unique(df[b]))
        code = {v: i + 1 for i, v in enumerate(lab)}
        g = [code[v] for v in df[b]]
        app = list(dict.fromkeys(g))
        x = patsy.dmatrix(a, df, return_type="dataframe").values
        terms.append(dict(g=g, lv=len(lab), x=x, p=x.shape[1], order=app if order == "appear" else list(range(1, len(lab) + 1))))
        mp.append(dict(map=dict(t="cholcov2" if x.shape[1] > 1 else "log"), len=x.shape[1] * (x.shape[1] + 1) // 2))
    mp.append(dict(map=dict(t="log"), len=1))
    tr.meta.update(X=num(X), y=num(df["y"].values), terms=jsonable(terms), map=dict(t="blocks", of=mp))
    return X


def do2(tr, m, op, th, rng):
    """one call of the newer implementation; at the fitted parameter the argument is left out where it has a default"""
    a = () if th is m.theta else (th,)
    kw = {} if th is m.theta else dict(theta=th)
    if op in ("ll", "llml"):
        tr.ev("ll", nm="new", th=th, reml=op == "ll", v=tr.call(op, m.loglike, th, op == "ll"))
    elif op in ("grad", "gradml"):
        tr.ev("grad", nm="new", th=th, reml=op == "grad", g=tr.call(op, m.gradient, th, op == "grad"))
    elif op in ("grad2", "grad2ml"):
        tr.ev("grad", nm="new-blockwise", th=th, reml=op == "grad2", g=tr.call(op, m.gradient_v2, th, op == "grad2"))
    elif op == "eff":
        b, C, u = tr.call(op, m.compute_effects, *a)
        tr.ev("eff", nm="new", th=th, b=b, C=C, u=u)
    elif op == "cross":
        A, B = rng.normal(size=(m.mme.n_obs, 2)), rng.normal(size=(m.mme.n_obs, 3))
        with tr.frozen("cross product", A, B):
            tr.ev("cross", nm="new", th=th, A=A, B=B, r=tr.call(op, m.vinvcrossprod, A, B, *a))
    elif op == "se":
        tr.ev("se", th=th, se=tr.call(op, m.random_effects_se, *a))
    elif op == "var":
        v, r = tr.call(op, m.variance_decomposition, *a), m.r_squared(*a)
        tr.ev("var", th=th, b=m.beta, fe=v["v_fe"], re=np.array([v["v_re"][k] for k in range(len(v["v_re"]))]), rs=v["v_resid"], marg=r["marginal"], cond=r["conditional"])
    elif op == "pred":
        tr.ev("fitted", nm="new", b=m.beta, u=m.u, yhat=m.predict())
    elif op == "df":
        b = m.beta
        p = len(b)
        for k, L in enumerate([np.eye(p)[[0]]] + ([np.eye(p)[1:] if p > 2 else np.array([[1.0, -1.0]])] if p > 1 else [])):
            r = m.approx_degfree([L], beta=b, **kw)[0]
            tr.ev("df", nm=f"new-{len(L)}", th=th, b=b, L=L, reml=True, F=r["F"], df1=r["df1"], df2=r["df2"], p=r["p"])


def hist_case(cfgname, hist, lab):
    def fn(tr):
        cfg = CFG[cfgname]
        df = frame(tr.rng, 22, cfg[2], lab)
        meta(tr, cfg, df, "appear")
        m = LMM2(formula(cfg), df)
        ts = dict(zip(("t1", "t2"), thetas(tr.rng, cfg[1], df)))
        # fitted-state attributes at a third point, without the cost of a fit
        t0 = thetas(tr.rng, cfg[1], df)[0]
        m.theta = t0
        m.beta, m.XtVinvX_inv, m.u = m.compute_effects(t0)
        ts["t0"] = t0
        with tr.frozen("history", df, ts["t0"], ts["t2"]):
            for h in hist:
                op, t = h.split(":")
                if op == "set":
                    ts["t1"][:] = ts["t2"] * 0.8 + 0.1
                    continue
                do2(tr, m, op, ts[t], tr.rng)
    return fn


def point_case(cfgname, lab, dense=None):
    def fn(tr):
        cfg = CFG[cfgname]
        df = design(tr.rng, cfgname, lab)
        meta(tr, cfg, df, "appear")
        kw = {} if dense is None else dict(mme_kws=dict(sparse_threshold=dense))
        m = LMM2(formula(cfg), df, **kw)
        t1, t2 = thetas(tr.rng, cfg[1], df)
        m.theta = t1
        m.beta, m.XtVinvX_inv, m.u = m.compute_effects(t1)
        for t in (t1, t2, m.mme.re_mod.theta.copy()):
            for op in ("ll", "llml", "grad", "gradml", "grad2", "grad2ml", "eff", "cross"):
                do2(tr, m, op, t, tr.rng)
            eta = m.mme.re_mod.reparam.fwd(t)
            for reml in (True, False):
                tr.ev("eta", nm="new", how="cc", eta=eta, reml=reml, v=m.loglike_reparam(eta, reml), g=m.gradient_reparam(eta, reml))
                tr.ev("eta", nm="new-blockwise", how="cc", eta=eta, reml=reml, v=m.loglike_reparam(eta, reml), g=m.gradient_v2_reparam(eta, reml))
        do2(tr, m, "pred", t1, tr.rng)
        from pystatsm.pylmm.re_mod import _VarCorrReparam
        rp = _VarCorrReparam(m.mme.re_mod)
        for t in (t1, t2):
            tau = rp.fwd(t)
            A, B, D = m.mme.update_chol(t)
            tr.ev("mme", th=t, A=A, B=B, D=D)
            for inv in (True, False):
                tr.ev("gmat", nm="all", th=t, inv=inv, G=m.mme.re_mod.update_gcov(t, inv=inv).toarray())
            tr.ev("gmat", nm="default", th=t, inv=False, G=m.mme.re_mod.update_gcov(t).toarray())
            tr.ev("vc", th=t, tau=tau, back=rp.rvs(tau), J=rp.jacobian(tau))
    return fn


def old_case(cfgname, lab):
    def fn(tr):
        cfg = CFG[cfgname]
        df = design(tr.rng, cfgname, lab)
        X = meta(tr, cfg, df, "sorted")
        m = LMM(formula(cfg), df)
        with tr.frozen("older", df):
            for t in thetas(tr.rng, cfg[1], df):
                for reml in (True, False):
                    for nm, kw in (("old", {}), ("old-dense", dict(use_sparse=False)), ("old-sparse", dict(sparsity_threshold=2.0))):
                        tr.ev("ll", nm=nm, th=t, reml=reml, v=m.loglike(t, reml, **kw))
                    for nm, g in (("old", m.gradient), ("old-dense", m._gradient_dense), ("old-plain", m._gradient_old)):
                        tr.ev("grad", nm=nm, th=t, reml=reml, g=g(t, reml))
                    tr.ev("hess", nm="old", th=t, reml=reml, H=m.hessian(t, reml))
                    eta = m.transform_theta(t.copy())
                    kw = dict(eta=eta, reml=reml, v=m.loglike_c(eta, reml), g=m.gradient_chol(eta, reml), H=m.hessian_chol(eta, reml))
                    tr.ev("eta", nm="old", how="log", **kw)
                b, C, u = m._compute_effects(t)
                tr.ev("eff", nm="old", th=t, b=b, C=C, u=u)
                A, B = tr.rng.normal(size=(24, 2)), tr.rng.normal(size=(24, 3))
                tr.ev("cross", nm="old", th=t, A=A, B=B, r=m.vinvcrossprod(A, B, t))
                L = np.eye(X.shape[1])
                for Li in [L[[0]]] + ([L[1:], L] if len(L) > 1 else []):
                    r = m.approx_degfree([Li], theta=t, beta=b)[0]
                    tr.ev("df", nm=f"old-{len(Li)}", th=t, b=b, L=Li, reml=True, F=r["F"], df1=int(r["df1"]), df2=r["df2"], p=r["p"])
                tp = t.copy()
                tp[-1] = 1.0
                _, b, u = m.pls(tp)
                tr.ev("pls", th=tp, b=np.asarray(b).ravel(), u=np.asarray(u).ravel())
    return fn


def usable(body):
    """Small samples can have a singular fit, at which both implementations
    stop with a factorisation error; take the first of five datasets that fits."""
    def fn(tr):
        for k in range(5):
            tr.events.clear()
            try:
                return body(tr)
            except (np.linalg.LinAlgError, CholmodNotPositiveDefiniteError):
                if k == 4:
                    raise
    return fn


def fit_case(cfgname, reml, which):
    def fn(tr):
        cfg = CFG[cfgname]
        df = frame(tr.rng, 60, {k: 8 for k in cfg[2]}, "str", scale=2.0)
        meta(tr, cfg, df, "appear" if which == "new" else "sorted")
        with tr.frozen("fit", df):
            if which == "new":
                m = LMM2(formula(cfg), df)
                start = m.mme.re_mod.theta.copy()
                m.fit(reml=reml)
                dev = m.nll
            else:
                m = LMM(formula(cfg), df)
                start = m.theta.copy()
                m.fit(reml=reml)
                dev = m.lltheta
        k = len(m.re_covs)
        interior = bool(min([np.linalg.eigvalsh(m.re_covs[i]).min() for i in range(k)]) > 0.05 and max([abs(m.re_corrs[i] - np.eye(len(m.re_corrs[i]))).max() for i in range(k)]) < 0.95)
        s = m.sumstats["value"]
        tr.ev("fit", nm=which + ("-reml" if reml else "-ml"), th=m.theta, reml=reml, dev=dev, start=start, interior=interior, tol="2e-2", b=m.beta, seb=m.se_beta, seth=m.se_theta,
              ll=s["ll"], llf=s["llf"], aic=s["AIC"], aicc=s["AICC"], bic=s["BIC"], caic=s["CAIC"], cov=[m.re_covs[i] for i in range(k)], cor=[m.re_corrs[i] for i in range(k)])
        if which == "new":
            b, C, u = m.compute_effects()
            tr.ev("eff", nm="new-fitted", th=m.theta, b=b, C=C, u=u)
            do2(tr, m, "pred", m.theta, tr.rng)
            do2(tr, m, "se", m.theta, tr.rng)
            tr.ev("fitted", nm="new-stored", b=m.beta, u=u, yhat=m.predict())
            c = m.confint(0.1)
            tr.ev("confint", b=m.beta, se=m.se_beta, lo=c["lo"].values, hi=c["hi"].values, alpha="0.1")
            t = m.random_effects()
            tr.ev("retable", nm="per-term", u=m.u, tab=[t[i].values for i in range(k)])
            t = m.random_effects("multi")
            tr.ev("retable", nm="stacked", u=m.u, tab=[t.xs(i, level="term").dropna(axis=1).values for i in range(k)])
            t = m.random_effects("long")
            tr.ev("retable", nm="long", u=m.u, tab=[t.xs(i, level="term")["estimate"].values.reshape(8, -1) for i in range(k)])
            tr.ev("retable", nm="long-errors", u=m.random_effects_se(), tab=[t.xs(i, level="term")["SE"].values.reshape(8, -1) for i in range(k)])
            # curvature of the fit is used for the degrees of freedom
            p = len(m.beta)
            r = m.approx_degfree([np.eye(p)[[0]]], reml=reml)[0]
            tr.ev("df", nm="new-fitted", th=m.theta, b=m.beta, L=np.eye(p)[[0]], reml=reml, F=r["F"], df1=r["df1"], df2=r["df2"], p=r["p"])
        else:
            tr.ev("eff", nm="old-fitted", th=m.theta, b=m.beta, C=m.Hinv_beta, u=m.u)
            tr.ev("fitted", nm="old", b=m.beta, u=m.u, yhat=m.predict())
    return fn


def profile_case(cfgname, reml):
    def fn(tr):
        cfg = CFG[cfgname]
        df = frame(tr.rng, 60, {k: 8 for k in cfg[2]}, "int", scale=2.0)
        meta(tr, cfg, df, "appear")
        m = LMM2(formula(cfg), df).fit(reml=reml)
        th, ze, ix = m.profile(n_points=4, tb=1.0)
        from pystatsm.pylmm.re_mod import _VarCorrReparam
        rp = _VarCorrReparam(m.mme.re_mod)
        hat = rp.fwd(m.theta)
        for t, z, i in zip(th, ze, ix):
            tr.ev("profile", th=t, z=z, reml=reml, hat=m.theta, fixed=rp.fwd(t)[i], hatfixed=hat[i], i=int(i) + 1,
                  bound=[int(k in set(rp.diag_ix) | {len(t) - 1} and t[k] < 2e-3) for k in range(len(t))])
        for alpha in (0.05, 0.4):
            c = m.profile_confint(th, ze, ix, alpha)
            for i in range(len(hat)):
                o = np.argsort(ze[ix == i], kind="stable")
                tr.ev("proflim", z=ze[ix == i][o], x=th[ix == i, i][o], alpha=alpha, lo=c["lo"].iloc[i], hi=c["hi"].iloc[i])
    return fn


def lrt_case(tr):
    cfg = CFG["ri"]
    df = frame(tr.rng, 40, {"g": 6}, "int")
    meta(tr, ("x1", [("1", "g")], {"g": 6}), df, "appear")
    m0 = LMM2("y ~ x1 + (1|g)", df).fit()
    m1 = LMM2("y ~ x1 + (1+x1|g)", df).fit()
    r = m1.lrt(m0)
    tr.ev("lrt", ll0=m0.ll, ll1=m1.ll, d0=len(m0.theta), d1=len(m1.theta), stat=r["stat"].iloc[0], df=r["df"].iloc[0], p=r["p"].iloc[0])


def relcov_case(kind, terms):
    """random effects whose levels are correlated through a known matrix"""
    def fn(tr):
        rng = tr.rng
        n, q = 20, 4
        df = frame(rng, n, {"g": q, "h": 3}, "int")
        re_ = [("1+x1", "g"), ("1", "h")][:terms]
        A = rng.normal(size=(q, q + 3))
        A = A @ A.T / (q + 3) + 0.3 * np.eye(q)
        if kind == "sparse":
            import scipy.sparse as sps
            A = A * (np.abs(np.subtract.outer(np.arange(q), np.arange(q))) <= 1) + 0.5 * np.eye(q)
            Aa = sps.csc_matrix(A)
        else:
            Aa = A
        re_mod = RandomEffects(re_, df, a_covs=[Aa] + [None] * (terms - 1))
        X = patsy.dmatrix("x1", df, return_type="dataframe").values
        y = df[["y"]].values
        mme = MMEBlocked(X, y, re_mod)
        meta(tr, ("x1", re_, None), df, "appear")
        tr.meta["A"] = num(A)
        for t in thetas(rng, re_, df):
            for reml in (True, False):
                tr.ev("relll", th=t, reml=reml, v=mme._loglike(t, reml), g=tr.call("gradient", mme._gradient, t, reml), g2=tr.call("blockwise gradient", mme._gradient_v2, t, reml))
    return fn


def cases(seed, tier):
    big = tier == "thorough"
    cs = []
    names = list(CFG)
    labs = ("int", "str", "neg")
    for k, ln in enumerate(open(os.environ["GENFILE"]).read().split("\n")):
        h = [x.strip().strip('\\"') for x in ln.strip('"').replace("<<", "").replace(">>", "").split(",")]
        if len(h) > 1:
            cs.append(("hist-" + "-".join(h), hist_case(("mixed", "rs", "crossed")[k % 3], h, labs[k % 3])))
    for c in names:
        for lab in labs:
            cs.append((f"new-{c}-{lab}", point_case(c, lab)))
            cs.append((f"old-{c}-{lab}", old_case(c, lab)))
        cs.append((f"dense-{c}", point_case(c, "int", 0.0)))
        cs.append((f"sparse-{c}", point_case(c, "int", 2.0)))
    for c in ("ri", "rs", "crossed", "nointercept") if not big else [c for c in names if c not in ("absent", "three", "many")]:
        for reml in (True, False):
            for w in ("new", "old"):
                cs.append((f"fit-{w}-{c}-{reml}", usable(fit_case(c, reml, w))))
    for c in ("ri", "crossed") + (("rs",) if big else ()):
        cs.append((f"profile-{c}", usable(profile_case(c, True))))
    cs.append(("lrt", usable(lrt_case)))
    for kind in ("dense", "sparse"):
        for t in (1, 2):
            cs.append((f"relcov-{kind}-{t}", relcov_case(kind, t)))
    return cs


run(cases)
