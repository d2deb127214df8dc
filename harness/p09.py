"""P09: ordinal, zero-inflated, negative binomial and beta regression."""
import numpy as np
import pandas as pd
from vlib import run, num
from pystatsm.pyglm import links as l1, clm as clm1, betareg, nb2, zimodels
from pystatsm.pyglm2 import links as l2, clm as clm2, zinf

LINK = dict(logit="LogitLink", probit="ProbitLink", log="LogLink", cloglog="CloglogLink")


def inv(l, e):
    from scipy.special import ndtr
    return dict(logit=lambda x: 1 / (1 + np.exp(-x)), probit=ndtr, cloglog=lambda x: -np.expm1(-np.exp(x)), log=np.exp)[l](e)


def table(m, lo):
    r = m.res
    d = dict(b=r.iloc[:, 0].values, se=r.iloc[:, 1].values, t=r["t"].values, p=r["p"].values)
    if lo:
        d.update(lo=r.iloc[:, -2].values, hi=r.iloc[:, -1].values)
    return d


def lab(ix):
    return ["/".join(map(str, x)) if isinstance(x, tuple) else str(x) for x in ix]


def evals(tr, nm, m, t, rng, data=None, extra=None, free=False, **kw):
    """Objective and derivatives at t; data = (X, Z, y, w) when other than the model's own."""
    sfx = "_unconstrained" if free else ""
    a = {} if extra is None else extra
    d = dict(ll=num(getattr(m, "loglike" + sfx)(t.copy(), **a)), g=getattr(m, "gradient" + sfx)(t.copy(), **a), H=getattr(m, "hessian" + sfx)(t.copy(), **a))
    n = tr.n if data is None else len(data[2])
    rows = sorted(int(x) + 1 for x in rng.permutation(n)[:3])
    if hasattr(m, "gradient" + sfx + "_i"):
        d["gi"] = getattr(m, "gradient" + sfx + "_i")(t.copy(), **a)
    if hasattr(m, "loglike_i") and not free:
        d["li"] = m.loglike_i(t.copy(), **a)
    if hasattr(m, "loglike_elementwise") and not a:
        d["li"] = m.loglike_elementwise(t.copy())
    if hasattr(m, "hessian_i"):
        hi = m.hessian_i(t.copy(), **a)
        d["hi"] = [hi[r - 1] for r in rows]
    if data is not None:
        d.update(X=data[0], Z=data[1], y=data[2], w=data[3])
    tr.ev("eval", nm=nm, t=t, rows=rows, free=free, **d, **kw)


def setmeta(tr, kind, X, Z, y, w, **k):
    tr.n = len(y)
    tr.meta.update(kind=kind, X=num(X), Z=num(Z), y=num(np.asarray(y, float)), w=num(w), q=0, l="log", zl="logit", dfr=num(X.shape[1] - 1), **{})
    tr.meta.update(k)


P2 = ["AIC", "AICC", "BIC", "CAIC", "R2_CS", "R2_NK", "R2_MC", "R2_MB", "R2_ES", "R2_EA", "R2_AN", "R2_VZ", "LLR", "LLF", "LLN"]
P2N = [x.replace("R2_", "") for x in P2]


def stats2(tr, nm, m, par):
    s = m.sumstats.iloc[:, 0]
    v = [float(s[k]) for k in P2]
    ix = [i for i, k in enumerate(P2) if np.isfinite(v[i])]
    tr.ev("stat", nm=nm, par=par, lln=num(m.lln), s=[P2N[i] for i in ix], v=[v[i] for i in ix])


def clm(l, q, p, n, weighted, how):
    def fn(tr):
        rng = tr.rng
        X = rng.normal(size=(n, p)) * .8
        b = rng.normal(size=p) * .5
        base = {1: [0.2], 2: [-.6, .7], 3: [-1, 0.1, .9], 4: [-1.2, -.4, .4, 1.1]}[q]
        z = X.dot(b) + (rng.logistic(size=n) if l == "logit" else rng.normal(size=n))
        y = np.digitize(z, np.array(base) * (1.4 if l == "logit" else 1))
        y[rng.permutation(n)[:q + 1]] = np.arange(q + 1)
        w = rng.uniform(.3, 2.5, n) if weighted else np.ones(n)
        cols = [f"v{j}" for j in range(1, p + 1)]
        vals = np.arange(q + 1) if how != "formula" else np.sort(rng.choice(np.arange(-5, 15), q + 1, replace=False))
        df = pd.DataFrame(X, columns=cols)
        df["resp"] = vals[y]
        setmeta(tr, "clm", X, X[:, :1], y, w, q=q, l=l, dfr=num(p))
        tau0 = np.sort(rng.normal(size=q)) + np.arange(q) * .3
        with tr.frozen("ordinal", df, w, X):
            if not weighted:
                m = clm1.CLM("resp~" + "+".join(cols) + "-1", df, link=getattr(l1, LINK[l]))
                for _ in range(2):
                    evals(tr, "pyglm", m, np.r_[tau0, rng.normal(size=p) * .6], rng)
                if tr.call("fit:pyglm", lambda: (m.fit(), 1)[1]):
                    par = np.array(m.params)
                    tr.ev("fit", nm="pyglm", par=par, tol="5e-3", labels=lab(m.res.index), ref=[f"threshold {i}|{i+1}" for i in range(1, q + 1)] + cols, **table(m, False))
                    s = m.sumstats
                    lln = m.loglike(m.optr.x, m.B1_intercept, m.B2_intercept)
                    tr.ev("null", nm="pyglm", lln=num(lln))
                    tr.ev("stat", nm="pyglm", par=par, lln=num(lln), s=["LLR", "CS", "MC", "MBp", "NK", "LLRp"],
                          v=[s.statistic["LLR"], s.statistic["r2_coxsnell"], s.statistic["r2_mcfadden"], s.statistic["r2_mcfadden_adj"], s.statistic["r2_nagelkerke"], s.pvalue["LLR"]])
                    tr.ev("ordclass", nm="pyglm", par=par, c=m.predict())
                    t = np.r_[tau0, rng.normal(size=p) * .6]
                    tr.ev("ordclass", nm="pyglm", par=t, c=m.predict(beta=t[q:], theta=t[:q]))
            kw = dict(link=getattr(l2, LINK[l]), weights=w if weighted else None)
            if how == "formula":
                m = clm2.CLM("resp~" + "+".join(cols), df, **kw)
            elif how == "frame":
                m = clm2.CLM(None, None, X=df[cols], y=df[["resp"]], **kw)
            else:
                m = clm2.CLM(None, None, X=X, y=vals[y], **kw)
            ref = [f"{u}|{v}" for u, v in zip(m.model_data.unique[:-1], m.model_data.unique[1:])] + list(m.xcols)
            for _ in range(2):
                evals(tr, "pyglm2", m, np.r_[tau0, rng.normal(size=p) * .6], rng)
                f = np.r_[rng.normal(size=q) * .5, rng.normal(size=p) * .6]
                evals(tr, "pyglm2-free", m, f, rng, free=True)
            jj = rng.permutation(n)[:n - 3]
            evals(tr, "pyglm2-other", m, np.r_[tau0, rng.normal(size=p) * .6], rng, data=(X[jj], X[jj][:, :1], y[jj].astype(float), w[jj]), extra=dict(data=m.model_data[jj]))
            T = clm2.OrderedTransform
            x = np.r_[tau0, rng.normal(size=p)]
            fy = np.r_[rng.normal(size=q) * .5, rng.normal(size=p)]
            tr.ev("ordered", x=x, y=fy, rvs=T._rvs(fy.copy(), q), fwd=T._fwd(x.copy(), q), rt=T._rvs(T._fwd(x, q), q), jr=T._jac_rvs(fy, q), jf=T._jac_fwd(x, q), ix=list(range(1, q + 1)),
                  hr=list(T._hess_rvs(fy, q)[:q]), hf=list(T._hess_fwd(x, q)[:q]))
            if tr.call("fit:pyglm2", lambda: (m.fit(), 1)[1]):
                par = np.array(m.params)
                tr.ev("fit", nm="pyglm2", par=par, tol="5e-3", labels=lab(m.res.index), ref=ref, **table(m, True))
                tr.ev("null", nm="pyglm2", lln=num(m.lln))
                stats2(tr, "pyglm2", m, par)
                lev = float(rng.choice([.8, .95, .99]))
                Xn = rng.normal(size=(4, p))
                cats = [str(u) for u in m.model_data.unique]
                for nm, Xq, se in (("own", None, True), ("new", Xn, True), ("new-no-se", Xn, False)):
                    o = tr.call("predict:" + nm, m.predict, X=Xq, se=se, ci_level=lev)
                    if o is None:
                        continue
                    lp, pr, cu = [[None if v is None else v.values for v in d.values()] for d in o]
                    tr.ev("ordpred", nm=nm, par=par, X=X if Xq is None else Xq, V=np.array(m.params_cov), lev=num(lev), eta=lp[0], prob=pr[0], cum=cu[0],
                          cats=[str(c) for c in list(o[1].values())[0].columns] if hasattr(o[1], "values") else [], refcats=cats,
                          **(dict(se=lp[1], lo=lp[2], hi=lp[3], clo=cu[1], chi=cu[2]) if se else {}))
    return fn


def counts(rng, n, p, r, l, zl, nbk=None):
    X = np.c_[np.ones(n), rng.normal(size=(n, p - 1)) * .5]
    Z = np.c_[np.ones(n), rng.normal(size=(n, r - 1)) * .6]
    b = np.r_[1.1, rng.normal(size=p - 1) * .4]
    g = np.r_[-.5, rng.normal(size=r - 1) * .5]
    mu, pi = np.exp(X.dot(b)), inv(zl, Z.dot(g))
    y = rng.poisson(mu) if nbk is None else rng.negative_binomial(1 / nbk, 1 / (1 + nbk * mu))
    y = (y * (rng.uniform(size=n) > pi)).astype(float)
    return X, Z, y


def zi(kind, zl, p, r, n, weighted, how):
    def fn(tr):
        rng = tr.rng
        nb = kind == "zinb"
        X, Z, y = counts(rng, n, p, r, "log", zl, .6 if nb else None)
        w = rng.uniform(.3, 2.5, n) if weighted else np.ones(n)
        setmeta(tr, kind, X, Z, y, w, zl=zl, dfr=num(p + r - 2))
        xc, zc = ["Intercept"] + [f"v{j}" for j in range(1, p)], ["Intercept"] + [f"u{j}" for j in range(1, r)]
        df = pd.DataFrame(np.c_[X[:, 1:], Z[:, 1:]], columns=xc[1:] + zc[1:])
        df["resp"] = y
        k = p + r + nb
        rt = lambda: np.r_[.7, rng.normal(size=p - 1) * .4, rng.normal(size=r) * .5, [rng.normal() * .5] * nb]
        with tr.frozen(kind, df, X, Z, y, w):
            if kind == "zip" and zl == "logit" and not weighted:
                if how == "frame":
                    m = zimodels.ZIP(df.assign(Intercept=1.0)[xc], df[["resp"]], df.assign(Intercept=1.0)[zc])
                    ref = xc + zc
                else:
                    m = zimodels.ZIP(X, y, Z)
                    ref = [f"x{j+1}" for j in range(p)] + [f"z{j+1}" for j in range(r)]
                for _ in range(2):
                    evals(tr, "pyglm", m, rt(), rng)
                jj = rng.permutation(p)[:max(1, p - 1)]
                jj.sort()
                t = rt()
                evals(tr, "pyglm-other", m, np.r_[t[jj], t[p:]], rng, data=(X[:, jj], Z, y, w), extra=dict(X=X[:, jj], Z=Z))
                if tr.call("fit:pyglm", lambda: (m.fit(), 1)[1]):
                    par = np.array(m.params)
                    if np.abs(par).max() < 6:
                        tr.ev("fit", nm="pyglm", par=par, tol="5e-3", labels=lab(m.res.index), ref=ref, **table(m, False))
                        tr.ev("null", nm="pyglm", t0=m.opt_null.x, lln=num(-m.ll_null))
                        s = m.sumstats.iloc[:, 0]
                        nmz = dict(AIC="AIC", AICc="AICC", BIC="BIC", LLR="LLR", LLRp="LLRp", PseudoR2_CS="CS", PseudoR2_N="NK", PseudoR2_MCF="MC", PseudoR2_MCFA="MB", PseudoR2_MFA="AN")
                        tr.ev("stat", nm="pyglm", par=par, lln=num(-m.ll_null), s=list(nmz.values()), v=[float(s[a]) for a in nmz])
                        tr.ev("zipmean", nm="fitted", par=par, X=X, Z=Z, mu=m.yhat, var=m.yhvar, res=m.pearson_resids)
                Xn, Zn = X[::-1], Z[rng.permutation(n)]
                t = rt()
                o = m.predict(t, Xn, Zn)
                tr.ev("zipmean", nm="given", par=t, X=Xn, Z=Zn, mu=o[0], var=o[1])
            C = zinf.ZeroInflatedNBinom if nb else zinf.ZeroInflatedPoisson
            kw = dict(zero_link=getattr(l2, LINK[zl]), weights=w if weighted else None)
            if how == "formula":
                m = C("resp~" + "+".join(xc[1:] or ["1"]), "~" + "+".join(zc[1:] or ["1"]), df, **kw)
            elif how == "frame":
                m = C(X=df.assign(Intercept=1.0)[xc], Z=df.assign(Intercept=1.0)[zc], y=df[["resp"]], **kw)
            else:
                m = tr.call("arrays", C, X=X, Z=Z, y=y, **kw)
                if m is None:
                    return
            a = "NegativeBinomial" if nb else "Poiss"
            ref = None if how == "array" else [f"{a}/{c}" for c in xc] + [f"Binom/{c}" for c in zc] + [f"{a}/Scale"] * nb
            for _ in range(2):
                evals(tr, "pyglm2", m, rt(), rng)
            jj = rng.permutation(n)[:n - 4]
            d = (X[jj], Z[jj], y[jj], w[jj])
            evals(tr, "pyglm2-other", m, rt(), rng, data=d, extra=dict(data=d))
            if tr.call("fit:pyglm2", lambda: (m.fit(), 1)[1]):
                par = np.array(m.params)
                if np.abs(par).max() < 5 and (not nb or par[-1] > -3):
                    got = lab(m.res.index)
                    tr.ev("fit", nm="pyglm2", par=par, tol="5e-3", labels=got, ref=got if ref is None else ref, **table(m, True))
                    if np.abs(m.null_params).max() < 5:
                        tr.ev("null", nm="pyglm2", t0=m.null_params, lln=num(m.lln))
                    stats2(tr, "pyglm2", m, par)
                    V = np.array(m.params_cov)
                    lev, pl = float(rng.choice([.8, .95, .99])), float(rng.choice([.8, .9]))
                    Xn, Zn = X[:4], Z[4:8]
                    if nb:
                        o = m.predict(Xn, Zn, mean_ci_level=lev, predicted_ci_level=pl)
                        ex = dict(plo=o["predicted_lower_ci"], phi=o["predicted_upper_ci"], plev=num(pl))
                    else:
                        o = m._predict(par, (Xn, Zn, None, None), m.link, m.zero_link, coefs_cov=V, mean_ci_level=lev)
                        ex = {}
                    tr.ev("twopart", nm="pyglm2", par=par, X=Xn, Z=Zn, V=V, lev=num(lev), lp=o["lp"], se=o["lp_se"], mean=o["mean"], llo=o["lp_lower_ci"], lhi=o["lp_upper_ci"],
                          mlo=o["mu_lower_ci"], mhi=o["mu_upper_ci"], **ex)
    return fn


def nb(p, n, k):
    def fn(tr):
        rng = tr.rng
        X, Z, _ = counts(rng, n, p, 1, "log", "logit")
        mu = np.exp(X.dot(np.r_[1.2, rng.normal(size=p - 1) * .4]))
        y = rng.negative_binomial(1 / k, 1 / (1 + k * mu)).astype(float)
        w = np.ones(n)
        setmeta(tr, "nb", X, Z, y, w, dfr=num(p - 1))
        cols = [f"v{j}" for j in range(1, p)]
        df = pd.DataFrame(X[:, 1:], columns=cols)
        df["resp"] = y
        with tr.frozen("nb", df):
            m = nb2.NegativeBinomial("resp~" + "+".join(cols or ["1"]), df)
            rt = lambda: np.r_[.9, rng.normal(size=p - 1) * .4, rng.normal() * .6]
            for _ in range(3):
                evals(tr, "pyglm", m, rt(), rng)
            t = rt()
            evals(tr, "pyglm-other", m, np.r_[t[0], t[-1]], rng, data=(X[:, :1], Z, y, w), extra=dict(X=X[:, :1]))
            if tr.call("fit:pyglm", lambda: (m.fit(), 1)[1]):
                par = np.array(m.params)
                if par[-1] < -3:
                    return
                tr.ev("fit", nm="pyglm", par=par, tol="5e-3", labels=lab(m.res.index), ref=["Intercept"] + cols + ["variance"], **table(m, False))
                if m.opt_mean.x[-1] > -3:
                    tr.ev("null", nm="pyglm", t0=m.opt_mean.x, lln=num(-m.ll_null))
                s = m.sumstats["Test_stat"]
                tr.ev("stat", nm="pyglm", par=par, lln=num(-m.ll_null), s=["AIC", "BIC", "LLR", "CS", "NK", "MC", "MBp", "AN"] + (["LLRp"] if p > 1 else []),
                      v=[float(s[a]) for a in ("AIC", "BIC", "LLR", "R2_Cox_Snell", "R2_Nagelkerke", "R2_McFadden", "R2_McFaddenAdj", "R2_Aldrich")] + ([float(m.sumstats["P-value"]["LLR"])] if p > 1 else []))
                tr.ev("nbgof", nm="pyglm", par=par, chi2=num(s["chi2"]), sc=num(s["scaled_chi2"]), chip=num(m.sumstats["P-value"]["chi2"]), dev=num(s["deviance"]), devp=num(m.sumstats["P-value"]["deviance"]), mu=m.predict())
    return fn


def beta(l, p, r, n, how):
    def fn(tr):
        rng = tr.rng
        X, Z, _ = counts(rng, n, p, r, "log", "logit")
        mu = inv(l, X.dot(np.r_[.2, rng.normal(size=p - 1) * .5]))
        phi = np.exp(Z.dot(np.r_[2.0, rng.normal(size=r - 1) * .4]))
        y = np.clip(rng.beta(mu * phi, (1 - mu) * phi), 1e-3, 1 - 1e-3)
        w = np.ones(n)
        setmeta(tr, "beta", X, Z, y, w, l=l, dfr=num(p + r - 2))
        xc, zc = ["Intercept"] + [f"v{j}" for j in range(1, p)], ["Intercept"] + [f"u{j}" for j in range(1, r)]
        df = pd.DataFrame(np.c_[X[:, 1:], Z[:, 1:]], columns=xc[1:] + zc[1:])
        df["resp"] = y
        kw = dict(m_link=getattr(l1, LINK[l]))
        with tr.frozen("beta", df, X, Z, y):
            if how == "formula":
                m = betareg.BetaReg(m_formula="resp~" + "+".join(xc[1:] or ["1"]), s_formula="resp~" + "+".join(zc[1:] or ["1"]), data=df, **kw)
            elif how == "frame":
                d1 = df.assign(Intercept=1.0)
                m = betareg.BetaReg(X=d1[xc], Z=d1[zc], y=d1[["resp"]] if rng.uniform() < .5 else d1["resp"], **kw)
            else:
                m = betareg.BetaReg(X=X, Z=Z, y=y, **kw)
            ref = xc + zc if how != "array" else [f"x{j+1}" for j in range(p)] + [f"z{j+1}" for j in range(r)]
            rt = lambda: np.r_[rng.normal(size=p) * .5, 1.5, rng.normal(size=r - 1) * .4]
            for _ in range(3):
                evals(tr, "pyglm", m, rt(), rng)
            t = rt()
            evals(tr, "pyglm-other", m, np.r_[t[0], t[p:]], rng, data=(X[:, :1], Z, y, w), extra=dict(X=X[:, :1], Z=Z))
            import io
            from contextlib import redirect_stdout

            def fit():
                with redirect_stdout(io.StringIO()):
                    m.fit()
                return 1
            if tr.call("fit:pyglm", fit):
                par = np.array(m.theta)
                tr.ev("fit", nm="pyglm", par=par, tol="5e-3", labels=lab(m.res.index), ref=ref, **table(m, False))
                tr.ev("null", nm="pyglm", t0=m.theta_null, lln=num(m.lln))
                s = m.sumstats
                keys = dict(aic="AIC", aicc="AICC", bic="BIC", caic="CAIC", LLR="LLR", PseudoR2_CS="CS", PseudoR2_N="NK", PseudoR2_MCF="MC", PseudoR2_MCFA="MB", PseudoR2_MFA="AN")
                tr.ev("stat", nm="pyglm", par=par, lln=num(m.lln), s=list(keys.values()), v=[float(s[a]) for a in keys])
                o = m.predict()
                tr.ev("betamean", nm="fitted", par=par, X=X, Z=Z, mu=o[0], phi=o[1])
                t = rt()
                o = m.predict(t, X[:5], Z[2:7])
                tr.ev("betamean", nm="given", par=t, X=X[:5], Z=Z[2:7], mu=o[0], phi=o[1])
    return fn


def cases(seed, tier):
    out = []
    hows = ["formula", "frame", "array"]
    i = seed
    for r in range(2 if tier == "quick" else 8):
        for l in ("logit", "probit", "cloglog"):
            for weighted in (False, True):
                i += 1
                q, p = [(1, 2), (2, 1), (3, 3), (4, 2)][(i + r) % 4]
                if l != "cloglog":
                    out.append((f"clm-{l}-{'w' if weighted else 'u'}-{r}", clm(l, q, p, 40 + 5 * q, weighted, hows[i % 3])))
                p, s = [(2, 2), (3, 1), (2, 3), (1, 2)][(i + r) % 4]
                out.append((f"zip-{l}-{'w' if weighted else 'u'}-{r}", zi("zip", l, p, s, 60, weighted, hows[i % 3])))
                p, s = [(2, 1), (2, 2), (1, 1), (3, 2)][(i + r) % 4]
                out.append((f"zinb-{l}-{'w' if weighted else 'u'}-{r}", zi("zinb", l, p, s, 90, weighted, hows[(i + 1) % 3])))
            out.append((f"beta-{l}-{r}", beta(l, [2, 3, 1][i % 3], [1, 2, 2][i % 3], 40, hows[(i + r) % 3])))
            out.append((f"nb-{l}-{r}", nb([1, 2, 3][(i + r) % 3], 50, [.3, .8, 1.5][i % 3])))
    return out


if __name__ == "__main__":
    run(cases)
