"""P08: generalised linear models."""
import numpy as np
import pandas as pd
from vlib import run, num
from pystatsm.pyglm import families as f1, links as l1, glm as g1, linear_model as gl
from pystatsm.pyglm2 import families as f2, links as l2, glm as g2

LINK = dict(identity="IdentityLink", logit="LogitLink", probit="ProbitLink", log="LogLink", reciprocal="ReciprocalLink", cloglog="CloglogLink", power="PowerLink")
COMBO = [("Binomial", "logit", 0), ("Binomial", "probit", 0), ("Binomial", "cloglog", 0), ("Poisson", "log", 0), ("Gamma", "log", 0), ("Gamma", "reciprocal", 0),
         ("InverseGaussian", "log", 0), ("InverseGaussian", "power", -2), ("Gaussian", "identity", 0), ("Gaussian", "log", 0), ("NegativeBinomial", "log", 0), ("Poisson", "identity", 0)]
KEY = {"glm2": ["R2_CS", "R2_NK", "R2_MC", "R2_MB", "R2_ES", "R2_EA", "R2_AN", "R2_VZ", "LLR"], "lin": ["R2_CS", "R2_NK", "R2_MC", "R2_MB", "LLR"]}
IX = {"glm2": [1, 2, 3, 4, 5, 6, 7, 8, 9], "lin": [1, 2, 3, 4, 9]}


def mk(pk, f, l, a, w):
    F, L = (f1, l1) if pk != "glm2" else (f2, l2)
    c = getattr(L, LINK[l])
    link = c(a) if l == "power" else c
    return getattr(F, f)(link=link, **({} if w is None else {"weights": w}))


def data(rng, f, l, a, n, p, weighted):
    X = rng.normal(size=(n, p)) * 0.6
    X[:, 0] = 1.0
    b = rng.normal(size=p) * 0.35
    w = np.ones(n)
    if weighted:
        w = rng.uniform(0.4, 3.0, n)
    if f == "Binomial":
        if weighted:
            w = rng.integers(1, 9, n).astype(float)
        eta = X.dot(b) - 0.3
        mu = dict(logit=lambda e: 1 / (1 + np.exp(-e)), probit=lambda e: 1 / (1 + np.exp(-1.7 * e)), cloglog=lambda e: 1 - np.exp(-np.exp(e)))[l](eta)
        y = rng.binomial(w.astype(int), mu) / w
        if not weighted:  # no (near) separation
            t = np.zeros(p)
            for _ in range(30):
                q = 1 / (1 + np.exp(-np.clip(X.dot(t), -30, 30)))
                t = t + np.linalg.solve((X.T * (q * (1 - q) + 1e-9)).dot(X), X.T.dot(y - q))
                if np.abs(t).max() > 3:
                    return data(rng, f, l, a, n, p, weighted)
        return X, y, w
    if l in ("reciprocal", "power", "identity"):
        X[:, 1:] = np.clip(X[:, 1:], -1.2, 1.2)
        b = np.r_[6.0 if f == 'Poisson' else 2.5, b[1:] * .8]
        eta = X.dot(b)
        mu = 1 / eta if l == "reciprocal" else eta**(-0.5) if l == "power" else eta
    else:
        b[0] = 1.0
        mu = np.exp(X.dot(b))
    if f == "Poisson":
        y = rng.poisson(mu).astype(float)
    elif f == "NegativeBinomial":
        y = rng.negative_binomial(1.1, 1.1 / (1.1 + mu)).astype(float)
    elif f == "Gamma":
        y = rng.gamma(4.0, mu / 4.0)
    elif f == "InverseGaussian":
        y = rng.wald(mu, 5.0)
    else:
        y = mu + rng.normal(size=n) * .4
        if l == "log":
            y = np.abs(y) + .1
    return X, y, w


def table(m, lo=True):
    r = m.res
    d = dict(b=r.iloc[:, 0].values, se=r.iloc[:, 1].values, t=r["t"].values, p=r["p"].values)
    if lo:
        d.update(lo=r.iloc[:, -2].values, hi=r.iloc[:, -1].values)
    return d


def model(pk, f, l, a, X, y, w, weighted, mode, how):
    p = X.shape[1]
    cols = ["Intercept"] + [f"v{j}" for j in range(1, p)]
    fml, df = "resp ~ " + " + ".join(cols[1:]), pd.DataFrame(X[:, 1:], columns=cols[1:])
    df["resp"] = y
    if pk == "glm1":
        F = mk(pk, f, l, a, w if weighted else None)
        if how == "formula":
            return g1.GLM(formula=fml, data=df, fam=F, scale_estimator=mode), cols
        return g1.GLM(X=X, Y=y, fam=F, scale_estimator=mode), [f"x{j}" for j in range(1, p + 1)]
    C = gl.GLM if pk == "lin" else g2.GLM
    F = mk(pk, f, l, a, w if (weighted and f == "Binomial") else None)
    kw = dict(family=F, scale_estimator=mode, weights=w if weighted else None)
    if how == "formula":
        return C(fml, df, **kw), cols
    if how == "frame":
        return C(X=pd.DataFrame(X, columns=cols), y=pd.DataFrame({"resp": y}), **kw), cols
    m = C(X=X, y=y, **kw)
    return m, list(m.xcols)


def case(f, l, a, mode, weighted, n, p, how, deep):
    def fn(tr):
        rng = tr.rng
        X, y, w = data(rng, f, l, a, n, p, weighted)
        eff = "fixed" if f in ("Binomial", "Poisson") else mode
        nr = eff == "NR"
        tr.meta.update(X=num(X), y=num(y), w=num(w), f=f, l=l, a=num(a), mode=eff, labels=[])
        first = True
        for pk in ("glm1", "lin", "glm2"):
            if pk == "glm1" and (f == "NegativeBinomial" and nr or (f, l) == ("Poisson", "identity")):
                continue
            nm = pk
            with tr.frozen(nm, X, y, w):
                mc = tr.call("model:" + nm, model, pk, f, l, a, X, y, w, weighted, mode, how)
                if mc is None:
                    continue
                m, cols = mc
                k = p + nr
                if tr.call("fit:" + nm, lambda: (m.fit(), 1)[1]) is None:
                    continue
                par = np.array(m.params)
                if pk == "glm1" and (f, l) == ("InverseGaussian", "power") and nr and getattr(m.optimizer, "status", 1) == 0:
                    continue
                if f == "NegativeBinomial" and nr and (par[-1] < -2.5 or par[-1] > 3):
                    continue
                labels = cols + (["log_scale"] if nr else [])
                for j in range(2):
                    t = par + rng.normal(size=k) * (0.03 if l in ("reciprocal", "power", "identity") else 0.15)
                    t2 = par + rng.normal(size=k) * 0.02
                    tr.ev("eval", nm=nm, t=t, t2=t2, full=num(m.full_loglike(t)), ll=num(m.loglike(t)), ll2=num(m.loglike(t2)), g=m.gradient(t), H=m.hessian(t),
                          **({} if pk == "glm1" else {"gi": m.gradient_i(t)}))
                if pk != "glm1" or not weighted:
                    ii = rng.permutation(n)[: max(p + 2, n // 2)]
                    args = dict(X=X[ii], Y=y[ii]) if pk == "glm1" else dict(data=(X[ii], y[ii], w[ii]))
                    if eff != "M":
                        tr.ev("other", nm=nm, t=t, X=X[ii], y=y[ii], w=w[ii], full=num(m.full_loglike(t, **args)), g=m.gradient(t, **args), H=m.hessian(t, **args))
                tr.ev("fit", nm=nm, par=par, tol="2e-3", phi=num(m.phi), mu=m.mu, labels=[str(x) for x in m.res.index], ref=labels, **table(m, pk != "glm1"),
                      **({} if pk == "glm1" else {"disp": num(m.dispersion)}))
                s = m.sumstats.iloc[:, 0]
                if pk == "glm1":
                    tr.ev("stat", nm=nm, par=par, dev=num(s["deviance"]), chi2=num(s["pearson_chi2"]), llf=num(m.LLA / 2), lln=num(m.LL0 / 2),
                          ic=s[["aic", "aicc", "bic", "caic"]].values, r2=s[["PseudoR2_CS", "PseudoR2_N", "PseudoR2_MCF", "PseudoR2_MCFA", "PseudoR2_MFA", "LLR"]].values, ix=[1, 2, 3, 4, 7, 9])
                    for kind in ("lp", "mean", "both", "Linpred", "MU"):
                        tr.ev("predict1", kind=kind.lower(), X=X, b=par[:p], v=m.predict(kind=kind))
                    Xn = rng.normal(size=(4, p)) * .2
                    Xn[:, 0] = 1
                    tr.ev("predict1", kind="mean", X=Xn, b=par[:p], v=m.predict(kind="mean", X=Xn))
                    tr.ev("predict1", kind="eta", X=Xn, b=t[:p], v=m.predict(params=t, kind="eta", X=Xn))
                    continue
                tr.ev("stat", nm=nm, par=par, dev=num(s["Deviance"]), chi2=num(s["Chi2"]), llf=num(s["LLF"]), lln=num(s["LLN"]), ic=s[["AIC", "AICC", "BIC", "CAIC"]].values,
                      r2=s[KEY[pk]].values, ix=IX[pk], rss=num(s["R2_SS"]))
                tr.ev("resid", nm=nm, par=par, h=m.h, R=m.resids.values)
                r = m.get_robust_res()
                tr.ev("robust", nm=nm, par=par, b=r.iloc[:, 0].values, se=r.iloc[:, 1].values, t=r["t"].values, p=r["p"].values, lo=r.iloc[:, -2].values, hi=r.iloc[:, -1].values)
                Xn = X[rng.permutation(n)[:4]]
                lev, plev = float(rng.choice([.8, .95, .99])), float(rng.choice([.8, .9]))
                C = np.array(m.coefs_cov)
                if f != "Binomial" or not weighted:
                    o = m._predict(m.coefs, Xn, m.f, phi=m.phi, dispersion=m.dispersion, coefs_cov=C, mean_ci_level=lev, predicted_ci_level=plev)
                    if np.all(np.isfinite(np.r_[o["predicted_lower_ci"], o["predicted_upper_ci"], o["mu_lower_ci"], o["mu_upper_ci"]])):
                        tr.ev("predict", nm=nm, X=Xn, b=np.array(m.coefs), C=C, mlev=num(lev), plev=num(plev), phi=num(m.phi), disp=num(m.dispersion), eta=o["eta"], eta_se=o["eta_se"], mu=o["mu"],
                              elo=o["eta_lower_ci"], ehi=o["eta_upper_ci"], mlo=o["mu_lower_ci"], mhi=o["mu_upper_ci"], plo=o["predicted_lower_ci"], phi_=o["predicted_upper_ci"])
                if deep and not nr:
                    J = m._jacknife(method="one-step", verbose=False)
                    tr.ev("jack", nm=nm, par=par, kind="one-step", rows=[], J=J.values)
                if deep and pk == "glm2" and ((f, l) in (("Gaussian", "identity"), ("Gamma", "log"), ("Poisson", "log")) or (f == "Binomial" and weighted)):
                    J = m._jacknife(method="optimize", verbose=False)
                    tr.ev("jack", nm=nm, par=par, kind="optimize", rows=[1, 2, n], J=J.values)
                if deep and pk == "glm2" and eff == "fixed" and how == "formula" and f != "NegativeBinomial":
                    m.ll_tests()
                    for j in range(1, p):
                        wt, st = m.wald_tests.loc[f"v{j}"], m.score_tests.loc[f"v{j}"]
                        tr.ev("term", nm=nm, par=par, cols=[j + 1], w=num(float(wt.iloc[0, 0])), wdf=num(float(wt.iloc[0, 1])), wp=num(float(wt.iloc[0, 2])),
                              s=num(float(st.iloc[0, 0])), sdf=num(float(st.iloc[0, 1])), sp=num(float(st.iloc[0, 2])))
    return fn


def cases(seed, tier):
    out = []
    hows = ["formula", "array", "frame"]
    i = seed
    reps = 3 if tier == "quick" else 10
    for r in range(reps):
        for (f, l, a) in COMBO:
            modes = ["fixed"] if f in ("Binomial", "Poisson") else ["NR", "fixed"] if f == "NegativeBinomial" else ["NR", "M", "fixed"]
            for mode in modes:
                for weighted in (False, True):
                    i += 1
                    n, p = [(14, 2), (20, 3), (26, 4)][i % 3] if r else [(14, 2), (18, 3)][i % 2]
                    out.append((f"{f}-{l}-{mode}-{'w' if weighted else 'u'}-{r}", case(f, l, a, mode, weighted, n, p, hows[i % 3], r > 0 or i % 2 == 0)))
    return out


if __name__ == "__main__":
    run(cases)
