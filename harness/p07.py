"""P07: least squares, single response and multivariate."""
import numpy as np
import pandas as pd
import scipy.stats
from vlib import run, num, ints
from pystatsm.pyglm.ols import OLS as OLS1, sumsq
from pystatsm.pyglm.linear_model import LinearModel, LikelihoodModel as LM1, ModelData as MD1
from pystatsm.pyglm2.ols import OLS as OLS2
from pystatsm.pyglm2.likelihood_model import LikelihoodModel as LM2
from pystatsm.pyglm2.regression_model import ModelData as MD2
from pystatsm.pyglm2.mvols import MVOLS, MMRParameterPacker
from pystatsm.utilities.output import get_param_table

CLS = {"glm2": OLS2, "lin": LinearModel}
HC = ["HC0", "HC1", "HC2", "HC3", "HC4"]


def design(rng, n, p, shape):
    X = rng.normal(size=(n, p))
    X[:, 0] = 1.0
    if shape == "outlier":
        X[0, -1] = 6.0
    if shape == "dummy" and p > 2:
        X[:, 1] = (np.arange(n) % 3 == 0)
    if shape == "scale":
        X[:, -1] *= 50
    if shape == "balanced":
        X[:, 1:] = np.array([[1 if (i >> j) & 1 else -1 for j in range(p - 1)] for i in range(n)])
    y = X.dot(rng.normal(size=p)) + rng.normal(size=n) * (1 + (np.abs(X[:, -1]) > 1))
    return X, y


def build(cls, how, X, y):
    p = X.shape[1]
    cols = ["Intercept"] + [f"v{j}" for j in range(1, p)]
    df = pd.DataFrame(X[:, 1:], columns=cols[1:])
    df["resp"] = y
    if how == "formula":
        return cls("resp ~ " + (" + ".join(cols[1:]) or "1"), df), cols
    if how == "frame":
        return cls(X=pd.DataFrame(X, columns=cols), y=pd.DataFrame({"resp": y})), cols
    if how == "series":
        return cls(X=pd.DataFrame(X, columns=cols, index=np.arange(len(y))[::-1]), y=pd.Series(y, name="resp", index=np.arange(len(y))[::-1])), cols
    m = cls(X=X, y=y)
    return m, list(m.xcols)


def single(tr, n, p, shape, how):
    rng = tr.rng
    X, y = design(rng, n, p, shape)
    fr = tr.frozen("inputs", X, y)
    if shape == "balanced" and how == "formula":
        y = y + 3.0
    tr.meta.update(X=num(X), y=num(y))
    labels = None
    for nm, cls in CLS.items():
        m, cols = build(cls, how, X, y)
        labels = cols
        t = rng.normal(size=p + 1)
        for reml in (True, False):
            tr.ev("nll", nm=nm + str(reml), t=t, reml=reml, v=num(m.loglike(t, reml=reml)), g=m.gradient(t, reml=reml), H=m.hessian(t, reml=reml))
            for k in ("_fit1", "_fit2"):
                G, Gi, L, Li, sse, b, tt = getattr(m, k)(None, (m.X, m.y), reml=reml)
                tr.ev("solution", nm=nm + k, reml=reml, G=G, Gi=Gi, L=L, Li=Li, sse=num(sse), b=b, t=tt)
            m._fit(reml=reml)
            r = m.res
            tr.ev("fit", nm=nm + str(reml), reml=reml, b=r["parameter"].values[:p], se=r["SE"].values[:p], t=r["t"].values[:p], p=r["p"].values[:p],
                  **({"lo": r.iloc[:p, 4].values, "hi": r.iloc[:p, 5].values} if reml else {}), lv=num(r["parameter"].values[p]), lvse=num(r["SE"].values[p]),
                  sml=num(m.scale_ml), sub=num(m.scale_unbiased), labels=[str(x) for x in r.index][:-1], yhat=m.X.dot(m.beta)) if reml else \
                tr.ev("solution", nm=nm + "fitml", reml=reml, G=m.G, Gi=m.Ginv, L=m.L, Li=m.Linv, sse=num(m.sse), b=m.beta, t=m.params)
        if nm == "glm2" and p > 1:
            m.fit()
            s, q = m.sumstats, m.ssq
            tr.ev("fit", nm=nm + "full", reml=True, tab=q.values.astype(float), r2=num(s.iloc[0, 0]), r2a=num(s.iloc[1, 0]), F=num(s.iloc[2, 0]), Fp=num(s.iloc[2, 1]),
                  b=m.res["parameter"].values[:p], se=m.res["SE"].values[:p], t=m.res["t"].values[:p], p=m.res["p"].values[:p], labels=[str(x) for x in m.res.index][:-1], yhat=m.predict())
        m._fit()
        for q in range(1, p):
            C = rng.normal(size=(q, p))
            for k, (d, kw) in enumerate([(None, {}), (rng.normal(size=q), {"L": m.L}), (rng.normal(size=q), {"Linv": m.Linv})]):
                b, s = m._get_coef_constrained(m.params, m.sse, (m.X, m.y), C, d=d, **kw)
                tr.ev("constrained", nm=f"{nm}{k}", C=C, d=np.zeros(q) if d is None else d, b=b, sse=num(s))
        h1, h2, h3, h4 = m._compute_leverage_cholesky(X), m._compute_leverage_cholesky(X, Linv=m.Linv), m._compute_leverage_qr(X), m._compute_leverage_qr(Q=np.linalg.qr(X)[0])
        for k, h in enumerate((h1, h2, h3, h4)):
            tr.ev("lev", nm=f"{nm}{k}", h=h)
        w = rng.normal(size=n)
        for kind in HC:
            tr.ev("meat", nm=nm, kind=kind, w=w, B=m.sandwich_cov(w, X, h1, kind))
    tr.meta.update(labels=[str(c) for c in labels])
    m, cols = build(OLS1, how, X, y)
    kinds = [HC[k] for k in rng.permutation(5)[:3]]
    m.fit(kinds)
    tr.meta.update(labels=[str(c) for c in cols])
    r = m.res
    if p > 1:
        s, q = m.sumstats, m.ssq
        tr.ev("fit", nm="ols", reml=True, tab=q.values.astype(float), r2=num(s.iloc[0, 0]), r2a=num(s.iloc[1, 0]), F=num(s.iloc[2, 0]), Fp=num(s.iloc[2, 1]), V=m.Vbeta,
              b=r["beta"].values, se=r["SE"].values, t=r["t"].values, p=r["p"].values, labels=labels if how == "array" else [str(x) for x in r.index], yhat=m.predict())
        z = sumsq(y, m.predict(), p)
        tr.ev("fit", nm="sumsq", reml=True, tab=np.c_[z[:3], z[3:6], z[6:9]], r2=num(z[9]), r2a=num(z[10]), F=num(z[11]), Fp=num(z[12]),
              b=m.beta, se=m.beta_se, t=m.tvalues, p=r["p"].values, labels=labels if how == "array" else [str(x) for x in r.index], yhat=m.predict(m.beta, X))
        if how == "array":
            tr.meta.update(labels=labels)
    for k in kinds:
        tr.ev("hc", kind=k, se=r["SE_" + k].values, t=r["t_" + k].values, p=r["p_" + k].values)
    for k in HC:
        tr.ev("hc", kind=k, se=m.robust_rcov(k)[2])
    tr.ev("hc", kind="HC3", se=m.robust_rcov()[2])
    tr.ev("lev", nm="ols", h=m.h)
    inf = m.get_influence()
    m._compute_jackknife_coefs()
    tr.ev("jack", J=m.beta_jackknife, m=m.beta_jackknife_mean, D=inf[list(m.xcols)].values)
    tr.ev("lev", nm="influence", h=inf["leverage"].values)
    tr.ev("ll", t=t, v=num(m.loglike(t)))
    tr.ev("ll", t=t[:-1], v=num(m.loglike(t[:-1])))
    tr.ev("cond", ci=m.cond["Cond"].values)
    fr.check()


def tests(tr, n, p):
    rng = tr.rng
    X, y = design(rng, n, p, "plain")
    tr.meta.update(X=num(X), y=num(y), labels=[])
    m = OLS2(X=X, y=y)
    m._fit(reml=False)
    f, g, h = (lambda t: m.loglike(t, reml=False)), (lambda t: m.gradient(t, reml=False)), (lambda t: m.hessian(t, reml=False))
    for nm, L in (("1", LM1), ("2", LM2)):
        for ix in ([0], [p - 1], sorted(rng.permutation(p)[:2].tolist())):
            vals = m.beta[ix] + 0.5 * m.params_se[ix] * rng.normal(size=len(ix))
            one = (lambda v: v[0]) if len(ix) == 1 and rng.integers(2) else (lambda v: v)
            a = (one(vals), one(ix))
            v = L._profile_loglike_restricted(*a, m.params, f, g, h)
            tr.ev("profile", nm="restricted" + nm, ix=[i + 1 for i in ix], vals=vals, v=num(v))
            o = L._profile_loglike_constrained(*a, m.params, f, g, h, return_info=True)
            tr.ev("profile", nm="constrained" + nm, ix=[i + 1 for i in ix], vals=vals, v=num(o.fun), x=o.x)
        i = int(rng.integers(p))
        lli = f(m.params) + 1.92
        prof = lambda b: L._profile_loglike_restricted(b, i, m.params, f, g, h)
        lo, hi = L._solve_interval(prof, m.params[i], m.params_se[i], lli)
        tr.ev("interval", nm="root" + nm, i=i + 1, lo=np.atleast_1d(lo), hi=np.atleast_1d(hi), est=num(m.params[i]), lli=num(lli), tol="1e-5")
        lo, hi = L._solve_interval(prof, m.params[i], m.params_se[i], lli, method="lstq")
        tr.ev("interval", nm="lstq" + nm, i=i + 1, lo=np.atleast_1d(lo), hi=np.atleast_1d(hi), est=num(m.params[i]), lli=num(lli), tol="1e-2")
        x = rng.normal(size=p + 1)
        ix = np.sort(rng.permutation(p + 1)[:3])
        vals = rng.normal(size=len(ix))
        mask = np.zeros(p + 1, bool)
        mask[ix] = True
        for how, k in (("index", ix), ("list", ix.tolist()), ("mask", mask)):
            c = L._make_constraints(k, vals)
            tr.ev("fixed", nm=how + nm, ix=[int(j) + 1 for j in ix], vals=vals, x=x, v=[num(d["fun"](x)) for d in c])
        for _ in range(3):
            nll, k, nn = 50 * rng.random() - 10, int(rng.integers(1, 8)), int(rng.integers(12, 90))
            tr.ev("info", nm=nm, nll=num(nll), k=k, n=nn, v=np.array(L._get_information(nll, k, nn)))
            z = 20 + 80 * rng.random()
            mo = z * (0.3 + 0.6 * rng.random())
            tr.ev("pseudo", m=num(mo), z=num(z), k=k, n=nn, v=np.array(L._get_pseudo_rsquared(mo, z, k, nn)), ix=[1, 2, 3, 4, 9] if nm == "1" else list(range(1, 10)))
            q = int(rng.integers(1, p))
            A, B, C = (lambda Z: Z.T.dot(Z))(rng.normal(size=(9, p))), (lambda Z: Z.T.dot(Z))(rng.normal(size=(9, p))), rng.normal(size=(q, p))
            A = A / 20
            t1, t0, gr = rng.normal(size=p), rng.normal(size=p), rng.normal(size=p)
            for df in (True, False):
                one = (lambda d: {kk: float(d[kk].iloc[0]) for kk in d}) if df else dict
                r = one(L._wald_test(t1, t0, C, A, B, return_dataframe=df))
                tr.ev("wald", kind="wald", A=A, B=B, C=C, t1=t1, t0=t0, g=gr, stat=num(r["Stat"]), df=num(r["df"]), p=num(r["P Value"]))
                r = one(L._score_test(gr, C, A, B, return_dataframe=df))
                tr.ev("wald", kind="score", A=A, B=B, C=C, t1=t1, t0=t0, g=gr, stat=num(r["Stat"]), df=num(r["df"]), p=num(r["P Value"]))
                l0 = -50 * rng.random()
                l1 = l0 + 4 * rng.random()
                r = one(L._lr_test(l1, l0, q, return_dataframe=df))
                tr.ev("lr", l1=num(l1), l0=num(l0), k=q, stat=num(r["Stat"]), df=num(r["df"]), p=num(r["P Value"]))
    for nu, kw in ((0, {}), (7, {"degfree": 7}), (30, {"degfree": 30, "alpha": 0.2}), (0, {"pdist": scipy.stats.norm(0, 1), "alpha": 0.01}), (3, {"degfree": 3, "parameter_label": "beta", "alpha": 0.5})):
        par, s = rng.normal(size=4), 0.2 + rng.random(4)
        t = get_param_table(par, s, index=list("abcd"), **kw)
        a = kw.get("alpha", 0.05)
        ci = f"CI{100 * (1 - a):g}"
        tr.ev("table", par=par, s=s, nu=nu, alpha=num(a), b=t[kw.get("parameter_label", "parameter")].values, se=t["SE"].values, t=t["t"].values, p=t["p"].values, lo=t["Lower" + ci].values, hi=t["Upper" + ci].values)


def container(tr, kind):
    rng = tr.rng
    MD = {"1": MD1, "2": MD2}[kind]
    n = 9
    X, Z, y = rng.normal(size=(n, 3)), rng.normal(size=(n, 2)), rng.normal(size=n)
    tr.meta.update(X=num(X), y=num(y), labels=[])
    for miss in (False, True):
        for wt in (False, True):
            A, B, c, w = X.copy(), Z.copy(), y.copy(), rng.random(n)
            if miss:
                A[2, 1], B[5, 0], c[7] = np.nan, np.nan, np.nan
            lab = rng.permutation(n) + 100
            d = MD(pd.DataFrame(A, columns=list("abc"), index=lab), B, pd.Series(c, index=lab, name="resp"))
            d.flatten_y()
            if wt:
                d.add_weights(w.copy())
            comp = [i for i in range(n) if not (miss and i in (2, 5, 7))]
            if kind == "2":
                d.drop_missing()
            else:
                comp = list(range(n))
            arrs, src = list(d), [A, B, c] + ([w] if wt else [])
            pick = sorted(rng.permutation(len(comp))[:4].tolist())
            sel = list(d[np.array(pick)])
            tr.ev("data", nm=f"{kind}{int(miss)}{int(wt)}", arrs=arrs, src=src, complete=[i + 1 for i in comp], kept=[i + 1 for i in comp], idx=[ints(i) for i in d.indexes], want=[ints(lab[comp]), comp, ints(lab[comp])],
                  pick=[i + 1 for i in pick], sel=sel, len=len(d), cols=[[str(x) for x in c_] for c_ in d.columns], wcols=[["a", "b", "c"], ["x0", "x1"], ["resp"]])


def mv(tr, n, p, q, how, wkind):
    rng = tr.rng
    X, _ = design(rng, n, p, "dummy")
    Y = X.dot(rng.normal(size=(p, q))) + rng.normal(size=(n, q)).dot(rng.normal(size=(q, q)))
    w = {"none": None, "unequal": 0.3 + rng.random(n), "counts": rng.integers(1, 4, size=n).astype(float)}[wkind]
    tr.meta.update(X=num(X), Y=num(Y), w=num(np.ones(n) if w is None else w), labels=[])
    fr = tr.frozen("inputs", X, Y, w)
    cols = ["Intercept"] + [f"v{j}" for j in range(1, p)]
    yc = [f"r{j}" for j in range(q)]
    if how == "formula":
        df = pd.DataFrame(np.c_[X[:, 1:], Y], columns=cols[1:] + yc)
        m = MVOLS(" + ".join(yc) + " ~ " + " + ".join(cols[1:]), df, weights=w)
    elif how == "frame":
        m = MVOLS(X=pd.DataFrame(X, columns=cols), y=pd.DataFrame(Y, columns=yc), weights=w)
    else:
        m = MVOLS(X=X, y=Y if q > 1 else Y[:, 0], weights=w)
        cols, yc = [f"x{j}" for j in range(p)], [f"y{j + 1}" for j in range(q)]
    L = np.tril(rng.normal(size=(q, q)))
    L[np.diag_indices(q)] = 0.3 + rng.random(q)
    B = rng.normal(size=(p, q))
    t = m.packer.pack(B, L)
    B2, L2 = m.packer.unpack(t)
    want = [f"{r}~{c}" for r in yc for c in cols] + [("log_chol_prec" if i == j else "chol_prec") + f"[{yc[i]},{yc[j]}]" for i in range(q) for j in range(i + 1)]
    tr.ev("pack", t=t, p=p, q=q, B=B, L=L, B2=B2, L2=L2, labels=list(m.param_labels), want=want)
    tr.ev("mvnll", t=t, v=num(m.loglike(t)), g=m.gradient(t), gi=m.gradient_i(t), H=m.hessian(t))
    for method, tol, gtol in (("closed_form", "1e-8", "1e-6"), ("mle", "1e-4", "1e-3")):
        if method == "mle" and (q > 2 or p > 3):
            continue
        m.fit(method)
        r = m.res
        Xn = rng.normal(size=(3, p))
        tr.ev("mvfit", nm=method, t=m.params, B=m.beta, S=m.sigma_mle, P=m.precision, Su=m.sigma_unbiased, b=r["parameter"].values, se=r["SE"].values, p=r["p"].values, lo=r.iloc[:, 4].values, hi=r.iloc[:, 5].values,
              r2=m.rsquared["R2"].values, r2a=m.rsquared["R2_adj"].values, r2t=num(m.r2_trace), llf=num(m.llf), ic=np.array([m.aic, m.aicc, m.bic, m.caic]), fit=m.fitted_values, pred=m.predict(Xn), Xn=Xn, tol=tol, gtol=gtol)
        tr.events[-1]["th"] = tr.events[-1]["t"]
        tr.events[-1]["t"] = num(r["t"].values)
    m.fit()
    H = lambda d: d[["Value", "Num DF", "Den DF", "F Value", "P Value"]].values.astype(float)
    I = np.eye(q)
    terms = [c for c in cols if c != "Intercept" and c != "x0"] if how != "formula" else cols[1:]
    sl = np.eye(p)[1:]
    dfe = n - p
    def fine(qq, dh):
        return (dfe - qq - 1) / 2 > 1 and qq * qq * dh * dh != 4 or (qq * dh == 2)
    for k, c in enumerate(terms):
        tr.ev("hyp", nm="term", L=sl[[k]], M=I, tab=H(m.mv_tests.loc[c]))
    if len(terms) > 1:
        tr.ev("hyp", nm="regression", L=sl, M=I, tab=H(m.mv_tests.loc["Regression"]))
    for lr in range(1, p):
        Lm = rng.normal(size=(lr, p))
        tr.ev("hyp", nm="contrast", L=Lm, M=I, tab=H(m.test_hypothesis(Lm if lr > 1 else Lm[0])))
        for mc in range(1, q):
            M = rng.normal(size=(q, mc))
            tr.ev("hyp", nm="transformed", L=Lm, M=M, tab=H(m.test_hypothesis(Lm, M)))
    if q > 1:
        M = rng.normal(size=(q, q - 1))
        tab = m.multivariate_tests(M)
        tr.ev("hyp", nm="termM", L=sl[[0]], M=M, tab=H(tab.loc[terms[0]]))
    tr.ev("assoc", L=sl, v=m.assoc["Value"].values, cc=np.asarray(m.canonical_corr), r2d=num(m.r2_det))
    fr.check()


def cases(seed, tier):
    out = []
    hows = ["formula", "frame", "series", "array"]
    shapes = ["plain", "outlier", "dummy", "scale", "balanced"]
    reps = 1 if tier == "quick" else 4
    for r in range(reps):
        for k, shape in enumerate(shapes):
            for j, (n, p) in enumerate([(12, 3), (17, 4), (9, 2)]):
                how = hows[(k + j + r) % 4]
                if shape == "balanced":
                    n = 16
                out.append((f"single-{shape}-{p}-{how}-{r}", lambda tr, a=(n, p, shape, how): single(tr, *a)))
        for p in (3, 4):
            out.append((f"tests-{p}-{r}", lambda tr, p=p: tests(tr, 18, p)))
        for k in "12":
            out.append((f"container-{k}-{r}", lambda tr, k=k: container(tr, k)))
        for k, (n, p, q) in enumerate([(14, 2, 2), (16, 3, 2), (18, 3, 3), (12, 2, 1), (17, 4, 2), (16, 3, 1), (22, 4, 3)]):
            for j, wk in enumerate(["none", "unequal", "counts"]):
                out.append((f"mv-{p}{q}-{wk}-{r}", lambda tr, a=(n, p, q, ["formula", "frame", "array"][(k + j) % 3], wk): mv(tr, *a)))
    return out


run(cases)
