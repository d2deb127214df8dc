"""P06: exponential families and links of the GLM packages."""
import numpy as np
from vlib import run, num
from pystatsm.pyglm import families as f1, links as l1
from pystatsm.pyglm2 import families as f2, links as l2

PK = {"glm": (f1, l1), "glm2": (f2, l2)}
CLS = dict(identity="IdentityLink", logit="LogitLink", probit="ProbitLink", log="LogLink", reciprocal="ReciprocalLink",
           cloglog="CloglogLink", power="PowerLink", logcomp="LogComplementLink", negbin="NegativeBinomialLink")
LINKS = [("identity", 0), ("logit", 0), ("probit", 0), ("log", 0), ("reciprocal", 0), ("cloglog", 0), ("power", 0), ("power", 0.5),
         ("power", -2), ("power", 3.0), ("power", 1), ("power", -0.75), ("logcomp", 0), ("negbin", 1.0), ("negbin", 0.4), ("negbin", 2.5)]
UNIT = {"logit", "probit", "cloglog", "logcomp"}
POS = [("identity", 0), ("log", 0), ("reciprocal", 0), ("power", 0.5), ("power", -2), ("power", 0)]
FAM = {"Gaussian": POS + [("power", 3.0)], "InverseGaussian": POS, "Gamma": POS,
       "NegativeBinomial": [("log", 0), ("negbin", 0.4), ("negbin", 1.0), ("identity", 0), ("power", 0.5)],
       "Poisson": [("log", 0), ("identity", 0), ("power", 0.5)],
       "Binomial": [("logit", 0), ("probit", 0), ("cloglog", 0), ("logcomp", 0), ("identity", 0), ("log", 0), ("power", 2.0)]}


def mklink(pk, l, a):
    c = getattr(PK[pk][1], CLS[l], None)
    if c is None:
        return None
    return c(a) if l == "power" else c(scale=a) if l == "negbin" else c()


def means(rng, l, n, k=0):
    if l in UNIT:
        u = rng.uniform(0.02, 0.98, n)
        return np.where(rng.uniform(size=n) < .2, rng.choice([1e-3, 0.999, 0.5], n), u) if k else u
    if l == "identity":
        return rng.normal(size=n) * 3
    return np.exp(rng.normal(size=n) * (1.0 if k else 0.6))


def link_case(pk, l, a, k):
    def fn(tr):
        L = mklink(pk, l, a)
        n = int(tr.rng.integers(1, 7))
        mu = means(tr.rng, l, n, k)
        eta = tr.call(l, L.link, mu)
        if eta is None:
            return
        at = np.array(eta)
        with tr.frozen(l, mu, at):
            q = {}
            for nm, m, x in (("inv", "inv_link", at), ("d1", "dlink", mu), ("d2", "d2link", mu), ("d3", "d3link", mu), ("d4", "d4link", mu),
                             ("i1", "dinv_link", at), ("i2", "d2inv_link", at)):
                q[nm] = tr.call(f"{l}.{nm}", getattr(L, m), x)
                if q[nm] is not None:
                    q[nm] = np.broadcast_to(q[nm], x.shape)
            tr.ev("link", l=l, a=num(a), mu=mu, eta=eta, at=at, back=tr.call("back", L.inv_link, eta), **q)
        m = float(mu[0])
        e = tr.call("scalar-link", L.link, m)
        if e is not None:
            tr.ev("scalarlink", l=l, a=num(a), mu=num(m), eta=num(e), inv=tr.call("scalar-inverse", L.inv_link, e),
                  d1=tr.call("scalar-d1", L.dlink, m), i1=tr.call("scalar-i1", L.dinv_link, e))
    return fn


def data(rng, fam, l, n, phi, k):
    w = rng.uniform(0.3, 3.0, n)
    if fam == "Binomial":
        w = rng.integers(1, 12, n).astype(float)
        mu = rng.uniform(0.05, 0.95, n)
        y = rng.binomial(w.astype(int), mu) / w
    else:
        mu = np.exp(rng.normal(size=n) * 0.6)
        if fam == "Gaussian":
            y = mu + rng.normal(size=n)
        elif fam in ("Gamma", "InverseGaussian"):
            y = mu * np.exp(rng.normal(size=n) * .5)
        else:
            y = rng.poisson(mu * rng.uniform(.3, 3, n)).astype(float)
    return y, mu, w


def fam_case(pk, fam, l, a, rep):
    def fn(tr):
        rng = tr.rng
        n = int(rng.integers(2, 8))
        phi = float(np.exp(rng.normal() * .6)) if fam not in ("NegativeBinomial", "Binomial") else 1.0
        if rep == 0:
            phi = 1.0
        k = a if l == "negbin" else float(np.exp(rng.normal() * .5)) if fam == "NegativeBinomial" else 1.0
        y, mu, w = data(rng, fam, l, n, phi, k)
        mu2 = mu * rng.uniform(.6, 1.0, n)
        unitw = rep == 0
        stored = pk == "glm" and rep % 2 == 1         # weights kept on the family object
        ws = np.ones(n) if unitw else w
        F = getattr(PK[pk][0], fam)(mklink(pk, l, a), weights=ws if stored else 1.0)
        kw = {} if (stored or unitw) else dict(weights=ws)
        pd = dict(phi=phi, dispersion=k)
        E = {}
        with tr.frozen(fam, y, mu, ws):
            for nm, m in (("full", "_full_loglike"), ("ll", "_loglike"), ("sumfull", "full_loglike"), ("sumll", "loglike"), ("dev", "deviance"),
                          ("dres", "deviance_resid"), ("sres", "signed_resid"), ("pres", "pearson_resid"), ("chi2", "pearson_chi2"), ("gw", "gw"),
                          ("hw", "hw"), ("ehw", "get_ehw")):
                E[nm] = tr.call(f"{fam}.{nm}", getattr(F, m), y, mu=mu, **pd, **kw)
            E["ll2"] = tr.call(f"{fam}.ll", F._loglike, y, mu=mu2, **pd, **kw)
            gh = tr.call(f"{fam}.get_ghw", F.get_ghw, y, mu, **pd, **kw)
            E["gw2"], E["hw2"] = gh if gh is not None else (None, None)
            E["V"] = tr.call("V", F.var_func, mu=mu, dispersion=k)
            E["var"] = tr.call("variance", F.variance, mu=mu, **pd, **(kw if pk == "glm2" else {}))
            for j, m in enumerate(("dvar_dmu", "d2var_dmu2", "d3var_dmu3", "d4var_dmu4")):
                v = tr.call(m, getattr(F, m), mu, dispersion=k)
                E[f"V{j+1}"] = None if v is None else np.broadcast_to(v, mu.shape)
            tr.ev("fam", f=fam, l=l, a=num(a), y=y, mu=mu, mu2=mu2, w=ws, phi=num(phi), k=num(k), varw=pk == "glm2", **E)
            A = {}
            yy = mu + (y - mu) * .2
            for nm, m in (("A", "get_a"), ("g", "get_g"), ("W", "get_w"), ("A1", "da_dmu"), ("A2", "d2a_dmu2"), ("W1", "dw_deta"), ("W2", "d2w_deta2")):
                A[nm] = tr.call(f"{fam}.{nm}", getattr(F, m), yy, mu=mu, dispersion=k)
            tr.ev("work", f=fam, l=l, a=num(a), y=yy, mu=mu, k=num(k), **A)
            if pk == "glm2":
                for o in range(5):
                    vd = tr.call("var_derivs", F.var_derivs, mu, dispersion=k, order=o)
                    vs = [vd] if o == 0 else vd
                    ref = [E["V"], E["V1"], E["V2"], E["V3"], E["V4"]][:o + 1]
                    tr.ev("style", how=f"variance-derivatives-of-order-{o}:{fam}", a=np.concatenate(vs), b=np.concatenate(ref))
            if fam in ("Gaussian", "InverseGaussian", "Gamma", "NegativeBinomial"):
                tau = float(rng.normal() * .6)
                t = {}
                for nm, m, rd in (("g", "dtau", False), ("h", "d2tau", False), ("gs", "dtau", True), ("hs", "d2tau", True)):
                    t[nm] = tr.call(f"{fam}.{m}", getattr(F, m), tau, y, mu, reduce=rd, **kw)
                tr.ev("tau", f=fam, tau=num(tau), y=y, mu=mu, w=ws, **t)
            if fam in ("Gaussian", "InverseGaussian", "Gamma"):
                p = float(np.exp(rng.normal() * .6))
                tr.ev("llscale", f=fam, phi=num(p), y=y, l=F.llscale(p, np.abs(y)) if fam != "Gaussian" else F.llscale(p, y), l1=F.dllscale(p, y), l2=F.d2llscale(p, y))
            if pk == "glm":
                T = tr.call("canonical", F.canonical_parameter, mu, dispersion=k)
                if T is not None:
                    tr.ev("canon", f=fam, mu=mu, k=num(k), T=T, mean=tr.call("mean_func", F.mean_func, T, dispersion=k), b=tr.call("cumulant", F.cumulant, T, dispersion=k),
                          d2=tr.call("d2canonical", F.d2canonical, mu, dispersion=k))
                eta = F.link(mu)
                for m in ("_full_loglike", "deviance", "pearson_resid", "signed_resid", "deviance_resid"):
                    r = tr.call(m, getattr(F, m), y, eta=eta, **pd, **kw)
                    tr.ev("style", how=f"mean-from-linear-predictor:{m}:{fam}", a=r, b=getattr(F, m)(y, mu=mu, **pd, **kw))
                    if not stored and not unitw:      # explicit weights equal the same weights stored on the family
                        G = getattr(f1, fam)(mklink(pk, l, a), weights=ws)
                        tr.ev("style", how=f"weights-argument-or-attribute:{m}:{fam}", a=tr.call(m, getattr(G, m), y, mu=mu, **pd), b=r)
    return fn


def dist_case(pk, fam, rep, m):
    def fn(tr):
        rng = tr.rng
        phi = float(np.exp(rng.normal() * .6 - .3)) if fam in ("Gaussian", "Gamma", "InverseGaussian") else 1.0
        k = float(np.exp(rng.normal() * .5)) if fam == "NegativeBinomial" else 1.0
        n = int(rng.integers(1, 9)) if fam == "Binomial" else 1
        F = getattr(PK[pk][0], fam)(weights=n if fam == "Binomial" else 1.0)
        q = np.array([.01, .1, .37, .5, .8, .95, .999])
        mu = rng.uniform(.1, .9, 7) if fam == "Binomial" else np.exp(rng.normal(size=7) * .5)
        a = dict(dispersion=k) if fam == "NegativeBinomial" else dict(phi=phi) if fam in ("Gaussian", "Gamma", "InverseGaussian") else {}
        x = tr.call(f"{fam}.ppf", F.ppf, q, mu=mu, **a)
        if x is not None:
            tr.ev("ppf", f=fam, q=q, mu=mu, phi=num(phi), k=num(k), n=n, x=x * n)
        m0 = float(mu[0])
        M = np.full(m, m0)
        s = int(rng.integers(1e6))
        x = tr.call(f"{fam}.rvs", F.rvs, mu=M, seed=s, **a)
        if x is not None:
            y = F.rvs(mu=M, rng=np.random.default_rng(s), **a)
            tr.ev("rvs", f=fam, x=x, mu=num(m0), phi=num(phi), k=num(k), n=n, again=bool(np.array_equal(x, y)))
    return fn


def cases(seed, tier):
    R = 1 if tier == "quick" else 6
    out = []
    for pk in PK:
        for i, (l, a) in enumerate(LINKS):
            if mklink(pk, l, a) is None:
                continue
            for k in range(2 * R):
                out.append((f"link/{pk}/{l}/{i}/{k}", link_case(pk, l, a, k % 2)))
        for fam, ls in FAM.items():
            for i, (l, a) in enumerate(ls):
                if mklink(pk, l, a) is None:
                    continue
                for r in range(3 * R):
                    out.append((f"fam/{pk}/{fam}/{l}/{i}/{r}", fam_case(pk, fam, l, a, r)))
            for r in range(2 * R):
                out.append((f"dist/{pk}/{fam}/{r}", dist_case(pk, fam, r, 4000)))
    return out


if __name__ == "__main__":
    run(cases)
