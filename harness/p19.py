"""P19: smooths and additive models (pygam, utilities.splines)."""
import numpy as np, pandas as pd
from vlib import run, num, ints
from pystatsm.utilities import splines as SP
from pystatsm.pygam import smooth_setup as SS
from pystatsm.pygam.gam import GAM
from pystatsm.pygam.gauls import GauLS, LogbLink, PredictorTerm
from pystatsm.pygam.gaussian_additive_model import GaussianAdditiveModel
from pystatsm.pygam.transforms import diagonalize_smooth
from pystatsm.pyglm.families import Gaussian, Gamma, InverseGaussian
from pystatsm.pyglm.links import LogLink, IdentityLink, ReciprocalLink, Link

GETS = {"cr": SP._get_crsplines, "bs": SP._get_bsplines, "cc": SP._get_ccsplines}
BAS = {"cr": lambda x, k, f: SP.crspline_basis(x, k, f["F"]), "cc": lambda x, k, f: SP.ccspline_basis(x, k, f["F"]),
       "bs": lambda x, k, f: SP.bspline_basis(x, k)}
LEV = "abc"


def splines(tr, kind, df, n, ties):
    rng = tr.rng
    x = rng.uniform(-2, 3, size=n)
    if ties:
        x = np.round(x, 1)
    o = tr.call("get", GETS[kind], x, df)
    if o is None:
        return
    X, S, kn, fk = o
    F = fk.get("F", np.zeros((1, 1)))
    tr.ev("basis", kind=kind, df=df, x=num(x), X=num(X), S=num(S), knots=num(kn), F=num(F))
    # anywhere in the range, the knots and the ends included
    lo, hi = (kn[3], kn[-4]) if kind == "bs" else (kn[0], kn[-1])
    z = np.r_[np.sort(rng.uniform(lo, hi, size=12)), kn[(kn >= lo) & (kn <= hi)]]
    if kind == "bs":
        z = z[z < hi - 1e-9]
    with tr.frozen("basis", z, kn):
        B = tr.call("eval", BAS[kind], z, kn, fk)
    if B is not None:
        # knots judged on the data they came from
        tr.ev("basis", kind=kind, df=df, x=num(x), X=num(X), knots=num(kn), F=num(F))
        tr.ev("bval", kind=kind, x=num(z), X=num(B), knots=num(kn), F=num(F))


def bsplines(tr):
    rng = tr.rng
    for deg in (2, 3, 4):
        x = rng.uniform(0, 1, size=20)
        kn, inner = tr.call("knots", SP.bspline_knots, x, deg + 5, deg)
        h = 1e-3
        mid = np.concatenate([a + (b - a) * np.array([.3, .7]) for a, b in zip(inner[:-1], inner[1:])])
        for d in (1, 2):
            f = lambda z, k: SP.bspline_basis(z, kn, k, deg)
            D = tr.call("bspline_basis", f, mid, d)
            if D is None:
                return
            v = rng.normal(size=7)
            tr.ev("bderiv", B=num(f(x, 0)), D=num(D), h=h, p1=num(f(mid + h, d - 1)), m1=num(f(mid - h, d - 1)), p2=num(f(mid + 2 * h, d - 1)), m2=num(f(mid - 2 * h, d - 1)),
                  diff=num(SP.difference_mat(7, d)), v=num(v), dv=num(np.diff(v, d)))


def gcvs(tr, kind):
    rng = tr.rng
    n = 24
    x = np.sort(rng.uniform(0, 1, size=n))
    X, S, _, _ = GETS[kind](x, 6)
    y = np.sin(4 * x) + rng.normal(0, .3, size=n)
    S = S / np.abs(S).max()
    for a in (1e-3, .05, 1.):
        g = float(rng.uniform(1.1, 1.8))
        o = tr.call("gcv", lambda: (SP.gcv(a, X, y, S), SP.double_gcv(a, X, y, S, g), SP.grad_gcv(a, X, y, S), SP.grad_double_gcv(a, X, y, S, g)))
        if o is not None:
            tr.ev("gcv", X=num(X), y=num(y), S=num(S), a=repr(a), g=repr(g), v=num(o[0]), dv=num(o[1]), gv=num(o[2]), gdv=num(o[3]))


def frame(rng, n, fam="Gaussian", link="identity"):
    d = pd.DataFrame({"x1": rng.uniform(-1, 1, n), "x2": rng.uniform(0, 1, n), "u": rng.normal(size=n), "cos": rng.normal(size=n),
                      "g": np.array(list(LEV))[np.r_[np.arange(n) % 3]]})
    eta = .6 * np.sin(3 * d.x1) + .5 * np.cos(2 * np.pi * d.x2) + .3 * d.u + .2 * (d.g == "b")
    if fam == "Gaussian":
        y = eta + rng.normal(0, .4, n)
    else:
        mu = np.exp(eta) if link == "log" else 1 / (2 + eta * .5)
        y = mu * rng.gamma(6, 1 / 6, size=n)
    d["y"] = y
    return d


def term(t):
    """(variable, df, kind, by, text) -> formula text"""
    var, df, kind, by, q = t
    return f"s({var}, df={df}, kind={q}{kind}{q}{', by=' + by if by else ''})" if q != "pos" else f"s({var}, {df}, '{kind}'" + (f", {by})" if by else ")")


def blocks(smooths, terms, d, off=0):
    """expected smooths, in order, against the model's own knots / rotation"""
    out, seen = [], {}
    for var, df, kind, by, q in terms:
        seen[var] = seen.get(var, 0) + 1
        key = var if seen[var] == 1 else f"{var}.{seen[var]}"
        for lev in (list(LEV) if by else [None]):
            k = key if lev is None else f"{key}_{lev}"
            s = smooths[k]
            B, S0 = GETS[kind](d[var].values, df)[:2]
            ind = np.ones(len(d)) if lev is None else (d[by] == lev).astype(float).values
            out.append(dict(key=k, name=k if lev is None else f"{k}_", lo=int(s["ix"][0]) + 1 + off, hi=int(s["ix"][-1]) + 1 + off,
                            q=num(s["q"]), B=num(B), S0=num(S0), ind=num(ind)))
    return out


def design(tr, m, d, par, terms, tail, Xref, names=None, theta=True, keys=None):
    sm = blocks(m.smooths, terms, d)
    kw = dict(theta=num(m.theta[:len(sm)])) if theta else {}
    tr.ev("design", sm=sm, terms=list(m.smooths) if keys is None else keys, par=par, names=list(names if names is not None else m.varnames), tail=tail,
          Xp=num(m.Xp), Xref=num(Xref), ranks=ints(m.ranks), ldS=num(m.ldS), mp=float(m.mp), **kw)
    return sm


DES = {  # formula, parametric names, parametric columns, smooth terms
    "cr-cc": ("y~g+{0}+{1}", ["Intercept", "g[T.b]", "g[T.c]"], lambda d: [1, d.g == "b", d.g == "c"], [("x1", 7, "cr", "", "'"), ("x2", 6, "cc", "", '"')]),
    "bs": ("y~{0}+u", ["Intercept", "u"], lambda d: [1, d.u], [("x1", 7, "bs", "", "'")]),
    "by": ("y~{0}", ["Intercept"], lambda d: [1], [("x1", 5, "cr", "g", "'")]),
    "twice": ("y~u+{0}+{1}", ["Intercept", "u"], lambda d: [1, d.u], [("x1", 6, "cr", "", "pos"), ("x1", 5, "cc", "g", "pos")]),
    "nointercept": ("y~{0}-1+g", ["g[a]", "g[b]", "g[c]"], lambda d: [d.g == "a", d.g == "b", d.g == "c"], [("x2", 6, "cr", "", "'")]),
    "fns": ("y~np.cos(u)+{0}+cos", ["Intercept", "np.cos(u)", "cos"], lambda d: [1, np.cos(d.u), d.cos], [("x2", 6, "cr", "", "'")]),
    "inter": ("y ~ {0} + u*x2 + {1}", ["Intercept", "u", "x2", "u:x2"], lambda d: [1, d.u, d.x2, d.u * d.x2], [("x1", 5, "bs", "", "'"), ("cos", 4, "cr", "", '"')]),
}


def cols(d, f):
    return np.column_stack([np.broadcast_to(np.asarray(c, float), (len(d),)) for c in f(d)])


FAMS = {"Gaussian": (lambda: None, "identity"), "Gamma": (lambda: Gamma(link=LogLink), "log"), "InverseGaussian": (lambda: InverseGaussian(link=LogLink), "log"),
        "GammaR": (lambda: Gamma(), "reciprocal"), "GaussianL": (lambda: Gaussian(link=LogLink), "log")}


def setup(tr, m, fam, link):
    tr.meta.update(model="gam", X=num(m.X), y=num(m.y), S=[num(s) for s in m.S], fam=fam, link=link)


def build(tr, cls, which, n, fam="Gaussian"):
    frm, par, f, terms = DES[which]
    mk, link = FAMS[fam]
    base = fam.rstrip("RL") if fam in ("GammaR", "GaussianL") else fam
    d = frame(tr.rng, n, base if fam != "GaussianL" else "Gamma", link)
    text = frm.format(*[term(t) for t in terms])
    m = tr.call("model", *((GAM, text, d) if cls is GAM else (cls, text, d)), **({"family": mk()} if cls is GAM else {}))
    if m is None:
        tr.meta.update(model="gam", X="1x1|1", y="1x1|1", S=["1x1|1"], fam=base, link=link)
        return None
    setup(tr, m, base, link)
    tail = [f"log_smooth_{k}" for k in m.smooths] + ["log_scale"]
    design(tr, m, d, par, terms, tail, cols(d, f))
    return m, d, terms


def sten(f, x, j, h):
    e = np.zeros_like(x)
    e[j] = h
    return [f(x + e), f(x - e), f(x + 2 * e), f(x - 2 * e)]


def nested(b):
    return [nested(v) for v in b] if b.ndim > 1 else num(b)


def deriv_session(tr, which, fam, n, deep):
    o = build(tr, GAM, which, n, fam)
    if o is None:
        return
    m, d, terms = o
    dd = tr.call("diagonalize", lambda: diagonalize_smooth(m.nx, m.smooths)) if all(t[2] != "cc" for t in terms) else None
    if dd is not None:
        _, rm, ixp, ixf, ixl = dd
        pen = [ints(s["ix"][:-1] + 1) for s in m.smooths.values()]
        tr.ev("diagonal", T=num(rm["T"]), Ti=num(rm["Ti"]), pen=pen, ixp=ints(ixp), ixf=ints(ixf), ixl=ints(ixl))
    h = 1e-2
    for _ in range(2 if deep else 1):
        rho = tr.rng.uniform(-1, 4, size=m.ns)
        lam, phi = np.exp(rho), float(np.exp(tr.rng.uniform(-2, 0)))
        o = tr.call("pirls", m.pirls, lam)
        if o is None:
            return
        beta, eta, mu, dev, conv, _ = o
        S = tr.call("penalty", m.get_penalty_mat, lam)
        tr.ev("pirls", lam=num(lam), beta=num(beta), eta=num(eta), mu=num(mu), dev=float(dev), pen=True, conv=bool(conv), S=num(S), tol=1e-4 if fam != "Gaussian" else 1e-7)
        b = beta + tr.rng.normal(size=len(beta)) * .02
        o = tr.call("beta", lambda: (m.grad_dev_beta(b, S), *m.hess_dev_beta(b, S), *m.get_wz(m.X @ b)))
        if o is None:
            return
        tr.ev("beta", beta=num(b), lam=num(lam), g=num(o[0]), D2=num(o[1]), Dp2=num(o[2]), z=num(o[3]), w=num(o[4]), c=1)
        fit = lambda r: m.pirls(np.exp(r))[0]
        o = tr.call("rho", lambda: (m.grad_beta_rho(beta, lam), m.hess_beta_rho(beta, lam), m.dhess_beta_rho(beta, lam)))
        if o is None:
            return
        b1s = [[num(v) for v in sten(lambda r: m.grad_beta_rho(fit(r), np.exp(r)), rho, j, h)] for j in range(m.ns)]
        b2s = [[nested(v) for v in sten(lambda r: m.hess_beta_rho(fit(r), np.exp(r)), rho, j, h)] for j in range(m.ns)]
        tr.ev("rho", beta=num(beta), lam=num(lam), b1=num(o[0]), b2=nested(o[1]), b3=nested(o[2]), b1s=b1s, b2s=b2s, h=h, tol=1e-4)
        theta = np.r_[rho, np.log(phi)]
        criterion(tr, m, theta, beta, h)


def criterion(tr, m, theta, beta, h):
    o = tr.call("reml", lambda: (m.reml(theta), m.gradient(theta), m.hessian(theta), m.logdetS(np.exp(theta[:-1]), np.exp(theta[-1]))))
    if o is None:
        return
    k = len(theta)
    tr.ev("criterion", theta=num(theta), beta=num(beta), v=float(o[0]), g=num(o[1]), H=num(o[2]), lds=float(o[3]), h=h, tol=1e-4,
          vs=[[float(v) for v in sten(m.reml, theta, j, h)] for j in range(k)], gs=[[num(v) for v in sten(m.gradient, theta, j, h)] for j in range(k)])


def smtab(m, off=0):
    out = []
    for k, s in m.smooths.items():
        r = m.res_smooths.loc[k]
        out.append(dict(lo=int(s["ix"][0]) + 1, hi=int(s["ix"][-1]) + 1, edf=float(r["edf"]), rdf=float(r["rdf"]), chisq=float(r["chisq"]), p=float(r["p_approx"])))
    return out


def comp(tr, m, key, s, f, level, beta, pts=None, ix=None):
    ix = s["ix"] if ix is None else ix
    kw = {} if pts is None else dict(pts=num(pts))
    tr.ev("component", f=num(f), knots=num(s["knots"]), kind=s["kind"], q=num(s["q"]), F=num(s["fkws"].get("F", np.zeros((1, 1)))), b=num(beta[ix]), V=num(m.Vc[np.ix_(ix, ix)]), level=level, **kw)


def fit_session(tr, cls, which, fam, n, approx):
    o = build(tr, cls, which, n, fam)
    if o is None:
        return
    m, d, terms = o
    level = [95, 90, 99][n % 3]
    kw = dict(approx_hess=approx) if cls is GAM else {}
    tr.call("fit", m.fit, confint=level, **kw)
    if not hasattr(m, "res"):
        return
    g = m.gradient(m.theta)
    stats = dict(stats=num(m.sumstats.values.ravel())) if cls is GAM else {}
    if cls is GAM:
        stats["sm"] = smtab(m)
    tr.ev("fit", beta=num(m.beta), theta=num(m.theta), ok=bool(m.opt.success), grad=num(g), Vb=num(m.Vb), Vp=num(m.Vp), H=num(m.hessian(m.theta)), Vc=num(m.Vc), Vf=num(m.Vf),
          edf=float(m.edf), res=num(m.res.values), level=level, scale=float(m.scale), tol=1e-4 if fam != "Gaussian" else 1e-6, **stats)
    lo, hi = [], []
    for lev in (95, 80):
        fs = tr.call("components", m.get_smooth_comps, ci=lev) if cls is GAM else tr.call("components", m.get_smooth_comps, m.beta, ci=lev)
        if fs is None:
            return
        for k, s in m.smooths.items():
            if k in fs:
                comp(tr, m, k, s, fs[k], lev, m.beta)
    if cls is GAM:
        b = m.beta + tr.rng.normal(size=len(m.beta))
        for k, s in m.smooths.items():
            pts = tr.rng.uniform(s["x0"].min(), s["x0"].max(), size=9)
            fs = tr.call("components-at", m.get_smooth_comps, [k], {k: pts}, b, 90)
            if fs is not None:
                comp(tr, m, k, s, fs[k], 90, b, pts)


def gam_pair(tr, which, n):
    """the Gaussian special case agrees with the general model, and derives its own criterion"""
    o = build(tr, GaussianAdditiveModel, which, n)
    if o is None:
        return
    m, d, terms = o
    rho = tr.rng.uniform(-1, 4, size=m.ns)
    lam = np.exp(rho)
    beta, eta, dev, ok, _ = tr.call("pirls", m.pirls, lam)
    S = m.get_penalty_mat(lam)
    tr.ev("pirls", lam=num(lam), beta=num(beta), eta=num(eta), dev=float(dev), pen=False, conv=True, S=num(S), tol=1e-7)
    b = tr.rng.normal(size=m.nx)
    z, w = m.get_wz(m.X @ b)
    tr.ev("beta", beta=num(b), lam=num(lam), Dp2=num(m.hess_dev_beta(b, S)), z=num(z), w=num(w), c=2)
    tr.ev("rho", beta=num(beta), lam=num(lam), b1=num(m.grad_beta_rho(beta, lam)), b1s=[], h=1e-2)
    criterion(tr, m, np.r_[rho, -.7], beta, 1e-2)


# ---------- Gaussian location and scale ----------
LINKS = {"identity": IdentityLink, "log": LogLink, "logb": LogbLink}
GD = {"both": ("y~u+{0}", [("x1", 6, "cr", "", "'")], "y~1+{0}", [("x2", 5, "cc", "", "'")]),
      "scale-only": ("y~u", [], "y~1+{0}", [("x1", 6, "cr", "", "'")]),
      "mean-only": ("y~1+{0}", [("x1", 6, "bs", "", "'")], "y~u", []),
      "same-var": ("y~g+{0}+{1}", [("x1", 6, "cr", "", "'"), ("x2", 5, "cr", "", "'")], "y~1+{0}", [("x1", 5, "cr", "", "'")]),
      "by": ("y~g+{0}", [("x1", 4, "cr", "g", "'")], "y~1+{0}", [("x2", 5, "cr", "", "'")]),
      "no-scale-const": ("y~1+{0}", [("x1", 5, "cr", "", "'")], "y~{0}-1+g", [("x2", 5, "cr", "", "'")])}
PAR = {"y~u+{0}": (["Intercept", "u"], lambda d: [1, d.u]), "y~u": (["Intercept", "u"], lambda d: [1, d.u]), "y~1+{0}": (["Intercept"], lambda d: [1]),
       "y~g+{0}": (["Intercept", "g[T.b]", "g[T.c]"], lambda d: [1, d.g == "b", d.g == "c"]), "y~g+{0}+{1}": (["Intercept", "g[T.b]", "g[T.c]"], lambda d: [1, d.g == "b", d.g == "c"]),
       "y~{0}-1+g": (["g[a]", "g[b]", "g[c]"], lambda d: [d.g == "a", d.g == "b", d.g == "c"])}


def gauls(tr, which, n, ml="identity", sl="logb", b=.01, wt=None, fit=False):
    mf, mt, sf, st = GD[which]
    rng = tr.rng
    d = frame(rng, n)
    if ml == "log":
        d["y"] = np.exp(.3 * np.sin(3 * d.x1) + 1) + rng.normal(0, .2, n)
    d["y"] = d.y + rng.normal(size=n) * .3 * np.abs(d.x2)
    d["wts"] = rng.uniform(.3, 2.5, size=n)
    slink = LogbLink(b) if sl == "logb" else LINKS[sl]
    kw = {} if wt is None else dict(weights="wts" if wt == "column" else d["wts"].values, weights_normalize=wt != "raw")
    m = tr.call("model", GauLS, mf.format(*[term(t) for t in mt]), sf.format(*[term(t) for t in st]), d, LINKS[ml], slink, **kw)
    if m is None:
        tr.meta.update(model="gauls", X="1x1|1", y="1x1|1", S=["1x1|1"])
        return
    w = np.ones(n) if m.w is None else m.w
    tr.meta.update(model="gauls", X=num(m.Xt), y=num(m.y), S=[num(s) for s in m.S], mlink=ml, slink=sl, b=repr(b), w=num(w), pm=int(m.nxm), fam="Gaussian", link=ml)
    tr.ev("weights", given=num(np.ones(n) if wt is None else d["wts"].values), used=num(w), norm=wt != "raw")
    if wt is not None:
        for bad, what in ((d["wts"].values[:-1], "length"), (-d["wts"].values, "negative")):
            tr.ev("reject", what=what, err=tr.expect_error(what, GauLS, mf.format(*[term(t) for t in mt]), sf.format(*[term(t) for t in st]), d, weights=bad))
    names = [f"m({v})" for v in mnames(mf, mt)] + [f"s({v})" for v in mnames(sf, st)] + [f"m(log_smooth_{k})" for k in m.m.smooths] + [f"s(log_smooth_{k})" for k in m.s.smooths]
    tr.ev("names", a=list(m.varnames), b=names)
    lo, P = m.ns, {}
    h = 1e-2
    if not fit:
        rho = rng.uniform(0, 3, size=m.ns)
        lam = np.exp(rho)
        S = m.get_penalty_mat(lam)
        beta = tr.call("beta_rho", m.beta_rho, rho)
        if beta is None:
            return
        bb = beta + rng.normal(size=m.nx) * .05
        o = tr.call("derivs", lambda: (m.loglike(bb), m.penalized_loglike(bb, S), m.grad_ll_beta(bb), m.grad_pll_beta(bb, S), m.hess_ll_beta(bb), m.hess_pll_beta(bb, S), m.ll_eta_derivs(bb[m.ixm], bb[m.ixs])))
        if o is None:
            return
        tr.ev("gderiv", beta=num(bb), lam=num(lam), ll=float(o[0]), pll=float(o[1]), g=num(o[2]), pg=num(o[3]), H=num(o[4]), pH=num(o[5]), **{f"L{i+1}": num(o[6][i]) for i in range(4)})
        o = tr.call("rho", lambda: (m.grad_beta_rho(beta, lam), m.hess_beta_rho(beta, lam), m.dhess(beta, lam), m.d2hess(beta, lam)))
        if o is None:
            return
        at = lambda r: (m.beta_rho(r), np.exp(r))
        k = m.ns
        b1s = [[num(v) for v in sten(lambda r: m.grad_beta_rho(*at(r)), rho, j, h)] for j in range(k)]
        tr.ev("rho", beta=num(beta), lam=num(lam), H=num(m.hess_ll_beta(beta)), b1=num(o[0]), b2=nested(o[1]), b1s=b1s, h=h, tol=1e-4)
        dHs = [[[num(q) for q in v] for v in sten(lambda r: m.dhess(*at(r)), rho, j, h)] for j in range(k)]
        tr.ev("dhess", beta=num(beta), b1=num(o[0]), dH=[num(v) for v in o[2]], d2H=[[num(v) for v in r] for r in o[3]], dHs=dHs, h=h, tol=1e-3)
        o = tr.call("reml", lambda: (m.reml(rho), m.gradient(rho), m.hessian(rho), m.logdetS(rho), m._f_grad_hess(rho)))
        if o is None:
            return
        tr.ev("gcriterion", rho=num(rho), beta=num(beta), S=num(S), v=float(o[0]), g=num(o[1]), Hr=num(o[2]), lds=float(o[3]), all=[num(v) for v in o[4]], h=h, tol=1e-4,
              vs=[[float(v) for v in sten(m.reml, rho, j, h)] for j in range(k)], gs=[[num(v) for v in sten(m.gradient, rho, j, h)] for j in range(k)])
        return
    level = [95, 90][n % 2]
    tr.call("fit", m.fit, confint=level)
    if not hasattr(m, "res"):
        return
    tr.ev("gfit", beta=num(m.beta), theta=num(m.theta), ok=bool(m.opt.success), grad=num(m.gradient(m.theta)), Vb=num(m.Vb), Vp=num(m.Vp), H=num(m.hessian(m.theta)), Vc=num(m.Vc), Vf=num(m.Vf),
          edf=float(m.edf), res=num(m.res.values), level=level, sm=smtab(m), stats=num(m.sumstats.values.ravel()), reml=float(m.reml(m.theta)), mu=num(m.mu), tau=num(m.tau),
          resid=num(m.resids), pearson=num(m.pearson_resids))
    fs = tr.call("components", m.get_smooth_comps, m.beta, ci=level)
    if fs is not None:
        tr.ev("names", a=list(fs), b=[f"m({k})" for k in m.m.smooths] + [f"s({k})" for k in m.s.smooths])
        for k, s in m.smooths.items():
            comp(tr, m, k, s, fs[k], level, m.beta)
    bm = m.beta[:m.nxm]
    bs = m.beta[m.nxm:]
    for key in sorted(set(m.m.smooths) | set(m.s.smooths)):
        x0 = (m.m.smooths.get(key) or m.s.smooths.get(key))
        pts = rng.uniform(x0["knots"][3] if x0["kind"] == "bs" else x0["knots"].min(), x0["knots"][-4] if x0["kind"] == "bs" else x0["knots"].max(), size=7)
        o = tr.call("predict_component", m.predict_component, key, pts)
        if o is None:
            continue

        def part(p, b):
            s = p.smooths.get(key)
            return dict(has=False) if s is None else dict(has=True, kind=s["kind"], knots=num(s["knots"]), q=num(s["q"]), F=num(s["fkws"].get("F", np.zeros((1, 1)))), b=num(b[s["ix"]]))
        tr.ev("gcomponent", x=num(pts), mu=num(o["mu"].values), sd=num(o["sd"].values), bm=float(bm[0]) if "Intercept" in mnames(mf, mt) else 0, bs=float(bs[0]) if "Intercept" in mnames(sf, st) else 0,
              m=part(m.m, bm), s=part(m.s, bs))


def mnames(f, terms):
    out, seen = list(PAR[f][0]), {}
    for var, df, kind, by, q in terms:
        p = df - 1 - (kind == "cc")
        for lev in (list(LEV) if by else [None]):
            out += [f"{var}{j}" if lev is None else f"{var}_{lev}_{j}" for j in range(1, p + 1)]
    return out


def predictor(tr, f, terms):
    d = frame(tr.rng, 40)
    m = tr.call("predictor", PredictorTerm, f.format(*[term(t) for t in terms]), d, IdentityLink)
    tr.meta.update(model="gam", X=num(m.X), y=num(m.y), S=[num(s) for s in m.S], fam="Gaussian", link="identity")
    design(tr, m, d, PAR[f][0], terms, [], cols(d, PAR[f][1]), names=m.x_varnames)


def logb(tr):
    for b in (.01, .1, .5):
        L = tr.call("link", LogbLink, b)
        mu = tr.rng.uniform(.1, .9 / b if b > .05 else 5., size=8)
        eta = L.link(mu)
        tr.ev("logb", b=repr(b), mu=num(mu), eta=num(eta), inv=num(L.inv_link(eta)), d1=num(L.dinv_link(eta)), d2=num(L.d2link(mu)), d3=num(L.d3link(mu)), d4=num(L.d4link(mu)))


def cases(seed, tier):
    out = []
    reps = 3 if tier == "thorough" else 1
    for k in range(reps):
        sx = "" if reps == 1 else f".{k}"
        add = lambda i, f: out.append((i + sx, f))
        for kind, df, n, ties in [("cr", 5, 25, False), ("cr", 8, 40, True), ("cr", 3, 20, False), ("cc", 5, 25, False), ("cc", 8, 40, True), ("bs", 5, 25, False), ("bs", 9, 30, True)]:
            add(f"basis-{kind}{df}", lambda tr, a=(kind, df, n, ties): splines(tr, *a))
        add("bsplines", bsplines)
        for kind in ("cr", "cc", "bs"):
            add(f"gcv-{kind}", lambda tr, a=kind: gcvs(tr, a))
        add("logb", logb)
        for w in ("by", "twice", "nointercept", "fns", "inter"):
            add(f"design-{w}", lambda tr, a=w: build(tr, GAM, a, 45))
        add("design-gaussian-by", lambda tr: build(tr, GaussianAdditiveModel, "by", 45))
        for i, (f, t) in enumerate([("y~u+{0}", [("x1", 6, "bs", "", "'")]), ("y~g+{0}", [("x2", 5, "cr", "g", "'")])]):
            add(f"predictor-{i}", lambda tr, a=(f, t): predictor(tr, *a))
        for w, fam, n in [("cr-cc", "Gaussian", 60), ("bs", "Gamma", 60), ("cr-cc", "Gamma", 70), ("nointercept", "InverseGaussian", 60), ("inter", "GaussianL", 60), ("bs", "GammaR", 80)]:
            add(f"derivs-{w}-{fam}", lambda tr, a=(w, fam, n): deriv_session(tr, *a, tier == "thorough"))
        for w, fam, n, ap in [("cr-cc", "Gaussian", 90, False), ("cr-cc", "Gamma", 91, False), ("by", "Gaussian", 90, False), ("bs", "Gamma", 92, True), ("twice", "Gaussian", 90, False)]:
            add(f"fit-{w}-{fam}", lambda tr, a=(GAM, w, fam, n, ap): fit_session(tr, *a))
        for w in ("cr-cc", "bs"):
            add(f"gaussian-{w}", lambda tr, a=w: gam_pair(tr, a, 60))
            add(f"gaussian-fit-{w}", lambda tr, a=(GaussianAdditiveModel, w, "Gaussian", 90, False): fit_session(tr, *a))
        for w, ml, sl, b, wt in [("both", "identity", "logb", .01, None), ("scale-only", "identity", "logb", .1, "array"), ("mean-only", "log", "log", .01, None),
                                 ("same-var", "identity", "log", .01, "raw"), ("no-scale-const", "identity", "logb", .05, "column")]:
            add(f"gauls-{w}", lambda tr, a=(w, 60, ml, sl, b, wt): gauls(tr, *a))
        for w, ml, sl, b, wt, n in [("both", "identity", "logb", .01, None, 120), ("scale-only", "identity", "logb", .05, "array", 121), ("mean-only", "log", "logb", .01, None, 120),
                                    ("same-var", "identity", "logb", .01, "column", 150), ("by", "identity", "logb", .01, None, 150), ("no-scale-const", "identity", "log", .01, None, 120)]:
            add(f"gauls-fit-{w}", lambda tr, a=(w, n, ml, sl, b, wt): gauls(tr, *a, fit=True))
    return out


if __name__ == "__main__":
    run(cases)
