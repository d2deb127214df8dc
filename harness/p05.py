"""P05: numerical differentiation, memoised objectives, elementary distribution functions, allocation arithmetic."""
import os, itertools
import numpy as np
from vlib import run, num
from pystatsm.utilities import numerical_derivs as nd, func_utils as fu, optimizer_utils as ou, xcorr as xc

KEYS = ("c", "b", "A", "d", "g", "w", "s", "u")


def fam(rng, n, kind="smooth"):
    A = rng.normal(size=(n, n))
    p = dict(c=rng.normal(), b=rng.normal(size=n), A=(A + A.T) / 2, d=np.zeros(n), g=0.0, w=np.zeros(n), s=0.0, u=np.zeros(n))
    if kind != "quad":
        p["d"] = rng.normal(size=n) * 0.3
    if kind == "smooth":
        p.update(g=rng.normal(), w=rng.normal(size=n) * 0.4, s=rng.normal(), u=rng.normal(size=n) * 0.7)
    return p


def val(p, x):
    x = np.asarray(x)
    return p["c"] + p["b"] @ x + 0.5 * x @ (p["A"] @ x) + p["d"] @ (x * x * x) + p["g"] * np.exp(p["w"] @ x) + p["s"] * np.sin(p["u"] @ x)


def grad(p, x):
    return p["b"] + p["A"] @ x + 3 * p["d"] * x * x + p["g"] * np.exp(p["w"] @ x) * p["w"] + p["s"] * np.cos(p["u"] @ x) * p["u"]


def hess(p, x):
    return p["A"] + np.diag(6 * p["d"] * x) + p["g"] * np.exp(p["w"] @ x) * np.outer(p["w"], p["w"]) - p["s"] * np.sin(p["u"] @ x) * np.outer(p["u"], p["u"])


def point(rng, n, k):
    x = rng.normal(size=n)
    x = np.sign(x) * (0.2 + np.abs(x))
    if k == 1:
        x[rng.integers(n)] = 0.0
    if k == 2:
        x = -np.abs(x) * 3
    if k == 3:
        x = np.zeros(n)
    return x


GR = {"forward": (nd.fo_fc_fd, "3e-4"), "central": (nd.fo_fc_cd, "2e-7"), "complex-step": (nd.fo_fc_cs, "1e-7"),
      "richardson": (lambda f, x: nd.grad_approx(f, x).ravel(), "1e-6")}
HE = {"forward": (nd.so_fc_fd, "2e-2"), "central": (nd.so_fc_cd, "2e-2"), "complex-step": (nd.hess_cs, "2e-5")}
HG = {"gradient-forward": (nd.so_gc_fd, "3e-4"), "gradient-central": (nd.so_gc_cd, "2e-7")}


def deriv_case(n, k, scaled):
    def fn(tr):
        p, x = fam(tr.rng, n), point(tr.rng, n, k)
        f = lambda z, *a: val(p, z) * (a[0] if a else 1.0)
        a = (2.5,)
        ps = {q: (v * a[0] if q in ("c", "b", "A", "d", "g", "s") else v) for q, v in p.items()}
        with tr.frozen("derivatives", x):
            for nm, (g, tol) in GR.items():
                tr.ev("grad", nm=nm, f=p, x=x, g=tr.call(nm, g, f, x), tol=tol)
            for nm, (h, tol) in HE.items():
                tr.ev("hess", nm=nm, f=p, x=x, H=tr.call(nm, h, f, x), tol=tol)
            for nm, (h, tol) in HG.items():
                tr.ev("hess", nm=nm, f=p, x=x, H=tr.call(nm, h, lambda z, *q: grad(p, z), x), tol=tol)
            for nm in ("forward", "central", "complex-step"):
                tr.ev("grad", nm=nm + "-args", f=ps, x=x, g=GR[nm][0](f, x, args=a), tol="1e-3")
            tr.ev("grad", nm="central-step", f=p, x=x, g=nd.fo_fc_cd(f, x, eps=1e-4), tol="1e-5")
            tr.ev("hess", nm="central-step", f=p, x=x, H=nd.so_fc_cd(f, x, eps=1e-3), tol="1e-4")
            for nm in ("forward", "central"):
                tr.ev("hess", nm=nm + "-args", f=ps, x=x, H=HE[nm][0](f, x, args=a), tol="5e-2")
            for nm in HG:
                tr.ev("hess", nm=nm + "-args", f=ps, x=x, H=HG[nm][0](lambda z, *q: q[0] * grad(p, z), x, args=a), tol="1e-3")
    return fn


def jac_case(n, m, k):
    def fn(tr):
        ps, x = [fam(tr.rng, n) for _ in range(m)], point(tr.rng, n, k)
        F = lambda z, *a: np.array([val(p, z) for p in ps]) * (a[0] if a else 1.0)
        with tr.frozen("jacobians", x):
            tr.ev("jac", nm="entrywise", fs=ps, x=x, J=nd.jac_approx(F, x), tol="1e-6")
            tr.ev("jac", nm="richardson", fs=ps, x=x, J=nd.jac_approx2(F, x)[0].T, tol="1e-6")
            tr.ev("jac", nm="complex", fs=ps, x=x, J=nd.jac_approx3(F, x), tol="1e-6")
            tr.ev("jac", nm="columnwise", fs=ps, x=x, J=nd.jac_approx4(F, x), tol="1e-6")
            tr.ev("jac", nm="complex-step", fs=ps, x=x, J=nd.jac_cs(F, x), tol="1e-7")
            p2 = [{q: (v * 3.0 if q in ("c", "b", "A", "d", "g", "s") else v) for q, v in p.items()} for p in ps]
            for nm, g in (("entrywise", nd.jac_approx), ("complex", nd.jac_approx3), ("columnwise", nd.jac_approx4), ("complex-step", nd.jac_cs)):
                tr.ev("jac", nm=nm + "-args", fs=p2, x=x, J=g(F, x, args=(3.0,)), tol="1e-6")
            mask = tr.rng.random(m) < 0.5
            tr.ev("maskjac", fs=ps, x=x, J=nd.jac_approx(F, x, mask=mask), mask=list(map(bool, mask)), tol="1e-6")
            H = nd.hess_approx(F, x)
            tr.ev("vhess", nm="entrywise", fs=ps, x=x, H=H.reshape(m, -1), tol="1e-4")
            tr.ev("vhess", nm="richardson-default", fs=ps, x=x, H=nd.hess_approx2(F, x).reshape(m, -1), tol="3e-2")
            tr.ev("vhess", nm="richardson", fs=ps, x=x, H=nd.hess_approx2(F, x, a_eps=2e-2, r_eps=2e-2).reshape(m, -1), tol="1e-4")
            tr.ev("vhess", nm="complex-step", fs=ps, x=x, H=nd.hess_cs(F, x).reshape(m, -1), tol="2e-5")
            mk = np.tril(np.ones((n, n), dtype=bool))[None]
            tr.ev("maskhess", f=ps[0], x=x, H=nd.hess_approx(lambda z: val(ps[0], z), x, mask=mk)[0], mask=mk[0].astype(float), tol="1e-4")
    return fn


def matarg_case(r, c):
    """matrix-valued argument: derivatives indexed by the argument's own shape"""
    def fn(tr):
        ps = [fam(tr.rng, r * c) for _ in range(3)]
        X = point(tr.rng, r * c, 0).reshape(r, c)
        F = lambda Z: np.array([val(p, Z.ravel()) for p in ps])
        with tr.frozen("matrix argument", X):
            for nm, g in (("entrywise-matrix", nd.jac_approx), ("columnwise-matrix", nd.jac_approx4), ("complex-matrix", nd.jac_approx3)):
                J = g(F, X)
                tr.ev("jac", nm=nm, fs=ps, x=X.ravel(), J=J.reshape(3, -1), tol="1e-6")
            H = nd.hess_approx(F, X)
            tr.ev("vhess", nm="entrywise-matrix", fs=ps, x=X.ravel(), H=H.reshape(3, -1), tol="1e-4")
    return fn


def weights_case(pts, x0, order):
    def fn(tr):
        x = np.asarray(pts, dtype=float)
        W = nd.fd_coefs(x, x0=float(x0), n=order, last_col=False)
        tr.ev("weights", nm="recursive", x=x, x0=x0, order=order, w=nd.fd_coefs(x, x0=float(x0), n=order), W=W, all=True)
        if x0 == 0:
            tr.ev("weights", nm="vandermonde", x=x, x0=0, order=order, w=nd.fd_coefficients(x, order), W=W, all=False)
    return fn


def uni_case(order):
    def fn(tr):
        p = fam(tr.rng, 1)
        f = lambda z: np.array([val(p, np.array([t])) for t in np.atleast_1d(z)])
        x = np.array([-1.3, 0.0, 0.4, 2.0])
        tr.ev("uni", nm="stencil", f=p, x=x, order=order, v=nd.finite_diff(f, x, order=order), tol="1e-5")
        tr.ev("uni", nm="interpolating", f=p, x=x, order=order, v=nd.fd_derivative(f, x, epsilon=1e-2, order=order), tol="1e-5")
        tr.ev("uni", nm="interpolating-points", f=p, x=x, order=order, v=nd.fd_derivative(f, x, epsilon=1e-2, order=order, points=np.array([0, 1, 2, 3, 4, 5, 6, 7])), tol="1e-4")
        if order == 1:
            tr.ev("uni", nm="interpolating-default", f=p, x=x, order=order, v=nd.fd_derivative(f, x), tol="1e-7")
    return fn


def memo_case(hist, cls):
    def fn(tr):
        p = fam(tr.rng, 2)
        P = {"a": tr.rng.normal(size=2), "b": tr.rng.normal(size=2)}
        obj = ou.MemoizeGradHess(lambda z: (val(p, z), grad(p, z), hess(p, z))) if cls == "gh" else ou.MemoizeJac(lambda z: (val(p, z), grad(p, z)))
        buf, cell = P["a"].copy(), "a"
        for step in hist:
            q, w = step.split(":")
            if w == "inplace":
                cell = "b" if cell == "a" else "a"
                buf[:] = P[cell]
            else:
                cell = w
                buf = P[cell].copy()
            if q == "hess" and cls == "j":
                continue
            r = tr.call(q, {"value": obj, "grad": obj.derivative, "hess": getattr(obj, "hessian", None)}[q], buf)
            tr.ev("memo", f=p, q=q, x=buf, r=r)
    return fn


def dist_case(tr):
    for m, s in ((0.0, 1.0), (1.7, 0.3), (-2.0, 4.0)):
        x = np.r_[np.linspace(-8, 8, 23), 0.0, 20.0, -20.0] * s + m
        tr.ev("dist", x=x, m=m, s=s, cdf=fu.norm_cdf(x, m, s), pdf=fu.norm_pdf(x, m, s), jit=np.array([fu.norm_cdf_jit(v, m, s) for v in x]))
    x = np.array([-40.0, 40.0, 7.06, 7.08, -7.06, -7.08])
    tr.ev("dist", x=x, m=0, s=1, cdf=fu.norm_cdf(x), pdf=fu.norm_pdf(x), jit=np.array([fu.norm_cdf_jit(v) for v in x]))


def bvn_case(r):
    tol = "1e-10" if abs(r) < 0.95 else "3e-4"

    def fn(tr):
        h, k = tr.rng.normal(size=7) * 1.5, tr.rng.normal(size=7) * 1.5
        h[0] = k[0] = 0.0
        h[1], k[1] = -1.0, 1.0
        tr.ev("bvn", h=h, k=k, r=r, tol=tol, cdf=fu.binorm_cdf(h, k, r), pdf=fu.binorm_pdf(h, k, r), dpdf=fu.dbinorm_pdf(h, k, r),
              du=fu.dbinorm_cdf_du(h, k, r), du2=fu.d2binorm_cdf_du2(h, k, r), duv=fu.d2binorm_cdf_duv(h, k, r), dur=fu.d2binorm_cdf_dur(h, k, r))
        for hh, kk, ty in ((0.3, -0.7, "float"), (1, -1, "int"), (0, 2, "int"), (np.float64(0.5), 0.1, "float64")):
            tr.ev("sbvn", ty=ty, h=hh, k=kk, r=r, cdf=np.squeeze(fu.binorm_cdf(hh, kk, r)), pdf=np.squeeze(fu.binorm_pdf(hh, kk, r))) if abs(r) < 0.95 else None
        tr.ev("bvn", h=h, k=k, r=r, tol=tol, cdf=fu.binorm_cdf(h, k, np.array([r])), pdf=fu.binorm_pdf(h, k, np.array([r])), dpdf=fu.dbinorm_pdf(h, k, r),
              du=fu.dbinorm_cdf_du(h, k, r), du2=fu.d2binorm_cdf_du2(h, k, r), duv=fu.d2binorm_cdf_duv(h, k, r), dur=fu.d2binorm_cdf_dur(h, k, r))
        for _ in range(5):
            lo = tr.rng.normal(size=2)
            up = lo + tr.rng.uniform(0.01, 2, size=2)
            tr.ev("region", lo=lo, up=up, r=r, tol=tol, cdf=fu.binorm_cdf_region(lo, up, r), pdf=fu.binorm_pdf_region(lo, up, r), dpdf=fu.dbinorm_pdf_region(lo, up, r))
        LO, UP = tr.rng.normal(size=(2, 4)), None
        UP = LO + 1.0
        vec = fu.binorm_cdf_region(LO, UP, r)
        pv, dv = fu.binorm_pdf_region(LO, UP, r), fu.dbinorm_pdf_region(LO, UP, r)
        for j in range(4):
            tr.ev("region", lo=LO[:, j], up=UP[:, j], r=r, tol=tol, cdf=vec[j], pdf=pv[j], dpdf=dv[j])
    return fn


def pmf_case(tr):
    x = np.array([0, 1, 2, 5, 30, 200.0])
    for mu in (0.1, 1.0, 25.0):
        tr.ev("pmf", x=x, mu=mu, n=300.0, lp=fu.poisson_logp(x, mu), p=fu.poisson_logp(x, mu, logp=False), lb=fu.logbinom(300.0, x))
    x = np.r_[tr.rng.normal(size=9) * 3, 0.0]
    for t, lev in ((0.5, 0.95), (0.0, 0.9), (2.0, 0.5)):
        tr.ev("elem", x=x, t=t, soft=fu.soft_threshold(x, t), expit=fu.expit(x), level=lev, ci=fu.symmetric_conf_int(lev), ci100=fu.symmetric_conf_int(lev * 100))
    for n in (1, 2, 3, 7, 20, 50):
        a, b = fu.harmonic_fraction(n)
        tr.ev("harmonic", n=n, num=float(a), den=float(b), ex=fu.harmonic_exact(n), asy=fu.harmonic_asymptotic(n))


def alloc_case(k):
    def fn(tr):
        m = 2 + k % 5
        for x in (tr.rng.uniform(0, 9, size=m), np.arange(m).astype(float), np.arange(m) + 0.25 * (m % 4 == 0), np.full(m, 1 / m)):
            tr.ev("round", x=x, r=[int(v) for v in fu.sum_preserving_round(x.copy())])
        p = tr.rng.dirichlet(np.ones(m) * 8)
        p = p / p.sum()
        for n in (10 * m, 97, 100, 1000):
            for q in (p, np.full(m, 1 / m)):
                kk, sl = fu.allocate_from_proportions(n, q)
                tr.ev("alloc", n=n, p=q, k=[int(v) for v in kk], sl=[[int(a), int(b)] for a, b in sl], big=bool(np.all(n * q >= 1)))
        sizes = [int(v) for v in tr.rng.integers(0, 5, size=m)]
        d = fu.sizes_to_ind_arrs(sizes)
        tr.ev("sizes", s=sizes, inds=[int(v) for v in fu.sizes_to_inds(sizes)], arrs=[[int(v) for v in d[i]] for i in range(m)],
              tri=[int(v) for v in fu.triangular_number(np.array(sizes))], tri0=[int(fu.triangular_number(v, offset=-1)) for v in sizes])
    return fn


def alloc_list(tr):
    for p in ([0.5, 0.5], [0.2, 0.3, 0.5], [0.25, 0.25, 0.25, 0.25], [0.05, 0.95], [0.02, 0.08, 0.9]):
        for n in (10, 100, 33):
            r = tr.call("allocation from a list", fu.allocate_from_proportions, n, p)
            if r is not None:
                kk, sl = r
                tr.ev("alloc", n=n, p=np.array(p), k=[int(v) for v in kk], sl=[[int(a), int(b)] for a, b in sl], big=bool(np.all(n * np.array(p) >= 1)))


def part_case(n):
    return lambda tr: tr.ev("partitions", n=n, parts=[[int(v) for v in s] for s in fu.partition_set(n)])


def quant_case(k):
    def fn(tr):
        x = tr.rng.normal(size=40 + k)
        for n in (2, 3, 4, 5, 10):
            c, t = fu.quantile_cut(x, n, return_quantiles=True)
            c2 = fu.quantile_cut(x, n)
            tr.ev("quant", x=x, n=n, t=t, c=[int(v) for v in c], c2=[int(v) for v in c2])
    return fn


def misc_case(tr):
    d = {"a": 1, "b": 2}
    for kw in ({}, {"b": 5}, {"c": 7}, {"a": 3, "c": 4}):
        with tr.frozen("defaults", d, kw):
            tr.ev("defaults", **{"def": d, "kw": kw or {"a": 1}, "out": fu.handle_default_kws(kw or {"a": 1}, d)})
    tr.ev("defaults", **{"def": d, "kw": {"a": 1}, "out": fu.handle_default_kws(None, d)})
    for n, ix in ((4, [1]), (6, [5, 0, 2]), (3, [0, 1, 2])):
        z = ou.ZeroConstraint(n, np.array(ix))
        x = tr.rng.normal(size=n)
        tr.ev("zerocon", x=x, ix=ix, v=z.func(x), J=z.grad(x))


def xcorr_case(n):
    def fn(tr):
        x, y = tr.rng.normal(size=n), tr.rng.normal(size=n)
        for a, b, auto in ((x, x, True), (x, y, False)):
            one = np.ones(n)
            tr.ev("xcorr", nm="brute", x=a, y=b, auto=auto, c=one, r=xc.xcorr_brute(a, b))
            tr.ev("xcorr", nm="matrix", x=a, y=b, auto=auto, c=one, r=xc.xcorr_mat(a, b))
            r = tr.call("fft", xc.xcorr_fft, a, b)
            if r is not None:
                tr.ev("xcorr", nm="fft", x=a, y=b, auto=auto, c=one, r=r)
            for z, c in (("coef", one / np.sqrt(a @ a * (b @ b))), ("biased", one / n), ("unbiased", 1.0 / (n - np.arange(n)))):
                r = tr.call("fftc", xc.xcorr_fftc, a, b, z, False)
                if r is not None:
                    tr.ev("xcorr", nm="fft-" + z, x=a, y=b, auto=auto, c=c, r=r)
    return fn


def cases(seed, tier):
    big = tier == "thorough"
    cs = []
    for n in (1, 2, 3, 4, 5) if big else (1, 2, 3, 4):
        for k in range(4):
            cs.append((f"deriv-{n}-{k}", deriv_case(n, k, False)))
            for m in (2, 3, 5) if big else (2, 3):
                cs.append((f"jac-{n}-{m}-{k}", jac_case(n, m, k)))
    for r, c in ((2, 2), (2, 3), (3, 1), (1, 3)):
        cs.append((f"matarg-{r}-{c}", matarg_case(r, c)))
    for m in range(2, 9):
        for o in range(1, min(m, 4 if not big else 6)):
            for nm, pts in (("cent", np.arange(m) - (m - 1) / 2), ("fwd", np.arange(m)), ("irr", np.cumsum([0.3 + 0.2 * (i % 3) for i in range(m)]) - 0.7)):
                for x0 in (0, 0.35):
                    cs.append((f"weights-{m}-{o}-{nm}-{x0}", weights_case(pts, x0, o)))
    for o in (1, 2, 3):
        cs.append((f"uni-{o}", uni_case(o)))
    for k, ln in enumerate(open(os.environ["GENFILE"]).read().split("\n")):
        h = [x.strip().strip('\\"') for x in ln.strip('"').replace("<<", "").replace(">>", "").split(",")]
        if len(h) > 1:
            cs.append(("memo-" + "-".join(h), memo_case(h, "gh")))
            if k % 5 == 0:
                cs.append(("memoj-" + "-".join(h), memo_case(h, "j")))
    cs.append(("dist", dist_case))
    for r in (-0.9, -0.5, 0.0, 0.2, 0.6, 0.85, 0.97, -0.99):
        cs.append((f"bvn-{r}", bvn_case(r)))
    cs.append(("pmf", pmf_case))
    for k in range(24 if big else 10):
        cs.append((f"alloc-{k}", alloc_case(k)))
        if k < 6:
            cs.append((f"quant-{k}", quant_case(k)))
    cs.append(("alloc-list", alloc_list))
    for n in range(1, 7 if big else 6):
        cs.append((f"partitions-{n}", part_case(n)))
    cs.append(("misc", misc_case))
    for n in (2, 5, 12):
        cs.append((f"xcorr-{n}", xcorr_case(n)))
    return cs


run(cases)
