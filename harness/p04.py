"""P04: reparameterisations used by the estimators, both directions, with derivatives."""
import numpy as np
from vlib import run
from pystatsm.utilities import param_transforms as pt, cov_transform as ct, unconstrained_chol as uc, dchol as dc
from pystatsm.utilities.linalg_operations import LHV
from pystatsm.pyglm2 import clm as clm2


class Mod:
    """the module-level functions behind the same method names"""
    _fwd, _rvs, _jac_fwd, _jac_rvs, _hess_fwd, _hess_rvs = map(staticmethod, (uc.fwd, uc.rvs, uc.jac_fwd, uc.jac_rvs, uc.hess_fwd, uc.hess_rvs))


class Q:
    def __init__(self, q):
        self.q = q

    def __getattr__(self, nm):
        f = getattr(clm2.OrderedTransform, nm)
        return lambda x: f(x, self.q)


def corr(rng, n, s=1.0):
    A = rng.normal(size=(n, n + 3)) * s
    S = A @ A.T + np.eye(n) * 0.3
    d = np.sqrt(np.diag(S))
    return S / np.outer(d, d)


def vech(S, k=0):
    j, i = np.triu_indices(len(S), k=k)
    return S[i, j].copy()


def cov(rng, n):
    d = rng.uniform(0.4, 2.5, size=n)
    return corr(rng, n) * np.outer(d, d)


def lowc(rng, n):
    return np.linalg.cholesky(corr(rng, n))


def point(kind, n, rng):
    r = {"free": lambda: rng.normal(size=n), "pos": lambda: rng.uniform(0.05, 4, size=n), "unit": lambda: rng.uniform(-0.95, 0.95, size=n),
         "ordered": lambda: np.cumsum(np.r_[rng.normal(), rng.uniform(0.05, 2, size=n - 1)]),
         "cov": lambda: vech(cov(rng, n)), "corr": lambda: vech(corr(rng, n), 1), "chol": lambda: vech(lowc(rng, n), 1),
         "cholcorr_mask": lambda: vech(corr(rng, n) + np.diag(rng.uniform(0.2, 2, n))), "chol_mask": lambda: vech(lowc(rng, n) + np.diag(rng.uniform(0.1, 2, n))),
         "unit_mask": lambda: vech(np.diag(rng.uniform(0.2, 2, n)) + np.tril(rng.uniform(-0.9, 0.9, (n, n)), -1)),
         "free_half": lambda: rng.normal(size=n * (n - 1) // 2), "pos_mask": lambda: vech(np.diag(rng.uniform(0.1, 4, n)) + np.tril(rng.normal(size=(n, n)), -1))}[kind]()
    return np.asarray(r, dtype=float)


def T(t, **k):
    return {"t": t, **k}


def masked(cls):
    return lambda n: cls(n)


def tanh_masked(mod):
    def f(n):
        t = pt.TanhTransform()
        t.mat_size = n
        return mod.OffDiagMask(t)
    return f


SPECS = {
    "identity": (lambda n: pt.IdentityTransform(), "free", T("identity"), True),
    "log": (lambda n: pt.LogTransform(), "pos", T("log"), True),
    "tanh": (lambda n: pt.TanhTransform(), "unit", T("tanh"), True),
    "ordered": (lambda n: pt.OrderedTransform(), "ordered", T("ordered"), True),
    "ordered-thresholds": (lambda n: Q(n), "ordered", T("ordered"), False),
    "partial": (lambda n: pt.UnconstrainedCholeskyCorr(n), "chol", T("partial"), True),
    "partial-functions": (lambda n: Mod(), "chol", T("partial"), False),
    "covcorr": (lambda n: pt.CovCorr(n), "cov", T("covcorr"), True),
    "covcorr-1": (lambda n: ct.CovCorr(n), "cov", T("covcorr"), False),
    "logscale": (lambda n: pt.LogScale(n), "pos_mask", T("logscale"), True),
    "logscale-1": (lambda n: ct.LogScale(n), "pos_mask", T("logscale"), False),
    "corrchol": (lambda n: pt.CorrCholesky(n), "corr", T("corrchol"), True),
    "corrchol-1": (lambda n: ct.CorrCholesky(n), "corr", T("corrchol"), False),
    "rownorm": (lambda n: ct.UnconstrainedCholeskyCorr(n), "free_half", T("rownorm"), False),
    "rownorm-lhv": (lambda n: LHV(n), "free_half", T("rownorm"), False),
    "mask-tanh": (tanh_masked(pt), "unit_mask", T("mask", of=T("tanh")), True),
    "mask-corrchol": (lambda n: pt.OffDiagMask(pt.CorrCholesky(n)), "cholcorr_mask", T("mask", of=T("corrchol")), True),
    "mask-partial": (lambda n: pt.OffDiagMask(pt.UnconstrainedCholeskyCorr(n)), "chol_mask", T("mask", of=T("partial")), True),
    "mask-rownorm-1": (lambda n: ct.OffDiagMask(ct.UnconstrainedCholeskyCorr(n)), "chol_mask", T("mask", of=T("rownorm")), False),
    "cholcov": (lambda n: pt.CholeskyCov(n), "cov", T("cholcov2"), True),
    "cholcov-1": (lambda n: ct.CholeskyCov(n), "cov", T("cholcov1"), False),
    "composed-2": (lambda n: pt.ComposedTransform([pt.OrderedTransform(), pt.IdentityTransform()]), "ordered", T("composed", of=[T("ordered"), T("identity")]), True),
    "composed-3": (lambda n: pt.ComposedTransform([pt.CovCorr(n), pt.OffDiagMask(pt.CorrCholesky(n)), pt.LogScale(n)]), "cov",
                   T("composed", of=[T("covcorr"), T("mask", of=T("corrchol")), T("logscale")]), True),
    "composed-1": (lambda n: pt.ComposedTransform([pt.LogTransform()]), "pos", T("composed", of=[T("log")]), True),
}


def record(tr, nm, o, x, mp, public, hess):
    g = (lambda m: getattr(o, m[1:])) if public else (lambda m: getattr(o, m))
    with tr.frozen(nm, x):
        y = tr.call(nm + ".fwd", g("_fwd"), x)
        if y is None:
            return
        y = np.asarray(y).copy()
        xr = tr.call(nm + ".rvs", g("_rvs"), y.copy())
        if xr is None:
            return
        y2 = y * 0.9 if nm != "ordered" else y + 0.1
        if nm.startswith(("covcorr", "corrchol", "logscale", "rownorm", "cholcov", "mask", "composed", "partial")):
            y2 = y.copy()
        yr = tr.call(nm + ".fwd-rvs", lambda: g("_fwd")(np.asarray(g("_rvs")(y2.copy()))))
        Jf, Jr = tr.call(nm + ".jac_fwd", g("_jac_fwd"), x), tr.call(nm + ".jac_rvs", g("_jac_rvs"), y.copy())
        Hf, Hr = (tr.call(nm + ".hess_fwd", g("_hess_fwd"), x), tr.call(nm + ".hess_rvs", g("_hess_rvs"), y.copy())) if hess else (0, 0)
        if any(v is None for v in (yr, Jf, Jr, Hf, Hr)):
            return
    tr.ev("tf", nm=nm, map=mp, x=x, y=y, xr=xr, y2=y2, yr=yr, Jf=Jf, Jr=Jr, Hf=Hf, Hr=Hr, hess=bool(hess))


def tf_case(nm, n, rep):
    mk, kind, mp, pub = SPECS[nm]

    def f(tr):
        o = tr.call("construct " + nm, mk, n)
        if o is None:
            return
        x = point(kind, n, tr.rng)
        if len(x) == 0:
            return
        hess = len(x) <= 6
        record(tr, nm, o, x, mp, False, hess)
        if pub:
            record(tr, nm + "/public", o, x, mp, True, hess)
            X = np.array([point(kind, n, tr.rng) for _ in range(3)])
            with tr.frozen(nm + "-batch", X):
                Y = tr.call(nm + ".fwd-batch", o.fwd, X)
                if Y is None:
                    return
                XR, J = tr.call(nm + ".rvs-batch", o.rvs, Y), tr.call(nm + ".jac-batch", o.jac_fwd, X)
            if XR is None or J is None:
                return
            tr.ev("batch", nm=nm, map=mp, X=X, Y=Y, XR=XR, J=J, J1=[np.asarray(o.jac_fwd(r)).reshape(-1) for r in X])
            X3 = X[:2].reshape(1, 2, -1)
            Y3 = tr.call(nm + ".fwd-batch3", o.fwd, X3)
            if Y3 is not None:
                tr.ev("batch", nm=nm + "/3d", map=mp, X=X[:2], Y=np.asarray(Y3).reshape(2, -1), XR=np.asarray(o.rvs(Y3)).reshape(2, -1), J=np.asarray(o.jac_fwd(X3)).reshape(2, -1), J1=[np.asarray(o.jac_fwd(r)).reshape(-1) for r in X[:2]])
    return f


def scalar_case(nm, lo, hi):
    def f(tr):
        o = SPECS[nm][0](1)
        for _ in range(4):
            x = float(tr.rng.uniform(lo, hi))
            y = float(o.fwd(x))
            tr.ev("scalar", nm=nm, map=SPECS[nm][2], x=x, y=y, xr=o.rvs(y), Jf=o.jac_fwd(x), Jr=o.jac_rvs(y), Hf=o.hess_fwd(x), Hr=o.hess_rvs(y))
    return f


def combined_case(variant):
    def f(tr):
        rng = tr.rng
        idm = T("identity")
        if variant == "ints":
            parts = [("log", 2), ("cholcov", 2), ("tanh", 2)]
            idx, lens = [2, 3, 2], [2, 3, 2]
            layout = [T("log"), T("cholcov2"), T("tanh")]
            x = np.r_[point("pos", 2, rng), point("cov", 2, rng), point("unit", 2, rng), rng.normal(size=2)]
            o = pt.CombinedTransform([SPECS[a][0](b) for a, b in parts], idx)
            mp = T("blocks", of=[dict(map=m, len=k) for m, k in zip(layout + [idm], lens + [2])])
        elif variant == "slices":
            x = np.r_[rng.normal(size=2), point("cov", 2, rng), rng.normal(), point("ordered", 3, rng)]
            o = pt.CombinedTransform([pt.CholeskyCov(2), pt.OrderedTransform()], [slice(2, 5), (6, 9)])
            mp = T("blocks", of=[dict(map=idm, len=2), dict(map=T("cholcov2"), len=3), dict(map=idm, len=1), dict(map=T("ordered"), len=3)])
        elif variant == "mixed":  # a gap, then a count that continues after the previous range
            x = np.r_[rng.normal(), point("pos", 2, rng), point("cov", 2, rng), rng.normal(), point("unit", 1, rng)]
            o = pt.CombinedTransform([pt.LogTransform(), pt.CholeskyCov(2), pt.TanhTransform()], [slice(1, 3), 3, (7, 8)] if tr.tid.endswith("0") else [(1, 3), np.int64(3), np.array([7, 8])])
            mp = T("blocks", of=[dict(map=idm, len=1), dict(map=T("log"), len=2), dict(map=T("cholcov2"), len=3), dict(map=idm, len=1), dict(map=T("tanh"), len=1)])
        elif variant == "unordered":  # the ranges may be listed in any order
            x = np.r_[point("pos", 2, rng), rng.normal(), point("cov", 2, rng), point("unit", 2, rng)]
            ts, ix = [pt.LogTransform(), pt.CholeskyCov(2), pt.TanhTransform()], [(0, 2), (3, 6), (6, 8)]
            k = rng.permutation(3) if not tr.tid.endswith("0") else [2, 0, 1]
            o = pt.CombinedTransform([ts[i] for i in k], [ix[i] for i in k])
            mp = T("blocks", of=[dict(map=T("log"), len=2), dict(map=idm, len=1), dict(map=T("cholcov2"), len=3), dict(map=T("tanh"), len=2)])
        else:
            x = np.r_[point("cov", 3, rng), point("cov", 1, rng), point("pos", 1, rng)]
            o = pt.CombinedTransform([pt.CholeskyCov(3), pt.CholeskyCov(1), pt.LogTransform()], [(0, 6), np.array([6, 7]), [7, 8]])
            mp = T("blocks", of=[dict(map=T("cholcov2"), len=6), dict(map=T("log"), len=1), dict(map=T("log"), len=1)])
        record(tr, "combined-" + variant, o, x, mp, False, True)
        record(tr, "combined-" + variant + "/public", o, x, mp, True, True)
    return f


def dchol_case(n, m, unit):
    def f(tr):
        rng = tr.rng
        M = cov(rng, n)
        if unit:
            dM, d2M = dc.unit_matrices(n)
            m_ = dM.shape[-1]
        else:
            m_ = m
            dM = rng.normal(size=(n, n, m_))
            dM = dM + dM.swapaxes(0, 1)
            d2M = rng.normal(size=(n, n, m_, m_))
            d2M = d2M + d2M.swapaxes(0, 1)
            d2M = d2M + d2M.swapaxes(2, 3)
        sy = lambda A: np.tril(A) + np.tril(A, -1).T
        with tr.frozen("dchol", M, dM, d2M):
            r = tr.call("dchol", dc.dchol, M, dM, d2M, order=2)
            r1 = tr.call("dchol1", dc.dchol, M, dM, d2M, order=1)
        for second, r in ((True, r), (False, r1)):
            if r is None:
                return
            L, dL, d2L = r
            tr.ev("dchol", n=n, m=m_, M=M, dM=[sy(dM[:, :, k]) for k in range(m_)], d2M=[sy(d2M[:, :, a, b]) for a in range(m_) for b in range(m_)],
                  L=L, dL=[dL[:, :, k] for k in range(m_)], d2L=[d2L[:, :, a, b] for a in range(m_) for b in range(m_)], second=second)
    return f


def cases(seed, tier):
    cs = []
    reps = 2 if tier == "quick" else 8
    vec = ("identity", "log", "tanh", "ordered", "ordered-thresholds", "composed-2", "composed-1")
    for nm in SPECS:
        sizes = ((1, 2, 4) if nm in vec else (1, 2, 3, 4)) if tier == "quick" else ((1, 2, 3, 5, 6) if nm in vec else (1, 2, 3, 4, 5))
        for n in sizes:
            for r in range(reps):
                cs.append((f"{nm}-{n}-{r}", tf_case(nm, n, r)))
    for nm, lo, hi in (("identity", -3, 3), ("log", 0.01, 5), ("tanh", -0.98, 0.98)):
        cs.append((f"scalar-{nm}", scalar_case(nm, lo, hi)))
    for v in ("ints", "slices", "tuples", "mixed", "unordered"):
        for r in range(reps):
            cs.append((f"combined-{v}-{r}", combined_case(v)))
    for n, m in ((1, 1), (2, 2), (3, 2), (4, 3)):
        cs.append((f"dchol-{n}-{m}", dchol_case(n, m, False)))
        if n < 4:
            cs.append((f"dchol-unit-{n}", dchol_case(n, m, True)))
    return cs


run(cases)
