"""P25: structural equation models specified by labelled matrices."""
import numpy as np, pandas as pd
from vlib import run, num, ints
from pystatsm.pysem.sem import SEM


def make(rng, kind):
    """population matrices and start matrices (nonzero = free)"""
    if kind.startswith("path"):
        p = int(rng.integers(3, 6))
        names = [f"v{i}" for i in range(p)]
        nx = 1 if p == 3 else 2
        B = np.zeros((p, p))
        for i in range(nx, p):
            src = rng.choice(i, size=min(i, 2), replace=False)
            B[i, src] = rng.uniform(.3, .7, len(src)) * rng.choice([-1, 1], len(src))
        PH = np.zeros((p, p)); PS = np.zeros((p, p))
        PH[:nx, :nx] = np.eye(nx) + (.3 * (1 - np.eye(nx)))
        PH[range(nx, p), range(nx, p)] = 0
        if kind == "path":       # disturbances among the residuals
            PS[range(nx, p), range(nx, p)] = rng.uniform(.5, 1.2, p - nx)
        else:                    # disturbances among the latent variables
            PH[range(nx, p), range(nx, p)] = rng.uniform(.5, 1.2, p - nx)
        o = rng.permutation(p)
        lat = [names[i] for i in o]
        return names, lat, np.eye(p)[:, o], B[np.ix_(o, o)], PH[np.ix_(o, o)], PS
    q = {"cfa1": 1, "cfa2": 2, "cross": 2, "full": 2, "single": 2, "resid": 2, "sem3": 3}[kind]
    m = {"cfa1": 5, "sem3": 2}.get(kind, 3)
    if kind == "sem3":
        m = 3
    p = q * m if kind != "single" else 4
    L = np.zeros((p, q))
    for f in range(q):
        r = range(f * m, min((f + 1) * m, p))
        L[r, f] = rng.uniform(.6, 1.1, len(r)); L[f * m, f] = 1.0
    B = np.zeros((q, q)); H = np.eye(q) * rng.uniform(.8, 1.5); S = np.diag(rng.uniform(.4, .9, p))
    if kind == "cross":
        L[1, 1] = .4
    if kind in ("cfa2", "cross", "resid"):
        H[0, 1] = H[1, 0] = .35
    if kind in ("full", "single"):
        B[1, 0] = .5
    if kind == "sem3":
        B[1, 0] = .5; B[2, 1] = .4
    if kind in ("resid", "full"):
        S[1, 4] = S[4, 1] = .15
    if kind == "single":
        S[3, 3] = 0.0
    return [f"x{i}" for i in range(p)], ["eta", "xi", "zeta"][:q], L, B, H, S


def case(kind, order, ind, tables):
    def go(tr):
        rng = tr.rng
        names, lat, L, B, H, S = make(rng, kind)
        p, q = L.shape
        n = int(rng.integers(120, 260))
        A = L @ np.linalg.inv(np.eye(q) - B)
        V = A @ H @ A.T + S
        if order == "shuffled-rows":      # loadings listed in another order than the data
            o = rng.permutation(p)
        else:
            o = np.arange(p)
        X = rng.multivariate_normal(np.zeros(p), V, n) * 1.0 + rng.normal(size=p) * 5
        cols = [names[i] for i in o]
        data = pd.DataFrame(X[:, o], columns=cols)
        start = lambda M, v: np.where(M != 0, v, 0.)
        La, Be = start(L, 1.0), start(B, .2)
        Ph = np.where(np.eye(q, dtype=bool) & (H != 0), 1.0, start(H, .05)); Ps = np.where(np.eye(p, dtype=bool) & (S != 0), 1.0, start(S, .05))
        if tables == "signed" and not kind.startswith("path"):   # start loadings of mixed size and sign
            La = La * np.where(L == 1.0, 1.0, rng.uniform(.7, 1.4, L.shape))
        vars_ = list(names)
        LA = pd.DataFrame(La, index=vars_, columns=lat)
        bev, phv, psv = list(lat), list(lat), list(names)
        if tables == "permuted":
            rng.shuffle(psv); rng.shuffle(bev); rng.shuffle(phv)
        BE = pd.DataFrame(Be, index=lat, columns=lat).loc[bev, bev]
        PH = pd.DataFrame(Ph, index=lat, columns=lat).loc[phv, phv]
        PS = pd.DataFrame(Ps, index=names, columns=names).loc[psv, psv]
        iv, ref = None, []
        if ind == "given":
            ref = [names[int(rng.choice(np.flatnonzero((La[:, f] != 0) & ((La != 0).sum(1) == 1))))] for f in range(q)]
            iv = LA * 0.0
            for f in range(q):
                iv.loc[ref[f], lat[f]] = LA.loc[ref[f], lat[f]]
        tr.meta.update(cols=cols, lat=lat, vars=vars_, bev=bev, phv=phv, psv=psv, LA=num(LA.values), BE=num(BE.values), PH=num(PH.values), PS=num(PS.values), ind=ref, X=num(data.values), fix=[])
        kw = {} if iv is None else dict(indicator_vars=iv)
        with tr.frozen("SEM", data, LA, BE, PH, PS, *([iv] if iv is not None else [])):
            m = tr.call("SEM", lambda: SEM(LA, BE, PH, PS, data=data, **kw))
            if m is None:
                return
            tr.ev("model", S=m.S, labels=list(m.labels), theta=m.theta, bounded=[b[0] is not None for b in m.bounds])
            th0 = m.theta.copy()
            pts = [th0]
            for k in range(2):
                t = th0 + rng.uniform(-.25, .25, len(th0))
                pts.append(np.where([b[0] is not None for b in m.bounds], np.abs(t) + .2, t))
            for th in pts:
                keep = th.copy()
                LAt, BEt, IB, PHt, PSt = m.model_matrices(th)
                ev = dict(theta=th, LA=LAt, BE=BEt, IB=IB, PH=PHt, PS=PSt, Sigma=m.implied_cov(th), ll=num(m.loglike(th)))
                G = tr.call("dsigma", m.dsigma, th); g = tr.call("gradient", m.gradient, th); Hh = tr.call("hessian", m.hessian, th)
                if G is not None and g is not None and Hh is not None:
                    tr.ev("point", dS=np.ascontiguousarray(G[:, m.theta_indices]), g=g, H=Hh, **ev)
                    tr.ev("same", what="answers-repeat", a=num(np.r_[m.loglike(th), m.gradient(th)]), b=num(np.r_[float(ev["ll"]), g]), tol="1e-14")
                tr.ev("equal", what="parameter-untouched", a=bool(np.array_equal(th, keep)), b=True)
            off = [k for k, b in enumerate(m.bounds) if m.labels[k].startswith("residual cov") and b[0] is None] or [k for k, b in enumerate(m.bounds) if b[0] is not None]
            far = th0.copy(); far[off[-1]] = -3.0 if m.bounds[off[-1]][0] is not None else 3.0
            tr.ev("outside", theta=far, ll=num(m.loglike(far)))
            null = {}
            nm = None
            if kind in ("cfa2", "full"):
                c = float(np.diag(m.S).mean())
                nm = {"Sigma": np.eye(p) * c, "df": p * (p + 1) // 2 - 1, "n_free_params": 1}
                null = dict(V0=nm["Sigma"], d0=nm["df"], t0=1)
            ok = tr.call("fit", lambda: (m.fit(null_model=nm, use_hess=bool(rng.integers(2)), opt_kws=dict(options=dict(maxiter=3000, gtol=1e-7, xtol=1e-12))), 1)[1])
            if not ok:
                return
            lo = np.array([b[0] is not None for b in m.bounds])
            inner = bool(m.opt.success and (m.theta[lo] > 1e-2).all())
            ev_ = np.linalg.eigvalsh(m.hessian(m.theta))
            regular = bool(inner and ev_.min() > 1e-3 * max(1, ev_.max()) * 1e-2)
            tr.ev("fit", theta=m.theta, start=th0, inner=inner, regular=regular, Sigma=m.Sigma, cov=m.theta_cov, se=m.theta_se, names=list(m.res.index), est=num(m.res["est"].values), tse=num(m.res["SE"].values), tv=num(m.res["t"].values),
                  pv=num(m.res["p"].values), m={k: num(float(v)) for k, v in m.sumstats.items()}, **null)
            tr.ev("same", what="refit-repeats", a=num(m.loglike(m.theta)), b=num(m.opt.fun), tol="1e-12")
    return go


def cases(seed, tier):
    out = []
    reps = 1 if tier == "quick" else 4
    kinds = ["cfa1", "cfa2", "cross", "full", "single", "resid", "sem3", "path", "pathlv"]
    for r in range(reps):
        for i, kind in enumerate(kinds):
            for j, order in enumerate(["as-listed", "shuffled-rows"]):
                for l, ind in enumerate(["default", "given"]):
                    if ind == "given" and kind.startswith("path"):
                        continue
                    t = ["plain", "permuted", "signed"][(i + j + l + r + seed) % 3]
                    out.append((f"{kind}.{order}.{ind}.{r}", case(kind, order, ind, t)))
    return out


run(cases)
