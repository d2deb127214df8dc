"""P18: latent correlations of ordinal data (pylvcorr): polychoric, polyserial, asymptotic covariance, simulators."""
import numpy as np, pandas as pd
from vlib import run, num, ints
from pystatsm.pylvcorr import polychoric as PA, polychoric2 as PB, lvcorr as L, statfuncs as S, sim_lvcorr as SL

NA = -99


def corr(rng, p, s=.7):
    X = rng.normal(size=(p, p)) * s + np.eye(p)
    C = X @ X.T
    d = 1 / np.sqrt(np.diag(C))
    return C * d[:, None] * d


def data(rng, cats, n, codes="plain", miss=0.):
    """ordinal codes; every variable shows all its categories"""
    p = len(cats)
    while True:
        Z = rng.multivariate_normal(np.zeros(p), corr(rng, p), size=n)
        Y = np.stack([np.digitize(Z[:, v], np.sort(rng.normal(size=c - 1) * .3 + np.linspace(-1, 1, c + 1)[1:-1])) for v, c in enumerate(cats)], 1)
        if not all(len(np.unique(Y[:, v])) == c and np.bincount(Y[:, v]).min() > 5 for v, c in enumerate(cats)):
            continue
        # estimates at the boundary are not judged: at most one empty cell per table, none in small tables
        T = [np.array([[np.sum((Y[:, i] == a) & (Y[:, j] == b)) for b in range(cats[j])] for a in range(cats[i])]) for i in range(p) for j in range(i)]
        if all((t == 0).sum() <= (t.size > 8) for t in T) and np.abs(np.corrcoef(Y.T) - np.eye(p)).max() < .75:
            break
    if codes == "gaps":
        Y = np.stack([np.cumsum(rng.integers(1, 4, size=c))[Y[:, v]] for v, c in enumerate(cats)], 1)
    elif codes == "shifted":
        Y = Y + rng.integers(-3, 9, size=p)
    if codes == "gaps" and p > 1:
        Y[:, 1] = Y[:, 1] * 2 + 1
    X = Y.astype(float)
    if miss:
        X[rng.uniform(size=X.shape) < miss] = np.nan
    names = [f"v{chr(97 + (3 * v + 1) % 26)}" for v in range(p)]
    return pd.DataFrame(X if miss else Y, columns=names), names


def setup(tr, cats, n, codes, miss=0.):
    df, names = data(tr.rng, cats, n, codes, miss)
    X = df.values.astype(float)
    tr.meta.update(Y=[[NA if x != x else int(x) for x in X[:, v]] for v in range(X.shape[1])], names=names)
    return df


def pairs(p):
    return [(i, j) for j in range(p) for i in range(j + 1, p)]


AT = "1e-4"


def chor(cls, cats, n, codes, method="twostep"):
    """the two Polychor classes"""
    def go(tr):
        rng = tr.rng
        M = PA if cls == "A" else PB
        df = setup(tr, cats, n, codes)
        with tr.frozen("polychor", df.values):
            o = tr.call("construct", lambda: M.Polychor(df))
            if o is None:
                return
            pp = pairs(len(cats))
            for k, (i, j) in enumerate(pp):
                r = float(np.round(rng.uniform(-.8, .8), 3))
                y = float(np.arctanh(r))
                def f():
                    P, dP, d2P = o.dprob_dr(r, i, j, order=2)
                    assert np.allclose(P, o.predicted_probs(i, j, r=r)) and np.allclose(dP, o.dprob_dr(r, i, j)[1])
                    return dict(C=o.counts[o.II_ind[i, j]], P=o.predicted_probs(i, j, r=r), dP=dP, d2P=d2P, ll=o.qloglike(r, i, j), g=o.qgradient(r, i, j), h=o.qhessian(r, i, j),
                                llt=np.ravel(o.qloglike_transformed(y, i, j))[0], gt=np.ravel(o.qgradient_transformed(y, i, j))[0], ht=np.ravel(o.qhessian_transformed(y, i, j))[0])
                q = tr.call("pair", f)
                if q:
                    tr.ev("pair", cls="polychor", i=i + 1, j=j + 1, r=r, at=AT, **q)
            i, j = pp[rng.integers(len(pp))]
            m, l = o.ncat[i] - 1, o.ncat[j] - 1
            x = np.r_[o.tauc[i] + .15 * rng.uniform(-1, 1) + np.arange(m) * .05, o.tauc[j] + .15 * rng.uniform(-1, 1) + np.arange(l) * .05, rng.uniform(-.7, .7)]
            def f():
                t = o.trns[o.II_ind[i, j]]
                y = t.fwd(x.copy())
                P, dP, _ = o.dprob_dparams(x, i, j, order=2)
                return dict(P=o.predicted_probs(i, j, params=x), dP=np.reshape(dP, (-1, dP.shape[-1])), ll=o.loglike(x, i, j), g=o.gradient(x, i, j), H=o.hessian(x, i, j),
                            llt=o.loglike_transformed(y, i, j), gt=o.gradient_transformed(y, i, j), Ht=o.hessian_transformed(y, i, j))
            q = tr.call("full", f)
            if q:
                tr.ev("full", i=i + 1, j=j + 1, x=x, rt="1e-5", **q)
            one = method in ("onestep", "ML")
            r = tr.call("fit", lambda: o.fit(method, dict(options=dict(gtol=1e-9, xtol=1e-12, maxiter=3000))) or True)
        if r is None:
            return
        rho = o.rhos if cls == "A" else o.rho_hat
        fit = dict(cls="polychor", rho=rho, tol="1e-5", pairs=[[a + 1, b + 1] for a, b in o.inds1])
        if one:
            fit["tau"] = [[num(o.params[k][:o.ncat[a] - 1]), num(o.params[k][o.ncat[a] - 1:-1])] for k, (a, b) in enumerate(o.inds1)]
        if cls == "B":
            assert list(o.R_df.columns) == list(df.columns) == list(o.R_df.index)
            fit["R"] = o.R_df.values
        tr.ev("fit", **fit)
        if one:
            return
        # class A reports n times the covariance
        ac = dict(rho=rho, V=[num(o.acov)] if cls == "A" else [num(v) for v in (o.acov, o.get_acov(), o.get_acov_loop())], n=1 if cls == "A" else len(df))
        if cls == "B":
            t = o.res
            ac.update(se=o.rho_se, lab=list(t.index), df=ints(o.degfrees), tab=dict(b=num(t["parameter"].values), se=num(t["SE"].values), t=num(t["t"].values),
                      p=num(t["p"].values), lo=num(t.iloc[:, -2].values), hi=num(t.iloc[:, -1].values)))
        if len(cats) > 3:
            ac["conv"] = M.convert_acm(o.acov, len(cats))
        tr.ev("acov", **ac)
    return go


def lv(cls, cats, n, codes, miss=0.):
    """Polychoric, PolychoricCorr and the single-pair class"""
    def go(tr):
        rng = tr.rng
        df = setup(tr, cats, n, codes, miss)
        p = len(cats)
        with tr.frozen("polychoric", df.values):
            if cls == "pair":
                x, y = df.iloc[:, 0], df.iloc[:, 1]
                how = rng.integers(3)
                o = tr.call("construct", lambda: [lambda: L._Polychor(x.values, y.values), lambda: L._Polychor(df=df), lambda: L._Polychor(x, y)][how]())
            else:
                o = tr.call("construct", lambda: (L.Polychoric if cls == "corr" else L.PolychoricCorr)(df))
            if o is None:
                return
            for i, j in ([(0, 1)] if cls == "pair" else pairs(p)):
                r = float(np.round(rng.uniform(-.8, .8), 3))
                y = float(np.arctanh(r))
                def f():
                    if cls == "pair":
                        return dict(C=o.xtab, P=o.prob(r).reshape(cats[0], -1), dP=o.dprob(r).reshape(cats[0], -1), d2P=o.gfunc(r).reshape(cats[0], -1), ll=o.loglike(r), g=o.gradient(r), h=o.hessian(r))
                    sh = (len(np.unique(df.iloc[:, i].dropna())), -1)
                    d2 = o.d2prob if cls == "corr" else o.gfunc
                    return dict(P=o.prob(r, i, j).reshape(sh), dP=o.dprob(r, i, j).reshape(sh), d2P=d2(r, i, j).reshape(sh), ll=o.loglike(r, i, j), g=o.gradient(r, i, j), h=o.hessian(r, i, j),
                                llt=o.loglike_tanh(y, i, j), gt=o.gradient_tanh(y, i, j), ht=o.hessian_tanh(y, i, j))
                q = tr.call("pair", f)
                if q:
                    tr.ev("pair", cls="paircorr" if cls == "paircorr" else "polychor", i=i + 1, j=j + 1, r=r, at=AT, **q)
            ok = tr.call("fit", lambda: o.fit() or True)
        if ok is None:
            return
        if cls == "pair":
            tr.ev("fit", cls="polychor", rho=np.atleast_1d(o.rho_hat), se=np.ravel(o.se_rho), tol="1e-5")
        else:
            ij = np.array(pairs(p)).T
            tr.ev("fit", cls="paircorr" if cls == "paircorr" else "polychor", rho=o.R[ij[0], ij[1]], R=o.R, se=o.R_se[ij[0], ij[1]], S=o.R_se, tol="1e-5")
    return go


def serial(c, n, loc, scale, how):
    def go(tr):
        rng = tr.rng
        df = setup(tr, [c, 2], n, "gaps" if how == 1 else "plain")
        tr.meta["Y"] = [tr.meta["Y"][0]]
        y = df.iloc[:, 0].values
        ranks = np.unique(y, return_inverse=True)[1]
        x = np.round(loc + scale * (rng.normal() * (ranks - ranks.mean()) / ranks.std() + rng.normal(size=n)), 5)
        with tr.frozen("polyserial", x, y):
            o = tr.call("construct", lambda: L.Polyserial(x, y) if how < 2 else L.Polyserial(df=np.c_[x, y]) if how == 2 else L.Polyserial("x", "y", df=pd.DataFrame(dict(x=x, y=y))))
            if o is None:
                return
            rs = [float(v) for v in np.round(rng.uniform(-.7, .7, 2), 3)]
            f = lambda: dict(P=[num(o.prob(r)) for r in rs], ll=[num(o.loglike(r)) for r in rs], g=[num(o.gradient(r)) for r in rs], h=[num(np.ravel(o.hessian(r))[0]) for r in rs])
            q = tr.call("evaluate", f)
            if q is None:
                return
            ok = tr.call("fit", lambda: o.fit() or True)
        if ok:
            q.update(rho=o.rho_hat, se=np.ravel(o.se_rho)[0])
        tr.ev("serial", x=x, r=[num(r) for r in rs], **q)
    return go


def xtab(p, q):
    def go(tr):
        rng = tr.rng
        X = rng.integers(1, 25, size=(p, q)).astype(float)
        r = float(np.round(rng.uniform(-.8, .8), 3))
        h, k = np.round(rng.normal(size=5), 3), np.round(rng.normal(size=5), 3)
        def f():
            a, b = S.polychor_thresh(X)
            return dict(a=a, b=b, P=np.reshape(S.polychor_probs(a, b, r), (p + 1, q + 1)), ll=[num(S.polychor_loglike(X, a, b, r)), num(S.polychor_ll(np.r_[r, a, b], X, len(a))), num(S.polychor_partial_ll(r, X, len(a), np.r_[a, b]))],
                        sg=["-1", "1", "1"], cdf=S.binorm_cdf(h, k, r), pdf=S.binorm_pdf(h, k, r), du=S.dbinorm_du(h, k, r))
        with tr.frozen("xtab", X):
            v = tr.call("xtab", f)
        if v:
            tr.ev("xtab", X=X, r=r, h=[num(x) for x in h], k=[num(x) for x in k], **v)
    return go


def simu(mod, p, how):
    def go(tr):
        rng = tr.rng
        R = corr(rng, p)
        def f():
            kw = dict(ncat=5) if how == 0 else dict(ncat=np.arange(4, 4 + p)) if how == 1 else dict(min_cat=2, max_cat=5)
            q, tau = mod.random_thresholds(p, rng=rng, **kw)
            s = mod.PolycoricSim(R, tau, rng=rng)
            Z, Y = s.simulate_data(900)
            return q, tau, Z, Y, PB.threshold_dict_to_array(tau)
        v = tr.call("simulate", f)
        if v:
            q, tau, Z, Y, arr = v
            tr.ev("sim", R=R, Z=Z, Y=[ints(Y[:, k]) for k in range(p)], tau=[num(tau[k]) for k in range(p)], q=[num(q[k]) for k in range(p)], arr=arr)
    return go


def bins(b, yb):
    def go(tr):
        def f():
            s = SL.LVCorrSim(np.array([[1, .5], [.5, 1]]), x_bins=b, y_bins=yb, rng=tr.rng)
            x, y = s.simulate(203)
            return s, x, y
        v = tr.call("lvsim", f)
        if v:
            s, x, y = v
            tr.ev("bins", bins=b, ybins=int(yb), kind=s.kind, x=ints(x), y=[num(t) for t in y] if s.kind == "polyserial" else ints(y))
    return go


def cases(seed, tier):
    C = []
    for rep in range(1 if tier == "quick" else 5):
        s = "" if rep == 0 else f".{rep}"
        for k, (cls, cats, codes, m) in enumerate([("A", [3, 2, 4], "plain", "twostep"), ("A", [2, 3], "gaps", "onestep"), ("A", [4, 3, 3], "gaps", "qml"), ("B", [3, 2, 4], "plain", "twostep"), ("B", [3, 4, 2, 3], "shifted", "twostep"),
                                                   ("B", [3, 3, 2], "gaps", "two-step"), ("B", [3, 2, 3], "plain", "onestep"), ("B", [4, 3], "gaps", "ML"), ("B", [2, 2, 2, 2, 2], "plain", "qml"), ("B", [5, 4], "shifted", "twostep"), ("A", [2, 3, 2, 3], "plain", "twostep")]):
            C.append((f"polychor.{cls}.{k}.{codes}.{m}{s}", chor(cls, cats, [120, 150, 200][k % 3], codes, m)))
        for k, (cls, cats, codes, miss) in enumerate([("corr", [3, 2, 4], "plain", 0), ("corr", [3, 4], "gaps", 0), ("corr", [3, 2, 3, 4], "plain", .06), ("paircorr", [3, 2, 4], "shifted", 0), ("paircorr", [4, 3, 2], "gaps", .06),
                                                      ("paircorr", [2, 2, 3, 3], "plain", .1), ("pair", [3, 4], "plain", 0), ("pair", [2, 5], "gaps", 0), ("pair", [4, 2], "shifted", 0)]):
            C.append((f"lvcorr.{cls}.{k}.{codes}.m{miss}{s}", lv(cls, cats, [140, 170][k % 2], codes, miss)))
        for k, (c, loc, sc) in enumerate([(3, 0, 1), (4, 5, 3), (2, -2, .2), (5, 100, 10)]):
            C.append((f"serial.{c}.{k}{s}", serial(c, 90, loc, sc, k)))
        for p, q in [(2, 3), (4, 3), (3, 3)]:
            C.append((f"xtab.{p}x{q}{s}", xtab(p, q)))
        for how in range(3):
            C.append((f"sim.{how}{s}", simu([PB, SL][how % 2], 3, how)))
        C.append((f"bins.4.3{s}", bins(4, 3)))
        C.append((f"bins.2.0{s}", bins(2, False)))
        C.append((f"bins.5.1{s}", bins(5, 1)))
    return C


if __name__ == "__main__":
    run(cases)
