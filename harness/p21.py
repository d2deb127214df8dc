"""P21: robust estimation (pyrobust): M-estimator functions, scale estimators, M- and S-regression, the simulator."""
import os
import numpy as np, pandas as pd
from vlib import run, num, ints
from pystatsm.pyrobust import m_estimators as M, dispersion_estimators as D, rls
from pystatsm.pyrobust.robust_model_sim import RobustRegressionModel

EST = {"Huber": M.Huber, "Bisquare": M.Bisquare}


def fun_case(f, c):
    def go(tr):
        m = EST[f](c=c)
        for k in range(3):
            x = np.r_[0., tr.rng.normal(size=12) * c, tr.rng.standard_cauchy(size=8) * c] if k < 2 else np.arange(-4, 7)
            if k == 1:
                m, args = EST[f](), (c,)
            else:
                m, args = EST[f](c=c), ()
            if k == 2 and np.any(np.abs(np.abs(x) - c) < 1e-6):
                x = x[np.abs(np.abs(x) - c) > 1e-6]
            with tr.frozen("functions", x):
                v = tr.call("functions", lambda: [m.rho(x, *args), m.psi(x, *args), m.phi(x, *args), m.weights(x, *args), m.rho(-x, *args), m.rho(x * 1.3, *args),
                                                  m.chi(x, 0, *args), m.chi(x, 1, *args), m.chi(x, 2, *args)])
            if v:
                tr.ev("fun", f=f, c=repr(float(c)), x=num(x.astype(float)), rho=num(v[0]), psi=num(v[1]), phi=num(v[2]), wt=num(v[3]), rhom=num(v[4]), rho2=num(v[5]), chi=[num(u) for u in v[6:]])
        for m, a in ((EST[f](c=c), ()), (EST[f](), (c,))):
            v = tr.call("expectations", lambda: [float(m.E_rho(*a)), float(m.E_psi(*a)), float(m.E_psi2(*a)), float(m.E_phi(*a))])
            if v:
                tr.ev("exp", f=f, c=repr(float(c)), rho=num(v[0]), psi=num(v[1]), psi2=num(v[2]), phi=num(v[3]))
    return go


def disp(tr, x):
    x = np.asarray(x, float)
    both = lambda fn, i=None: [num(np.ravel(fn(x, corrected=k) if i is None else fn(x, corrected=k)[i])[0]) for k in (True, False)]
    with tr.frozen("dispersion", x):
        v = tr.call("dispersion", lambda: dict(
            gmd=[both(D.gmd), both(D.gmd2), both(D.gmd3)], snm=[both(D.sn_estimator), both(D.sn_estimator2)], qn=[both(D.qn_estimator), both(D.qn_estimator2)],
            sn=[both(D.sn, 0), both(D.sn_naive, 0)], sna=[num(D.sn(x)[1]), num(D.sn_naive(x)[1])], mad=[num(D.mad(x)), num(D.mad(x, cn=1.0))],
            med=[num(np.ravel(u)[0]) for u in (D._median_1d(x, "low"), D._median_1d(x, "high"), D._median_nd(x, "low"), D._median_nd(x, "high"))]))
    if v:
        tr.ev("disp", x=num(x), **v)


def small_case(rows):
    def go(tr):
        for r in rows:
            disp(tr, tr.rng.permutation(np.asarray(r, float)))
    return go


def disp_case(k):
    def go(tr):
        for n in (8, 9, 10, 11, 12, 17, 24, 31):
            x = tr.rng.normal(size=n) if k % 3 == 0 else tr.rng.standard_cauchy(size=n) if k % 3 == 1 else np.round(tr.rng.exponential(size=n) * 4)
            disp(tr, x + 3)
        fs = [D.gmd, D.gmd2, D.gmd3, D.sn_estimator, D.sn_estimator2, D.qn_estimator, D.qn_estimator2, lambda z: D.sn(z)[0], lambda z: D.sn_naive(z)[0], D.mad]
        for b in (-2.5, .01, 40.):
            x = tr.rng.standard_t(3, size=15 + k)
            v = tr.call("equivariance", lambda: [[num(np.ravel(f(x))[0]), num(np.ravel(f(7 + b * x))[0])] for f in fs])
            if v:
                tr.ev("equiv", b=repr(b), v=v)
        X = tr.rng.standard_t(4, size=(6 + k, 5))
        v = tr.call("by-axis", lambda: [D.mad(X, axis=1), D.mad(X, axis=0), D.gmd3(X, corrected=False), D._median_nd(X, "low", axis=1).ravel(), D._median_nd(X, "high", axis=0).ravel()])
        if v:
            tr.ev("madaxis", X=num(X), rows=num(v[0]), cols=num(v[1]), gmd=num(v[2]), lo=num(v[3]), hi=num(v[4]))
    return go


def simul_case(f, c):
    def go(tr):
        for n in (15, 40):
            x = tr.rng.standard_t(4, size=n) * 3 + 10
            for d in (.5, .4):
                v = tr.call("simultaneous", M.estimate_simultaneous, x, EST[f](c=c), d, n_iters=2000, tol=1e-13)
                if v:
                    tr.ev("simul", x=num(x), f=f, c=repr(c), d=repr(d), v=num(v[0]), mu=num(v[1]), sd=num(v[2]), tol="1e-5")
            m = EST[f](c=c)
            r = x - 10
            for s0 in (None, 2.2):
                v = tr.call("m-scale", lambda: [m.m_estimate_scale(r, s0, .45), m.m_estimate_scale(r, s0, .45, n_iters=3000)])
                if v:
                    tr.ev("mscale", r=num(r), f=f, c=repr(c), bd="0.45", one=num(v[0]), lim=num(v[1]), **({} if s0 is None else {"s0": repr(s0)}))
    return go


def reg(tr, n, p, kind="t", out=0.):
    X = tr.rng.normal(size=(n, p))
    e = tr.rng.standard_t(3, size=n) if kind == "t" else tr.rng.normal(size=n)
    beta = tr.rng.normal(size=p + 1)
    y = beta[0] + X @ beta[1:] + e * (1.0 if not out else .1)
    bad = np.sort(tr.rng.permutation(n)[:int(out * n)])
    y[bad] += 50 + tr.rng.normal(size=len(bad)) * .5
    if out:
        X[bad] += 3
    df = pd.DataFrame(X, columns=[f"v{j}" for j in range(p)])
    df["y"] = y
    f = "y~" + "+".join(df.columns[:-1])
    tr.meta.update(X=num(np.column_stack([np.ones(n), X])), y=num(y), xn=["Intercept"] + list(df.columns[:-1]))
    return df, f, beta, bad


def m_case(c, n, p):
    def go(tr):
        df, f, b0, _ = reg(tr, n, p)
        tr.meta["c"] = repr(c)
        with tr.frozen("RobustLM", df):
            m = tr.call("RobustLM", rls.RobustLM, f, df, c=c)
            if m is None:
                return
            for j in range(3):
                t = m.theta_init + tr.rng.normal(size=p + 2) * .3
                for a in ((None, .5), (.35, .35)):
                    with tr.frozen("objective", t):
                        v = tr.call("objective", lambda: [m.rho(t, a[0]), m.grad(t, a[0]), m.hessian(t, a[0])])
                    if v:
                        tr.ev("obj", t=num(t), a=repr(a[1]), v=num(v[0]), g=num(v[1]), h=num(v[2]))
            for mode in ("mad", "huber"):
                v = tr.call("irwls", m.irwls, mode, None, 3000)
                if v and len(v[1]) < 2990:
                    tr.ev("irwls", mode=mode, t=num(v[0]))
            fit_ev(tr, m, df["y"].to_numpy())
            y2 = df["y"].to_numpy()[::-1] * 4.0 + 1
            if tr.call("update", lambda: (m._update_y(y2.copy()), 1)):
                fit_ev(tr, m, y2)
        t1, b1 = m.t_values.copy(), m.beta.copy()
        d2 = df.copy()
        d2["y"] = y2 * 25.
        m2 = tr.call("RobustLM", rls.RobustLM, f, d2, c=c)
        if m2 is not None and tr.call("fit", lambda: (m2.fit(), 1)):
            tr.ev("unit", k="25", t1=num(t1), t2=num(m2.t_values), b1=num(b1), b2=num(m2.beta))
    return go


def fit_ev(tr, m, y):
    if not tr.call("fit", lambda: (m.fit(), 1)):
        return
    r = m.res
    tr.ev("fit", y=num(y), t=num(m.theta), a=repr(m.a), beta=num(m.beta), scale=num(m.scale), resids=num(m.resids), psi=num(m.psi_r), phi=num(m.phi_r), H1=num(m.H1), H2=num(m.H2), H3=num(m.H3),
          se=num(m.se_beta), tab=num(r[["beta", "SE1", "SE2", "SE3", "t1", "t2", "t3", "p1", "p2", "p3"]].to_numpy()), rows=[str(i) for i in r.index], r2=num(m.rsquared), dev=num(m.deviance),
          aic=num(m.aicr), bic=num(m.bicr), stats=num(m.sumstats.loc[["r2", "dev", "AICr", "BICr"]].to_numpy().ravel()))


def s_case(c, n, p, out, bd=.5):
    def go(tr):
        df, f, b0, bad = reg(tr, n, p, "n" if out else "t", out)
        X = np.column_stack([np.ones(n), df.iloc[:, :p].to_numpy()])
        y = df["y"].to_numpy()
        with tr.frozen("RobustSLM", df):
            m = tr.call("RobustSLM", rls.RobustSLM, f, df, c=c)
            if m is None:
                return
            ols = np.linalg.lstsq(X, y, rcond=None)[0]
            lad = ols
            for _ in range(200):
                w = 1 / np.maximum(np.abs(y - X @ lad), 1e-6)
                lad = np.linalg.lstsq(X * np.sqrt(w)[:, None], y * np.sqrt(w), rcond=None)[0]
            for kw in (dict(), dict(n_refining=0), dict(n_subsample=1, rng=np.random.default_rng(7))):
                v = tr.call("fit", m.fit, bd=bd, **kw)
                if v:
                    e = dict(c=repr(c), bd=repr(bd), s=num(v[0]), b=num(v[1]), refs=[num(ols), num(lad), num(b0)])
                    if out:
                        e.update(clean=[int(i) + 1 for i in range(n) if i not in set(bad)], near="0.15")
                    tr.ev("sest", **e)
        for f_ in ("Bisquare", "Huber"):
            e = EST[f_](c=c)
            for s0 in (None, 1.7):
                b = ols + tr.rng.normal(size=p + 1) * .2
                v = tr.call("step", e.irls_step, X, y, b, s0, .5, 1)
                if v:
                    tr.ev("step", f=f_, c=repr(c), bd="0.5", b0=num(b), r=num(v[0]), b=num(v[1]), s=num(v[2]), **({} if s0 is None else {"s0": repr(s0)}))
    return go


def sim_case(k):
    def go(tr):
        kw = [dict(n_obs=60, n_var=5, n_nnz=2), dict(n_obs=40, n_var=6, n_nnz=3, rho=.6, rsq=.3), dict(n_obs=50, beta=np.array([1., 0, -1, 0, 1]), rho=-.3),
              dict(n_obs=45, n_var=4, n_nnz=4, x_cov=np.diag([1., 2, 3, 4]) + .5, rsq=.8), dict(n_obs=30, n_var=7, n_nnz=5, rsq=.5)][k % 5]
        E = {}

        def dist(loc, scale, size):
            E["e"] = tr.rng.normal(size=size)
            return loc + scale * E["e"]
        for user in (True, False):
            rng = np.random.default_rng(k)
            m = tr.call("simulator", lambda: RobustRegressionModel(seed=11 + k, rng=rng, **({"resid_dist": dist} if user else {}), **kw))
            if m is None:
                return
            S = kw.get("x_cov", None)
            p = m.n_var
            if S is None:
                S = kw.get("rho", 0.) ** np.abs(np.subtract.outer(np.arange(p), np.arange(p)))
            for ns in (1, 4):
                Y = tr.call("simulate", m.simulate_dependent, ns)
                if Y is None:
                    return
                if user:
                    e = E["e"]
                else:
                    r2 = np.random.default_rng(k)
                    for n0 in ((1,) if ns == 1 else (1, 4)):
                        e = r2.standard_t(df=2, size=(n0, m.n_obs))
                tr.ev("rsim", X=num(m.X), S=num(S), beta=num(m.beta), eta=num(m.lpred), rsq=repr(float(kw.get("rsq", .5))), scale=num(m.resid_scale), m=ns, Y=num(np.atleast_2d(Y.T).T if ns > 1 else Y[:, None]), E=num(e.T),
                      cols=list(m.data.columns), D=num(m.data.iloc[:, :p].to_numpy()), **({"nnz": kw["n_nnz"]} if "n_nnz" in kw else {"nnz": int(np.sum(kw["beta"] != 0))}))
    return go


def cases(seed, tier):
    big = tier != "quick"
    cs = []
    for f, c in (("Huber", 1.345), ("Huber", .8), ("Huber", 2.2), ("Bisquare", 4.685), ("Bisquare", 1.56), ("Bisquare", 3.0)):
        cs.append((f"fun-{f}-{c}", fun_case(f, c)))
    rows = {}
    for ln in open(os.environ["GENFILE"]).read().split("\n"):
        h = [x.strip().strip('\\"') for x in ln.strip('"').replace("<<", "").replace(">>", "").split(",")]
        if len(h) > 1:
            rows.setdefault(len(h), []).append([float(x) for x in h])
    for n, r in sorted(rows.items()):
        for j in range(0, len(r), 60):
            cs.append((f"small-{n}-{j}", small_case(r[j:j + 60])))
    for rep in range(6 if big else 1):
        t = f".{rep}" if rep else ""
        for k in range(12 if big else 6):
            cs.append((f"disp-{k}{t}", disp_case(k)))
        for f, c in (("Huber", 1.345), ("Bisquare", 1.56), ("Bisquare", 2.5)):
            cs.append((f"simul-{f}-{c}{t}", simul_case(f, c)))
        for c, n, p in ((1.345, 50, 2), (1.2, 80, 3), (2.0, 40, 1), (1.345, 120, 4)):
            cs.append((f"mreg-{c}-{n}-{p}{t}", m_case(c, n, p)))
        for c, n, p, o, bd in ((1.56, 50, 2, 0, .5), (1.548, 60, 2, .3, .5), (1.56, 80, 3, .2, .5), (2.0, 40, 1, 0, .5), (2.4, 60, 2, 0, .35), (2.9, 70, 2, .1, .25)):
            cs.append((f"sreg-{c}-{n}-{p}-{o}-{bd}{t}", s_case(c, n, p, o, bd)))
        for k in range(5):
            cs.append((f"sim-{k}{t}", sim_case(k)))
    return cs


if __name__ == "__main__":
    run(cases)
