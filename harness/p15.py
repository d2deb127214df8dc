"""P15: structural equation models: likelihood, derivatives, casewise contributions, fits and standard errors."""
import numpy as np
import pandas as pd
from vlib import run, num, ints
import sem_lib as sl
from p14 import make, shared, s_


def by_group(m, a):
    """Rows of a casewise array in the order of the groups."""
    gi = m.model_data.group_indices
    return np.concatenate([np.asarray(a)[np.asarray(gi[g])] for g in range(m.n_groups)])


def evals(tr, m, t, heavy=True):
    def all_():
        g = {}
        g["f"], g["fg"] = m.fit_func(t), m.fit_func(t, per_group=True)
        g["ls"], g["lg"], g["lo"] = m.loglike(t), m.loglike(t, level="group"), by_group(m, m.loglike(t, level="observation"))
        g["g"], g["g1"], g["gg"] = m.gradient(t), m.gradient(t, method=1), m.gradient(t, per_group=True)
        g["go"] = by_group(m, m.gradient_obs(t))
        g["H"] = m.hessian(t)
        if heavy:
            g["Hg"] = [num(x) for x in m.hessian(t, per_group=True)]
        return g
    r = tr.call("likelihood", all_)
    if r is not None:
        tr.ev("eval", t=t, **r)


def session(st, G=1, sh=None, opt=None, n=14, fit=False, extra=True, robust=False, how=None):
    def go(tr):
        rng = tr.rng
        s = st(rng) if callable(st) else st
        o = dict(sl.OPT, **(opt or {}))
        share = shared(rng, G, s) if sh is None else list(sh)
        df, grp = sl.data(rng, s, n, G, extra=extra)
        text = sl.render(s, rng)
        if fit:
            # data that the model can describe, so that the fit is interior
            from pystatsm.pysem2.sem import SEM
            m0 = SEM(text, df)
            t0 = sl.point(rng, m0)
            S, mu = m0.implied_cov_mean(t0)
            O = sorted(m0.obs_order, key=lambda v: m0.obs_order[v])
            Z = rng.normal(size=(len(df), len(O)))
            Z = (Z - Z.mean(0)) @ np.linalg.inv(np.linalg.cholesky(np.cov(Z.T, bias=True))).T
            Z = Z + .03 * rng.normal(size=Z.shape)
            df[O] = np.round(Z @ np.linalg.cholesky(S[0]).T + mu[0], 4)
        m = make(tr, s, df, grp, G, share, o, text)
        if m is None:
            return
        sl.describe(tr, m, s, df, grp, G, share, o)
        start = m.theta.copy()
        t = sl.point(rng, m)
        evals(tr, m, t)
        if not fit:
            return
        kw = dict(robust_se=robust)
        if how == "options":
            kw["minimize_options"] = dict(verbose=0)
        elif how == "hess":
            kw.update(use_hess=True)
        elif how == "lbfgs":
            kw.update(minimize_kws=dict(method="L-BFGS-B", options=dict(ftol=1e-15, gtol=1e-7, maxiter=5000)))
        elif how == "init":
            kw.update(theta_init=t.copy())
        with sl.quiet():
            tr.call("fit", m.fit, **kw)
        if getattr(m, "opt_res", None) is None:
            return
        th = np.asarray(m.theta)
        lo = np.array([b[0] if b[0] is not None else -np.inf for b in m.bounds], float)
        A = m.hessian(th)
        if (th - lo).min() < .02 or np.linalg.cond(A) > 1e7 or np.linalg.eigvalsh(A).min() <= 0:
            return
        tab = m.res
        tr.ev("fit", t=th, t0=t if how == "init" else start, robust=robust, tol="2e-3", b=tab.iloc[:, 0], se=tab.iloc[:, 1], tv=tab.iloc[:, 2], labels=list(tab.index), ref=list(m.theta_names))
        evals(tr, m, th, heavy=False)
    return go


def cases(seed, tier):
    C = []
    path = [s_("y1", "~", "z1"), s_("y1", "~", "z2"), s_("y2", "~", "y1"), s_("y2", "~", "z2"), s_("y3", "~", "y1")]
    cfa = [s_("f", "=~", f"x{i}") for i in range(1, 5)] + [s_("g", "=~", f"x{i}") for i in range(5, 8)]
    med = [s_("f", "=~", f"x{i}") for i in range(1, 4)] + [s_("f", "~", "z1"), s_("y1", "~", "f"), s_("y1", "~", "z1")]
    C += [("path", session(path)), ("path-2g", session(path, G=2, sh=[True] * 6)), ("cfa", session(cfa)), ("cfa-2g-all", session(cfa, G=2, sh=[True] * 6)),
          ("cfa-2g-load", session(cfa, G=2, sh=[True, True, False, False, False, False])), ("cfa-2g-tail", session(cfa, G=2, sh=[False, False, True, True, True, True])),
          ("cfa-2g-none", session(cfa, G=2, sh=[False] * 6)), ("cfa-3g", session(cfa, G=3, sh=[True, False, False, True, False, False]))]
    C += [("fit-path", session(path, n=80, fit=True)), ("fit-cfa", session(cfa, n=90, fit=True, how="options")), ("fit-med", session(med, n=80, fit=True, robust=True)),
          ("fit-lbfgs", session(cfa, n=90, fit=True, how="lbfgs")), ("fit-2g", session(med, G=2, n=60, fit=True, sh=[True, True, False, False, True, True])),
          ("fit-2g-all", session(cfa, G=2, n=50, fit=True, sh=[True] * 6, robust=True)), ("fit-init", session(path, n=60, fit=True, how="init")), ("fit-hess", session(med, n=60, fit=True, how="hess"))]
    k = 12 if tier == "quick" else 50
    for i in range(k):
        C.append((f"rand-{i}", session(lambda r: sl.gen(r, big=True), G=1)))
    for i in range(k):
        C.append((f"rand2-{i}", session(lambda r: sl.gen(r), G=2 + (i % 5 == 4))))
    for i in range(0 if tier == "quick" else 12):
        C.append((f"fit-{i}", session(lambda r: sl.gen(r), n=90, G=1 + (i % 3 == 2), fit=True, robust=bool(i % 2), how=[None, "lbfgs", "options"][i % 3])))
    return C


if __name__ == "__main__":
    run(cases)
