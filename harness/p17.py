"""P17: exploratory factor analysis (pyfa): rotations, FactorAnalysis, fit measures, scores, alignment, simulator."""
import contextlib, io
import numpy as np
import pandas as pd
import scipy.linalg as sl
from vlib import run, num, ints
from pystatsm.pyfa import rotation as rt, fit_measures as fm
from pystatsm.pyfa.efa import FactorAnalysis
from pystatsm.pyfa.align_loadings import get_loadings_permutation, align_model_matrices
from pystatsm.pyfa.simulate_factor_model import FactorModelSim
from pystatsm.pyfa2.likelihood import MLEstimator
from p16 import loadings, corr, ortho, obliq, cov_of, NAMES


def method(rng, name, A, kind):
    p, m = A.shape
    if name == "target":
        H, W = np.round(loadings(rng, p, m, clean=True), 2), np.round(rng.uniform(.2, 2, size=(p, m)), 2)
        return dict(kind="target", H=H, W=W), rt.TargetRotation(A, H, W, rotation_type=kind)
    if name == "target1":
        H = np.round(loadings(rng, p, m, clean=True), 2)
        return dict(kind="target", H=H, W=np.ones((p, m))), rt.TargetRotation(A, H, rotation_type=kind)
    return dict(kind="cf", name=name), rt.GeneralizedCrawfordFerguson(A, name, rotation_type=kind)


def crit_s(kind, name, p, m):
    def go(tr):
        rng = tr.rng
        A = rng.normal(size=(p, m))
        c, M = method(rng, name, A, kind)
        L, T = rng.normal(size=(p, m)), ortho(rng, m) if kind == "ortho" else obliq(rng, m)
        Phi = np.eye(m) if kind == "ortho" else corr(rng, m)
        def f():
            q2, dq2 = M.vgQ(L)
            o = dict(q=M.Q(L), dq=M.dQ(L), q2=q2, dq2=dq2, LT=M.rotate(T), f=M.f(T), df=M.df(T), con=M.constraints(L, Phi))
            if c["kind"] == "cf":
                J = M.dC_dL_Ortho(L, Phi) if kind == "ortho" else np.asarray(M.dC_dL_Obl(L, Phi)).reshape(m * m, p * m, order="F")
                o["dc"] = J
            return o
        r = tr.call("criterion", f)
        if r:
            tr.ev("gcrit", c=c, kind=kind, A=A, L=L, T=T, Phi=Phi, **r)
        # a full rotation
        A2 = loadings(rng, p + 2, m) @ ortho(rng, m)
        c, M = method(rng, name, A2, kind)
        r = tr.call("rotate", M.fit, dict(tol=1e-8, n_iters=3000))
        if getattr(M, "T", None) is None:
            return
        L = M.rotate(M.T)
        Phi = M.T.T @ M.T
        e = dict(conv=True) if M.opt_hist[-1][1] < 1e-5 else {}
        tr.ev("rotate", c=c, kind=kind, A=A2, T=M.T, L=L, Phi=Phi, T0=np.eye(m), con=M.constraints(L, Phi), Gq=M.Gq, **e)
    return go


OB = {"quartimin": lambda p: 0, "quartimax": lambda p: 0, "biquartimin": lambda p: .5, "covarimin": lambda p: 1, "varimax": lambda p: 1, "equamax": lambda p: p / 2}


def rotate_s(crit, how, kind, p, m, custom=None, start=False):
    def go(tr):
        rng = tr.rng
        A = loadings(rng, p, m) @ (ortho(rng, m) if kind == "ortho" else np.eye(m))
        T0 = None
        if start:
            T0 = ortho(rng, m) if kind == "ortho" else obliq(rng, m, .15)
        g = OB[crit](p) if how == "oblimin" and crit in OB else custom if custom is not None else -.1
        c = dict(kind="ob", g=float(g)) if how == "oblimin" else dict(kind="cf", name=crit)
        r = tr.call("rotate", rt.rotate, A, crit, method=how, rotation_type="orthogonal" if kind == "ortho" else "oblique", T=T0, n_iters=2000, custom_gamma=custom)
        if r is None:
            return
        L, T, G, Gq, hist, vgq, gamma = r
        if not np.isfinite(L).all() or abs(L).max() > 50:
            return           # oblique criteria that are unbounded below
        Tc = T if kind == "ortho" else T.T      # the oblique routine returns the transpose
        e = dict(conv=True) if hist[-1][1] < 1e-5 else {}
        if not e:
            return
        q, dq = vgq(L, gamma)
        Phi = Tc.T @ Tc
        tr.ev("rotate", c=c, kind=kind, A=A, T=Tc, L=L, Phi=Phi, T0=np.eye(m) if T0 is None else T0, con=np.zeros(m * (m - 1) // (1 + (kind == "ortho"))), Gq=dq, gamma=gamma, **e)
    return go


def kind_of(model):
    return "canonical" if model._rotate is None else model.rotation_type


def make(tr, p, m, n, name, kind, frame, scale=False, byS=False, nf="int"):
    rng = tr.rng
    S = cov_of(rng, p, m, None, scale)
    X = np.round(rng.normal(size=(n, p)) @ np.linalg.cholesky(S).T, 5)
    if scale:
        X = X + rng.normal(size=p)
    data = pd.DataFrame(X, columns=[f"item{k}" for k in rng.permutation(p)]) if frame else X
    kw = dict(n_factors=m)
    if name:
        kw.update(rotation_method=name, rotation_type=kind)
    with tr.frozen("data", data):
        if byS:
            Sx = np.cov(X.T, bias=True)
            M = tr.call("construct", lambda: FactorAnalysis(S=pd.DataFrame(Sx, index=data.columns, columns=data.columns) if frame else Sx, n_obs=n, **kw))
        else:
            M = tr.call("construct", lambda: FactorAnalysis(data, **kw))
    return M, X, data


def crit_of(name):
    return dict(kind="cf", name=name or "varimax")


def evals(tr, M, p, m, name, L, Phi, psi, opt=False):
    rng = tr.rng
    t = M.model_matrices_to_params(L, Phi, np.diag(psi))
    rho = np.log(psi)
    kind = kind_of(M)
    def f():
        t2 = M.model_matrices_to_params(L, Phi, psi)
        l2, p2, s2 = M.params_to_model_matrices(t)
        D2 = np.asarray(M.d2sigma_params(t))
        w = rng.normal(size=len(D2))
        o = dict(f=M.loglike(psi), fe=M.loglike_exp(rho), g=M.gradient(psi), ge=M.gradient_exp(rho), H=M.hessian(psi), He=M.hessian_exp(rho), A=M.loadings_from_psi(psi),
                 t2=t2, L=l2, Phi=p2, Psi=s2, sig=M.sigma_params(t), sig2=M.implied_cov_params(t), ds=M.dsigma_params(t), w=w, d2w=np.einsum("k,kij->ij", w, D2),
                 F=M.loglike_params(t), gp=M.gradient_params(t), Hp=M.hessian_params(t), con=M.constraints(t))
        if kind != "oblique" or opt:
            o["dcon"] = M.constraint_derivs(t)
        return o
    if m == 1:
        return
    u = np.linalg.eigvalsh(M.S / np.sqrt(np.outer(psi, psi)))
    r = tr.call("likelihood", f)
    if r:
        if u[-m] > 1.02:
            r["ok"] = True
        tr.ev("eval", S=M.S, m=m, t=t, psi=psi, kind=kind, c=crit_of(name), **r)


def fit_s(p, m, n, name=None, kind=None, frame=False, scale=False, byS=False, scores=True, ev=True):
    def go(tr):
        rng = tr.rng
        M, X, data = make(tr, p, m, n, name, kind, frame, scale, byS)
        if M is None:
            return
        sd = np.sqrt(np.diag(M.S))
        if ev:
            psi = sd ** 2 * rng.uniform(.2, .7, size=p)
            u = np.linalg.eigvalsh(M.S / np.sqrt(np.outer(psi, psi)))
            if np.diff(u).min() > .01:
                L = loadings(rng, p, m) * sd[:, None]
                evals(tr, M, p, m, name, L, corr(rng, m) if kind_of(M) == "oblique" else np.eye(m), psi)
        with contextlib.redirect_stdout(io.StringIO()):
            tr.call("fit", M.fit)
        if getattr(M, "misc_fit_indices", None) is None:
            return
        k = kind_of(M)
        if (np.diag(M.Psi) / sd ** 2).min() < .03 or np.linalg.cond(M.H_aug) > 1e9:
            return
        if M._rotate is not None and m > 1 and M._rotate.opt_hist[-1][1] > 1e-6:
            return
        if not M.opt.success or M.opt.optimality > 5e-5:
            return
        r = M.res
        cols = list(data.columns) if frame else None
        names = True if not frame else (list(M.Loadings.index) == cols and list(M.ResidualCov.index) == cols == list(M.ResidualCov.columns))
        e = dict(L=M.Loadings.values, Phi=M.FactorCorr.values, Psi=M.ResidualCov.values, Sigma=M.Sigma, Lse=M.L_se, psise=M.psi_se)
        if k == "oblique":
            e["Phise"] = M.Phi_se
        tr.ev("fit", S=M.S, m=m, t=M.params, n=n, kind=k, c=crit_of(name), b=r["param"], se=r["SE"], z=r["z"], p=r["p"], labels=list(r.index), names=names, **e)
        if k == "oblique" and m > 1:
            evals(tr, M, p, m, name, M.L, M.Phi, np.diag(M.Psi), opt=True)
        C, I, Q = M.chi2_table, M.incrimental_fit_indices, M.misc_fit_indices
        tr.ev("index", S=M.S, m=m, n=n, Sigma=M.Sigma, chi=C.iloc[0, 0], df=C.iloc[0, 1], pv=C.iloc[0, 2], chi0=C.iloc[1, 0], df0=C.iloc[1, 1], pv0=C.iloc[1, 2],
              ll=Q.loc["loglikelihood", "Value"], **{q: I.loc[q, "Value"] for q in ("TLI", "NFI", "IFI", "RNI", "CFI")}, **{q: Q.loc[q, "Value"] for q in ("GFI", "AGFI", "RMSEA", "SRMR", "AIC", "BIC")})
        def order():
            L2, T2, P2, Qm = M.order_loadings(M.L, M.T, M.Phi)
            return dict(L2=L2, T2=T2, Phi2=P2, Q=Qm)
        if np.abs(M.L.sum(0)).min() > 1e-6:
            o = tr.call("order", order)
            if o:
                tr.ev("order", L=M.L, T=M.T, Phi=M.Phi, **o)
        def other():
            q = dict(L=loadings(rng, p, m) * sd[:, None], Phi=corr(rng, m), Psi=np.diag(sd ** 2 * rng.uniform(.2, .8, size=p)))
            q["S"] = q["L"] @ q["Phi"] @ q["L"].T + q["Psi"]
            for k in rng.permutation(list(q))[: rng.integers(0, 4)]:
                del q[k]
            return q
        if scores and not byS:
            for how in ("thurstone", "bartlett", "mcdonald", "tenBerge"):
                Xn = None if rng.random() < .5 else X[: n // 3] + .1
                kw = {} if rng.random() < .6 else other()
                z = tr.call("scores", M.estimate_factors, X=Xn, method=how, **kw)
                if z:
                    q = dict(S=M.S, L=M.L, Phi=M.Phi, Psi=M.Psi, **{}) | kw
                    tr.ev("score", how=how, X=X if Xn is None else Xn, Z=z[0], B=z[1], Ph=np.real(sl.sqrtm(q["Phi"])), **q)
    return go


def phess_s(ks):
    """Profile Hessians of ten variables; among the fixed draws are some whose null direction is not computed as an exact zero."""
    def go(tr):
        g = np.random.default_rng(7)
        p, m = 10, 2
        for k in range(max(ks) + 1):
            S = np.cov((g.normal(size=(100, p)) @ g.normal(size=(p, p))).T)
            psi = np.diag(S) * g.uniform(.1, .8, size=p)
            if k not in ks:
                continue
            r = tr.call("hessian", lambda: dict(H=FactorAnalysis(S=S, n_obs=100, n_factors=m).hessian(psi), H2=MLEstimator(S, m).hess_psi(psi)))
            if r:
                tr.ev("phess", S=S, m=m, psi=psi, **r)
    return go


def nfac_s(p, m):
    def go(tr):
        rng = tr.rng
        S = cov_of(rng, p, m, 80)
        d = 1 / np.sqrt(np.diag(S))
        S = S * d[:, None] * d
        for prop, eig in ((.6, 1.), (.3, .7), (.8, 1.3)):
            def f():
                a = FactorAnalysis(S=S, n_obs=80, n_factors="proportion", **({} if prop == .6 else dict(proportion=prop)))
                b = FactorAnalysis(S=S, n_obs=80, n_factors="eigmin", **({} if eig == 1. else dict(eigmin=eig)))
                return dict(pro=int(a.n_factors), eig=int(b.n_factors))
            r = tr.call("number of factors", f)
            if r:
                tr.ev("nfac", S=S, prop=prop, eigmin=eig, **r)
        Sg = cov_of(rng, p, m)
        def g():
            chi, pv = fm.lr_test(Sg, S, 5, 40)
            return dict(msa=fm.measure_of_sample_adequacy(S), srmr=fm.srmr(Sg, S, 5), gfi=fm.gfi(Sg, S), agfi=fm.agfi(Sg, S, 5), chi=chi, pv=pv)
        r = tr.call("measures", g)
        if r:
            tr.ev("measure", S=S, Sg=Sg, n=40, df=5, **r)
        # alignment to a target
        for _ in range(3):
            Tg = loadings(rng, p, m)
            q, s = rng.permutation(m), rng.choice([-1., 1.], size=m)
            P = np.zeros((m, m))
            P[np.arange(m), q] = s          # estimated factor q[k] is s[k] times target factor k
            L = (Tg @ P) * rng.uniform(.7, 1.3) + .02 * rng.normal(size=Tg.shape)
            Phi, Lse, Pse = corr(rng, m), rng.uniform(size=(p, m)), corr(rng, m)
            def h():
                j, sg = get_loadings_permutation(Tg, L)
                o = align_model_matrices(Tg, L, Phi, Lse, Pse)
                o2 = align_model_matrices(Tg, L, Phi, Lse, Pse, permutation=(j, sg))
                assert all(np.array_equal(a, b) for a, b in zip(o, o2))
                return dict(perm=ints(j), signs=sg, L2=o[0], Lse2=o[1], Phi2=o[2], Pse2=o[3])
            r = tr.call("align", h)
            if r:
                tr.ev("align", L=L, Phi=Phi, Lse=Lse, Pse=Pse, true=ints(q), tsign=s, **r)
    return go


def sim_s(p, m, exact, given=False, kw=None):
    def go(tr):
        rng = tr.rng
        n, s = 1200, int(rng.integers(1 << 30))
        mats = {}
        if given:
            mats = dict(L=loadings(rng, p, m), Phi=corr(rng, m), Psi=np.diag(rng.uniform(.2, .9, size=p)))
        def f():
            out = []
            for _ in range(2):
                M = FactorModelSim(p, m, seed=s, **mats)
                M.simulate_cov(**(kw or {}))
                Z, X = M.simulate_data(n, exact=exact)
                out.append((M, Z, X))
            M, Z, X = out[0]
            Zc = Z - Z.mean(0) if exact else Z
            return dict(L=M.L, Phi=M.Phi, Psi=M.Psi, Sigma=M.Sigma, X=X[:40], ZF=Z[:40, :m], ZE=Z[:40, m:], SZ=Zc.T @ Zc / n,
                        same=bool(np.array_equal(X, out[1][2])), kept=bool(all(np.array_equal(getattr(M, k), v) for k, v in mats.items())))
        r = tr.call("simulate", f)
        if r:
            tr.ev("sim", n=n, exact=exact, gen=not given, **r)
    return go


def cases(seed, tier):
    C = []
    for kind in ("ortho", "oblique"):
        for nm in NAMES + ["target", "target1"]:
            C += [(f"gcf-{kind}-{nm}", crit_s(kind, nm, 5, 3)), (f"gcf2-{kind}-{nm}", crit_s(kind, nm, 4, 2))]
        for nm in NAMES + ["parsimony"]:
            C.append((f"cf-{kind}-{nm}", rotate_s(nm, "cf", kind, 7, 2 + (nm[0] in "vq"), start=nm[0] in "eq")))
        for nm in OB:
            if kind == "ortho" or nm in ("quartimin", "biquartimin", "quartimax"):
                C.append((f"ob-{kind}-{nm}", rotate_s(nm, "oblimin", kind, 7, 2 + (nm[0] in "vq"), start=nm[0] in "be")))
        C += [(f"ob-{kind}-custom", rotate_s("oblique", "oblimin", kind, 7, 3, custom=-.3)), (f"ob-{kind}-default", rotate_s("oblique", "oblimin", kind, 7, 3))]
    C += [("fit-none", fit_s(6, 2, 150, frame=True)), ("fit-none-3", fit_s(9, 3, 300)), ("fit-one", fit_s(5, 1, 120, frame=True)), ("fit-S", fit_s(6, 2, 150, byS=True, frame=True)), ("fit-S-1", fit_s(6, 2, 150, "varimax", "ortho", byS=True))]
    for i, nm in enumerate(NAMES):
        C += [(f"fit-ortho-{nm}", fit_s(6 + i % 2, 2, 160, nm, "ortho", frame=bool(i % 2))), (f"fit-obl-{nm}", fit_s(6 + i % 2, 2, 160, nm, "oblique", frame=bool((i + 1) % 2)))]
    C += [("fit-obl-3", fit_s(9, 3, 300, "varimax", "oblique")), ("fit-ortho-3", fit_s(9, 3, 300, "equamax", "ortho")), ("fit-default-type", fit_s(6, 2, 150, "varimax", None)), ("fit-small", fit_s(6, 2, 150, "quartimax", "oblique", scale="small")), ("fit-scaled", fit_s(6, 2, 150, scale=True)),
          ("fit-obl-4", fit_s(12, 4, 500, "quartimax", "oblique", ev=False))]
    C += [("phess", phess_s({3, 113, 402, 469})), ("phess2", phess_s({760, 772, 1463}))]
    C += [("nfac", nfac_s(6, 2)), ("nfac-3", nfac_s(8, 3)), ("nfac-4", nfac_s(9, 4))]
    C += [("sim", sim_s(6, 2, True)), ("sim-n", sim_s(6, 3, False)), ("sim-g", sim_s(5, 2, True, given=True)), ("sim-gn", sim_s(5, 2, False, given=True)), ("sim-r", sim_s(7, 3, False, kw=dict(loadings_kws=dict(random=True), factor_corr_kws=dict(random=True), residual_cov_kws=dict(random=False)))),
          ("sim-rho", sim_s(6, 3, True, kw=dict(factor_corr_kws=dict(rho=.3))))]
    if tier != "quick":
        C = [(f"{i}.{k}", f) for k in range(5) for i, f in C]
    return C


if __name__ == "__main__":
    run(cases)
