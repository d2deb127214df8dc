"""P16: factor analysis (pyfa2): criteria, rotations, solvers, identification, likelihood, inference, alignment, simulation."""
import contextlib, io
import numpy as np
from vlib import run, num, ints
from pystatsm.pyfa2 import cayley as cy, alignment as al, inference as inf, simulation as sim
from pystatsm.pyfa2.criterion import GCFCriterion, TargetCriterion
from pystatsm.pyfa2.rotation import OrthoRotation, ObliqueRotation
from pystatsm.pyfa2.solvers import GPA, CayleySolver, gpa, cayley_solve
from pystatsm.pyfa2.identification import RotationIdentification, CanonicalIdentification
from pystatsm.pyfa2.layout import ParamLayout
from pystatsm.pyfa2.likelihood import MLEstimator
from pystatsm.pyfa2.sim_factor_model import unpack_se, alignment_matrix

NAMES = ["varimax", "quartimax", "equamax", "parsimax"]


def loadings(rng, p, m, clean=False):
    L = .15 * rng.normal(size=(p, m)) * (not clean)
    for i in range(p):
        L[i, i * m // p] += rng.uniform(.5, .95)
    return np.round(L, 4)


def corr(rng, m, s=.4):
    X = rng.normal(size=(m, m)) * s + np.eye(m)
    S = X @ X.T
    d = 1 / np.sqrt(np.diag(S))
    return S * d[:, None] * d


def ortho(rng, m):
    Q, _ = np.linalg.qr(rng.normal(size=(m, m)))
    if np.linalg.det(Q) < 0:
        Q[:, 0] = -Q[:, 0]
    return Q


def obliq(rng, m, s=.35):
    T = np.eye(m) + s * rng.normal(size=(m, m))
    return T / np.sqrt((T ** 2).sum(0))


def criterion(rng, name, p, m):
    if name == "target":
        H = np.round(loadings(rng, p, m, clean=True), 2)
        return dict(kind="target", H=H, W=np.ones((p, m))), TargetCriterion(H)
    if name == "wtarget":
        H, W = np.round(loadings(rng, p, m, clean=True), 2), np.round(rng.uniform(0, 2, size=(p, m)), 2)
        W[rng.integers(p)] = 0
        return dict(kind="target", H=H, W=W), TargetCriterion(H, W)
    return dict(kind="cf", name=name), GCFCriterion(name, p, m)


def rot_of(kind, m):
    return OrthoRotation(m) if kind == "ortho" else ObliqueRotation(m)


def crit_s(name, p, m):
    def go(tr):
        rng = tr.rng
        c, C = criterion(rng, name, p, m)
        for _ in range(2):
            L = rng.normal(size=(p, m))
            Y, y = rng.normal(size=(p * m, 3)), rng.normal(size=p * m)
            with tr.frozen("criterion", L, Y, y):
                r = tr.call("criterion", lambda: (C.Q(L), C.dQ(L), C.d2Q(L), C.d2Q_apply(L, Y), C.d2Q_apply(L, y)))
            if r is None:
                return
            tr.ev("crit", c=c, L=L, q=r[0], dq=r[1], d2=r[2], Y=Y, y=y, hy=r[3], hy1=r[4])
    return go


def cay_s(m):
    def go(tr):
        rng = tr.rng
        v = rng.normal(size=m * (m - 1) // 2)
        R = OrthoRotation(m)
        H, V = rng.normal(size=(m, m)), rng.normal(size=(3, len(v)))
        def f():
            S = cy.vec_to_skew(v, m)
            Q = R.unconstrained_to_rotation(v)
            return dict(S=S, sv=cy.skew_to_vec(S), Q=Q, back=R.rotation_to_unconstrained(Q), dr=R.d_rotation(v, H), QS=[num(x) for x in cy.vec_to_rot(V, m)])
        r = tr.call("cayley", f)
        if r:
            tr.ev("cayley", m=m, v=v, H=H, V=[num(x) for x in V], **r)
    return go


def rot_s(kind, name, p, m):
    def go(tr):
        rng = tr.rng
        c, C = criterion(rng, name, p, m)
        R = rot_of(kind, m)
        A = rng.normal(size=(p, m))
        for _ in range(2):
            T = ortho(rng, m) if kind == "ortho" else obliq(rng, m)
            Y, X = rng.normal(size=(m, m)), rng.normal(size=(m, m))
            def f():
                L = R.rotated_loadings(A, T)
                return dict(L=L, Phi=R.implied_corr(T), G=R.grad(A, T, C.dQ(L)), P=R.constraint_project(T, Y), R=R.constraint_retract(X.copy()))
            r = tr.call("rotation", f)
            if r:
                tr.ev("rot", c=c, kind=kind, A=A, T=T, Y=Y, X=X, **r)
    return go


def solve_s(kind, name, solver, p, m, form="class", start=False):
    def go(tr):
        rng = tr.rng
        c, C = criterion(rng, name, p, m)
        R = rot_of(kind, m)
        A = loadings(rng, p, m) @ ortho(rng, m)
        T0 = None
        if start:
            T0 = ortho(rng, m) if kind == "ortho" else obliq(rng, m, .2)
            if kind == "ortho" and solver == "cayley" and np.linalg.eigvals(T0).real.min() < -.8:
                T0 = None
        def f():
            kw = dict(tol=1e-8, n_iters=4000) if solver == "gpa" else dict(options=dict(gtol=1e-10, xtol=1e-12, maxiter=3000))
            if form == "class":
                I = RotationIdentification(R, C, solver=solver, **kw)
                o = I.fit(A, T0=T0)
                return o["T"], o["info"], o["L"], o["Phi"]
            T, info = (gpa if solver == "gpa" else cayley_solve)(C, R, A, T0=T0, **kw)
            return T, info, R.rotated_loadings(A, T), R.implied_corr(T)
        r = tr.call("solve", f)
        if r is None:
            return
        T, info, L, Phi = r
        gn = info.get("grad_norm")
        e = dict(c=c, kind=kind, A=A, T=T, f=info["f"], L=L, Phi=Phi, T0=np.eye(m) if T0 is None else T0, tol="1e-3" if solver == "cayley" else "1e-4")
        if solver == "gpa":
            if gn > 5e-5:        # the line search ran out of steps: nothing claimed about stationarity
                e["tol"] = "10"
            e["gn"] = gn
        elif not info["opt"].success or info["opt"].optimality > 1e-6 or np.abs(info["theta"]).max() > 4:
            # rotations by half a turn lie at infinity in these coordinates: the optimiser then stops on its step length
            e["tol"] = "10"
        tr.ev("solve", **e)
    return go


def ident_s(kind, name, p, m):
    def go(tr):
        rng = tr.rng
        lay = ParamLayout(p, m)
        if kind == "canonical":
            c, I = dict(kind="cf", name="varimax"), CanonicalIdentification(p, m)
        else:
            c, C = criterion(rng, name, p, m)
            I = RotationIdentification(rot_of(kind, m), C)
        L, psi = rng.normal(size=(p, m)), rng.uniform(.3, 2, size=p)
        Phi = corr(rng, m) if kind == "oblique" else np.eye(m)
        t = np.concatenate([L.flatten("F"), [Phi[i, j] for j in range(m) for i in range(j + 1, m)], psi])
        def f():
            l2, p2, s2 = lay.unpack(t)
            t1, t2 = lay.pack(l2, p2, np.diag(s2)), lay.pack(l2, p2, s2)
            return dict(L=l2, Phi=p2, psi=s2, t2=t2 if np.array_equal(t1, t2) else t1 * np.nan, con=I.constraint(t), dcon=I.d_constraint(t), nc=I.n_constraints(), free=ints(I.free_mask().astype(int)))
        r = tr.call("identification", f)
        if r:
            tr.ev("ident", p=p, m=m, kind=kind, c=c, t=t, **r)
    return go


def canon_s(p, m, psi):
    def go(tr):
        rng = tr.rng
        A = rng.normal(size=(p, m))
        k = {"Psi": rng.uniform(.3, 2, size=p)} if psi else {}
        o = tr.call("canonical", CanonicalIdentification(p, m).fit, A, **k)
        if o:
            e = dict(psi=k["Psi"]) if psi else {}
            tr.ev("canon", A=A, L=o["L"], T=o["T"], Phi=o["Phi"], vals=o["info"]["eigvals"], **e)
    return go


def cov_of(rng, p, m, n=None, scale=False):
    L, Phi, psi = loadings(rng, p, m), corr(rng, m), rng.uniform(.3, .9, size=p)
    S = L @ Phi @ L.T + np.diag(psi)
    if scale:
        d = rng.uniform(.02, .2, size=p) if scale == "small" else rng.uniform(.5, 3, size=p)
        S = S * d[:, None] * d
    if n:
        X = rng.normal(size=(n, p)) @ np.linalg.cholesky(S).T
        S = np.cov(X.T, bias=True)
    return S


def psi_s(p, m, scale=False):
    def go(tr):
        rng = tr.rng
        S = cov_of(rng, p, m, 60, scale)
        M = MLEstimator(S, m)
        for k in range(2):
            psi = np.diag(S) * rng.uniform(.2, .8, size=p)
            rho = np.log(psi)
            u = np.linalg.eigvalsh(S / np.sqrt(np.outer(psi, psi)))
            if np.diff(u).min() < .02:
                continue
            r = tr.call("profile", lambda: dict(f=M.loglike_psi(psi), fe=M.loglike_exp(rho), g=M.grad_psi(psi), ge=M.grad_exp(rho), H=M.hess_psi(psi), He=M.hess_exp(rho), L=M.loadings_from_psi(psi)))
            if r:
                if u[-m] > 1.02:
                    r["ok"] = True
                tr.ev("psi", S=S, m=m, psi=psi, **r)
    return go


def mlfit_s(p, m, exact, scale=False):
    def go(tr):
        rng = tr.rng
        S = cov_of(rng, p, m, None if exact else 300, scale)
        M = MLEstimator(S, m)
        o = tr.call("fit", lambda: M.fit_psi(options=dict(gtol=1e-9, xtol=1e-11)))
        if not o or not o["opt"].success or o["opt"].optimality > 5e-5 or (o["psi"] / np.diag(S)).min() < .02:
            return
        e = dict(exact=True) if exact else {}
        tr.ev("mlfit", S=S, m=m, psi=o["psi"], L=o["Lambda"], psi0=M._psi_init() if hasattr(M, "_psi_init") else np.diag(S) / 2, tol="1e-4", **e)
    return go


def theta_s(p, m):
    def go(tr):
        rng = tr.rng
        S = cov_of(rng, p, m, 50)
        M = MLEstimator(S, m)
        L, Phi, psi = loadings(rng, p, m), corr(rng, m), rng.uniform(.3, .9, size=p)
        t = M.layout.pack(L, Phi, psi)
        B = rng.normal(size=(p * (p + 1) // 2,) * 2)
        V, n = B @ B.T, 37
        def f():
            ds = M.dsigma(t)
            return dict(sig=M.sigma(t), f=M.F(t), g=M.grad(t), H=M.hessian(t), ds=[num(x) for x in ds], J=M.score_jacobian(t), meat=M.meat(t, n_obs=n), meatv=M.meat(t, V_S=V))
        r = tr.call("likelihood", f)
        if r:
            tr.ev("theta", S=S, m=m, t=t, V=V, n=n, **r)
    return go


def infer_s(kind, name, p, m):
    def go(tr):
        rng = tr.rng
        S = cov_of(rng, p, m, 200)
        M = MLEstimator(S, m)
        c, C = criterion(rng, name, p, m)
        I = RotationIdentification(rot_of(kind, m), C, tol=1e-9, n_iters=3000) if kind != "canonical" else CanonicalIdentification(p, m)
        X = rng.normal(size=(30, p)) @ np.linalg.cholesky(S).T
        V = tr.call("moments", inf.empirical_cov_vech_S, X)
        if V is not None:
            tr.ev("emp", X=X, V=V)
        psi = np.diag(S) * rng.uniform(.3, .6, size=p)
        def f():
            o = I.fit(M.loadings_from_psi(psi))
            t = M.layout.pack(o["L"], o["Phi"], psi)
            H, D, J, mask = M.hessian(t), I.d_constraint(t), M.meat(t, V_S=V), I.free_mask()
            v = inf.param_cov(H, D, mask, 200)
            return dict(H=H, C=D, J=J, n=200, free=ints(np.where(mask)[0] + 1), b=inf.bread(H, D, mask), v=v, s=inf.sandwich_cov(H, D, J, mask), se=inf.se_from_cov(np.abs(v)), _m=mask)
        if (np.linalg.eigvalsh(S / np.sqrt(np.outer(psi, psi)))[-m]) < 1.02:
            return
        r = tr.call("inference", f)
        if not r:
            return
        mask, D, H = r.pop("_m"), r["C"], r["H"]
        fr = np.where(mask)[0]
        A = np.block([[H[np.ix_(fr, fr)], D[:, fr].T], [D[:, fr], np.zeros((len(D), len(D)))]])
        if np.linalg.cond(A) < 1e7:
            r["v"] = np.abs(r["v"]) if False else r["v"]
            if (np.diag(r["v"]) > 0).all():
                tr.ev("infer", **{**r, "se": inf.se_from_cov(r["v"])})
        # standard errors and alignment of the free parameters
        lay = M.layout
        perm, signs = rng.permutation(m), rng.choice([-1., 1.], size=m)
        se = rng.uniform(.1, 1, size=int(mask.sum()))
        full = np.zeros(lay.nt)
        full[mask] = se
        t = lay.pack(rng.normal(size=(p, m)), corr(rng, m) if kind == "oblique" else np.eye(m), rng.uniform(.2, 1, size=p))
        def g():
            Ls, Ps, ps = unpack_se(se, mask, lay, kind == "oblique")
            return dict(M=alignment_matrix(lay, mask, perm, signs), Lse=Ls, Phise=Ps, psise=ps)
        q = tr.call("unpack", g)
        if q:
            tr.ev("map", p=p, m=m, kind=kind, t=t, perm=ints(perm), signs=signs, free=ints(fr + 1), sefull=full, **q)
    return go


def align_s(p, m, norm, noise):
    def go(tr):
        rng = tr.rng
        for _ in range(3):
            Tg = loadings(rng, p, m)
            E = (Tg + noise * rng.normal(size=Tg.shape))[:, rng.permutation(m)] * rng.choice([-1., 1.], size=m) * rng.uniform(.3, 2, size=m)
            Phi, se, pse = corr(rng, m), rng.uniform(.1, 1, size=(p, m)), corr(rng, m, .2)
            def f():
                o = al.align_model(E, Tg, Phi=Phi, L_se=se, Phi_se=pse, normalize=norm)
                pm, s = al.align(E, Tg, normalize=norm)
                assert np.array_equal(pm, o["perm"]) and np.array_equal(s, o["signs"])
                return dict(perm=ints(o["perm"]), signs=o["signs"], L=o["L"], Phi2=o["Phi"], se2=o["L_se"], pse2=o["Phi_se"])
            r = tr.call("align", f)
            if r:
                tr.ev("align", E=E, Tg=Tg, Phi=Phi, se=se, pse=pse, norm=norm, **r)
    return go


def sim_s(p, m, rand):
    def go(tr):
        rng = tr.rng
        s = int(rng.integers(1 << 30))
        low, high = .3, .8
        def f():
            g = np.random.default_rng(s)
            GL = sim.generate_loadings(p, m, low=low, high=high, random=rand, rng=g)
            GP = sim.generate_factor_corr(m, rho=.6, random=rand, rng=g)
            Gp = sim.generate_uniquenesses(p, low=.2, high=.5, random=rand, rng=g)
            mod = sim.FactorModel(GL, GP, np.diag(Gp) if rand else Gp)
            X = mod.sample(1500, rng=np.random.default_rng(s))
            X2 = mod.sample(1500, rng=np.random.default_rng(s))
            return dict(GL=GL, GP=GP, Gpsi=Gp, L=mod.L, Phi=mod.Phi, psi=mod.psi, Sig=mod.Sigma, S=X.T @ X / 1500, mean=X.mean(0), same=bool(np.array_equal(X, X2)))
        r = tr.call("simulate", f)
        if r:
            e = {} if rand else dict(rho=.6)
            tr.ev("sim", n=1500, low=low - 1e-12, high=high + 1e-12, plow=.2 - 1e-12, phigh=.5 + 1e-12, **e, **r)
    return go


def cases(seed, tier):
    C = []
    big = True
    for nm in NAMES + ["target", "wtarget"]:
        C += [(f"crit-{nm}-{p}{m}", crit_s(nm, p, m)) for p, m in [(4, 2), (5, 3)] + ([(6, 4), (7, 2)] if big else [])]
        for kind in ("ortho", "oblique"):
            C += [(f"rot-{kind}-{nm}", rot_s(kind, nm, 5, 3)), (f"ident-{kind}-{nm}", ident_s(kind, nm, 5, 3)), (f"ident2-{kind}-{nm}", ident_s(kind, nm, 4, 2)), (f"solve-{kind}-{nm}-gpa", solve_s(kind, nm, "gpa", 7, 2 + (nm[0] in "vt")))]
            if big:
                C += [(f"ident4-{kind}-{nm}", ident_s(kind, nm, 6, 4)), (f"rot2-{kind}-{nm}", rot_s(kind, nm, 6, 2))]
                C += [(f"solve{i}-{kind}-{nm}", solve_s(kind, nm, "gpa", 8, 2 + i % 3, form=["class", "func"][i % 2], start=bool(i % 2))) for i in range(4)]
        C += [(f"solve-cay-{nm}", solve_s("ortho", nm, "cayley", 6, 2 + (nm[0] in "qt"), form="func" if nm in ("varimax", "target") else "class", start=nm in ("equamax", "target")))]
    C += [("ident-canon", ident_s("canonical", None, 5, 3)), ("ident-canon2", ident_s("canonical", None, 4, 2)), ("ident-canon4", ident_s("canonical", None, 6, 4)), ("canon", canon_s(5, 3, True)), ("canon-0", canon_s(6, 2, False)), ("canon-4", canon_s(7, 4, True))]
    C += [(f"cay-{m}", cay_s(m)) for m in (2, 3, 4, 5)]
    C += [("func-start", solve_s("oblique", "varimax", "gpa", 8, 3, form="func", start=True)), ("func-start-o", solve_s("ortho", "parsimax", "gpa", 8, 3, form="func", start=True))]
    C += [("psi-1", psi_s(4, 1)), ("psi-2", psi_s(5, 2)), ("psi-3", psi_s(6, 3, True)), ("psi-s", psi_s(5, 1, "small"))]
    C += [("fit-x2", mlfit_s(7, 2, True)), ("fit-x3", mlfit_s(9, 3, True, True)), ("fit-2", mlfit_s(7, 2, False)), ("fit-1s", mlfit_s(5, 1, False, "small")), ("fit-3", mlfit_s(9, 3, False, "small"))]
    C += [("theta-1", theta_s(4, 1)), ("theta-2", theta_s(4, 2)), ("theta-3", theta_s(5, 3))]
    C += [(f"infer-{k}-{nm}", infer_s(k, nm, 6, 2)) for k, nm in [("ortho", "varimax"), ("oblique", "quartimax"), ("oblique", "target"), ("canonical", "varimax")]] + [("infer-3", infer_s("oblique", "varimax", 7, 3)), ("infer-o3", infer_s("ortho", "equamax", 7, 3))]
    C += [("align-2", align_s(5, 2, False, .1)), ("align-3", align_s(6, 3, True, .1)), ("align-4", align_s(6, 4, False, .5)), ("align-4n", align_s(6, 4, True, .8))]
    C += [("sim", sim_s(6, 2, False)), ("sim-r", sim_s(7, 3, True)), ("sim-3", sim_s(8, 3, False)), ("sim-r2", sim_s(6, 2, True))]
    if big:
        C += [(f"psi-t{i}", psi_s(4 + i % 4, 1 + i % 2, [False, True, "small"][i % 3])) for i in range(12)] + [(f"theta-t{i}", theta_s(4 + i % 3, 2 + i % 2)) for i in range(6)]
        C += [(f"fit-t{i}", mlfit_s(7 + i % 3, 1 + i % 3, bool(i % 2), [False, True, "small"][i % 3])) for i in range(12)]
        C += [(f"infer-t{i}", infer_s(["ortho", "oblique", "canonical"][i % 3], (NAMES + ["wtarget"])[i % 5], 6 + i % 2, 2 + i % 2)) for i in range(12)]
        C += [(f"align-t{i}", align_s(5 + i % 4, 2 + i % 4, bool(i % 2), .1 * i)) for i in range(12)]
    if tier != "quick":
        C = [(f"{i}.{k}", f) for k in range(8) for i, f in C]
    return C


if __name__ == "__main__":
    run(cases)
