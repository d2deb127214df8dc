"""P13: mixed model formulas, grouping layouts and simulators (utilities.formula, pylmm.sim_lmm, pylmm.sim_lmm2)."""
import os
import numpy as np, pandas as pd, patsy
from vlib import run, num, ints
from pystatsm.utilities import formula as F
from pystatsm.pylmm import sim_lmm2 as S2
from pystatsm.pylmm.sim_lmm import MixedModelSim as OldSim, _make_sim_theta
from pystatsm.pylmm.re_mod import LMM2
from pystatsm.pylmm.lmm import LMM


def text(items, style):
    """Write a sequence of terms as a formula."""
    out = ""
    for k, t in enumerate(items):
        neg = t == "-1"
        term = "1" if neg else (f"({t})" if "|" in t else t)
        if style == 1:
            term = term.replace("|", " | ")
            out += (("- " if neg else "") if k == 0 else (" - " if neg else " + ")) + term
        else:
            out += (("-" if neg else "") if k == 0 else ("-" if neg else "+")) + (term if style == 0 or "|" not in term else term)
    return ("y ~ " if style == 1 else "y~") + out


def form_case(rows):
    def go(tr):
        n = 24
        d = pd.DataFrame(dict(x1=tr.rng.normal(size=n), x2=tr.rng.normal(size=n), g=np.tile(np.arange(4), 6), h=tr.rng.permutation(np.repeat(np.arange(3), 8)), y=tr.rng.normal(size=n)))
        tr.meta.update(x1=num(d.x1.to_numpy()), x2=num(d.x2.to_numpy()), g=ints(d.g), h=ints(d.h))
        for k, items in enumerate(rows):
            for style in (0, 1):
                f = text(items, style)
                i = tr.call("parse", F.parse_random_effects, f)
                if i is None:
                    continue
                X = tr.call("design", lambda: patsy.dmatrix(i["fe_form"], d, return_type="dataframe"))
                if X is None:
                    continue
                e = dict(items=list(items), re=[list(p) for p in i["re_terms"]], forms=list(i["re_forms"]), groups=list(i["re_groupings"]), y=list(i["y_vars"]),
                         vars=list(i["x_vars"]), stripped=[v.strip() for v in i["x_vars"]], cols=list(X.columns), X=num(X.to_numpy()))
                if X.shape[1] and (k % 6 == 0 or len(rows) < 10):
                    m = tr.call("LMM2", LMM2, f, d)
                    if m is not None:
                        e.update(mcols=list(m.fe_names), MX=num(np.asarray(m.mme.X)), Z=num(m.mme.re_mod.Z))
                tr.ev("formula", **e)
                tr.ev("find", found=F.find_ranef_terms(f), want=[("(" + t + ")").replace("|", " | " if style == 1 else "|") for t in items if "|" in t])
    return go


def fac(name, kind, k=0, parent="", m=()):
    return dict(name=name, kind=kind, k=k, parent=parent, m=list(m))


def obj(f):
    if f["kind"] in ("repeat", "tile"):
        return S2.Grouping(f["name"], f["k"], cycle=f["kind"])
    if f["kind"] == "given":
        return S2.Grouping(f["name"], membership=np.array(f["m"]))
    return S2.Nested(f["name"], f["parent"], f["k"])


def group_case(k):
    def go(tr):
        rng = tr.rng
        for _ in range(6):
            a, b, m, r = (int(x) for x in rng.integers(2, 5, size=4))
            n = a * b * m * r
            fs = [fac("a", "repeat", a), fac("b", "tile", b), fac("c", "nested", m, "a"), fac("d", "nested", 1 if _ % 2 else r, "c"), fac("e", "nested", m, "b")]
            lab = np.sort(rng.choice(np.arange(-3, 12), size=a, replace=False))
            fs.append(fac("u", "given", m=[int(x) for x in rng.permutation(np.repeat(lab, n // a))]))
            fs.append(fac("v", "nested", b, "u"))
            fs = [fs[i] for i in sorted(rng.permutation(7)[:rng.integers(4, 8)])]
            names = [f["name"] for f in fs]
            while True:
                keep = [f for f in fs if f["kind"] != "nested" or f["parent"] in [g["name"] for g in fs]]
                if len(keep) == len(fs):
                    break
                fs = keep
            order = fs if _ < 3 else [f for f in fs if f["kind"] == "nested"] + [f for f in fs if f["kind"] != "nested"]
            o = tr.call("build_groupings", S2.build_groupings, n, *[obj(f) for f in order])
            if o is not None:
                tr.ev("groupings", n=n, fs=order, out={q: ints(v) for q, v in o.items()})
        G, Ne = S2.Grouping, S2.Nested
        for what, args in (("indivisible", (10, G("a", 3))), ("no-levels", (10, G("a"))), ("bad-cycle", (10, G("a", 5, cycle="x"))), ("short-membership", (10, G("a", membership=np.zeros(9)))),
                           ("missing-parent", (10, G("a", 2), Ne("b", "q", 2))), ("indivisible-child", (12, G("a", 4), Ne("b", "a", 2))), ("no-children", (12, G("a", 4), Ne("b", "a"))),
                           ("short-nested-membership", (12, G("a", 4), Ne("b", "a", membership=np.zeros(5))))):
            tr.ev("rejects", what=what, err=tr.expect_error(what, S2.build_groupings, *args))
        R = S2.RanefSpec
        for what, r in (("no-groups", R("1", "g", np.eye(1))), ("wrong-size", R("1", "g", np.eye(1), n_groups=3, n_per=3)), ("short-levels", R("1", "g", np.eye(1), membership=np.zeros(9)))):
            sp = S2.SimSpec(10, "y", "1", np.ones(1), [r], 1.)
            tr.ev("rejects", what=what, err=tr.expect_error(what, S2.MixedModelSim, sp, np.random.default_rng(0)))
    return go


def spd(rng, p):
    A = rng.normal(size=(p, p + 2))
    return A @ A.T / (p + 2) + .2 * np.eye(p)


FE = {"1": ["Intercept"], "x1": ["Intercept", "x1"], "1 + x1": ["Intercept", "x1"], "0 + x1 + x2": ["x1", "x2"], "x1 + x2": ["Intercept", "x1", "x2"], "x1*x2": ["Intercept", "x1", "x2", "x1:x2"]}
NV = {"1": 1, "x1": 2, "1 + x1": 2, "0 + x2": 1, "x1 + x2": 3}


def sim_case(fe, terms, k):
    def go(tr):
        rng = tr.rng
        na, nb, r = int(rng.integers(3, 6)), int(rng.integers(4, 7)), 2
        n = na * nb * r
        lev = {}
        ran = []
        for j, (fr, gr) in enumerate(terms):
            ng = na if j == 0 else nb
            G = spd(rng, NV[fr])
            if j == 0 and k % 2 == 0:
                ran.append(S2.RanefSpec(fr, gr, G, n_groups=na, n_per=n // na))
                lev[gr] = np.repeat(np.arange(na), n // na)
            else:
                mem = rng.permutation(np.tile(np.arange(ng) * (2 if k % 3 == 0 else 1), n // ng + 1)[:n])
                ran.append(S2.RanefSpec(fr, gr, G, membership=mem))
                lev[gr] = mem
        beta = rng.normal(size=len(FE[fe]))
        cov = spd(rng, 2)
        mean = rng.normal(size=2)
        if k % 4 == 3:
            f = f"y ~ {fe} + " + " + ".join(f"({a} | {b})" for a, b in terms)
            sp = S2.SimSpec.from_formula(f, n, beta, {b: x.G for (a, b), x in zip(terms, ran)} if k % 8 == 3 else [x.G for x in ran], .7, groupings=lev, cov_spec=S2.CovariateSpec(["x1", "x2"], mean, cov))
        else:
            sp = S2.SimSpec(n, "y", fe, beta, ran, .7, S2.CovariateSpec(["x1", "x2"], mean, cov))
        m = tr.call("MixedModelSim", S2.MixedModelSim, sp, np.random.default_rng(k))
        if m is None:
            return
        ev = lambda mm, **kw: tr.ev("sim", x1=num(mm.df["x1"].to_numpy()), x2=num(mm.df["x2"].to_numpy()), X=num(mm.X), cols=FE[fe], Z=num(mm.Z), beta=num(beta), beta1=num(mm.beta_true), theta=num(mm.theta_true), rv=num(mm.spec.resid_var), eta=num(mm.eta_fe),
                                    raw=False, srt=False, terms=[dict(form=a, lev=ints(mm.df[b]), G=num(x.G)) for (a, b), x in zip(terms, mm.spec.ranef)], vc=num(np.r_[mm.variance_components()]), **kw)
        ev(m, xmean=num(mean), xcov=num(cov))
        rec = {}

        def rdist(mean_, G, ng, rg):
            U = rg.normal(size=(ng, len(mean_))) @ np.linalg.cholesky(G).T + mean_
            rec.setdefault("U", []).append(U)
            rec.setdefault("G", []).append(np.array(G))
            return U

        def edist(nn, rg):
            rec["E"] = rg.standard_t(4, size=nn)
            return rec["E"]
        v = tr.call("draw", lambda: m.draw(ranef_dist=rdist, resid_dist=edist))
        if v is not None and v[0] is not None:
            tr.ev("draw", y=num(v[0]), u=num(v[1]), U=[num(u) for u in rec["U"]], Gs=[num(g) for g in rec["G"]], terms=[num(x.G) for x in m.spec.ranef], ng=[len(set(ints(m.df[b]))) for a, b in terms], E=num(rec["E"]), Z=num(m.Z), eta=num(m.eta_fe), rv=num(m.spec.resid_var))
        if min(na, nb) > 3:
            v = tr.call("draw", lambda: m.draw(exact_ranefs=True, exact_resids=True))
            if v is not None:
                y, u = v
                st = 0
                for (a, b), x in zip(terms, m.spec.ranef):
                    ng, q = len(set(ints(m.df[b]))), NV[a]
                    if ng > q + 1:
                        tr.ev("moments", U=num(u[st:st + ng * q].reshape(ng, q)), S=num(x.G), exact=True, mean0=True)
                    st += ng * q
                tr.ev("moments", U=num((y - m.eta_fe - m.Z @ u)[:, None]), S=num(np.eye(1) * m.spec.resid_var), exact=True, mean0=True)
        for rr in ((.2, .3), (.5, .1)) if fe != "1" else ():
            m2 = tr.call("rescaled", m.rescaled, *rr)
            if m2 is not None:
                ev(m2, ratio=[repr(float(x)) for x in rr], G0=[num(x.G) for x in sp.ranef])
        tr.ev("rejects", what="no-room-for-residuals", err=tr.expect_error("rescaled", m.rescaled, .6, .4))
        y = m.draw()[0]
        mod = tr.call("to_lmm", m.to_lmm, y)
        if mod is None:
            return
        v = tr.call("fit_simulation", S2.fit_simulation, mod, theta_init=m.theta_true, opt_kws=dict(maxiter=40))
        if v is not None:
            th, opt = v
            rp = mod.mme.re_mod.reparam
            tr.ev("roundtrip", X=num(np.asarray(mod.mme.X)), X0=num(m.X), Z=num(mod.mme.re_mod.Z), Z0=num(m.Z), y=num(np.asarray(mod.mme.y).ravel()), y0=num(y), nt=len(mod.mme.re_mod.theta), nt0=len(m.theta_true),
                  fhat=num(mod.loglike_reparam(opt.x)), ftrue=num(mod.loglike(m.theta_true)), that=num(th), topt=num(rp.rvs(opt.x)))
    return go


def law_case(k):
    def go(tr):
        G = spd(tr.rng, 2)
        sp = S2.SimSpec(8000, "y", "1", np.ones(1), [S2.RanefSpec("1 + x1", "g", G, n_groups=4000, n_per=2)], .3, S2.CovariateSpec(["x1"], [0.], [[1.]]))
        rng = np.random.default_rng(k)
        u = tr.call("draw_ranefs", S2.draw_ranefs, sp, rng)
        e = tr.call("draw_residuals", S2.draw_residuals, sp, rng)
        if u is not None and e is not None:
            tr.ev("moments", U=num(u.reshape(-1, 2)), S=num(G), exact=False, mean0=True)
            tr.ev("moments", U=num(e[:, None]), S=num(np.eye(1) * .3), exact=False, mean0=True)
    return go


def old_case(k):
    def go(tr):
        rng = tr.rng
        na, nb = int(rng.integers(4, 7)), int(rng.integers(5, 8))
        n = na * nb * 2
        terms = [[("1+x1", "b"), ("1", "a")], [("1", "id2"), ("1+x1", "id1")], [("1+x1+x2", "g")], [("1", "w"), ("1", "v"), ("1+x2", "u")]][k % 4]
        beta = rng.normal(size=3)
        gi, gd, gc = {}, {}, {}
        for j, (fr, gr) in enumerate(terms):
            ng = na if j % 2 == 0 else nb
            gi[gr] = dict(n_grp=ng, n_per=n // ng)
            gc[gr] = spd(rng, fr.count("+") + 1)
            if j:
                gd[gr] = rng.permutation(np.tile(np.arange(ng), n // ng))
        f = "y~1+x1+x2" + "".join(f"+({a}|{b})" for a, b in terms)
        md = dict(ginfo=gi, beta=beta, vcov=spd(rng, 2), mu=rng.normal(size=2), gcov=gc, n_obs=n)
        vr = None if k % 3 == 0 else np.array([.3, .45])
        rec = dict(U=[], G=[])

        def rdist(mean, cov, size):
            U = rng.normal(size=(size, len(mean))) @ np.linalg.cholesky(cov).T
            rec["U"].append(U)
            rec["G"].append(np.array(cov))
            return U

        def edist(loc, scale, size):
            rec["E"], rec["s"] = rng.normal(size=size), scale
            return loc + scale * rec["E"]
        with tr.frozen("MixedModelSim", gd, gc, md["gcov"], beta):
            m = tr.call("MixedModelSim", OldSim, f, md, np.random.default_rng(k), gd, vr, rdist, edist)
            if m is None:
                return
        sp = {"1": "1", "1+x1": "1 + x1", "1+x1+x2": "x1 + x2"}
        tt = [dict(form=sp.get(a, a), lev=ints(m.df[b].astype(int)), G=num(m.model_dict["gcov"][b])) for a, b in terms]
        if all(t["form"] != "1+x2" for t in tt):
            e = dict(x1=num(m.df["x1"].to_numpy()), x2=num(m.df["x2"].to_numpy()), X=num(m.X), cols=["Intercept", "x1", "x2"], Z=num(m.Z), beta=num(beta), beta1=num(m.beta), theta=num(m.theta_true), rv=num(m.theta_true[-1]), eta=num(m.eta_fe), raw=True, srt=True, terms=tt,
                     xmean=num(md["mu"]), xcov=num(md["vcov"]))
            if vr is not None:
                e.update(vc=num(np.r_[np.ravel(m.v_fe), np.ravel(m.v_re)]), ratio=[repr(float(x)) for x in vr], G0=[num(gc[b]) for a, b in terms])
            tr.ev("sim", **e)
            tr.ev("same", what="covariance-of-the-simulated-effects", a=num(m.G.toarray() if hasattr(m.G, "toarray") else m.G), b=num(_bd([np.kron(np.eye(gi[b]["n_grp"]), m.model_dict["gcov"][b]) for a, b in terms])), tol="1e-12")
        for kw in (dict(), dict(rsq=.4), dict(resid_scale=1.7)):
            rec["U"], rec["G"] = [], []
            v = tr.call("simulate_response", m.simulate_response, **kw)
            if v is None:
                continue
            y, u = v
            lp = m.eta_fe + m.Z @ u
            want = 1.7 if "resid_scale" in kw else (np.sqrt(m.v_rs) if vr is not None else np.sqrt((1 - kw.get("rsq", .64)) / kw.get("rsq", .64) * lp.var()))
            tr.ev("draw", y=num(y), u=num(u), U=[num(x) for x in rec["U"]], Gs=[num(g) for g in rec["G"]], terms=[num(m.model_dict["gcov"][b]) for a, b in terms], ng=[gi[b]["n_grp"] for a, b in terms], E=num(rec["E"]), Z=num(m.Z), eta=num(m.eta_fe), rv=num(np.ravel(rec["s"])[0] ** 2))
            tr.ev("same", what="residual-scale", a=num(np.ravel(rec["s"])[0]), b=num(np.ravel(want)[0]), tol="1e-10")
        v = tr.call("simulate_response", m.simulate_response, exact_ranefs=True, exact_resids=True)
        if v is not None:
            y, u = v
            st = 0
            for a, b in terms:
                ng, q = gi[b]["n_grp"], a.count("+") + 1
                if ng > q + 1:
                    tr.ev("moments", U=num(u[st:st + ng * q].reshape(ng, q)), S=num(m.model_dict["gcov"][b]), exact=True, mean0=False)
                st += ng * q
            e = y - m.eta_fe - m.Z @ u
            lp = m.eta_fe + m.Z @ u
            tr.ev("moments", U=num(e[:, None]), S=num(np.eye(1) * (np.ravel(m.v_rs)[0] if vr is not None else (1 - .64) / .64 * lp.var())), exact=True, mean0=True)
        # the model fitted to a new response is the one the simulator updates
        y1, y2 = rng.normal(size=(2, n))
        d = m.df.copy()
        d["y"] = y1
        mod = tr.call("LMM", LMM, f, d)
        d2 = m.df.copy()
        d2["y"] = y2
        ref = tr.call("LMM", LMM, f, d2)
        if mod is not None and ref is not None:
            mod = tr.call("update_model", m.update_model, mod, y2.reshape(-1, 1))
            if mod is not None:
                for th in (m.theta_true, m.theta_true * 1.5):
                    a = tr.call("loglike", lambda: [mod.loglike(th.copy()), ref.loglike(th.copy())])
                    if a:
                        tr.ev("same", what="updated-model-is-the-model-of-the-new-response", a=num(a[0]), b=num(a[1]), tol="1e-9")
    return go


def _bd(L):
    import scipy.linalg
    return scipy.linalg.block_diag(*L)


def cases(seed, tier):
    big = tier != "quick"
    rows = []
    for ln in open(os.environ["GENFILE"]).read().split("\n"):
        h = [x.strip().strip('\\"') for x in ln.strip('"').replace("<<", "").replace(">>", "").split(",")]
        if h and h[0]:
            rows.append(h)
    cs = [(f"form-{j}", form_case(rows[j:j + 30])) for j in range(0, len(rows), 30)]
    T = [[("1", "g")], [("1 + x1", "g")], [("x1", "g"), ("1", "h")], [("0 + x2", "g"), ("1 + x1", "h")], [("1", "h"), ("x1 + x2", "g")]]
    for rep in range(5 if big else 1):
        t = f".{rep}" if rep else ""
        for k in range(6):
            cs.append((f"group-{k}{t}", group_case(k)))
        for k in range(16):
            cs.append((f"sim-{k}{t}", sim_case(list(FE)[k % 6], T[k % 5], k)))
        for k in range(2):
            cs.append((f"law-{k}{t}", law_case(k + 10 * seed)))
        for k in range(8):
            cs.append((f"old-{k}{t}", old_case(k)))
    return cs


if __name__ == "__main__":
    run(cases)
