"""P11: stratified cluster designs (frames generated by TLC), design-based estimation, populations, replication."""
import ast, os
import numpy as np
import pandas as pd
from vlib import run, num, ints
from pystatsm.utilities.complexdesign import (SampleDesign, design_sandwich, LinearPopulation, BinomialPopulation,
                                              WLSAdapter, GLMAdapter, ReplicationResult, replicate)
from pystatsm.pyglm2 import families as F2


def ranks(v):
    u = sorted(set(v))
    return [u.index(x) for x in v]


STYLES = ["int", "str", "cat", "float", "catint"]


def dress(lab, style):
    """Labels with the same order as the integers given, of another type."""
    if style == "int":
        return pd.Series([3 * v - 4 for v in lab])
    if style == "float":
        return pd.Series([v * .5 - .75 for v in lab])
    s = pd.Series(["L" + chr(97 + v) for v in lab]) if style in ("str", "cat") else pd.Series(lab)
    if style in ("cat", "catint"):
        top = max(lab) + 2
        cats = ["L" + chr(97 + v) for v in range(top)] if style == "cat" else list(range(top))
        s = s.astype(pd.CategoricalDtype(cats, ordered=True))
    return s


def frame(s, k, st, kt, rng, p=2):
    n = len(s)
    df = pd.DataFrame({"rid": np.arange(1, n + 1), "stra": dress(s, st).values, "unit": dress(k, kt).values,
                       "wt": np.round(rng.uniform(.3, 3, n), 3)})
    for j in range(p):
        df[f"u{j}"] = np.round(rng.normal(size=n) * (1 + j), 3)
    df.index = rng.permutation(n) + 5
    return df


UC = ["u0", "u1"]


def build(tr, nm, s, k, pol, st="int", kt="int", fpc=None):
    df = frame(s, k, st, kt, tr.rng)
    kw = dict(s=ranks(s), k=ranks(k), pol=pol, nm=nm, w0=df.wt.values, U=df[UC].values)
    if fpc is not None:
        kw["fpc"] = fpc
    fr = tr.frozen("SampleDesign", df)
    try:
        D = SampleDesign(df, "stra", "unit", "wt", singleton=pol, fpc=fpc)
    except Exception as e:
        tr.ev("build", err=type(e).__name__, **kw)
        return None
    fr.check()
    L = D.layout
    U = D.df[UC].to_numpy()
    tr.ev("build", err="none", rid=ints(D.df.rid), w=D.w, nstr=D.n_str, ngrp=D.n_grp, m=ints(L.n_psu_per_str), ps=ints(L.ind_str), pu=ints(L.ind_psu), ssf=L.ssf, M=D.meat(U), **kw)
    return D


def gen_cases(tier):
    lines = [x for x in open(os.environ["GENFILE"]).read().split("\n") if x]
    beh = []
    for x in lines:
        x = x.strip().strip('"').replace('\\"', '"').replace("<<", "(").replace(">>", ",)")
        pol, rows = ast.literal_eval(x)[0:2]
        beh.append((pol, [r[0] for r in rows], [r[1] for r in rows]))
    def session(chunk, c):
        def fn(tr):
            for j, (pol, s, k) in enumerate(chunk):
                st, kt = STYLES[(j + c) % 5], STYLES[(j // 5 + c) % 5]
                build(tr, f"{st}-{kt}", s, k, pol, st, kt)
        return fn
    B = 150
    return [(f"gen-{i}", session(beh[i:i + B], i)) for i in range(0, len(beh), B)]


def random_frame(rng, H, sing=0):
    s, k = [], []
    for h in range(H):
        for g in range(1 if h < sing else int(rng.integers(2, 5))):
            for _ in range(int(rng.integers(1, 5))):
                s.append(h)
                k.append(g)
    o = rng.permutation(len(s))
    lab = rng.permutation(H)
    return [int(lab[s[i]]) for i in o], [int(k[i]) for i in o]


def big(H, sing, st, kt):
    def fn(tr):
        rng = tr.rng
        s, k = random_frame(rng, H, sing)
        for pol in ("aggregate", "none", "error"):
            if not (pol == "error" and sing):
                nH = H - (sing - 1 if pol == "aggregate" and sing else 0)
                fpc = np.round(rng.uniform(0, .9, nH), 2)
                build(tr, "fpc", s, k, pol, st, kt, fpc)
                if nH > 1:
                    df = frame(s, k, st, kt, rng)
                    tr.ev("refuse", nm="fpc-shape", err=tr.expect_error("fpc", SampleDesign, df, "stra", "unit", fpc=fpc[:-1], singleton=pol))
            D = build(tr, "plain", s, k, pol, st, kt)
        df = frame(s, k, st, kt, rng)
        D = SampleDesign(df, "stra", "unit", "wt")
        U = D.df[UC].to_numpy()
        B = rng.normal(size=(2, 3))
        # other order, other names (order preserving or not: the covariance does not care without a correction)
        df2 = df.iloc[rng.permutation(len(df))].copy()
        ren = {v: f"q{i}" for i, v in enumerate(rng.permutation(pd.unique(df2.stra.astype(object))))}
        df2["stra"] = df2.stra.astype(object).map(ren)
        D2 = SampleDesign(df2, "stra", "unit", "wt")
        tr.ev("laws", nm="random", M=D.meat(U), B=B, MB=D.meat(U @ B), M2=D2.meat(D2.df[UC].to_numpy()))
        bad = df.copy()
        bad["stra"] = bad["stra"].astype(object)
        bad.iloc[int(rng.integers(len(bad))), bad.columns.get_loc("stra")] = None
        tr.ev("refuse", nm="missing-stratum", err=tr.expect_error("nan", SampleDesign, bad, "stra", "unit"))
        tr.ev("refuse", nm="unknown-policy", err=tr.expect_error("pol", SampleDesign, df, "stra", "unit", singleton="drop"))
        tr.ev("refuse", nm="score-shape", err=tr.expect_error("meat", D.meat, U[:-1]))
        tr.ev("refuse", nm="mask-shape", err=tr.expect_error("mask", D.subset, np.ones(D.n - 1, bool)))
        # history of subpopulations
        masks, ws, ss, Ms = [], [], [], []
        w0, M0 = D.w.copy(), D.meat(U)
        shape = lambda d: [d.n, d.n_str, d.n_grp, ints(d.layout.n_psu_per_str), ints(d.layout.ind_psu), ints(d.df.rid)]
        cur = D
        for j in range(3):
            m = rng.uniform(size=D.n) < .6
            with tr.frozen("subset", m):
                cur = cur.subset(m)
            masks.append(ints(m.astype(int)))
            ws.append(cur.w)
            ss.append(shape(cur))
            Ms.append(cur.meat(U))
        tr.ev("subset", nm="chain", rid=ints(D.df.rid), masks=masks, ws=[num(v) for v in ws], ss=ss, s0=shape(D), Ms=[num(v) for v in Ms], M=M0, w=w0, wafter=D.w)
    return fn


def default_design(what):
    """No strata and/or no units: one stratum, every row its own unit."""
    def fn(tr):
        rng = tr.rng
        s, k = random_frame(rng, 3)
        df = frame(s, k, "str", "int", rng)
        n = len(s)
        a, b = [None, "stra"]["s" in what], [None, "unit"]["u" in what]
        with tr.frozen("SampleDesign", df):
            D = SampleDesign(df, a, b, "wt" if "w" in what else None)
        L = D.layout
        tr.ev("build", nm="default:" + what, err="none", s=ranks(s) if a else [0] * n, k=ranks(k) if b else list(range(n)), pol="aggregate", w0=df.wt.values if "w" in what else np.ones(n), U=df[UC].values,
              rid=ints(D.df.rid), w=D.w, nstr=D.n_str, ngrp=D.n_grp, m=ints(L.n_psu_per_str), ps=ints(L.ind_str), pu=ints(L.ind_psu), ssf=L.ssf, M=D.meat(D.df[UC].to_numpy()))
    return fn


def estimate(f, H, sing, st):
    def fn(tr):
        rng = tr.rng
        while True:
            s, k = random_frame(rng, H, sing)
            if len(s) >= 24:
                break
        df = frame(s, k, st, "str", rng)
        X = np.c_[np.ones(len(df)), df[UC].values]
        eta = X @ [.3, .5, -.2]
        df["resp"] = {"Gaussian": eta + rng.normal(size=len(df)), "Binomial": 1. * (rng.uniform(size=len(df)) < 1 / (1 + np.exp(-eta))), "Poisson": rng.poisson(np.exp(eta))}[f]
        fml = "resp ~ u0 + u1"
        D = SampleDesign(df, "stra", "unit", "wt")
        rid = ints(D.df.rid)
        base = dict(s=ranks(s), k=ranks(k), pol="aggregate", f=f, X=X, y=df.resp.values, rid=rid)
        for sub in (False, True):
            m = rng.uniform(size=D.n) < .8 if sub else np.ones(D.n, bool)
            if sub and (f == "Gaussian" or f == "Binomial"):
                yy = D.df.resp.to_numpy()[m]
                if f == "Binomial" and min(yy.sum(), (1 - yy).sum()) < 4:
                    continue
            E = D.subset(m) if sub else D
            wm = np.zeros(D.n)
            wm[np.array(rid) - 1] = E.w
            if f == "Gaussian":
                with tr.frozen("fit", E.df, E.w):
                    r = WLSAdapter(fml).fit(E)
                tr.ev("est", nm="wls" + "-sub" * sub, b=r.params, wm=wm, V=design_sandwich(r.bread, r.score_i, E), U=r.score_i, A=r.bread, tol="1e-8", vtol="1e-8", **base)
            if f != "Gaussian" or not sub:
                with tr.frozen("fit", E.df, E.w):
                    r = tr.call("GLMAdapter", GLMAdapter(fml, getattr(F2, f)).fit, E)
                if r is not None:
                    tr.ev("est", nm="glm" + "-sub" * sub, b=r.params[:3], wm=wm, V=design_sandwich(r.bread, r.score_i, E)[:3, :3], tol="1e-3", vtol="1e-4", **base)
        A = rng.normal(size=(2, 2))
        A = A + A.T
        U = D.df[UC].to_numpy()
        tr.ev("sand", A=A, M=D.meat(U), V=design_sandwich(A, U, D))
    return fn


def population(kind, icv, wfn):
    def fn(tr):
        rng = tr.rng
        H, K, R = (int(v) for v in rng.integers(2, 4, 3))
        rhs, names = [("xa + xb", ["Intercept", "xa", "xb"]), ("xa*xb - 1", ["xa", "xb", "xa:xb"]), ("np.tanh(xa)", ["Intercept", "np.tanh(xa)"])][int(rng.integers(3))]
        beta = np.round(rng.normal(size=len(names)), 2)
        mean, c = np.array([.5, -1.]), np.array([[2., .6], [.6, 1.]])
        wf = (lambda d: np.exp(d["xa"]) + d["strata"]) if wfn else None
        tr.meta.update(H=H, K=K, R=R, beta=num(beta), names=names, icv=num(icv))
        C = LinearPopulation if kind == "linear" else BinomialPopulation
        kw = dict(resid_var=0.0) if kind == "linear" else {}
        mk = lambda q, h=H, k=K, r=R, **z: C("resp", ["xa", "xb"], rhs, beta, h, k, r, x_cov=c, x_mean=mean, intra_cluster_var=icv, weight_fn=wf, rng=q, **{**kw, **z})
        pop = mk(np.random.default_rng(3))
        d = pop.draw()
        d1 = pop.draw()
        d2 = mk(np.random.default_rng(3)).draw()
        d3 = pop.draw(np.random.default_rng(3))
        cols = {"Intercept": np.ones(len(d)), "xa": d.xa.values, "xb": d.xb.values, "xa:xb": d.xa.values * d.xb.values, "np.tanh(xa)": np.tanh(d.xa.values)}
        k2 = dict(y0=d.resp.values) if kind == "linear" else {}
        if wfn:
            k2["wx"] = np.exp(d.xa.values) + d.strata.values
        tr.ev("pop", nm=kind, s=ints(d.strata), k=ints(d.psu), X=np.stack([cols[q] for q in names], 1), w=d.w.values, theta=pop.theta_true, names=list(pop.parameter_names),
              again=bool(d.equals(d2) and d.equals(d3)), differs=bool(not d.equals(d1)), **k2)
        tr.ev("refuse", nm="coefficient-count", err=tr.expect_error("beta", C, "resp", ["xa", "xb"], rhs, np.ones(5), 2, 2, 2))
        # moments of a large draw
        NP, M = 400, 10
        big = mk(np.random.default_rng(int(rng.integers(1 << 30))), 2, NP // 2, M, **(dict(resid_var=1.7) if kind == "linear" else {}))
        d = big.draw()
        n = NP * M
        Z = (d[["xa", "xb"]].values - mean)
        v, m, sd = [*Z.mean(0)], [0, 0], [np.sqrt(2 / n), np.sqrt(1 / n)]
        S = Z.T @ Z / n
        v += [S[0, 0], S[1, 1], S[0, 1]]; m += [2, 1, .6]; sd += [np.sqrt(8 / n), np.sqrt(2 / n), np.sqrt((2 + .36) / n)]
        cols = {"Intercept": np.ones(n), "xa": d.xa.values, "xb": d.xb.values, "xa:xb": d.xa.values * d.xb.values, "np.tanh(xa)": np.tanh(d.xa.values)}
        eta = np.stack([cols[q] for q in names], 1) @ beta
        if kind == "linear":
            r = (d.resp.values - eta).reshape(NP, M)
            msb, msw = M * r.mean(1).var(ddof=0), r.var(1, ddof=1).mean()
            v += [r.mean(), msb, msw]; m += [0, 1.7 + M * icv, 1.7]; sd += [np.sqrt((1.7 + M * icv) / n), (1.7 + M * icv) * np.sqrt(2 / NP) * 1.05, 1.7 * np.sqrt(2 / (NP * (M - 1)))]
        else:
            y = d.resp.values
            v.append(float(np.mean((y == 0) | (y == 1)))); m.append(1); sd.append(1e-9)
            if icv == 0:
                mu = 1 / (1 + np.exp(-eta))
                v += [y.mean(), ((y - mu) * d.xa.values).mean()]; m += [mu.mean(), 0]; sd += [np.sqrt((mu * (1 - mu)).sum()) / n, np.sqrt((mu * (1 - mu) * d.xa.values**2).sum()) / n]
        tr.ev("mom", nm=kind, v=np.array(v), m=np.array(m), sd=np.array(sd))
    return fn


def replication(synthetic):
    def fn(tr):
        rng = tr.rng
        al = [.05, .1, .5][int(rng.integers(3))]
        if synthetic:
            n, p = 7, 3
            P = rng.normal(size=(n, p))
            Vs = np.stack([(lambda a: a @ a.T + .1 * np.eye(p))(rng.normal(size=(p, p))) for _ in range(n)])
            R = ReplicationResult(P, Vs, rng.normal(size=p))
            kw = {}
        else:
            pop = LinearPopulation("resp", ["xa"], "xa", np.array([.5, 1.]), 2, 3, 4, intra_cluster_var=.5, weight_fn=lambda d: np.exp(.3 * d.xa), rng=np.random.default_rng(1))
            seen, fits = [], []
            def fac(df):
                seen.append(SampleDesign(df, "strata", "psu", "w"))
                return seen[-1]
            class Ad:
                def fit(self, D):
                    assert D is seen[-1]
                    fits.append(WLSAdapter("resp ~ xa").fit(D))
                    return fits[-1]
            R = replicate(pop, fac, Ad(), 6, rng=np.random.default_rng(5), progress=False)
            q = np.random.default_rng(5)
            ref = [WLSAdapter("resp ~ xa").fit(SampleDesign(pop.draw(q), "strata", "psu", "w")).params for _ in range(6)]
            kw = dict(P0=np.array(ref), V0=[num(f.bread @ D.meat(f.score_i) @ f.bread) for f, D in zip(fits, seen)])
        with tr.frozen("summaries", R.params, R.Vs):
            tab = R.summary(al)
            tr.ev("rep", P=R.params, Vs=[num(v) for v in R.Vs], theta=R.theta_true, bias=R.bias(), ecov=R.empirical_cov(), acov=R.mean_analytical_cov(), see=R.se_emp(), sea=R.se_ana(), ratio=R.se_ratio(),
                  z=R.z_scores(), cov=R.coverage(al), alpha=al, tab=tab.values, **kw)
    return fn


def cases(seed, tier):
    out = gen_cases(tier)
    rep = 1 if tier == "quick" else 6
    for r in range(rep):
        q = 0
        for H in (1, 2, 4):
            for sing in sorted({0, 1, 2, H} if H > 1 else {0, 1}):
                if sing <= H:
                    out.append((f"frame-{H}-{sing}-{r}", big(H, sing, STYLES[(q + r) % 5], STYLES[(q + 2 * r + 1) % 5])))
                    q += 1
        for what in ("", "s", "u", "w", "sw", "uw"):
            out.append((f"default-{what or 'none'}-{r}", default_design(what)))
        for f in ("Gaussian", "Binomial", "Poisson"):
            for sing in (0, 2):
                out.append((f"est-{f}-{sing}-{r}", estimate(f, 5, sing, STYLES[(q + r) % 5])))
                q += 1
        for kind in ("linear", "binomial"):
            for icv in (0.0, .8):
                out.append((f"pop-{kind}-{icv}-{r}", population(kind, icv, r % 2 == 0)))
        for z in (0, 1):
            out.append((f"rep-{z}-{r}", replication(z)))
    return out


run(cases)
