"""P26: simulators of regression data."""
import re
import numpy as np
from vlib import run, num, ints
from pystatsm.pyglm2 import model_sim, sim_mvols
from pystatsm.pyglm2.model_sim import LinearModelSim as New
from pystatsm.pyglm.glm_sim import LinearModelSim as Old
from pystatsm.utilities import cov_utils

# formula -> (intercept, terms as lists of factors; a factor is a variable, "C:v" when categorical)
FORMS = {
    "numeric": ("x0+x1+x2+x3", True, [["x0"], ["x1"], ["x2"], ["x3"]]),
    "spaces": ("1 + x0 + C(x2) + x1", True, [["x0"], ["C:x2"], ["x1"]]),
    "response": ("y ~ x0 + C(g)", True, [["x0"], ["C:g"]]),
    "cat": ("1+C(x0)+x1+x2+x3", True, [["C:x0"], ["x1"], ["x2"], ["x3"]]),
    "two-cat": ("C(a)+C(b)+z", True, [["C:a"], ["C:b"], ["z"]]),
    "crossed": ("C(a)*x+z", True, [["C:a"], ["x"], ["C:a", "x"], ["z"]]),
    "cats-crossed": ("C(a)*C(b)+z", True, [["C:a"], ["C:b"], ["C:a", "C:b"], ["z"]]),
    "numeric-product": ("x0*x1+x2", True, [["x0"], ["x1"], ["x0", "x1"], ["x2"]]),
    "no-intercept-0": ("0+x0+x1+C(g)", False, [["x0"], ["x1"], ["C:g"]]),
    "no-intercept-minus": ("x0 + x1 + x2 - 1", False, [["x0"], ["x1"], ["x2"]]),
    "single": ("x0", True, [["x0"]]),
    "binary": ("C(x0)+x1", True, [["C:x0"], ["x1"]]),
}


def column(name):
    if name == "Intercept":
        return []
    out = []
    for f in name.split(":"):
        m = re.fullmatch(r"C\((\w+)\)\[(?:T\.)?([\d.]+)\]", f)
        out.append(["C:" + m.group(1), int(float(m.group(2)))] if m else [f, 0])
    return out


def state(m):
    return [m.corr, m.Z1, m.data.values, m.X.values, m.beta, np.asarray(m.linpred)]


def linear(which, form, levels, n, pn, opts):
    def go(tr):
        rng = tr.rng
        C = New if which == "new" else Old
        f, icpt, terms = FORMS[form]
        vs = sorted({x.split(":")[-1] for t in terms for x in t})
        cats = sorted({x.split(":")[-1] for t in terms for x in t if x[0] == "C" and x[1] == ":"})
        nl = {c: int(rng.integers(2, 6)) for c in cats} if levels == "given" else {cats[0]: 4} if levels == "partial" else None
        lv = {c: (nl or {}).get(c, 2) for c in cats}
        if nl is not None:
            nl = {c: v for c, v in nl.items()}
        keep = None if nl is None else dict(nl)
        ek = dict(p_eff=float(rng.uniform(.3, .9)), a=float(rng.uniform(.5, 4)), b=float(rng.uniform(.05, .5)), c=float(rng.uniform(.2, .8))) if "eig" in opts else {}
        kw = dict(coef_kws=dict(p_nnz=pn, zero_intercept="keep-intercept" not in opts))
        if ek:
            kw["corr_kws"] = {"eig_kws": dict(ek)}
        seed = int(rng.integers(1 << 30))
        np.random.seed(seed % (1 << 31))
        if which == "new":
            kw["seed"] = seed
            if "rng" in opts:
                kw["rng"] = np.random.default_rng(seed + 1)
        m = tr.call("from-formula", C.from_formula, f, n, nlevels=nl, **kw)
        if m is None:
            return
        tr.ev("equal", what="variables-of-the-formula", a=list(m.x_vars), b=vs)
        tr.ev("equal", what="argument-dictionary-untouched", a=str(keep), b=str(nl))
        if which == "new":
            if "rng" in opts:
                kw["rng"] = np.random.default_rng(seed + 1)
            np.random.seed(5)
            m2 = C.from_formula(f, n, nlevels=nl, **kw)
            tr.ev("equal", what="reproducible-from-the-seed", a=all(np.array_equal(a, b) for a, b in zip(state(m), state(m2))), b=True)
            kw["seed"] = seed + 7
            kw.pop("rng", None)
            m3 = C.from_formula(f, n, nlevels=nl, **kw)
            tr.ev("equal", what="another-seed-gives-other-data", a=bool(np.array_equal(m.Z1, m3.Z1)), b=False)
        ek = {**dict(p_eff=.5, a=1., b=.1, c=.5), **ek}
        tr.ev("latent", corr=num(m.corr), Z=num(m.Z1), data=num(m.data.values), cats=[int(vs.index(c) + 1) for c in cats], levels=[int(lv[c]) for c in cats], eig=[num(ek[k]) for k in ("p_eff", "a", "b", "c")])
        tr.ev("design", data=num(m.data.values), vars=vs, X=num(m.X.values), cols=[column(c) for c in m.X.columns], icpt=icpt, terms=terms, cats=["C:" + c for c in cats], levels=[int(lv[c]) for c in cats])
        pv = pn if hasattr(pn, "__len__") else None
        tr.ev("coefs", X=num(m.X.values), cols=[column(c) for c in m.X.columns], beta=num(m.beta), lin=num(np.asarray(m.linpred)), var=num(m.linpred_var), p=num(pv[0] if pv else pn), zero="keep-intercept" not in opts)
        b0, v0 = m.beta.copy(), float(m.linpred_var)
        if v0 > 0:
            s = float(rng.uniform(.2, 4))
            m.rescale_coefs(s)
            tr.ev("rescaled", X=num(m.X.values), b0=num(b0), v0=num(v0), s=num(s), beta=num(m.beta), lin=num(np.asarray(m.linpred)), var=num(m.linpred_var))
            r2 = float(rng.uniform(.1, .9))
            sc = C._get_var(m.linpred_var, r2)
            y = C._simulate_y(np.asarray(m.linpred), sc)
            tr.ev("noise", lin=num(np.asarray(m.linpred)), r2=num(r2), scale=num(sc), y=num(np.asarray(y)), var=num(m.linpred_var))
    return go


def plain(n, k):
    def go(tr):
        rng = tr.rng
        m = tr.call("constructor", New, n_obs=n, n_var=k, seed=int(rng.integers(1 << 30)))
        if m is None:
            return
        vs = [f"x{i}" for i in range(k)]
        tr.ev("equal", what="variables-of-the-formula", a=list(m.x_vars), b=vs)
        tr.ev("latent", corr=num(m.corr), Z=num(m.Z1), data=num(m.data.values), cats=[], levels=[], eig=[num(v) for v in (.5, 1., .1, .5)])
        tr.ev("design", data=num(m.data.values), vars=vs, X=num(m.X.values), cols=[column(c) for c in m.X.columns], icpt=True, terms=[[v] for v in vs], cats=[], levels=[])
        tr.ev("coefs", X=num(m.X.values), cols=[column(c) for c in m.X.columns], beta=num(m.beta), lin=num(np.asarray(m.linpred)), var=num(m.linpred_var), p=num(.5), zero=True)
    return go


def corrs(which):
    def go(tr):
        rng = tr.rng
        k = int(rng.integers(2, 6))
        r = float(rng.uniform(-.15, .8))
        m = tr.call("constructor", New, n_obs=60, n_var=k, seed=4, corr_kws=dict(corr_method=lambda n_var, c: cov_utils.get_exchangeable_corr(n_var, c), corr_method_kws=dict(c=r)))
        if m is not None:
            tr.ev("same", what="correlation-method-is-used", a=num(m.corr), b=num(np.eye(k) * (1 - r) + r), tol="1e-14")
            tr.ev("same", what="exact-sample-correlation", a=num(np.corrcoef(m.Z1.T)), b=num(m.corr), tol="1e-9")
    return go


def mvols(n, p, q, struct, xc, ec, noise, icpt, r2, frame):
    def go(tr):
        rng = tr.rng
        seed = int(rng.integers(1 << 30))
        rx, re_, rank, sp = float(rng.uniform(-.5, .8)), float(rng.uniform(-.5, .8)), int(rng.integers(1, max(2, min(p, q)))), float(rng.uniform(.2, .6))
        if struct == "low_rank_plus_sparse" and frame:
            sp = 0.0
        kw = dict(n=n, p=p, q=q, fit_intercept=icpt, beta_structure=struct, beta_rank=rank, beta_sparsity=sp, x_correlation=xc, rho_x=rx, error_correlation=ec, rho_e=re_, target_r2=r2, noise=noise, random_state=seed, return_dataframe=frame)
        d = tr.call("generate", sim_mvols.generate_mmr_data, **kw)
        if d is None:
            return
        d2 = sim_mvols.generate_mmr_data(**kw)
        d3 = sim_mvols.generate_mmr_data(**{**kw, "random_state": seed + 1})
        tr.ev("equal", what="reproducible-from-the-seed", a=bool(np.array_equal(d["Y"], d2["Y"])) and bool(np.array_equal(d["theta_true"], d2["theta_true"])), b=True)
        tr.ev("equal", what="another-seed-gives-other-data", a=bool(np.array_equal(d["X"], d3["X"])), b=False)
        if frame:
            tr.ev("equal", what="names", a=[list(d["X"].columns), list(d["Y"].columns)], b=[list(d["feature_names"]), list(d["response_names"])])
        fn, rn = [f"x{i}" for i in range(1, p + 1)], [f"y{i}" for i in range(1, q + 1)]
        tr.ev("equal", what="names", a=[list(d["feature_names"]), list(d["response_names"]), list(d["term_names"])], b=[fn, rn, (["Intercept"] if icpt else []) + fn])
        tr.ev("mmr", X=num(np.asarray(d["X"])), D=num(d["X_design"]), Y=num(np.asarray(d["Y"])), B=num(d["B"]), coef=num(d["coef"]), b0=num(d["intercept"]), S=num(d["Sigma"]), O=num(d["Omega"]), L=num(d["precision_chol"]), th=num(d["theta_true"]),
              M=num(d["signal"]), E=num(d["E"]), SX=num(d["Sigma_X"]), icpt=icpt, struct=struct, rank=rank, sp=num(sp), xc=str(xc), ec=str(ec), rx=num(rx), re=num(re_), r2=num(r2), noise=noise)
    return go


def errors():
    def go(tr):
        for k in ("x_correlation", "beta_structure", "error_correlation", "noise"):
            tr.ev("equal", what="unknown-option-rejected", a=tr.expect_error(k, sim_mvols.generate_mmr_data, **{k: "other"}), b="ValueError")
    return go


def cases(seed, tier):
    reps = range(3 if tier == "thorough" else 1)
    for k in reps:
        t = f".{k}" if k else ""
        for w in ("new", "old"):
            for i, f in enumerate(FORMS):
                has = "C(" in FORMS[f][0]
                opts = [("eig",), ("rng", "keep-intercept"), (), ("eig", "keep-intercept")][i % 4]
                pn = [.5, (1., 1., 1., 1., 1.), .3, .8][(i + 1) % 4]
                for lev in (("given", "default") if has else ("none",)):
                    yield f"{w}-{f}-{lev}{t}", linear(w, f, lev, [60, 97, 40][i % 3], pn, opts)
            yield f"{w}-two-cat-partial{t}", linear(w, "two-cat", "partial", 70, .5, ())
        for n, q in ((50, 1), (80, 4), (120, 10)):
            yield f"plain-{n}-{q}{t}", plain(n, q)
        yield f"corr-method{t}", corrs("new")
        yield f"errors{t}", errors()
        S, XC = ("low_rank_plus_sparse", "sparse", "dense"), ("toeplitz", "identity", None)
        j = 0
        for s in S:
            for ic in (True, False):
                for noise in ("normal", "t"):
                    xc, ec, r2 = XC[j % 3], XC[(j + 1 + j // 3) % 3], (.5, .85, .2, 1.5)[j % 4]
                    p, q, n = ((4, 3, 60), (6, 2, 90), (3, 1, 50), (5, 4, 70))[(j + j // 4) % 4]
                    yield f"mmr-{s}-{'i' if ic else 'n'}-{noise}{t}", mvols(n, p, q, s, xc, ec, noise, ic, r2, j % 2 == 0)
                    j += 1
        yield f"mmr-large{t}", mvols(400, 5, 4, "sparse", "toeplitz", "toeplitz", "normal", True, .6, False)
        yield f"mmr-low-rank{t}", mvols(60, 6, 5, "low_rank_plus_sparse", None, "iid", "normal", True, .6, True)


if __name__ == "__main__":
    run(lambda seed, tier: list(cases(seed, tier)))
