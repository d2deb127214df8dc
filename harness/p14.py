"""P14: structural equation formulas: parameters, sharing, matrices, implied moments and their derivatives."""
import numpy as np
import pandas as pd
from vlib import run, num, ints
import sem_lib as sl
from pystatsm.pysem2.sem import SEM


def make(tr, st, df, grp, G, sh, opt, text):
    kws = {}
    d = df.copy()
    if G > 1:
        d["site"] = sl.labelled(grp, tr.rng)
        d = d[list(tr.rng.permutation(d.columns))]
        kws = dict(group_col="site")
    if G > 1 or not all(sh):
        kws["shared"] = list(sh)
    mb = {}
    if opt != sl.OPT:
        names = dict(first="fix_first", lvvar="fix_lv_var", lvx="lvx_cov", y="y_cov", lvmean="fix_lv_mean")
        mb = {names[k]: v for k, v in opt.items() if v != sl.OPT[k]}
        if not opt["first"]:
            mb["fix_first"] = {s["l"]: False for s in st if s["r"] == "=~"}
        kws["model_builder_kws"] = mb
    fr = tr.frozen("SEM", d)
    m = tr.call("SEM(formula, data)", SEM, text, d, kws or None)
    fr.check()
    return m


def shared(rng, G, st):
    if G == 1:
        return [True] * 6
    if any(s["k"] == "label" for s in st):
        return [True] * 6 if rng.random() < .5 else [False] * 6
    return [bool(b) for b in rng.random(6) < [.5, .8, 0., 1.][int(rng.integers(0, 4))]]


def session(st, G=1, sh=None, opt=None, n=14, extra=True):
    def go(tr):
        rng = tr.rng
        s = st(rng) if callable(st) else st
        o = dict(sl.OPT, **(opt(rng) if callable(opt) else (opt or {})))
        share = shared(rng, G, s) if sh is None else list(sh)
        df, grp = sl.data(rng, s, n, G, extra=extra)
        text = sl.render(s, rng)
        m = make(tr, s, df, grp, G, share, o, text)
        if m is None:
            return
        O = sl.describe(tr, m, s, df, grp, G, share, o)
        tr.ev("table", obs=list(m.var_names["obs"]), lav=list(m.var_names["lav"]))
        t = sl.point(rng, m)
        r = tr.call("implied_cov_mean", m.implied_cov_mean, t)
        q = tr.call("implied_sample_stats", m.implied_sample_stats, t)
        if r is not None and q is not None:
            tr.ev("moments", t=t, S=[num(x) for x in r[0]], m=[num(x) for x in r[1]], s=q)
        J = tr.call("dsigma_mu", m.dsigma_mu, t)
        D = tr.call("d2sigma_mu", m.d2sigma_mu, t)
        names = list(m.theta_names)
        fd = m.free_df
        par = [np.array([t[names.index(x)] for x in fd.loc[fd["group"] == g, "label"]]) for g in range(G)]
        if J is not None and D is not None:
            c = np.round(rng.normal(size=J.shape[1]), 3)
            tr.ev("deriv", par=[num(x) for x in par], J=[num(x) for x in J], c=c, H=[num(np.einsum("k,kij->ij", c, x)) for x in D])
        mats = []
        free = m.transform_theta_to_free(t)
        for g in range(G):
            L = m.group_free_to_model_mats(m.transform_free_to_group_free(free, g), g)
            mats.append({k: num(x if k not in "ab" else np.ravel(x)) for k, x in zip("LBFPab", L)})
        rl, cl = m.mat_labels
        tr.ev("mats", t=t, mats=mats, on=list(rl[0]), ln=list(cl[0]))
        text2 = sl.render(s, rng, plain=True)
        m2 = make(tr, s, df, grp, G, share, o, text2)
        if m2 is not None:
            n2 = list(m2.theta_names)
            ok = sorted(n2) == sorted(names)
            t2 = np.array([t[names.index(x)] for x in n2]) if ok else t
            Sg = m2.implied_cov_mean(t2)[0] if ok else r[0]
            O2 = sorted(m2.obs_order, key=lambda v: m2.obs_order[v])
            ix = [O2.index(v) for v in O]
            tr.ev("same", labels=sorted(names), labels2=sorted(n2), S=np.concatenate([r[0][g] for g in range(G)]), S2=np.concatenate([Sg[g][np.ix_(ix, ix)] for g in range(G)]))
    return go


def s_(l, r, p, k="free", v="", lab=""):
    return dict(l=l, r=r, p=p, k=k, v=str(v), lab=lab)


def cases(seed, tier):
    C = []
    path = [s_("y1", "~", "z1"), s_("y1", "~", "z2"), s_("y2", "~", "y1"), s_("y2", "~", "z2"), s_("y3", "~", "y1")]
    cfa = [s_("f", "=~", f"x{i}") for i in range(1, 5)] + [s_("g", "=~", f"x{i}") for i in range(5, 8)]
    lab = [s_("f", "=~", "x1"), s_("f", "=~", "x2", "label", lab="a"), s_("f", "=~", "x3", "label", lab="a"), s_("f", "=~", "x4"), s_("g", "=~", "x5"), s_("g", "=~", "x6", "label", lab="a"), s_("g", "~", "f"), s_("x1", "~~", "x5")]
    C += [("path", session(path)), ("path-2g", session(path, G=2, sh=[True] * 6)), ("cfa", session(cfa)), ("cfa-2g-all", session(cfa, G=2, sh=[True] * 6)),
          ("cfa-2g-load", session(cfa, G=2, sh=[True, True, False, False, False, False])), ("cfa-2g-tail", session(cfa, G=2, sh=[False, False, True, True, True, True])),
          ("cfa-3g", session(cfa, G=3, sh=[True, False, False, True, False, False])), ("label", session(lab)), ("label-2g", session(lab, G=2, sh=[False] * 6))]
    rev = cfa + [s_("g", "~~", "f", "fix", "0.2"), s_("x7", "~~", "x2"), s_("x3", "~~", "x2")]
    out = cfa[:4] + [s_("y1", "~", "f"), s_("y2", "~", "f"), s_("y3", "~", "f"), s_("y1", "~~", "y2", "fix", "0.1"), s_("y3", "~~", "y1")]
    C += [("rev-cov", session(rev)), ("rev-cov-2g", session(rev, G=2, sh=[True, True, False, True, False, False])), ("out-cov", session(out))]
    for i, o in enumerate([dict(lvx=False), dict(y=False), dict(lvmean=False), dict(lvvar=True, first=False), dict(first=False)]):
        C.append((f"opt-{i}", session(lambda r: sl.gen(r, xo=True), opt=o)))
        if i < 2:
            C.append((f"opt-cfa-{i}", session(cfa + ([] if i == 0 else [s_("y1", "~", "f"), s_("y2", "~", "f")]), opt=o)))
    k = 12 if tier == "quick" else 60
    for i in range(k):
        C.append((f"rand-{i}", session(lambda r: sl.gen(r, big=True), G=1)))
    for i in range(k):
        C.append((f"rand2-{i}", session(lambda r: sl.gen(r), G=2 + (i % 5 == 4))))
    return C


if __name__ == "__main__":
    run(cases)
