"""Random structural equation models: statements, text, data."""
import contextlib, io
import numpy as np
import pandas as pd


def gen(rng, big=False, labels=True, xo=None):
    """A random formula as a list of statements [l, r, p, k, v, lab]."""
    st = []

    def add(l, r, p, k="free", v="", lab=""):
        st.append(dict(l=l, r=r, p=p, k=k, v=str(v), lab=lab))
    style = int(rng.integers(0, 3))
    xn = lambda i: [f"x{i}", f"item_{chr(97 + i)}", f"Q{i}a"][style]
    fn = lambda i: [f"f{i}", f"lat{i}", ["eta", "xi", "zeta", "omega"][i]][style]
    nf = int(rng.integers(1, 4 if big else 3))
    xi = 0
    F, ind = [], {}
    for f in range(nf):
        m = int(rng.integers(3, 5)) if nf == 1 else int(rng.integers(2, 4))
        F.append(fn(f))
        ind[fn(f)] = [xn(xi + j) for j in range(m)]
        xi += m
    lab_left = labels and rng.random() < .5
    for f in F:
        fixed_at = None
        if rng.random() < .25:
            fixed_at = int(rng.integers(0, len(ind[f])))
        for j, x in enumerate(ind[f]):
            if j == fixed_at:
                add(f, "=~", x, "fix", [1, "0.8", "1.5"][int(rng.integers(0, 3))])
            elif lab_left and j == 1 and fixed_at is None:
                add(f, "=~", x, "label", lab="lam")
            else:
                add(f, "=~", x)
    second = nf == 3 and rng.random() < .4
    if second:
        for f in F:
            add("gen", "=~", f)
    elif nf >= 2:
        u = rng.random()
        if u < .6:
            add(F[1], "~", F[0])
        if nf == 3 and rng.random() < .6:
            add(F[2], "~", F[0])
            if rng.random() < .6:
                add(F[2], "~", F[1])
    xo = (rng.random() < .6) if xo is None else xo
    if xo:
        nz = int(rng.integers(1, 3))
        Z = [f"z{i+1}" for i in range(nz)]
        tgt = F[-1] if not second else "gen"
        lz = labels and rng.random() < .3 and nz == 2
        for z in Z:
            add(tgt, "~", z, *(("label", "", "bz") if lz else ()))
        if rng.random() < .5:
            add("y1", "~", F[0])
            add("y1", "~", Z[0], *(("fix", "-0.5") if rng.random() < .3 else ()))
            if rng.random() < .5:
                add("y2", "~", "y1")
                if rng.random() < .5:
                    add("y2", "~", Z[-1])
        elif rng.random() < .5:
            add("y1", "~", F[0])
            add("y2", "~", F[0])
    x = [v for f in F for v in ind[f]]
    if rng.random() < .5:
        a, b = [(x[0], x[-1]), (x[1], x[-1]), (x[-1], x[1])][int(rng.integers(0, 3))]
        add(a, "~~", b)
    if rng.random() < .3:
        v = x[int(rng.integers(0, len(x)))]
        add(v, "~~", v, *(("fix", "0.6") if rng.random() < .5 else ()))
    if nf >= 2 and not second and rng.random() < .3 and not any(s["r"] == "~" and s["l"] == F[1] for s in st):
        add(F[0], "~~", F[1], *(("fix", "0.2") if rng.random() < .5 else ()))
    if rng.random() < .4:
        add(x[0], "~", "1", "fix", "0")
        add(F[0], "~", "1")
    elif rng.random() < .3:
        add(x[1], "~", "1", "label", lab="mu")
        add(x[2 % len(x)], "~", "1", "label", lab="mu")
    return st


def render(st, rng, plain=False):
    """Text of the statements; several ways of writing the same thing."""
    lines, i = [], 0
    tok = lambda s: s["p"] if s["k"] == "free" else (f"{s['v']}*{s['p']}" if plain or rng.random() < .5 else f"{s['v']} * {s['p']}") if s["k"] == "fix" else f"{s['lab']}*{s['p']}"
    sp = lambda: "" if plain else " " * int(rng.integers(0, 3))
    while i < len(st):
        j = i + 1
        if not plain or st[i]["r"] == "=~":
            while j < len(st) and st[j]["l"] == st[i]["l"] and st[j]["r"] == st[i]["r"] and (plain or st[i]["r"] == "=~" or rng.random() < .7):
                j += 1
        g = st[i:j]
        lines.append(sp() + g[0]["l"] + " " + g[0]["r"] + " " + (sp() + "+" + sp()).join(tok(s) for s in g) + ("" if plain or rng.random() < .7 else "   # note ~ 1 + x"))
        if not plain and rng.random() < .3:
            lines.append(["", "   ", "# a comment =~ here"][int(rng.integers(0, 3))])
        i = j
    return "\n".join(lines) + ("" if plain else "\n  ")


def variables(st):
    V = []
    for s in st:
        for v in (s["l"], s["p"]):
            if v != "1" and v not in V:
                V.append(v)
    return V


def classify(st):
    V = variables(st)
    nob = {s["l"] for s in st if s["r"] == "=~"}
    return V, [v for v in V if v not in nob]


def data(rng, st, n, G, extra=True, scale=1.):
    """Correlated data for the observed variables, in random column order, with spare columns."""
    V, O = classify(st)
    p = len(O)
    N = n * G
    B = np.eye(p) + .35 * rng.normal(size=(p, p)) / np.sqrt(p) + .5
    Y = rng.normal(size=(N, p)) @ B.T * .7 * scale + rng.normal(size=p)
    grp = rng.permutation(np.repeat(np.arange(G), n)) if G > 1 else np.zeros(N, int)
    if G > 1:
        k = int(rng.integers(0, n // 3))
        grp[np.flatnonzero(grp == 1)[:k]] = 0
        Y = Y + grp[:, None] * rng.normal(size=p) * .3
    Y = np.round(Y, 3)
    df = pd.DataFrame(Y, columns=O)
    if extra:
        df["spare"] = np.round(rng.normal(size=N) + Y[:, 0], 3)
    df = df[list(rng.permutation(df.columns))]
    return df, grp


def labelled(grp, rng):
    k = int(rng.integers(0, 3))
    return [grp * 3 + 2, np.array([("north", "south", "west")[i] for i in grp]), grp][k]


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def describe(tr, m, st, df, grp, G, sh, opt):
    """Session facts for the specification."""
    V, _ = classify(st)
    O = sorted(m.obs_order, key=lambda v: m.obs_order[v])
    names = list(m.theta_names)
    tab = []
    for r in m.free_df.to_dict(orient="records"):
        th = names.index(r["label"]) + 1
        tab.append(dict(g=int(r["group"]) + 1, l=r["lhs"], r=r["rel"], p=r["rhs"], th=th, lb=repr(float(m.bounds[th - 1][0])) if m.bounds[th - 1][0] is not None else "none"))
    from vlib import num
    tr.meta.update(stm=st, opt=opt, V=V, O=O, Y=[num(df.loc[grp == g, O].to_numpy()) for g in range(G)], sh=[bool(x) for x in sh], tab=tab, k=len(names))
    return O


OPT = dict(first=True, lvvar=False, lvx=True, y=True, lvmean=True)


def point(rng, m):
    """A parameter vector at which every implied covariance is positive definite."""
    names = list(m.theta_names)
    fd = m.free_df
    for s in (1., .6, .3, .1):
        t = np.zeros(len(names))
        for r in fd.to_dict(orient="records"):
            i = names.index(r["label"])
            if r["rel"] == "=~":
                t[i] = rng.uniform(.5, 1.4)
            elif r["rel"] == "~~":
                t[i] = rng.uniform(.6, 1.6) if r["lhs"] == r["rhs"] else s * rng.uniform(-.3, .3)
            else:
                t[i] = rng.normal() * .5
        try:
            S = m.implied_cov_mean(t)[0]
            if all(np.linalg.eigvalsh(x).min() > .05 for x in S):
                return np.round(t, 4)
        except Exception:
            pass
    return np.round(t, 4)
