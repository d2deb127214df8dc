"""P27: Bayesian mixed models: the conditional draws and the chains of MixedMCMC."""
import os
os.environ.setdefault("TQDM_DISABLE", "1")
import numpy as np
import pandas as pd
from vlib import run, num, ints
from pystatsm.pylmm.glmm_mcmc import MixedMCMC
import numba
import vlib


@numba.njit
def seed_jit(s):
    np.random.seed(s)


vlib.per_case.append(seed_jit)


def frame(rng, q, per, kind):
    n = q * per
    g = np.repeat(np.arange(q), per)
    h = np.tile(np.arange(max(2, per)), q)[:n]
    x = rng.normal(size=n)
    eta = .3 + .8 * x + rng.normal(size=q)[g] * .7
    if kind == "normal":
        y = eta + rng.normal(size=n)
    elif kind == "bernoulli":
        y = (rng.uniform(size=n) < 1 / (1 + np.exp(-eta))).astype(float)
        y[:2] = [0., 1.]
    elif kind == "binomial":
        y = rng.binomial(8, 1 / (1 + np.exp(-eta))) / 8.0
    else:
        y = np.digitize(eta + rng.normal(size=n), [-.4, .6]).astype(float)
        y[:3] = [0., 1., 2.]
    df = pd.DataFrame(dict(y=y, x=x, g=g, h=h))
    return df.iloc[rng.permutation(n)].reset_index(drop=True)


FORMS = {"intercept": "y~1+x+(1|g)", "slope": "y~1+x+(1+x|g)", "crossed": "y~1+x+(1|g)+(1|h)", "two": "y~1+x+(1+x|g)+(1|h)"}


def build(tr, form, kind, q, per, **kw):
    rng = tr.rng
    df = frame(rng, q, per, kind)
    if kind == "binomial":
        kw["weights"] = np.full(q * per, 8.0)
    return tr.call("constructor", MixedMCMC, FORMS[form], df, kind, rng=np.random.default_rng(int(rng.integers(1 << 30))), **kw)


def dense(a):
    return np.asarray(a.toarray() if hasattr(a, "toarray") else a, float)


def theta_for(rng, m):
    th = m.t_init.copy()
    ks = []
    for i in range(m.levels):
        k = int(m.random_effects.n_rvars[i])
        A = rng.normal(size=(k, k + 2))
        G = A @ A.T / (k + 1) + .2 * np.eye(k)
        th[m.t_inds[i]] = [G[a, b] for b in range(k) for a in range(b, k)]
        ks.append([k, int(m.random_effects.group_sizes[i])])
    th[-1] = rng.uniform(.4, 2)
    return th, ks


def location(form, kind, q, per):
    def go(tr):
        rng = tr.rng
        m = build(tr, form, kind, q, per)
        if m is None:
            return
        X, Z = dense(m.X), dense(m.Z)
        for _ in range(3):
            th, ks = theta_for(rng, m)
            z = rng.normal(size=m.n_ob) * 2
            a, b = np.zeros(m.n_re), np.zeros(m.n_ob)
            with tr.frozen("sample_location", th, z):
                m0 = tr.call("location", m.sample_location, th, a, b, z)
                if m0 is None:
                    return
                J1 = np.column_stack([m.sample_location(th, e, b, z) - m0 for e in np.eye(m.n_re)])
                J2 = np.column_stack([m.sample_location(th, a, e, z) - m0 for e in np.eye(m.n_ob)])
                x1, x2 = rng.normal(size=m.n_re), rng.normal(size=m.n_ob)
                d = m.sample_location(th, x1, x2, z)
            tr.ev("location", X=num(X), Z=num(Z), theta=num(th), terms=ks, y=num(z), mean=num(m0), J=num(np.hstack([J1, J2])), x=num(np.r_[x1, x2]), draw=num(d))
    return go


def cov(form, kind, q, per, prior):
    def go(tr):
        rng = tr.rng
        kw = {}
        if prior:
            ks = [2 if "1+x|" in t else 1 for t in FORMS[form].split("(")[1:]]
            pr = {}
            for i, k in enumerate(ks):
                A = rng.normal(size=(k, k + 1))
                pr[i] = dict(V=A @ A.T + .3 * np.eye(k), n=int(rng.integers(3, 9)))
            pr["R"] = dict(V=float(rng.uniform(.5, 3)), n=int(rng.integers(1, 6)))
            kw["priors"] = pr
        m = build(tr, form, kind, q, per, **kw)
        if m is None:
            return
        if prior is None or not prior:
            pr = m.priors
        th, ks = theta_for(rng, m)
        u, y, pred = rng.normal(size=m.n_re), rng.normal(size=m.n_ob) * 1.5, rng.normal(size=m.n_ob)
        N = 400
        before = th.copy()
        D = np.array([m.sample_theta(th.copy(), u, y, pred, True) for _ in range(N)])
        F = np.array([m.sample_theta(th.copy(), u, y, pred, False) for _ in range(5)])
        tr.ev("equal", what="residual-variance-kept-when-not-free", a=bool(np.all(F[:, -1] == before[-1])), b=True)
        tr.ev("equal", what="default-free-residual", a=bool(m.freeR), b=kind == "normal")
        pos = 0
        for i, (k, qq) in enumerate(ks):
            tr.ev("gcov", k=k, q=qq, u=num(u[pos:pos + k * qq]), V=num(np.atleast_2d(pr[i]["V"])), n=num(pr[i]["n"]), draws=num(D[:, m.t_inds[i]].reshape(N, -1)))
            pos += k * qq
        tr.ev("rcov", r=num(y - pred), V=num(pr["R"]["V"]), n=num(pr["R"]["n"]), draws=num(D[:, -1]))
    return go


def latent(kind):
    def go(tr):
        rng = tr.rng
        real = {"poisson": "normal"}.get(kind, kind)
        q, per = 8, 6
        m = build(tr, "intercept", real, q, per)
        if m is None:
            return
        n = m.n_ob
        th, _ = theta_for(rng, m)
        s2 = float(th[-1])
        pred = rng.normal(size=n)
        y = np.asarray(m.y, float)
        if kind in ("binomial", "poisson"):
            if kind == "poisson":
                m.y = y = rng.poisson(2., n).astype(float)
            f = m.mh_lvar_binomial if kind == "binomial" else m.mh_lvar_poisson
            w = np.full(n, 8.) if kind == "binomial" else np.ones(n)
            for _ in range(4):
                z = rng.normal(size=n)
                step, lu, c = rng.normal(size=n), np.log(rng.uniform(size=n)), float(rng.uniform(.3, 1.5))
                out = tr.call("mh", f, pred, np.sqrt(s2), z.copy(), step, lu, c)
                if out is None:
                    return
                tr.ev("mh", kind=kind, y=num(y), w=num(w), pred=num(pred), s2=num(s2), z=num(z), step=num(step), lu=num(lu), c=num(c), new=num(out[0]), acc=ints(np.asarray(out[1]).astype(int)))
            return
        N = 150
        if kind == "bernoulli":
            Zs, U = [], []
            z = rng.normal(size=n)
            ex = rng.exponential(size=n)
            for k in range(N):
                v = np.zeros(n)
                Zs.append(np.array(tr.call("slice", m.slice_sample_lvar, ex, v, z.copy(), th, pred)))
            tr.ev("slice", y=num(y), pred=num(pred), s2=num(s2), z=num(z), ex=num(ex), draws=num(np.array(Zs)))
        else:
            t = np.array([1.0, 1.0 + float(rng.uniform(.4, 1.5))])
            pred = pred + 1.2
            Zs = [np.array(tr.call("ordinal", m.mh_lvar_ordinal_probit, th, t, pred, np.zeros(n))) for _ in range(N)]
            tr.ev("ordinal", y=num(y), t=num(t), pred=num(pred), s2=num(s2), draws=num(np.array(Zs)))
            L, T = 20000, t.copy()
            out = np.zeros(L)
            acc = 0
            v = np.zeros(n)
            for k in range(L):
                T, a = m.sample_tau(th, T, pred, v, .35)
                out[k] = np.log(T[1] - T[0])
                acc += bool(a)
            tr.ev("tau", y=num(y), pred=num(pred), s2=num(s2), batches=num(out[1000:].reshape(50, -1).mean(1)), sq=num((out[1000:]**2).reshape(50, -1).mean(1)), first=num(T[0]), moved=bool(L // 20 < acc < L))
    return go


def chain(kind, q, per, length):
    """one random intercept and an intercept: the posterior is computed on a lattice"""
    def go(tr):
        rng = tr.rng
        n = q * per
        g = np.repeat(np.arange(q), per)
        u = rng.normal(size=q)
        eta = .2 + u[g]
        if kind == "normal":
            y = eta + rng.normal(size=n)
        elif kind == "bernoulli":
            y = (rng.uniform(size=n) < 1 / (1 + np.exp(-eta))).astype(float)
        else:
            y = rng.binomial(4, 1 / (1 + np.exp(-eta))) / 4.
        df = pd.DataFrame(dict(y=y, g=g))
        pr = {0: dict(V=np.array([[2.0]]), n=8), "R": dict(V=1.0, n=4)}
        kw = dict(weights=np.full(n, 4.)) if kind == "binomial" else {}
        m = tr.call("constructor", MixedMCMC, "y~1+(1|g)", df, kind, priors=pr, rng=np.random.default_rng(int(rng.integers(1 << 30))), **kw)
        if m is None:
            return
        m.save_pred = m.save_u = m.save_lvar = False
        if kind == "normal":
            m.save_pred = m.save_u = True
            m.secondary_samples = dict(pred=np.zeros((1, length, n)), u=np.zeros((1, length, q)))
        S = tr.call("chain", getattr(m, "sample_" + kind), length)
        if S is None:
            return
        B = 40
        S = S[length // 10:]
        S = S[:len(S) // B * B]
        f = np.column_stack([S[:, 0], S[:, 0]**2, np.log(S[:, 1]), np.log(S[:, 1])**2, np.log(S[:, 2])])
        tr.ev("chain", kind=kind, q=q, per=per, y=num(y), batches=num(f.reshape(B, -1, 5).mean(1)), V=num(2.0), n=num(8), RV=num(1.0), rn=num(4))
        if kind == "normal":
            P, U = m.secondary_samples["pred"][0], m.secondary_samples["u"][0]
            k = length - 1
            full = S[-1]
            tr.ev("same", what="saved-predictions-belong-to-saved-effects", a=num((P - U[:, g])[length // 2:length // 2 + 5, :1].ravel()), b=num((P - U[:, g])[length // 2:length // 2 + 5, -1:].ravel()), tol="1e-9")
    return go


def cases(seed, tier):
    for k in range(3 if tier == "thorough" else 1):
        t = f".{k}" if k else ""
        for i, f in enumerate(FORMS):
            for kind in ("normal", "bernoulli") if i % 2 == 0 else ("binomial", "ordinal_probit"):
                yield f"location-{f}-{kind}{t}", location(f, kind, 5, 4)
                yield f"cov-{f}-{kind}{t}", cov(f, kind, 7, 5, i != 1)
        yield f"location-large{t}", location("slope", "normal", 12, 3)
        yield f"cov-default{t}", cov("slope", "normal", 9, 4, False)
        for kind in ("binomial", "poisson", "bernoulli", "ordinal_probit"):
            yield f"latent-{kind}{t}", latent(kind)
        yield f"chain-normal{t}", chain("normal", 8, 4, 8000)
        yield f"chain-bernoulli{t}", chain("bernoulli", 8, 5, 12000)
        yield f"chain-binomial{t}", chain("binomial", 8, 3, 12000)


if __name__ == "__main__":
    run(lambda seed, tier: list(cases(seed, tier)))
