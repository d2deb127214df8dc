"""P24: sinh-arcsinh and skew normal families."""
import numpy as np
from vlib import run, num, ints
from pystatsm.misc import sash, shash1, shashr, skewnorm_dist as SN
from pystatsm.misc.sash import SASH
from pystatsm.misc.skewnorm_dist import SkewNorm

SD = [sash._logpdf, sash._d1logpdf, sash._d2logpdf, sash._d3logpdf, sash._d4logpdf]
ND = [SN._logpdf, SN._d1logpdf, SN._d2logpdf, SN._d3logpdf, SN._d4logpdf]
CS = [SASH.loglike, SASH.d1loglike, SASH.d2loglike, SASH.d3loglike, SASH.d4loglike]
CN = [SkewNorm.loglike, SkewNorm.d1loglike, SkewNorm.d2loglike, SkewNorm.d3loglike, SkewNorm.d4loglike]


def pars(rng, tail, skew):
    m, s = rng.normal() * 2, np.exp(rng.uniform(-1, 1.2))
    t = {"heavy": rng.uniform(.45, .8), "normal": 1.0, "light": rng.uniform(1.3, 2.5)}[tail]
    v = {"neg": -rng.uniform(.2, 1.3), "none": 0.0, "pos": rng.uniform(.2, 1.3)}[skew]
    return float(m), float(s), float(v), float(t)


def cols(D, n):
    D = np.asarray(D, float)
    return num(D.reshape(n, -1))


def shash(mod, tail, skew, shape):
    def go(tr):
        rng = tr.rng
        m, s, v, t = pars(rng, tail, skew)
        n = int(np.prod(shape)) if shape else 1
        y = m + s * np.sinh((np.arcsinh(rng.uniform(-2.3, 2.3, n)) + v) / t)
        y = y.reshape(shape)
        if mod == "sash":
            p = [m, s, v, t]
            vec = len(shape) == 1 and n > 2
            if vec:
                p = [np.asarray(q) + d for q, d in zip(p, (rng.normal(size=n) * .1, rng.uniform(0, .2, n), rng.normal(size=n) * .1, rng.uniform(0, .2, n)))]
            with tr.frozen("sash", y, *[q for q in p if isinstance(q, np.ndarray)]):
                for k in range(1, 5):
                    D = tr.call(f"d{k}", SD[k], y, *p)
                    l = SD[0](y, *p)
                    if D is not None:
                        tr.ev("deriv", fam="sash", par=[num(q) for q in p], y=num(y.ravel()), k=k, l=num(np.ravel(l)), D=cols(D, n))
                        C = tr.call(f"class-d{k}", CS[k], y, *p)
                        if C is not None:
                            tr.ev("same", what="class-agrees-with-functions", a=num(np.ravel(C)), b=num(np.ravel(D)), tol="1e-14")
                tr.ev("same", what="class-agrees-with-functions", a=num(np.ravel(CS[0](y, *p))), b=num(np.ravel(SD[0](y, *p))), tol="1e-14")
                pr = rng.uniform(.001, .999, shape)
                tr.ev("dist", fam="sash", par=[num(q) for q in p], y=num(y.ravel()), pdf=num(np.ravel(sash._pdf(y, *p))), cdf=num(np.ravel(sash._cdf(y, *p))), prob=num(pr.ravel()), quant=num(np.ravel(sash._qtf(pr, *p))))
            q = [m, s, v, t]
            sd = int(rng.integers(1 << 30))
            x = sash._rvs(np.random.default_rng(sd), *q, size=(40, 20))
            x2 = sash._rvs(np.random.default_rng(sd), *q, size=(40, 20))
            tr.ev("draws", fam="sash", par=[num(a) for a in q], x=num(x.ravel()), shape=ints(x.shape), want=[40, 20], again=bool(np.array_equal(x, x2)))
            return
        M = shash1 if mod == "shash1" else shashr
        S, T = (s, t) if mod == "shash1" else (float(np.log(s)), float(np.log(t)))
        p = [m, S, T, v]
        g = [num(q) for q in p]
        forms = [lambda k: M.logpdf(y, params=np.array(p), derivs=k), lambda k: M.logpdf(y, params=tuple(p), derivs=k), lambda k: M.logpdf(y, m=m, s=S, t=T, v=v, derivs=k), lambda k: M.logpdf(y, list(p), derivs=k), lambda k: M.logpdf(y, params=p, m=99., s=-1., t=1., v=3., derivs=k)]
        with tr.frozen(mod, y):
            l0 = tr.call("logpdf", lambda: M.logpdf(y, params=p))
            full = tr.call("logpdf4", forms[0], 4)
            if full is not None and l0 is not None:
                for k in range(1, 5):
                    f = tr.call(f"logpdf{k}", forms[(k + n) % 5], k)
                    if f is None:
                        continue
                    tr.ev("equal", what="number-of-derivative-arrays", a=len(f), b=k + 1)
                    tr.ev("deriv", fam=mod, par=g, y=num(y.ravel()), k=k, l=num(np.ravel(f[0])), D=cols(f[k], n))
                    tr.ev("equal", what="derivative-array-shape", a=list(f[k].shape[:-1]), b=list(y.shape))
                    for j in range(k + 1):
                        tr.ev("same", what="lower-orders-agree", a=num(np.ravel(f[j])), b=num(np.ravel(full[j])), tol="1e-7")
                tr.ev("same", what="lower-orders-agree", a=num(np.ravel(l0)), b=num(np.ravel(full[0])), tol="1e-12")
            pr = rng.uniform(.001, .999, shape)
            q = (m, S, v, T)
            tr.ev("dist", fam=mod, par=g, y=num(y.ravel()), pdf=num(np.ravel(M.pdf(y, *q))), cdf=num(np.ravel(M.cdf(y, *q))), prob=num(pr.ravel()), quant=num(np.ravel(M.inverse_cdf(pr, *q))))
        sk, ku = [num(M.skew(*q))], [num(M.kurt(*q))]
        if mod == "shash1":
            sk.append(num(M.skewness(*q)))
            ku.append(num(M.excess_kurtosis(*q) + 3))
        tr.ev("moments", fam=mod, par=g, mean=num(M.mean(*q)), var=num(M.variance(*q)), median=num(M.median(*q)), mom=num(np.array(M.moments(*q), float)), skew=sk, kurt=ku)
        sd = int(rng.integers(1 << 30))
        x = M.rvs(*q, size=(40, 20), rng=np.random.default_rng(sd))
        x2 = M.rvs(*q, size=(40, 20), rng=np.random.default_rng(sd))
        tr.ev("draws", fam=mod, par=g, x=num(x.ravel()), shape=ints(x.shape), want=[40, 20], again=bool(np.array_equal(x, x2)))
        tr.ev("rejects", what="parameters", err=tr.expect_error("params", M.logpdf, y, params=p[:3]))
        tr.ev("rejects", what="missing parameter", err=tr.expect_error("missing", lambda: M.logpdf(y, m=m, s=S, t=T)))
    return go


def skew(kind, shape):
    def go(tr):
        rng = tr.rng
        m, s = float(rng.normal() * 2), float(np.exp(rng.uniform(-1, 1.2)))
        v = {"neg": -rng.uniform(.3, 4), "pos": rng.uniform(.3, 4), "weak": rng.uniform(-.2, .2)}[kind]
        n = int(np.prod(shape)) if shape else 1
        z = rng.uniform(-2.5, 2.5, n)
        z = np.where(v * z < -2.5, -2.5 / v * rng.uniform(.3, 1, n), z)
        y = (m + s * z).reshape(shape)
        p = [m, s, float(v)]
        if len(shape) == 1 and n > 2:
            p = [np.asarray(q) + d for q, d in zip(p, (rng.normal(size=n) * .1, rng.uniform(0, .2, n), rng.normal(size=n) * .1))]
        with tr.frozen("skewnorm", y, *[q for q in p if isinstance(q, np.ndarray)]):
            for k in range(1, 5):
                D = tr.call(f"d{k}", ND[k], y, *p)
                if D is not None:
                    tr.ev("deriv", fam="skew", par=[num(q) for q in p], y=num(y.ravel()), k=k, l=num(np.ravel(ND[0](y, *p))), D=cols(D, n))
                    C = tr.call(f"class-d{k}", CN[k], y, *p)
                    if C is not None:
                        tr.ev("same", what="class-agrees-with-functions", a=num(np.ravel(C)), b=num(np.ravel(D)), tol="1e-14")
            C = tr.call("class-d0", CN[0], y, *p)
            if C is not None:
                tr.ev("same", what="class-agrees-with-functions", a=num(np.ravel(C)), b=num(np.ravel(ND[0](y, *p))), tol="1e-14")
        g = [m, s, float(v)]
        tr.ev("skewmom", par=[num(a) for a in g], mean=num(SN._mean(*g)), var=num(SN._variance(*g)), skew=num(SN._skewness(*g)))
        sd = int(rng.integers(1 << 30))
        x = SN._rvs(300, *g, rng=np.random.default_rng(sd))
        x2 = SN._rvs(300, *g, rng=np.random.default_rng(sd))
        tr.ev("draws", fam="skew", par=[num(a) for a in g], x=num(x), shape=ints(x.shape), want=[300], again=bool(np.array_equal(x, x2)))
    return go


def cases(seed, tier):
    reps = 1 if tier == "quick" else 5
    out = []
    sh = [(), (1,), (7,), (2, 3)]
    for r in range(reps):
        i = seed + r
        for mod in ("sash", "shash1", "shashr"):
            for tail in ("heavy", "normal", "light"):
                for sk in ("neg", "none", "pos"):
                    i += 1
                    out.append((f"{mod}.{tail}.{sk}.{r}", shash(mod, tail, sk, sh[i % 4])))
        for kind in ("neg", "pos", "weak"):
            for j in range(4):
                out.append((f"skew.{kind}.{j}.{r}", skew(kind, sh[j])))
    return out


run(cases)
