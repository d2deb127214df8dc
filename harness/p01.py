"""P01: index maps of the vec / vech / vecl / Kronecker / multi-index layouts."""
import itertools
import numpy as np
from vlib import run, ints
from pystatsm.utilities import indexing_utils as iu
from pystatsm.utilities import ordered_indices as oi


def il(x):
    return [int(v) for v in np.asarray(x).ravel()]


def tri_case(n, m, k, order):
    def f(tr):
        lo = tr.call("tril_indices", iu.tril_indices, n, k, m, order)
        up = tr.call("triu_indices", iu.triu_indices, n, k, m, order)
        if lo is not None and up is not None:
            tr.ev("tri", n=n, m=n if m is None else m, k=k, order=order, lr=il(lo[0]), lc=il(lo[1]), ur=il(up[0]), uc=il(up[1]))
        if m is None and order == "F":
            d = tr.call("diag_indices", iu.diag_indices, n, k)
            if d is not None:
                tr.ev("diag", n=n, k=k, r=il(d[0]), c=il(d[1]))
    return f


def vech_case(n):
    def f(tr):
        q, ql = n * (n + 1) // 2, n * (n - 1) // 2
        a = tr.call("vech_inds_reverse", iu.vech_inds_reverse, np.arange(q), n)
        s = tr.call("vech_inds_reverse-scalar", lambda: [iu.vech_inds_reverse(i, n) for i in range(q)])
        r, c = np.asarray([(i, j) for j in range(n) for i in range(j, n)]).T
        fw = tr.call("vech_inds_forwards", iu.vech_inds_forwards, r, c, n)
        fs = tr.call("vech_inds_forwards-scalar", lambda: [iu.vech_inds_forwards(int(i), int(j), n) for i, j in zip(r, c)])
        if not any(x is None for x in (a, s, fw, fs)):
            tr.ev("vech", n=n, strict=False, rr=il(a[0]), rc=il(a[1]), sr=[int(x[0]) for x in s], sc=[int(x[1]) for x in s], fw=il(fw), fs=il(fs))
        if n > 1:
            a = tr.call("vecl_inds_reverse", iu.vecl_inds_reverse, np.arange(ql), n)
            s = tr.call("vecl_inds_reverse-scalar", lambda: [iu.vecl_inds_reverse(i, n) for i in range(ql)])
            r, c = np.asarray([(i, j) for j in range(n) for i in range(j + 1, n)]).T
            fw = tr.call("vecl_inds_forwards", iu.vecl_inds_forwards, r, c, n)
            fs = tr.call("vecl_inds_forwards-scalar", lambda: [iu.vecl_inds_forwards(int(i), int(j), n) for i, j in zip(r, c)])
            if not any(x is None for x in (a, s, fw, fs)):
                tr.ev("vech", n=n, strict=True, rr=il(a[0]), rc=il(a[1]), sr=[int(x[0]) for x in s], sc=[int(x[1]) for x in s], fw=il(fw), fs=il(fs))
        mask = tr.call("vecl_inds", iu.vecl_inds, n)
        dg = tr.call("vech_diag_indices", iu.vech_diag_indices, n)
        dk = tr.call("vech_diag_indices_forward", lambda: [iu.vech_diag_indices_forward(k, n) for k in range(n)])
        if not any(x is None for x in (mask, dg, dk)):
            tr.ev("diagpos", n=n, mask=[bool(x) for x in np.asarray(mask).ravel()], dg=il(dg), dk=il(dk))
        for k in (0, -1):
            for order in ("F", "C"):
                for base in (0, 1, 5):
                    inv = tr.call("inv_tril_indices", iu.inv_tril_indices, n, k, None, order, base)
                    if inv is not None:
                        tr.ev("invtril", n=n, k=k, order=order, base=base, tab=ints(inv))
        for a, b in ((n, 3), (2, n)):
            g = tr.call("vec_inds_reverse", iu.vec_inds_reverse, np.arange(a * b), a)
            h = tr.call("vec_inds_forwards", lambda: [iu.vec_inds_forwards(i, j, a) for j in range(b) for i in range(a)])
            ci = tr.call("commutation_matrix_indices", iu.commutation_matrix_indices, a, b)
            if not any(x is None for x in (g, h, ci)):
                tr.ev("vec", a=a, b=b, r=il(g[0]), c=il(g[1]), fw=il(h), ci=il(ci[0]), cj=il(ci[1]))
        d = tr.call("duplication_matrix_indices", iu.duplication_matrix_indices, n)
        e = tr.call("elimination_matrix_indices", iu.elimination_matrix_indices, n)
        if d is not None and e is not None:
            tr.ev("dupelim", n=n, dr=il(d[0]), dc=il(d[1]), er=il(e[0]), ec=il(e[1]))
    return f


def big_vech(n):
    def f(tr):
        q = n * (n + 1) // 2
        pos = sorted({0, 1, n - 1, n, n + 1, q - 1, q - 2, q // 2} | {int(x) for x in tr.rng.integers(0, q, 40)})
        res = tr.call("vech_inds_reverse", lambda: [iu.vech_inds_reverse(i, n) for i in pos])
        if res is not None:
            back = tr.call("vech_inds_forwards", lambda: [int(iu.vech_inds_forwards(r, c, n)) for r, c in res])
            tr.ev("bigvech", n=n, strict=False, pos=pos, r=[int(x[0]) for x in res], c=[int(x[1]) for x in res], back=back)
        q = n * (n - 1) // 2
        pos = sorted({0, 1, n - 2, n - 1, n, q - 1, q - 2, q // 2} | {int(x) for x in tr.rng.integers(0, q, 40)})
        res = tr.call("vecl_inds_reverse", lambda: [iu.vecl_inds_reverse(i, n) for i in pos])
        if res is not None:
            back = tr.call("vecl_inds_forwards", lambda: [int(iu.vecl_inds_forwards(r, c, n)) for r, c in res])
            tr.ev("bigvech", n=n, strict=True, pos=pos, r=[int(x[0]) for x in res], c=[int(x[1]) for x in res], back=back)
        a = sorted({int(x) for x in tr.rng.integers(0, 2**30, 30)} | {k * (k + 1) // 2 + d for k in (1, 2, 100, 46339, 9999) for d in (-1, 0, 1)})
        lt = tr.call("largest_triangular", lambda: [iu.largest_triangular(x) for x in a])
        la = tr.call("largest_triangular-array", iu.largest_triangular, np.array(a))
        if lt is not None and la is not None:
            tr.ev("largesttri", a=a, s=il(lt), v=il(la))
    return f


def kron_case(p, q, a, b):
    def f(tr):
        fw = tr.call("kronecker_indices_forward", lambda: [iu.kronecker_indices_forward(i, j, p, q) for i in range(a * p) for j in range(b * q)])
        rv = tr.call("kronecker_indices_reverse", lambda: [iu.kronecker_indices_reverse(r, s, t, u, p, q) for r in range(a) for s in range(b) for t in range(p) for u in range(q)])
        if fw is not None and rv is not None:
            tr.ev("kron", p=p, q=q, a=a, b=b, fw=[[int(x[0][0]), int(x[0][1]), int(x[1][0]), int(x[1][1])] for x in fw], rv=[[int(x[0]), int(x[1])] for x in rv])
    return f


def shape_case(shape):
    def f(tr):
        n = int(np.prod(shape))
        sh = np.array(shape)
        cr = tr.call("colex_index_reverse", lambda: [il(iu.colex_index_reverse(i, shape)) for i in range(n)])
        lr = tr.call("lex_index_reverse", lambda: [il(iu.lex_index_reverse(i, shape)) for i in range(n)])
        cf = tr.call("colex_index_forward", lambda: [int(iu.colex_index_forward(np.array(x), sh)) for x in itertools.product(*map(range, shape))])
        lf = tr.call("lex_index_forward", lambda: [int(iu.lex_index_forward(np.array(x), sh)) for x in itertools.product(*map(range, shape))])
        nf = tr.call("ndindex-F", lambda: [il(x) for x in iu.ndindex(*shape)])
        nc = tr.call("ndindex-C", lambda: [il(x) for x in iu.ndindex(tuple(shape), order="C")])
        if not any(x is None for x in (cr, lr, cf, lf, nf, nc)):
            tr.ev("shape", shape=list(shape), colexrev=cr, lexrev=lr, colexfwd=cf, lexfwd=lf, ndf=nf, ndc=nc)
    return f


def mono_case(shape):
    def f(tr):
        gens = {}
        for asc in (True, False):
            for first in (True, False):
                for strict in (True, False):
                    gens[f"{'a' if asc else 'd'}{'l' if first else 'c'}{'s' if strict else 'w'}"] = tr.call("generate_indices", lambda: [il(x) for x in oi.generate_indices(tuple(shape), asc, first, strict)])
        kw = {"py": [il(x) for x in iu.ascending_indices(tuple(shape))], "gen": [il(x) for x in iu.ascending_indices_generator(tuple(shape))],
              "cy": [il(x) for x in oi.ascending_indices(tuple(shape))], "desc": [il(x) for x in oi.descending_indices(tuple(shape))]}
        tr.ev("mono", shape=list(shape), **kw, **gens)
    return f


def rank_case(n, p):
    def f(tr):
        fl = lambda x: int(x) if x == int(x) else -1
        idx = [x for x in itertools.product(range(p), repeat=n) if all(x[i] <= x[i + 1] for i in range(n - 1))]
        fw = tr.call("ascending_indices_forward", lambda: [fl(iu.ascending_indices_forward(np.array(x))) for x in idx])
        fn = tr.call("colex_ascending_indices_forward", lambda: [int(iu.colex_ascending_indices_forward(np.array(x))) for x in idx])
        fd = tr.call("colex_descending_indices_forward", lambda: [int(iu.colex_descending_indices_forward(np.array(x[::-1]))) for x in idx])
        perm = [tuple(np.array(x)[tr.rng.permutation(n)]) for x in idx]
        fp = tr.call("ascending_indices_forward-permuted", lambda: [fl(iu.ascending_indices_forward(np.array(x))) for x in perm])
        m = len(idx)
        rv = tr.call("ascending_indices_reversed", lambda: [il(iu.ascending_indices_reversed(k, n, p)) for k in range(m)])
        rn = tr.call("colex_ascending_indices_reverse", lambda: [il(iu.colex_ascending_indices_reverse(k, (p,) * n)) for k in range(m)])
        rd = tr.call("colex_descending_indices_reverse", lambda: [il(iu.colex_descending_indices_reverse(k, (p,) * n)) for k in range(m)])
        if not any(x is None for x in (fw, fn, fd, fp, rv, rn, rd)):
            tr.ev("rank", n=n, p=p, idx=[il(x) for x in idx], fw=fw, fn=fn, fd=fd, fp=fp, rv=rv, rn=rn, rd=rd)
    return f


def tensor_case(d, p, lead):
    def f(tr):
        idx = iu.ascending_indices((p,) * d)
        m = len(idx)
        arr = np.arange(1, 1 + m * int(np.prod(lead)), dtype=float).reshape(*lead, m) if lead else np.arange(1., m + 1)
        with tr.frozen("fill_tensor", arr):
            T = tr.call("fill_tensor", iu.fill_tensor, arr, (p,) * d)
        if T is not None:
            tr.ev("tensor", d=d, p=p, lead=list(lead), flat=il(T), ndim=T.ndim, shape=list(T.shape))
        seq = [int(x) for x in tr.rng.integers(0, 3, d + 1)]
        perms = tr.call("multiset_permutations", lambda: [list(x) for x in map(tuple, iu.multiset_permutations(list(seq)))])
        if perms is not None:
            tr.ev("multiset", seq=seq, perms=[il(x) for x in perms])
    return f


def lookup_case(k):
    def f(tr):
        rng = tr.rng
        for r in range(6):
            n, m = int(rng.integers(1, 9)), int(rng.integers(1, 9))
            x = rng.permutation(15)[:n]
            y = rng.integers(0, 15, m)
            with tr.frozen("array_match", x, y):
                res = tr.call("array_match", iu.array_match, x, y)
                msk = tr.call("array_match-mask", iu.array_match, x, y, True)
            if res is not None and msk is not None:
                tr.ev("match", x=il(x), y=il(y), res=il(res), mdata=il(msk.data), mmask=[bool(b) for b in np.ma.getmaskarray(msk)])
            a = rng.integers(0, 6, int(rng.integers(1, 12)))
            with tr.frozen("unique", a):
                u = tr.call("unique", iu.unique, a)
            if u is not None:
                tr.ev("unique", a=il(a), u=il(u[0]), inv=il(u[1]), ind=il(u[2]))
            shp = tuple(int(v) for v in rng.integers(1, 5, 2 if r % 2 else 3))
            A = (rng.random(shp) < 0.45).astype(int)
            nz = tr.call("nonzero", iu.nonzero, A)
            nt = tr.call("nonzero-tuple", iu.nonzero, A, True)
            if nz is not None and nt is not None:
                tr.ev("nonzero", shape=list(shp), flat=il(A), nz=[il(z) for z in nz], nt=[il(z) for z in nt])
            g = tr.call("flat_mgrid", lambda: iu.flat_mgrid(np.arange(3), np.arange(4), indexing="ij"))
            if g is not None:
                tr.ev("mgrid", i=il(g[0]), j=il(g[1]), a=3, b=4)
    return f


def cases(seed, tier):
    th = tier == "thorough"
    N = 12 if th else 8
    out = []
    for n in range(1, N + 1):
        for k in range(-n + 1, n):
            out.append((f"tri-{n}-{k}", lambda tr, n=n, k=k: [tri_case(n, None, k, o)(tr) for o in "FC"]))
        out.append((f"vech-{n}", vech_case(n)))
    for n in range(1, 6 + 2 * th):
        for m in range(1, 6 + 2 * th):
            if m != n:
                out.append((f"trirect-{n}-{m}", lambda tr, n=n, m=m: [tri_case(n, m, k, o)(tr) for o in "FC" for k in range(-n + 1, m)]))
    for n in (40, 100, 333, 1000, 5000) + ((10000, 20000, 32767) if th else ()):
        out.append((f"bigvech-{n}", big_vech(n)))
    for p, q, a, b in itertools.product((1, 2, 3), (1, 2, 4), (1, 2, 3), (1, 3)):
        out.append((f"kron-{p}{q}{a}{b}", kron_case(p, q, a, b)))
    shapes = [(3,), (2, 3), (3, 2), (1, 4), (4, 1), (2, 3, 4), (4, 3, 2), (3, 1, 2), (2, 2, 2, 3)] + ([(3, 4, 2, 3), (5, 4, 3)] if th else [])
    for s in shapes:
        out.append(("shape-" + "x".join(map(str, s)), shape_case(s)))
    for s in [(3,), (3, 3), (2, 3), (4, 2), (3, 3, 3), (2, 3, 4), (4, 3, 2), (2, 2, 2, 2), (3, 3, 3, 3)] + ([(5, 5, 5), (3, 4, 2, 3)] if th else []):
        out.append(("mono-" + "x".join(map(str, s)), mono_case(s)))
    for n, p in [(1, 4), (2, 2), (2, 5), (3, 3), (3, 4), (4, 3), (4, 4), (5, 2)] + ([(5, 4), (6, 3)] if th else []):
        out.append((f"rank-{n}-{p}", rank_case(n, p)))
    for d, p in [(1, 3), (2, 2), (2, 4), (3, 2), (3, 3), (4, 2)]:
        for lead in ((), (2,), (3, 2)):
            out.append((f"tensor-{d}-{p}-{len(lead)}", tensor_case(d, p, lead)))
    for k in range(60 if th else 20):
        out.append((f"lookup-{k}", lookup_case(k)))
    return out


if __name__ == "__main__":
    run(cases)
