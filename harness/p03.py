"""P03: compiled sparse kernels and the sparse Cholesky factor object (call histories generated by TLC)."""
import os
import numpy as np
import scipy as sp
import scipy.sparse
from vlib import run
from pystatsm.utilities import python_wrappers as pw
from pystatsm.utilities import linalg_operations as lo


def rsp(rng, r, c, dens, cplx=False):
    M = np.round(rng.normal(size=(r, c)), 5) * (rng.uniform(size=(r, c)) < dens)
    if cplx:
        M = M + 1j * np.round(rng.normal(size=(r, c)), 5) * (M != 0)
    if not M.any():
        M[rng.integers(r), rng.integers(c)] = 1.5
    return sp.sparse.csc_matrix(M)


def ok(C):
    C = C.copy()
    return bool(C.indptr[0] == 0 and np.all(np.diff(C.indptr) >= 0) and C.indptr[-1] == len(C.data) == len(C.indices) and
                (len(C.indices) == 0 or (C.indices.min() >= 0 and C.indices.max() < C.shape[0])))


def safe(C):
    """An ill-formed compressed matrix must not be expanded."""
    return C if ok(C) else float("nan")


def pattern(M):
    P = sp.sparse.csc_matrix((np.asarray(M) != 0).astype(float))
    P.sort_indices()
    return P


def add_case(r, c, dens):
    def f(tr):
        rng = tr.rng
        A, B = rsp(rng, r, c, dens), rsp(rng, r, c, dens)
        C = pattern((abs(A) + abs(B)).toarray())
        for al, be in ((1.0, 1.0), (2.5, -0.75), (0.0, 1.5), (1.25, 0.0)):  # the same buffer, written again and again
            with tr.frozen("cs_add_inplace", A, B):
                R = tr.call("cs_add_inplace", pw.cs_add_inplace, A, B, C, al, be)
            if R is None:
                return
            tr.ev("add", A=A, B=B, C=C, alpha=al, beta=be, same=R is C)
            A.data[:] = np.round(rng.normal(size=len(A.data)), 5)
        # a wider buffer pattern than needed
        F = sp.sparse.csc_matrix(np.ones((r, c)))
        R = tr.call("cs_add_inplace-wide", pw.cs_add_inplace, A, B, F)
        if R is not None:
            tr.ev("add", A=A, B=B, C=safe(R), alpha=1.0, beta=1.0, same=R is F)
        Az, Bz = rsp(rng, r, c, dens, True), rsp(rng, r, c, dens, True)
        Cz = pattern((abs(Az) + abs(Bz)).toarray()).astype(complex)
        al, be = 0.5 - 1j, 2 + 0.25j
        R = tr.call("cs_add_inplace_complex", pw.cs_add_inplace_complex, Az, Bz, Cz, al, be)
        if R is not None:
            g = lambda M: (M.toarray().real, M.toarray().imag)
            tr.ev("addc", Ar=g(Az)[0], Ai=g(Az)[1], Br=g(Bz)[0], Bi=g(Bz)[1], Cr=g(R)[0], Ci=g(R)[1], ar=al.real, ai=al.imag, br=be.real, bi=be.imag)
    return f


def mul_case(r, k, c, dens):
    def f(tr):
        rng = tr.rng
        A, B = rsp(rng, r, k, dens), rsp(rng, k, c, dens)
        C = pattern(abs(A).toarray() @ abs(B).toarray())
        for _ in range(3 if C.nnz else 0):
            with tr.frozen("cs_matmul_inplace", A, B):
                R = tr.call("cs_matmul_inplace", pw.cs_matmul_inplace, A, B, C)
            if R is None:
                return
            tr.ev("mul", how="sparse", A=A, B=B, C=safe(R), sorted=bool(ok(R) and all(np.all(np.diff(R.indices[a:b]) > 0) for a, b in zip(R.indptr[:-1], R.indptr[1:]))))
            A.data[:] = np.round(rng.normal(size=len(A.data)), 5)
        Az, Bz = rsp(rng, r, k, dens, True), rsp(rng, k, c, dens, True)
        Cz = pattern(abs(Az).toarray() @ abs(Bz).toarray()).astype(complex)
        R = tr.call("cs_matmul_inplace_complex", pw.cs_matmul_inplace_complex, Az, Bz, Cz) if Cz.nnz else None
        if R is not None:
            g = lambda M: (M.toarray().real, M.toarray().imag)
            tr.ev("mulc", Ar=g(Az)[0], Ai=g(Az)[1], Br=g(Bz)[0], Bi=g(Bz)[1], Cr=g(R)[0], Ci=g(R)[1])
        D, E = A.toarray(order="C"), np.ascontiguousarray(B.toarray())
        for how, fn in (("dense", pw.naive_matmul_inplace), ("dense2", pw.naive_matmul_inplace2)):
            with tr.frozen(how, D, E):
                v = tr.call(how, fn, D, E)
            if v is not None:
                tr.ev("mul", how=how, A=D, B=E, C=v, sorted=True)
            buf = np.round(rng.normal(size=(r, c)), 3)
            v = tr.call(how, fn, D, E, np.zeros((r, c)))
            if v is not None:
                tr.ev("mul", how=how + "-out", A=D, B=E, C=v, sorted=True)
    return f


def kron_case(ar, ac, br, bc, dens):
    def f(tr):
        rng = tr.rng
        As, Bs = rsp(rng, ar, ac, dens), rsp(rng, br, bc, dens)
        Ad, Bd = np.asfortranarray(np.round(rng.normal(size=(ar, ac)), 5)), np.asfortranarray(np.round(rng.normal(size=(br, bc)), 5))
        with tr.frozen("kron", As, Bs, Ad, Bd):
            outs = {}
            for how, fn, A, B in (("sparse-sparse", pw.sparse_kron, As, Bs), ("dense-sparse", pw.dense_sparse_kron, Ad, Bs), ("dense-sparse2", pw.ds_kron, Ad, Bs),
                                  ("sparse-dense", pw.sparse_dense_kron, As, Bd)):
                R = tr.call(how, fn, A, B)
                if R is None:
                    continue
                outs[how] = R
                tr.ev("kron", how=how, A=A, B=B, C=safe(R), ok=ok(R))
                out = sp.sparse.csc_matrix(R.copy())
                out.data[:], out.indices[:] = 9.0, 0
                R2 = tr.call(how + "-out", fn, A, B, out=out)
                if R2 is not None:
                    tr.ev("kron", how=how + "-out", A=A, B=B, C=safe(R2), ok=ok(R2) and R2 is out)
                parts = (np.full(R.nnz, 9.0), np.zeros(R.nnz, dtype=np.int32), np.zeros(R.shape[1] + 1, dtype=np.int32))
                R3 = tr.call(how + "-parts", fn, A, B, out=parts)
                if R3 is not None:
                    C3 = sp.sparse.csc_matrix(tuple(R3), shape=R.shape)
                    tr.ev("kron", how=how + "-parts", A=A, B=B, C=safe(C3), ok=ok(C3))
        # refresh the values of an existing product for new factors with the same pattern
        As2, Bs2, Ad2, Bd2 = As.copy(), Bs.copy(), np.asfortranarray(Ad + 1.5), np.asfortranarray(Bd * 2 - 1)
        As2.data = np.round(rng.normal(size=As.nnz), 5)
        Bs2.data = np.round(rng.normal(size=Bs.nnz), 5)
        for how, fn, A, B, k in (("sparse-sparse-inplace", pw.sparse_kron_inplace, As2, Bs2, "sparse-sparse"), ("dense-sparse-inplace", pw.ds_kron_inplace, Ad2, Bs2, "dense-sparse2"),
                                 ("sparse-dense-inplace", pw.sparse_dense_kron_inplace, As2, Bd2, "sparse-dense")):
            if k in outs:
                R = tr.call(how, fn, A, B, outs[k])
                if R is not None:
                    tr.ev("kron", how=how, A=A, B=B, C=safe(R), ok=ok(R))
                if how.startswith(("dense", "sparse-dense")):
                    buf = np.zeros(outs[k].nnz)
                    R = tr.call(how + "-array", fn, A, B, buf)
                    if R is not None:
                        C3 = outs[k].copy()
                        C3.data = np.asarray(R)
                        tr.ev("kron", how=how + "-array", A=A, B=B, C=safe(C3), ok=ok(C3))
        for m in (1, 3):
            R = tr.call("id_sp_kron", pw.id_sp_kron, m, Bs)
            if R is not None:
                tr.ev("idkron", how="new", m=m, B=Bs, C=safe(R), ok=ok(R))
                R = tr.call("id_sp_kron_inplace", pw.id_sp_kron_inplace, m, Bs2, R)
                tr.ev("idkron", how="inplace", m=m, B=Bs2, C=safe(R), ok=ok(R))
    return f


def coo_case(r, c, nz):
    def f(tr):
        rng = tr.rng
        i, j, x = rng.integers(0, r, nz), rng.integers(0, c, nz), np.round(rng.normal(size=nz), 5)
        with tr.frozen("coo", i, j, x):
            C = tr.call("coo_to_csc", pw.coo_to_csc, i, j, x, (r, c))
            P = tr.call("coo_to_csc-parts", pw.coo_to_csc, i, j, x, (r, c), return_array=False)
        if C is not None and P is not None:
            C2 = sp.sparse.csc_matrix((P[4], P[3], P[2]), shape=P[0])
            tr.ev("coo", r=r, c=c, i=[int(v) for v in i], j=[int(v) for v in j], x=x, C=C.toarray(), C2=safe(C2), nnz=int(C.indptr[-1]))
        n, reps = max(nz, 1), int(rng.integers(1, 5))
        x, y = np.round(rng.normal(size=n), 5), np.round(rng.normal(size=n), 5)
        with tr.frozen("rep", x, y):
            z = pw.tile_1d_complex(x + 1j * y, reps)
            tr.ev("rep", x=x, y=y, r=reps, tile=pw.tile_1d(x, reps), tile2=pw.tile_1d(x, reps, out=np.full(n * reps, 7.0)), rep=pw.repeat_1d(x, reps),
                  rep2=pw.repeat_1d(x, reps, out=np.full(n * reps, 7.0)), tcr=z.real, tci=z.imag)
        a, b = rsp(rng, n, 1, 0.6), rsp(rng, n, 1, 0.6)
        B = rsp(rng, r, c, 0.5)
        K = rsp(rng, c, c, 0.5)
        with tr.frozen("dot", a, b, B, K):
            tr.ev("dot", a=a, b=b, c=1.25, d=pw.sparse_dot(a, b), d2=pw.sparse_dot(a, b, 1.25), B=B, K=K, t=pw.sparse_pattern_trace(B, K), t2=pw.sparse_pattern_trace(B, K, 1.25))
        for ng, nv in ((3, 1), (4, 2), (2, 3)):
            L = sp.sparse.csr_matrix(rsp(rng, ng * nv, c + 2, 0.5))
            L.sort_indices()
            with tr.frozen("block", L):
                tr.ev("block", ng=ng, nv=nv, L=L, o1=pw.block_diag_self_dot(L, ng, nv), o2=pw.block_diag_self_dot(L, ng, nv, out=np.full((nv, nv), 5.0)))
    return f


def spd(rng, n, pat):
    M = np.tril(np.round(rng.normal(size=(n, n)), 4)) * pat
    A = M @ M.T
    return sp.sparse.csc_matrix(np.where(pat_sym(pat), A, 0) + np.eye(n) * (0.5 + np.abs(A).sum(1).max()))


def pat_sym(pat):
    return (pat @ pat.T) != 0


def factor_case(kind, n, hist, make):
    def f(tr):
        rng = tr.rng
        pat = np.tril((rng.uniform(size=(n, n)) < 0.35)) | np.eye(n, dtype=bool)
        mats = {m: spd(rng, n, pat.astype(float)) for m in ("m0", "m1", "m2")}
        b = np.round(rng.normal(size=(n, 2)), 5)
        F = tr.call("cholesky", make, mats["m0"])
        if F is None:
            return
        cur = mats["m0"]
        tr.meta["kind"] = kind
        perm = [int(v) for v in F.P()]
        tr.ev("factor", A=cur, perm=perm)
        for op in hist:
            perm = [int(v) for v in F.P()]
            if op in mats:
                with tr.frozen("cholesky_inplace", mats[op]):
                    r = tr.call("cholesky_inplace", F.cholesky_inplace, mats[op])
                cur = mats[op]
                tr.ev("factor", A=cur, perm=[int(v) for v in F.P()])
                continue
            w = 0.0
            with tr.frozen(op, b):
                v = tr.call(op, {"L": lambda: F.L().toarray(), "D": lambda: F.D(), "solve_A": lambda: F.solve_A(b),
                                 "solve_L_ll": lambda: F.solve_L(b, use_LDLt_decomposition=False), "solve_L_ldl": lambda: F.solve_L(b),
                                 "solve_Lt_ll": lambda: F.solve_Lt(b, use_LDLt_decomposition=False), "solve_Lt_ldl": lambda: F.solve_Lt(b),
                                 "slogdet": lambda: np.array([float(x) for x in F.slogdet()]), "inv": lambda: F.inv().toarray(), "perm": lambda: F.apply_P(b)}[op])
            if v is None:
                return
            if op == "perm":
                w = F.apply_Pt(F.apply_P(b))
            tr.ev("obs", call=op, v=v, w=w, b=b, perm=perm, unit=kind == "cholmod")
    return f


def build_case(n):
    """cholesky / cholesky_AAt / analyze + refactor, with the diagonal shift, sparse right-hand sides."""
    def f(tr):
        rng = tr.rng
        pat = (np.tril((rng.uniform(size=(n, n)) < 0.35)) | np.eye(n, dtype=bool)).astype(float)
        A = spd(rng, n, pat)
        B = rsp(rng, n, n + 2, 0.5)
        b = np.round(rng.normal(size=(n, 2)), 5)
        for how, fn, M in (("cholesky", lambda: lo.cholesky(A), A), ("beta", lambda: lo.cholesky(A, beta=0.75), A + 0.75 * sp.sparse.eye(n)),
                           ("AAt", lambda: lo.cholesky_AAt(B, beta=2.0), B @ B.T + 2.0 * sp.sparse.eye(n)),
                           ("analyze", lambda: lo.analyze(A).cholesky_inplace(A), A),
                           ("csr", lambda: lo.cholesky(A.tocsr()), A), ("order", lambda: lo.cholesky(A, ordering_method="natural"), A),
                           ("dense", lambda: lo._DenseCholFactor(A), A), ("denseAAt", lambda: lo._DenseCholFactor(B, beta=2.0, AAt=True), B @ B.T + 2.0 * sp.sparse.eye(n))):
            with tr.frozen(how, A, B):
                F = tr.call(how, fn)
            if F is None:
                continue
            unit = not how.startswith("dense")
            perm = [int(v) for v in F.P()]
            tr.ev("factor", A=M.toarray(), perm=perm)
            tr.ev("obs", call="L", v=F.L().toarray(), w=0, b=b, perm=perm, unit=unit)
            tr.ev("obs", call="solve_A", v=F.solve_A(b), w=0, b=b, perm=perm, unit=unit)
            bs = sp.sparse.csc_matrix(b * (np.abs(b) > 0.3))
            v = tr.call(how + "-sparse-rhs", F.solve_A, bs if not unit else sp.sparse.csc_array(bs))
            if v is not None:
                tr.ev("obs", call="solve_A", v=v, w=0, b=bs, perm=perm, unit=unit)
            tr.ev("obs", call="slogdet", v=np.array([float(x) for x in F.slogdet()]), w=0, b=b, perm=perm, unit=unit)
            tr.ev("obs", call="D", v=F.D(), w=0, b=b, perm=perm, unit=unit)
    return f


def cases(seed, tier):
    cs = []
    big = tier != "quick"
    for r, c in [(1, 1), (3, 3), (4, 6), (6, 4)] + ([(10, 7), (1, 8), (8, 1)] if big else []):
        for d in (0.0, 0.4, 1.0):
            cs.append((f"add-{r}-{c}-{d}", add_case(r, c, d)))
    for r, k, c in [(1, 1, 1), (3, 3, 3), (4, 2, 5), (2, 6, 3)] + ([(7, 9, 8), (1, 7, 1)] if big else []):
        for d in (0.0, 0.4, 1.0):
            cs.append((f"mul-{r}-{k}-{c}-{d}", mul_case(r, k, c, d)))
    for s in [(1, 1, 1, 1), (2, 2, 3, 3), (2, 3, 4, 2), (3, 1, 1, 4), (1, 4, 3, 2)] + ([(5, 4, 3, 6), (6, 6, 2, 2)] if big else []):
        for d in (0.0, 0.4, 1.0):
            cs.append(("kron-" + "-".join(map(str, s)) + f"-{d}", kron_case(*s, d)))
    for r, c, nz in [(1, 1, 1), (4, 3, 1), (3, 5, 9), (6, 6, 20), (2, 7, 40)] + ([(20, 15, 150)] if big else []):
        cs.append((f"coo-{r}-{c}-{nz}", coo_case(r, c, nz)))
    for n in (1, 2, 5, 9) + ((14, 25) if big else ()):
        cs.append((f"build-{n}", build_case(n)))
    lines = open(os.environ["GENFILE"]).read().split("\n")
    for k, ln in enumerate(lines):
        h = [x.strip().strip('\\"') for x in ln.strip('"').replace("<<", "").replace(">>", "").split(",")]
        cs.append(("factor-" + "-".join(h), factor_case("cholmod", 6, h, lo.cholesky)))
        if k % 7 == 0:
            cs.append(("dense-" + "-".join(h), factor_case("dense", 4, h, lo._DenseCholFactor)))
    return cs


run(cases)
