"""Driver library: runs the real pystatsm code and records sessions as ndjson traces for TLC."""
import argparse, json, os, signal, sys, time, traceback, warnings, zlib
warnings.filterwarnings("ignore")
import numpy as np
np.seterr(all="ignore")


def _r(v):
    v = float(v)
    if v != v:
        return "nan"
    if v in (float("inf"), float("-inf")):
        return "inf" if v > 0 else "-inf"
    return repr(v)


def num(a):
    """Encode a scalar / vector / matrix; vectors become n x 1 columns; nd arrays are flattened to (d0, rest)."""
    if hasattr(a, "toarray"):
        a = a.toarray()
    a = np.asarray(a)
    if a.dtype == object or a.dtype == bool:
        a = a.astype(float)
    if np.iscomplexobj(a):
        a = a.astype(float) if np.all(a.imag == 0) else np.full(a.shape, np.nan)
    if a.ndim == 0:
        return _r(a)
    if a.ndim == 1:
        r, c = a.shape[0], 1
    elif a.ndim == 2:
        r, c = a.shape
    else:
        r, c = a.shape[0], int(np.prod(a.shape[1:]))
    return f"{r}x{c}|" + " ".join(map(_r, a.ravel()))


def ints(a):
    if hasattr(a, "toarray"):
        a = a.toarray()
    a = np.asarray(a)
    return [int(x) for x in a.ravel()] if a.ndim <= 1 else [ints(x) for x in a]


def jsonable(v):
    if isinstance(v, dict):
        return {str(k): jsonable(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [jsonable(x) for x in v]
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, (int, np.integer)):
        v = int(v)
        return v if abs(v) < 2**31 else _r(v)
    if isinstance(v, str) or v is None:
        return "none" if v is None else v
    return num(v)


class Timeout(Exception):
    pass


class Tr:
    def __init__(self, tid, rng):
        self.tid, self.rng, self.events, self.meta = tid, rng, [], {}

    def ev(self, op, **kw):
        self.events.append({"op": op, **{k: jsonable(v) for k, v in kw.items()}})

    def call(self, at, fn, *a, **k):
        """Run fn; on an exception record a 'raised' event and return None."""
        try:
            return fn(*a, **k)
        except Timeout:
            raise
        except Exception as e:  # the specification has the verdict
            self.events.append({"op": "raised", "at": at, "exc": f"{type(e).__name__}: {e}"[:300],
                                "tb": trace_text()})
            return None

    def expect_error(self, at, fn, *a, **k):
        try:
            fn(*a, **k)
            err = "none"
        except Timeout:
            raise
        except Exception as e:
            err = type(e).__name__
        return err

    def frozen(self, at, *arrays):
        return Frozen(self, at, arrays)


def snapshot(o):
    import pandas as pd
    import scipy.sparse as sps
    if isinstance(o, pd.DataFrame):
        return ("df", o.copy(deep=True))
    if isinstance(o, pd.Series):
        return ("df", o.copy(deep=True))
    if sps.issparse(o):
        return ("sp", o.copy())
    if isinstance(o, np.ndarray):
        return ("nd", o.copy())
    if isinstance(o, (list, tuple)):
        return ("seq", [snapshot(x) for x in o])
    if isinstance(o, dict):
        return ("dict", {k: snapshot(v) for k, v in o.items()})
    return ("any", o)


def same(o, s):
    k, v = s
    if k == "df":
        return type(o) is type(v) and o.equals(v) and (list(o.columns) == list(v.columns) if hasattr(v, "columns") else True) and o.index.equals(v.index)
    if k == "sp":
        return o.shape == v.shape and abs(o - v).sum() == 0
    if k == "nd":
        return o.shape == v.shape and o.dtype == v.dtype and (np.array_equal(o, v, equal_nan=True) if o.dtype.kind in "fc" else np.array_equal(o, v))
    if k == "seq":
        return len(o) == len(v) and all(same(x, y) for x, y in zip(o, v))
    if k == "dict":
        return list(o) == list(v) and all(same(o[x], v[x]) for x in v)
    return True


class Frozen:
    def __init__(self, tr, at, objs):
        self.tr, self.at, self.objs, self.snap = tr, at, objs, [snapshot(o) for o in objs]

    def check(self):
        self.tr.ev("inputs", at=self.at, same=bool(all(same(o, s) for o, s in zip(self.objs, self.snap))))

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        self.check()
        return False


def trace_text():
    try:
        return traceback.format_exc()[-900:]
    except Exception:
        return "no traceback text"


per_case = []          # further generators to seed before each case (numba's own, for one)


def run(cases_fn, time_limit=240):
    """cases_fn(seed, tier) -> list of (id, fn(tr)); executes this shard and writes the traces."""
    ap = argparse.ArgumentParser()
    ap.add_argument("--out", required=True)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--shard", default="0/1")
    ap.add_argument("--only", default=None)
    a = ap.parse_args()
    k, n = map(int, a.shard.split("/"))
    cases = cases_fn(a.seed, a.tier)
    ids = [c[0] for c in cases]
    assert len(set(ids)) == len(ids), "duplicate case ids"

    def onalarm(sig, frm):
        raise Timeout()
    signal.signal(signal.SIGALRM, onalarm)
    with open(a.out, "w") as f:
        for j, (cid, fn) in enumerate(cases):
            if a.only:
                if a.only not in cid:
                    continue
            elif j % n != k:
                continue
            seed = zlib.crc32(f"{a.seed}:{cid}".encode())
            tr = Tr(cid, np.random.default_rng(seed))
            np.random.seed(seed % 2**32)
            for seed_more in per_case:
                seed_more(seed % 2**32)
            t0 = time.time()
            signal.alarm(time_limit)
            try:
                fn(tr)
            except Timeout:
                tr.events.append({"op": "raised", "at": "timeout", "exc": f"no result in {time_limit} s"})
            except Exception as e:
                tr.events.append({"op": "raised", "at": "session", "exc": f"{type(e).__name__}: {e}"[:300], "tb": trace_text()})
            signal.alarm(0)
            f.write(json.dumps({"id": cid, **tr.meta, "ev": tr.events}) + "\n")
            if os.environ.get("VLIB_TIMES"):
                print(f"{time.time()-t0:7.2f} {cid} {len(tr.events)}", file=sys.stderr)
