"""P28: data simulated from a structural equation model follow the model they are simulated from."""
import numpy as np
from vlib import run, num, ints
import sem_lib as sl
from pystatsm.pysem2.sem import SEM
from pystatsm.pysem2.model_simulator import SimulatedSEM

SHARED = [True, False, True, False, False, False]


class Recorded(SimulatedSEM):
    """Keeps the placeholder data the simulator builds its model from."""

    def generate_data(self, n_obs):
        self.placeholder = super().generate_data(n_obs)
        return self.placeholder


def s_(l, r, p, k="free", v="", lab=""):
    return dict(l=l, r=r, p=p, k=k, v=str(v), lab=lab)


def session(st, G, lo=2000, hi=2600):
    def go(tr):
        rng = tr.rng
        s = st(rng) if callable(st) else st
        text = sl.render(s, rng, plain=True)
        seed = int(rng.integers(1 << 30))
        sim = tr.call("SimulatedSEM", Recorded, text, G, lo, hi, np.random.default_rng(seed))
        if sim is None:
            return
        d = tr.call("simulate", sim.simulate)
        if d is None:
            return
        m = sim.model_spec
        first = getattr(sim, "placeholder", None)
        if first is None:
            return
        O = sl.describe(tr, m, s, first[[c for c in first.columns if c != "group"]], first["group"].to_numpy(), G, SHARED if G > 1 else [True] * 6, sl.OPT)
        t = m.transform_free_to_theta(m.free)
        Y = [d.loc[d["group"] == g, O] for g in range(G)]
        kinds = []
        ft = m.free_df.drop_duplicates("label").set_index("label").loc[list(m.theta_names)]
        for r in ft.to_dict(orient="records"):
            kinds.append("loading" if r["rel"] == "=~" else "variance" if r["rel"] == "~~" and r["lhs"] == r["rhs"] else "other")
        mats = [int(x) for x in ft["mat"]]
        tr.ev("simulated", t=num(t), lo=lo, hi=hi, sizes=ints(sim.n_obs), rows=[len(y) for y in Y], total=len(d), columns=sorted(map(str, d.columns)), Y=[num(y.to_numpy()) for y in Y], kinds=kinds, mats=mats)
        # the same generator gives the same data, another one does not
        d2 = tr.call("SimulatedSEM", lambda: SimulatedSEM(text, G, lo, hi, np.random.default_rng(seed)).simulate())
        d3 = tr.call("SimulatedSEM", lambda: SimulatedSEM(text, G, lo, hi, np.random.default_rng(seed + 1)).simulate())
        if d2 is not None and d3 is not None:
            same = d2.shape == d.shape
            tr.ev("again", shape=same, a=num(d[O].to_numpy()[::97]), b=num(d2[O].to_numpy()[::97] if same else np.zeros_like(d[O].to_numpy()[::97])), other=bool(d3.shape == d.shape and np.allclose(d3[O].to_numpy(), d[O].to_numpy())))
        # another draw from the same object is new data from new parameters
        e = tr.call("simulate", sim.simulate)
        if e is not None:
            tr.ev("fresh", same=bool(np.allclose(e[O].to_numpy(), d[O].to_numpy())), rows=[int((e["group"] == g).sum()) for g in range(G)], sizes=ints(sim.n_obs))
            t = m.transform_free_to_theta(m.free)
            Y = [e.loc[e["group"] == g, O] for g in range(G)]
            tr.ev("simulated", t=num(t), lo=lo, hi=hi, sizes=ints(sim.n_obs), rows=[len(y) for y in Y], total=len(e), columns=sorted(map(str, e.columns)), Y=[num(y.to_numpy()) for y in Y], kinds=kinds, mats=mats)
    return go


def cases(seed, tier):
    C = []
    path = [s_("y1", "~", "z1"), s_("y1", "~", "z2"), s_("y2", "~", "y1"), s_("y2", "~", "z2")]
    cfa = [s_("f", "=~", f"x{i}") for i in range(1, 4)] + [s_("g", "=~", f"x{i}") for i in range(4, 7)]
    full = cfa + [s_("g", "~", "f"), s_("y1", "~", "g"), s_("y1", "~", "z1")]
    lab = [s_("f", "=~", "x1"), s_("f", "=~", "x2", "label", lab="a"), s_("f", "=~", "x3", "label", lab="a"), s_("g", "=~", "x4"), s_("g", "=~", "x5"), s_("g", "=~", "x6", "label", lab="a"), s_("g", "~", "f")]
    rc = cfa + [s_("x1", "~~", "x4"), s_("g", "~~", "f")]
    for name, st in (("path", path), ("cfa", cfa), ("full", full), ("label", lab), ("residual", rc)):
        for G in (1, 3):
            C.append((f"{name}-{G}g", session(st, G)))
    C.append(("full-5g", session(full, 5)))
    for i in range(4 if tier == "quick" else 30):
        C.append((f"rand-{i}", session(lambda r: sl.gen(r), 1 + i % 3)))
    return C


if __name__ == "__main__":
    run(cases)
