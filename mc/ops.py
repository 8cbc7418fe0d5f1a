"""The public operations of trikit as transitions of a small world of live objects."""
import numpy as np
import pandas as pd
import trikit
import mk
from cmp import canon


class World:
    """A triangle, arguments a caller may reuse, and the results obtained so far."""
    def __init__(self, recs, n=None):
        self.data = mk.tabular(recs, "index")
        self.tri = trikit.totri(self.data)
        m = self.tri.shape[1]
        lab = list(self.tri.columns)
        self.sel_list = [1.5 - 0.1 * k for k in range(m - 1)]
        self.sel_array = np.array(self.sel_list)
        self.sel_series = pd.Series(self.sel_list, index=lab[:-1], name="mine")
        self.q_list = [0.9, 0.5, 0.75]
        self.q_array = np.array([0.25, 0.95, 0.5])
        self.rs = np.random.RandomState(11)
        self.base = self.mack = self.boot = self.pboot = self.incr = None

    def get(self, what):
        if getattr(self, what) is None:
            t = self.tri
            setattr(self, what, {
                "base": lambda: t.base_cl(tail=1.05), "mack": lambda: t.mack_cl(q=self.q_list),
                "boot": lambda: t.boot_cl(sims=4, random_state=3, q=self.q_list),
                "pboot": lambda: t.boot_cl(sims=4, random_state=3, parametric=True),
                "incr": lambda: t.to_incr()}[what]())
        return getattr(self, what)


def closing(f):
    def g(w):
        import matplotlib.pyplot as plt
        try:
            f(w)
        finally:
            plt.close("all")
    return g


def _sorted(df):
    return df


# name, operation on a world, needs a run-off triangle, is an exhibit
OPS = [
    ("latest", lambda w: w.tri.latest, 0, 0),
    ("latest_by_origin", lambda w: w.tri.latest_by_origin, 0, 0),
    ("latest_by_devp", lambda w: w.tri.latest_by_devp, 0, 0),
    ("devp", lambda w: w.tri.devp, 0, 0),
    ("origins", lambda w: w.tri.origins, 0, 0),
    ("maturity", lambda w: w.tri.maturity, 0, 0),
    ("triind", lambda w: w.tri.triind, 0, 0),
    ("rlvi", lambda w: w.tri.rlvi, 0, 0),
    ("clvi", lambda w: w.tri.clvi, 0, 0),
    ("nbr_cells", lambda w: w.tri.nbr_cells, 0, 0),
    ("a2a", lambda w: w.tri.a2a, 0, 0),
    ("a2aind", lambda w: w.tri.a2aind, 0, 0),
    ("a2a_lvi", lambda w: w.tri.a2a_lvi, 0, 0),
    ("a2a_avgs", lambda w: w.tri.a2a_avgs(), 0, 0),
    ("ranked_a2a", lambda w: w.tri.ranked_a2a, 1, 0),
    ("a2a_assignment", lambda w: w.tri.a2a_assignment, 0, 0),
    ("diagonal", lambda w: w.tri.diagonal(), 1, 0),
    ("diagonal-1", lambda w: w.tri.diagonal(-1), 1, 0),
    ("to_tbl", lambda w: w.tri.to_tbl(), 0, 0),
    ("to_tbl-all", lambda w: w.tri.to_tbl(dropna=False), 0, 0),
    ("to_incr", lambda w: w.tri.to_incr(), 0, 0),
    ("incr.to_cum", lambda w: w.get("incr").to_cum(), 0, 0),
    ("incr.latest", lambda w: w.get("incr").latest, 0, 0),
    ("incr.to_tbl", lambda w: w.get("incr").to_tbl(), 0, 0),
    ("str", lambda w: str(w.tri), 0, 0),
    ("totri", lambda w: trikit.totri(w.data), 0, 0),
    ("totri-incr", lambda w: trikit.totri(w.data, tri_type="incr"), 0, 0),
    ("totri-fromcum", lambda w: trikit.totri(w.data, data_format="cum", tri_type="incr"), 0, 0),
    ("totri-table", lambda w: trikit.totri(pd.DataFrame(w.tri), data_shape="triangle", data_format="cum"), 0, 0),
    ("totri-oftri", lambda w: trikit.totri(w.tri, data_shape="triangle", data_format="cum", tri_type="incr"), 0, 0),
    ("base", lambda w: w.tri.base_cl(tail=1.05), 0, 0),
    ("base-medial", lambda w: w.tri.base_cl("medial-2", tail=0.98), 0, 0),
    ("base-list", lambda w: w.tri.base_cl(w.sel_list, tail=1.1), 0, 0),
    ("base-array", lambda w: w.tri.base_cl(w.sel_array), 0, 0),
    ("base-series", lambda w: w.tri.base_cl(w.sel_series, tail=1.2), 0, 0),
    ("base.str", lambda w: str(w.get("base")), 0, 0),
    ("mack", lambda w: w.tri.mack_cl(q=w.q_list), 1, 0),
    ("mack0-norm", lambda w: w.tri.mack_cl(alpha=0, dist="norm", q=w.q_array, two_sided=True), 1, 0),
    ("mack2", lambda w: w.tri.mack_cl(alpha=2), 1, 0),
    ("mack.get_quantiles", lambda w: w.get("mack").get_quantiles(w.q_list), 1, 0),
    ("mack.get_quantiles-array", lambda w: w.get("mack").get_quantiles(w.q_array), 1, 0),
    ("mack.devp_corr_test", lambda w: w.get("mack").devp_corr_test(), 1, 0),
    ("mack.cy_effects_test", lambda w: w.get("mack").cy_effects_test(), 1, 0),
    ("mack.str", lambda w: str(w.get("mack")), 1, 0),
    ("boot", lambda w: w.tri.boot_cl(sims=4, random_state=3, q=w.q_list), 1, 0),
    ("boot-parametric", lambda w: w.tri.boot_cl(sims=4, random_state=3, parametric=True, q=w.q_array, two_sided=True), 1, 0),
    ("boot.get_quantiles", lambda w: w.get("boot").get_quantiles(w.q_list, lb=0), 1, 0),
    ("boot.get_quantiles-lb", lambda w: w.get("boot").get_quantiles(w.q_array, lb=5e3), 1, 0),
    ("boot.get_quantiles-array", lambda w: w.get("boot").get_quantiles(w.q_array, interpolation="lower"), 1, 0),
    ("boot.origin_dist", lambda w: w.get("boot").origin_dist.iloc[:, :].copy(), 1, 0),
    ("boot.residuals_detail", lambda w: w.get("boot").residuals_detail, 1, 0),
    ("boot.str", lambda w: str(w.get("boot")), 1, 0),
    ("plot", closing(lambda w: w.tri.plot()), 0, 1),
    ("plot-faceted", closing(lambda w: w.tri.plot(display="faceted")), 0, 1),
    ("base.plot", closing(lambda w: w.get("base").plot()), 0, 1),
    ("mack.plot", closing(lambda w: w.get("mack").plot()), 1, 1),
    ("mack.diagnostics", closing(lambda w: w.get("mack").diagnostics()), 1, 1),
    ("boot.plot", closing(lambda w: w.get("boot").plot()), 1, 1),
    ("boot.hist", closing(lambda w: w.get("boot").hist()), 1, 1),
]
NAMES = [o[0] for o in OPS]
VIEWS = NAMES[:NAMES.index("totri")]
BY = {o[0]: o for o in OPS}
TEXT = [o[0] for o in OPS if not o[3]]
EXHIBITS = [o[0] for o in OPS if o[3]]


def snap(x):
    """Canonical public content of any object."""
    if isinstance(x, pd.DataFrame):
        return (type(x).__name__, canon(pd.DataFrame(x)), tuple(str(d) for d in x.dtypes), str(x.index.name), str(x.columns.name))
    if isinstance(x, pd.Series):
        if x.size and hasattr(x.iloc[-1], "ppf"):
            return ("rvs", canon(list(x.index)), tuple(canon([r.mean(), r.std(), r.ppf(.3)]) for r in x))
        return ("s", canon(x), str(x.dtype), str(x.index.name))
    if isinstance(x, np.random.RandomState):
        return ("rs",)
    if type(x).__name__.endswith("Result"):
        return (type(x).__name__,) + tuple(
            (k, snap(v)) for k, v in sorted(vars(x).items()) if not k.startswith("_") and k != "tri" and not callable(v))
    if isinstance(x, np.ndarray):
        return ("a", canon(x.tolist()), str(x.dtype))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(snap(v) for v in x)
    return canon(x)


def outcome(name, w):
    """Result of an operation, or the kind of exception it raised."""
    np.random.seed(17)
    return BY[name][1](w)
