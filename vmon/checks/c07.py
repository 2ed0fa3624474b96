"""LPV state-space evaluation against the step-by-step reference."""
from .. import load, ops
from ..ops import Profile

ID = "C07"
RULE = ("Each case draws, for each of A, B, C, D, whether it is absent, shared, per row, per step or both; feature size, order, batch/length, dtype (double, complex, single, int64), unroll factor, output index, layout; "
        "non-trivial: output and final state compared element by element with the reference; distinct: by the drawn configuration.")
ASSUMPTIONS = ["argument shapes that the documentation lets read two ways are outside the domain"]


def setup():
    load.philtorch()


def _mk(gen, **kw):
    def f(rng, mon):
        c = gen(rng, Profile(**{"long": 0.01, **kw}, modes=0.15, scale=0.1, layouts=0.12))
        ops.judge(mon, c)
        if c.t.get("zi") is not None:
            mon.ev("with-state")

    return f


STRATA = {
    "state_space": (_mk(ops.gen_lpv_state_space), 1300, 18000),
    "recursion": (_mk(ops.gen_lpv_ssr, maxM=9), 600, 8000),
    "linear_recurrence": (_mk(ops.gen_lpv_linrec), 350, 5000),
    "long": (_mk(ops.gen_lpv_ssr, maxM=4, long=1.0, f32_ok=False), 20, 300),
}
REQUIRED = {"compared": 800, "with-state": 200, "nonzero-results": 500}
