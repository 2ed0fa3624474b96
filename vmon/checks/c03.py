"""LTI state-space evaluation against the step-by-step reference."""
from .. import load, ops
from ..ops import Profile

ID = "C03"
RULE = ("Each case draws B/C/D/zi shapes and presence, feature size, A sharing, order, batch/length (coincidences forced in a quarter of the cases), dtype (double, complex, single, int64), unroll factor, "
        "output index, memory layout; non-trivial: output and final state compared element by element with the reference; distinct: by the drawn configuration.")
ASSUMPTIONS = ["argument shapes that the documentation lets read two ways (e.g. a (B,M) matrix next to a batch of vectors with B equal to another dimension) are outside the domain"]


def setup():
    load.philtorch()


def _mk(gen, **kw):
    def f(rng, mon):
        c = gen(rng, Profile(**{"long": 0.01, **kw}, modes=0.15, scale=0.1, layouts=0.15))
        ops.judge(mon, c)
        if c.t.get("zi") is not None:
            mon.ev("with-state")

    return f


STRATA = {
    "state_space": (_mk(ops.gen_lti_state_space), 1500, 20000),
    "state_space_big": (_mk(ops.gen_lti_state_space, maxM=16, long=0.3, f32_ok=False), 60, 1000),
    "recursion": (_mk(ops.gen_lti_ssr, maxM=12), 600, 8000),
    "linear_recurrence": (_mk(ops.gen_lti_linrec), 400, 5000),
}
REQUIRED = {"compared": 800, "with-state": 200, "nonzero-results": 500}
