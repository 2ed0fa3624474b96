"""LPV FIR and all-pole filters against the sample-by-sample reference."""
from .. import load, ops
from ..ops import Profile

ID = "C05"
RULE = ("Each case draws direct/transposed, order (0..16), batch/length incl. signals shorter than the filter, dtype, integer-valued or random coefficient trajectories, optional state, memory layout; "
        "non-trivial: output (and final state) compared element by element; distinct: by the drawn configuration.")
ASSUMPTIONS = ["reference recurrences in vmon/ref.py"]


def setup():
    load.philtorch()


def _mk(gen, **kw):
    def f(rng, mon):
        c = gen(rng, Profile(**{"long": 0.01, **kw}, modes=0.15, scale=0.1, layouts=0.15))
        ops.judge(mon, c)
        if c.t.get("zi") is not None:
            mon.ev("with-state")
        if c.info["T"] <= c.info["K"]:
            mon.ev("signal-not-longer-than-filter")

    return f


STRATA = {
    "fir": (_mk(ops.gen_lpv_fir, maxM=16), 1200, 15000),
    "allpole": (_mk(ops.gen_lpv_allpole, maxM=16), 900, 12000),
    "fir_tiny": (_mk(ops.gen_lpv_fir, maxM=6, maxT=8, maxB=4), 500, 6000),
    "allpole_tiny": (_mk(ops.gen_lpv_allpole, maxM=6, maxT=8, maxB=4), 400, 5000),
    "long": (_mk(ops.gen_lpv_fir, maxM=16, long=1.0), 20, 300),
}
REQUIRED = {"compared": 1000, "with-state": 300, "signal-not-longer-than-filter": 100}
