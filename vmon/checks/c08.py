"""LPV streaming: any chunking of signal and coefficients with carried state equals the one-shot run."""
from .. import load, ops
from ..core import Skip
from ..ops import Profile
from . import c02

ID = "C08"
RULE = c02.RULE
ASSUMPTIONS = ["state conventions as in vmon/ref.py", "chunk lengths that make a documented argument shape read two ways are not used (state_space only)"]


def setup():
    load.philtorch()


def _mk(gen, **kw):
    def f(rng, mon):
        c = gen(rng, Profile(long=0.01, modes=0.15, zi=True, layouts=0.05, maxT=100, **kw))
        if c.t.get("zi") is None or not c.stateful:
            raise Skip()
        allowed = None
        if c.op == "lpv.state_space":
            bad = {d for v in c.t.values() if v is not None for d in v.shape} - {c.info["T"]}
            allowed = (lambda n: n not in bad) if c.info["distinct"] else None
        c02.stream(rng, mon, c, allowed)

    return f


STRATA = {
    "fir": (_mk(ops.gen_lpv_fir), 350, 4000),
    "allpole": (_mk(ops.gen_lpv_allpole), 300, 4000),
    "lfilter": (_mk(ops.gen_lpv_lfilter, forms=["df2", "tdf2"]), 450, 5000),
    "state_space": (_mk(ops.gen_lpv_state_space), 450, 5000),
}
REQUIRED = {"histories": 300, "short-chunks": 300, "chunks": 2000}
