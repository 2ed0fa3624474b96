"""LPV lfilter: every structure, sample by sample."""
import torch

from .. import load, ops
from ..ops import Profile

ID = "C06"
RULE = ("Each case draws form, backend, orders, shared/per-row trajectories, ranks, batch/length coincidences, state, unroll factor, dtype, layout; "
        "non-trivial: output/final state compared with the sample-by-sample structure; the 'constant' stratum also compares with lti.lfilter, 'backends' runs both backends on the same arguments.")
ASSUMPTIONS = ["reference structures in vmon/ref.py"]


def setup():
    load.philtorch()


def _mk(**kw):
    def f(rng, mon):
        c = ops.gen_lpv_lfilter(rng, Profile(long=0.01, modes=0.15, scale=0.1, layouts=0.12, **kw))
        ops.judge(mon, c)
        mon.ev(f"{c.info['backend']}-{c.info['form']}")

    return f


def constant(rng, mon):
    from philtorch.lpv import lfilter as lpvf
    from philtorch.lti import lfilter as ltif

    dtype = rng.choice([torch.float64, torch.complex128])
    B, T, Ma, Mb = rng.randint(1, 6), rng.randint(1, 50), rng.randint(1, 5), rng.randint(0, 6)
    K = max(Ma, Mb)
    backend = rng.choice(["ssm", "torchlpc"])
    form = rng.choice(["df1", "df2", "tdf1"] + (["tdf2"] if backend == "ssm" else []))
    bk, ak = rng.random() < 0.5, rng.random() < 0.5
    b = ops.randn(rng, ((B,) if bk else ()) + (Mb + 1,), dtype)
    a = ops.stable_a(rng, (B,) if ak else (), Ma, dtype)
    x = ops.randn(rng, (B, T), dtype)
    zi = ops.randn(rng, (B, K), dtype) if form in ("df2", "tdf2") and rng.random() < 0.5 else None
    mon.case(form=form, backend=backend, B=B, T=T, Ma=Ma, Mb=Mb, bk=bk, ak=ak, zi=zi is not None, dtype=dtype)
    bt = b.unsqueeze(-2).expand(b.shape[:-1] + (T, Mb + 1))
    at = a.unsqueeze(-2).expand(a.shape[:-1] + (T, Ma))
    g = ops.astuple(mon.call(lpvf, bt, at, x, zi=zi, form=form, backend=backend))
    w = ops.astuple(mon.call(ltif, b, a, x, zi=zi, form=form))
    mon.ev("constant-compared")
    ops.compare(mon, g, w, tol=10, what="constant coefficients vs lti.lfilter")


def backends(rng, mon):
    from philtorch.lpv import lfilter as lpvf

    c = ops.gen_lpv_lfilter(rng, Profile(modes=0.15, forms=["df1", "df2", "tdf1"], backends=["ssm"], unroll="default", maxM=5))
    form = c.info["form"]
    t = c.t
    mon.case(**c.desc, both=True)
    g = [ops.astuple(mon.call(lpvf, t["b"], t["a"], t["x"], zi=t["zi"], form=form, backend=k)) for k in ("ssm", "torchlpc")]
    mon.ev("backends-compared")
    ops.compare(mon, g[1], g[0], tol=10, exact=c.exact, what="torchlpc vs ssm backend", kind="backend")


STRATA = {
    "lfilter": (_mk(), 1500, 18000),
    "tiny": (_mk(maxT=7, maxB=4, maxM=4), 500, 6000),
    "constant": (constant, 250, 2500),
    "backends": (backends, 300, 3000),
}
REQUIRED = {"compared": 1000, "constant-compared": 100, "backends-compared": 100, "ssm-tdf2": 50, "ssm-tdf1": 50, "ssm-df1": 50, "ssm-df2": 50, "torchlpc-df1": 20, "torchlpc-df2": 20, "torchlpc-tdf1": 20}
