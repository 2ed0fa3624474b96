"""Polynomial division."""
import torch

from .. import load, ops, util
from ..core import Skip
from ..ops import Profile

ID = "C21"
RULE = ("Cases draw both degrees (also 0, equal, divisor longer), batching and broadcasting, dtype and layout; q and r are compared with schoolbook division, and u = q*v + r is evaluated by convolution; gradients with autograd of the schoolbook "
        "division; the use in lfilter is compared with the direct recurrence. Distinct: drawn configuration.")
ASSUMPTIONS = ["leading divisor coefficients are at least 0.8 in magnitude"]


def setup():
    load.philtorch()


def value(rng, mon):
    c = ops.gen_polydiv(rng, Profile(modes=0.15, layouts=0.15))
    u, v = c.t["u"], c.t["v"]
    mon.case(**c.desc)
    got = mon.call(c.run)
    if len(got) != 2:
        return mon.fail("arity", f"{len(got)} results")
    q, r = got
    m, n = c.info["m"], c.info["n"]
    if q.shape[-1] != max(m - n + 1, 0) or r.shape[-1] != (n if m >= n else m + 1):
        return mon.fail("shape", f"q {tuple(q.shape)}, r {tuple(r.shape)} for u {tuple(u.shape)}, v {tuple(v.shape)}")
    if not ops.compare(mon, got, c.want(), tol=c.tol, batch_dim=False):
        return
    if m < n:
        mon.ev("short-dividend")
    # identity u = q v + r
    lead = torch.broadcast_shapes(u.shape[:-1], v.shape[:-1])
    size = max(m, n + q.shape[-1] - 1 if q.shape[-1] else 0) + 1
    acc = torch.zeros(lead + (size,), dtype=torch.complex128)
    for i in range(q.shape[-1]):
        for j in range(n + 1):
            acc[..., size - 1 - ((q.shape[-1] - 1 - i) + (n - j))] += q[..., i] * v[..., j]
    acc[..., size - r.shape[-1] :] += r
    w = torch.zeros(lead + (size,), dtype=torch.complex128)
    w[..., size - m - 1 :] += u
    mon.ev("identity")
    ops.compare(mon, (acc,), (w,), tol=c.tol, dtype=u.dtype, what="q*v + r", batch_dim=False)


def grad(rng, mon):
    from . import c12

    p = dict(c12.SMALL)
    p["dtype"] = torch.complex128 if rng.random() < 0.3 else torch.float64
    c = ops.gen_polydiv(rng, Profile(**p))
    c12.grad_case(rng, mon, c)


def in_lfilter(rng, mon):
    c = ops.gen_lti_lfilter(rng, Profile(backends=["diag_ssm"], zi=False, dtype=rng.choice([torch.float64, torch.complex128]), maxT=60))
    if c.desc["Mb"] <= c.desc["Ma"]:
        raise Skip()
    mon.ev("long-numerators")
    ops.judge(mon, c)


STRATA = {"value": (value, 1500, 20000), "grad": (grad, 300, 4000), "in_lfilter": (in_lfilter, 250, 3000)}
REQUIRED = {"identity": 900, "short-dividend": 100, "gradients-compared": 200, "long-numerators": 60}
