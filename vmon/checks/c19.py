"""The comb filter."""
import torch

from .. import load, ops, util
from ..core import Skip
from ..ops import Profile

ID = "C19"
RULE = ("Cases draw delay (1 to several hundred), length (shorter than the delay, multiples and non-multiples), gain sharing, state and its rank, dtype, layout and unroll factor; output and final state are compared with the step-by-step "
        "recurrence, and with lti.lfilter with denominator [0,...,0,a]. Distinct: drawn configuration.")
ASSUMPTIONS = []


def setup():
    load.philtorch()


def main(rng, mon):
    c = ops.gen_comb(rng, Profile(long=0.01, modes=0.15, scale=0.1, layouts=0.15))
    if rng.random() < 0.3:
        util.case_kw(c)["unroll_factor"] = rng.choice([1, 2, 3, 5, 8, 100])
    ops.judge(mon, c)


def _direct(a, D, x, zi):
    past = torch.zeros(x.shape[0], D, dtype=x.dtype) if zi is None else zi.expand(x.shape[0], D).flip(1)
    buf = torch.cat([past, torch.zeros_like(x)], 1)
    for s in range(0, x.shape[1], D):
        e = min(s + D, x.shape[1])
        buf[:, D + s : D + e] = x[:, s:e] - a.reshape(-1, 1) * buf[:, s:e]
    return buf[:, D:], buf[:, -D:].flip(1)


def wide(rng, mon):
    from philtorch.lti import comb_filter

    D = rng.choice([1, 2, 3, 10, 17, 31, 64, 100, 127, 300, rng.randint(1, 400)])
    T = rng.choice([1, 2, D, D + 1, max(D - 1, 1), 2 * D, 2 * D + 1, 3 * D - 1, 7 * D + rng.randint(0, D), rng.randint(1, 1200)])
    B = rng.choice([1, 2, 3, 5, D if D < 20 else 4])
    dt = rng.choice([torch.float64, torch.float64, torch.complex128])
    a = ops.randn(rng, rng.choice([(), (1,), (B,)]), dt, 0.4)
    a = a / a.abs().clamp(min=1)
    x = ops.randn(rng, (B, T), dt)
    zi = ops.randn(rng, rng.choice([(D,), (B, D)]), dt) if rng.random() < 0.6 else None
    mon.case(D=D, T=T, B=B, a=tuple(a.shape), zi=None if zi is None else tuple(zi.shape), dtype=str(dt))
    got = ops.astuple(mon.call(comb_filter, a, D, x, zi=zi))
    w = _direct(a, D, x, zi)
    mon.ev("wide")
    if T < D:
        mon.ev("shorter-than-delay")
    ops.compare(mon, got, w if zi is not None else w[:1])


def lfilter(rng, mon):
    from philtorch.lti import comb_filter, lfilter as lf

    D, B, T = rng.randint(1, 9), rng.choice([1, 2, 3]), rng.randint(1, 60)
    a = ops.randn(rng, rng.choice([(), (B,)]), torch.float64, 0.4).clamp(-1, 1)
    x = ops.randn(rng, (B, T), torch.float64)
    mon.case(D=D, B=B, T=T, a=tuple(a.shape))
    y = mon.call(comb_filter, a, D, x)
    den = torch.cat([torch.zeros(a.shape + (D - 1,), dtype=x.dtype), a.unsqueeze(-1)], -1)
    w = mon.call(lf, torch.ones(1, dtype=x.dtype), den, x)
    mon.ev("vs-lfilter")
    ops.compare(mon, (y,), (w,))


STRATA = {"main": (main, 800, 10000), "wide": (wide, 600, 8000), "lfilter": (lfilter, 200, 2000)}
REQUIRED = {"compared": 1200, "wide": 400, "shorter-than-delay": 40, "vs-lfilter": 120}
