"""Initial-state helpers."""
import numpy as np
import torch
from scipy import signal

from .. import load, ops, util
from ..core import Skip
from ..ops import Profile

ID = "C17"
RULE = ("Cases draw orders (numerator shorter, equal, longer), shared/per-row coefficients, past data with or without inputs. Values are compared with the closed form and scipy; and behaviourally: the returned state is fed to lfilter and the step "
        "response (zi) or the continuation of a previously filtered signal (lfiltic) is compared. Distinct: drawn configuration.")
ASSUMPTIONS = []


def setup():
    load.philtorch()


def zi_value(rng, mon):
    ops.judge(mon, ops.gen_lfilter_zi(rng, Profile(modes=0.15)))


def ic_value(rng, mon):
    ops.judge(mon, ops.gen_lfiltic(rng, Profile(modes=0.15, layouts=0.1)))


def zi_step(rng, mon):
    from philtorch.lti import lfilter, lfilter_zi

    dt = rng.choice([torch.float64, torch.float64, torch.complex128])
    Ma = rng.choice([1, 2, 3, 4, 5, 8])
    Mb = rng.choice([0, 1, Ma, max(Ma - 1, 0), Ma + 1, Ma + 3])
    B = rng.choice([1, 2, 3, 5])
    tr = rng.random() < 0.6
    bk, ak = rng.choice([((), ()), ((B,), ()), ((), (B,)), ((B,), (B,))])
    b, a = ops.randn(rng, bk + (Mb + 1,), dt), ops.stable_a(rng, ak, Ma, dt, rmax=0.9)
    if not tr and Mb > Ma:
        Mb = Ma
        b = b[..., : Mb + 1]
    mon.case(Ma=Ma, Mb=Mb, b=tuple(b.shape), a=tuple(a.shape), transpose=tr, dtype=str(dt))
    zi = mon.call(lfilter_zi, a, b, transpose=tr)
    g = b.sum(-1) / (1 + a.sum(-1))
    lvl = rng.choice([1.0, 1.0, -2.5])
    n = rng.randint(1, 30)
    x = torch.full((B, n), lvl, dtype=dt)
    y, zf = mon.call(lfilter, b, a, x, zi=zi * lvl, form="tdf2" if tr else "df2")
    g = g.reshape(-1, 1).expand(B, n) * lvl
    mon.ev("steady-output")
    ops.compare(mon, (y, zf), (g, (zi * lvl).expand(B, -1)), tol=1e4, what="step response")


def ic_continue(rng, mon):
    from philtorch.lti import lfilter, lfiltic

    dt = rng.choice([torch.float64, torch.float64, torch.complex128])
    Ma = rng.choice([1, 2, 3, 4, 5])
    Mb = rng.choice([0, 1, Ma, max(Ma - 1, 0), Ma + 1, Ma + 3])
    B = rng.choice([1, 2, 3, 5])
    bk, ak = rng.choice([((), ()), ((B,), ()), ((), (B,)), ((B,), (B,))])
    b, a = ops.randn(rng, bk + (Mb + 1,), dt), ops.stable_a(rng, ak, Ma, dt)
    n, k = rng.randint(max(Ma, Mb, 1), 40), rng.randint(1, 20)
    x = ops.randn(rng, (B, n + k), dt)
    mon.case(Ma=Ma, Mb=Mb, b=tuple(b.shape), a=tuple(a.shape), n=n, k=k, dtype=str(dt))
    y = mon.call(lfilter, b, a, x)
    st = mon.call(lfiltic, b, a, y[:, n - Ma : n].flip(1), x[:, n - Mb : n].flip(1))
    y2, _ = mon.call(lfilter, b, a, x[:, n:], zi=st, form="tdf2")
    mon.ev("continued")
    ops.compare(mon, (y2,), (y[:, n:],), tol=100, what="continuation")


def scipy(rng, mon):
    from philtorch.lti import lfiltic, lfilter_zi

    Ma = rng.choice([1, 2, 3, 4, 6])
    Mb = rng.choice([0, 1, Ma, max(Ma - 1, 0), Ma + 1, Ma + 2])
    b, a = ops.randn(rng, (Mb + 1,), torch.float64), ops.stable_a(rng, (), Ma, torch.float64, rmax=0.9)
    y = ops.randn(rng, (Ma,), torch.float64)
    x = ops.randn(rng, (Mb,), torch.float64) if rng.random() < 0.7 else None
    mon.case(Ma=Ma, Mb=Mb, x=x is not None, sig=[Ma, Mb, x is None, b[0].item()])
    a1 = np.r_[1.0, a.numpy()]
    z = mon.call(lfiltic, b, a, y, x)
    zz = mon.call(lfilter_zi, a, b)
    w = signal.lfiltic(b.numpy(), a1, y.numpy(), None if x is None else x.numpy())
    wz = signal.lfilter_zi(b.numpy(), a1)
    mon.ev("scipy-compared")
    ops.compare(mon, (z, zz), (torch.from_numpy(w.copy()), torch.from_numpy(wz.copy())), tol=1e3)


STRATA = {"zi_value": (zi_value, 700, 6000), "ic_value": (ic_value, 700, 6000), "zi_step": (zi_step, 500, 5000), "ic_continue": (ic_continue, 500, 5000), "scipy": (scipy, 400, 4000)}
REQUIRED = {"compared": 2000, "steady-output": 300, "continued": 300, "scipy-compared": 250}
