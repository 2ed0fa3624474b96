"""Cubic spline coefficients and upsampling."""
import numpy as np
import torch
from scipy import signal

from .. import load, ops, util
from ..core import Skip
from ..ops import Profile

ID = "C18"
QUICK = 4
RULE = ("Cases draw batch, length, upsampling factor, boundary convention, parallel or cascaded form, dtype, unroll factor and layout. Values are compared with a direct solution of the banded interpolation system and the B-spline basis, with "
        "scipy.signal.cspline1d / cspline1d_eval, and every m-th output sample with the input. Distinct: drawn configuration.")
ASSUMPTIONS = ["the causal start-up sum is truncated at the signal length, an error of 0.268^(L-1): lengths from 40 are held to 1e-7, shorter ones to that bound"]


def setup():
    load.philtorch()


def coeff(rng, mon):
    ops.judge(mon, ops.gen_cspline(rng, Profile(modes=0.15, layouts=0.1)))


def up(rng, mon):
    ops.judge(mon, ops.gen_cubic_spline(rng, Profile(modes=0.15, layouts=0.1)))


def passes(rng, mon):
    c = ops.gen_cubic_spline(rng, Profile(modes=0.15, dtype=torch.float64))
    m, L = c.info["m"], c.info["T"]
    mon.case(**c.desc, sig=[c.desc, "pass"])
    (y,) = mon.call(c.run)
    x = c.t["x"]
    if tuple(y.shape) != (x.shape[0], (L - 1) * m + 1):
        return mon.fail("shape", f"{tuple(y.shape)} returned for {tuple(x.shape)}, factor {m}")
    mon.ev("interpolates")
    ops.compare(mon, (y[:, ::m],), (x,), tol=100, what=f"every {m}-th sample")


def short(rng, mon):
    from philtorch.lti.interp import cspline, cubic_spline

    L, B, m = rng.randint(4, 39), rng.choice([1, 2, 4]), rng.choice([1, 2, 3, 5, 7, 10, 49])
    sp, pf = rng.random() < 0.5, rng.random() < 0.5
    x = ops.randn(rng, (B, L), torch.float64)
    mon.case(L=L, B=B, m=m, scipy_padding=sp, parallel_form=pf)
    c = mon.call(cspline, x, parallel_form=pf, scipy_padding=sp)
    y = mon.call(cubic_spline, x, m, parallel_form=pf, scipy_padding=sp)
    w = ops.spline_coeff(x, sp)
    if y.shape != (B, (L - 1) * m + 1):
        return mon.fail("shape", f"{tuple(y.shape)} returned for L={L}, m={m}")
    tol = max(8 * 0.268 ** (L - 1), 1e-9) / 1e-9
    mon.ev("short")
    ops.compare(mon, (c, y[:, ::m]), (w, x), tol=tol, what="short signal", batch_dim=False)


def scipy(rng, mon):
    from philtorch.lti.interp import cspline, cubic_spline

    L, m = rng.choice([40, 41, 50, 64, 99, 150]), rng.choice([1, 2, 3, 4, 6, 9, 17, 49])
    B = rng.choice([1, 2, 4])
    pf = rng.random() < 0.5
    x = ops.randn(rng, (B, L), torch.float64)
    mon.case(L=L, B=B, m=m, parallel_form=pf)
    c = mon.call(cspline, x, parallel_form=pf, scipy_padding=True)
    y = mon.call(cubic_spline, x, m, parallel_form=pf, scipy_padding=True)
    w = np.stack([signal.cspline1d(v) for v in x.numpy()])
    ok = ops.compare(mon, (c,), (torch.from_numpy(w),), tol=100, what="cspline1d")
    t = np.arange((L - 1) * m + 1) / m
    e = torch.from_numpy(np.stack([signal.cspline1d_eval(v, t) for v in w]))
    mon.ev("scipy-compared")
    if ok:
        # scipy evaluates with whole-sample mirroring at the very edge
        lo, hi = m, (L - 2) * m + 1
        ops.compare(mon, (y[:, lo:hi],), (e[:, lo:hi],), tol=100, what="cspline1d_eval (interior)")


def options(rng, mon):
    """unroll factor of the pure path, unsupported options"""
    from philtorch.lti.interp import cspline

    x = ops.randn(rng, (2, 45), torch.float64)
    mon.case(sig=[x[0, 0].item()], what="lamb")
    try:
        cspline(x, lamb=0.3)
    except Exception:
        mon.ev("rejected")
        return
    mon.fail("accepted", "lamb=0.3 was silently ignored")


STRATA = {"coeff": (coeff, 200, 2500), "up": (up, 250, 3000), "passes": (passes, 200, 2500), "short": (short, 200, 2500), "scipy": (scipy, 150, 2000), "options": (options, 3, 10)}
REQUIRED = {"compared": 500, "interpolates": 120, "short": 120, "scipy-compared": 100}
