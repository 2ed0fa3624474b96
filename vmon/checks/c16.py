"""filtfilt against scipy and against the definition."""
import numpy as np
import torch
from scipy import signal

from .. import load, ops, util
from ..core import Skip
from ..ops import Profile

ID = "C16"
RULE = ("Each case draws filter orders, shared/per-row coefficients, rank, padding mode and length, form, backend and signal length (down to one sample more than the padding); the output is compared element by element with forward-backward "
        "filtering of the padded signal by the reference recurrence, and in one stratum with scipy.signal.filtfilt; the rejection stratum passes padding that does not fit. Distinct: drawn configuration.")
ASSUMPTIONS = ["filters are stable with poles inside radius 0.9"]


def setup():
    load.philtorch()


def main(rng, mon):
    ops.judge(mon, ops.gen_filtfilt(rng, Profile(modes=0.15, layouts=0.1)))


def scipy(rng, mon):
    c = ops.gen_filtfilt(rng, Profile(modes=0.15, dtype=torch.float64))
    mon.case(**c.desc)
    (y,) = mon.call(c.run)
    b, a, x = (c.t[k].numpy() for k in "bax")
    x2 = np.atleast_2d(x)
    n = x2.shape[0]
    b, a = np.broadcast_to(np.atleast_2d(b), (n, b.shape[-1])), np.broadcast_to(np.atleast_2d(a), (n, a.shape[-1]))
    pm = {"replicate": "constant", "default": "constant", "reflect": "even", None: None}[c.info["padmode"]]
    w = []
    for i in range(n):
        w.append(signal.filtfilt(b[i], np.r_[1.0, a[i]], x2[i], padtype=pm, padlen=0 if pm is None else c.info["edge"]))
    w = torch.from_numpy(np.stack(w) if x.ndim == 2 else w[0].copy())
    mon.ev("scipy-compared")
    ops.compare(mon, (y,), (w,), tol=c.tol)


def reject(rng, mon):
    from philtorch.lti import filtfilt

    c = ops.gen_filtfilt(rng, Profile(modes=0.15, dtype=torch.float64))
    b, a = c.t["b"], c.t["a"]
    nt = max(b.shape[-1], a.shape[-1] + 1)
    padlen = rng.choice([None, 1, 5, 30])
    edge = 3 * nt if padlen is None else padlen
    T = rng.randint(1, edge)
    x = ops.randn(rng, (c.info["B"], T), torch.float64)
    kw = dict(padlen=padlen)
    if rng.random() < 0.7:
        kw["padmode"] = rng.choice(["replicate", "reflect"])
    mon.case(b=tuple(b.shape), a=tuple(a.shape), T=T, **kw)
    try:
        y = filtfilt(b, a, x, **kw)
    except Exception:
        mon.ev("rejected")
        return
    mon.fail("accepted", f"{edge} samples of padding accepted for a signal of {T}; returned {tuple(y.shape)}")


def symmetry(rng, mon):
    """linear; the effect of an impulse far from the edges is symmetric around it (zero phase)"""
    from philtorch.lti import filtfilt

    M = rng.choice([1, 2, 3])
    b, a = ops.randn(rng, (M + 1,), torch.float64), ops.stable_a(rng, (), M, torch.float64, rmax=0.7, mode="pole")
    h = 60
    x = torch.zeros(2 * h + 1, dtype=torch.float64)
    x[h] = rng.uniform(-3, 3)
    form = rng.choice(["tdf2", "df2", "df1", "tdf1"])
    mon.case(M=M, form=form, b=b.tolist())
    y = mon.call(filtfilt, b, a, x, form=form)
    if y.shape != x.shape:
        return mon.fail("shape", f"{tuple(y.shape)} returned for {tuple(x.shape)}")
    mon.ev("symmetry")
    err = (y - y.flip(0)).abs().max().item()
    if not err <= 1e-5 * max(y.abs().max().item(), 1e-3):
        mon.fail("phase", f"response to a central impulse is not symmetric: {err:.3g} of {y.abs().max().item():.3g}")


STRATA = {"main": (main, 600, 8000), "scipy": (scipy, 500, 6000), "reject": (reject, 100, 600), "symmetry": (symmetry, 60, 600)}
REQUIRED = {"compared": 800, "scipy-compared": 400, "rejected": 80, "symmetry": 40}
