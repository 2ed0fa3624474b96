"""LTI filtering solves the linear difference equation."""
import torch

from .. import load, ops
from ..ops import Profile

ID = "C01"
RULE = ("Each case draws function, form, backend, orders, batch/length (coincidences forced in a quarter of the cases), ranks, dtype, unroll factor, memory layout; "
        "non-trivial: the code's result was compared element by element with the step-by-step reference; distinct: by the drawn configuration.")
ASSUMPTIONS = ["reference recurrences in vmon/ref.py, cross-checked against scipy.signal.lfilter in a separate stratum", "tolerance 1e-9 (double), 3e-4 (single) relative to the row maximum"]


def setup():
    load.philtorch()


def lfilter(rng, mon):
    c = ops.gen_lti_lfilter(rng, Profile(modes=0.15, scale=0.1, zi=False if rng.random() < 0.8 else None, layouts=0.15, maxM=12))
    ops.judge(mon, c)


def lfilter_diag(rng, mon):
    c = ops.gen_lti_lfilter(rng, Profile(modes=0.15, zi=False, backends=["diag_ssm"]))
    ops.judge(mon, c)


def fir(rng, mon):
    c = ops.gen_lti_fir(rng, Profile(modes=0.15, scale=0.1, zi=False, layouts=0.15, maxM=16))
    ops.judge(mon, c)


def long(rng, mon):
    """long signals and wide batches against scipy"""
    import numpy as np
    from scipy import signal
    from philtorch.lti import lfilter as lf

    c = ops.gen_lti_lfilter(rng, Profile(modes=0.15, zi=False, long=1.0, dtype=torch.float64, numbers="float", backends=["ssm"], unroll=rng.choice(["default", "any"])))
    mon.case(**c.desc)
    (y,) = mon.call(c.run)
    b, a, x = (c.t[k].numpy() for k in "bax")
    x2 = np.atleast_2d(x)
    B = x2.shape[0]
    b2, a2 = np.broadcast_to(np.atleast_2d(b), (B, b.shape[-1])), np.broadcast_to(np.atleast_2d(a), (B, a.shape[-1]))
    w = np.stack([signal.lfilter(b2[i], np.r_[1.0, a2[i]], x2[i]) for i in range(B)])
    w = torch.from_numpy(w if x.ndim == 2 else w[0])
    mon.ev("scipy-compared")
    ops.compare(mon, (y,), (w,), tol=100)


def scipy_small(rng, mon):
    import numpy as np
    from scipy import signal

    c = ops.gen_lti_lfilter(rng, Profile(modes=0.15, zi=False, numbers="float", dtype=rng.choice([torch.float64, torch.complex128]), coincide=0.4))
    mon.case(**c.desc)
    (y,) = mon.call(c.run)
    b, a, x = (c.t[k].resolve_conj().numpy() for k in "bax")
    x2 = np.atleast_2d(x)
    B = x2.shape[0]
    b2, a2 = np.broadcast_to(np.atleast_2d(b), (B, b.shape[-1])), np.broadcast_to(np.atleast_2d(a), (B, a.shape[-1]))
    w = np.stack([signal.lfilter(b2[i], np.r_[1.0, a2[i]], x2[i]) for i in range(B)])
    w = torch.from_numpy(w if x.ndim == 2 else w[0])
    mon.ev("scipy-compared")
    ops.compare(mon, (y,), (w,), tol=c.tol)


KNOWN_UNDELAYED = "diag_ssm-undelayed-split-zero-last-coefficient"


def zero_last(rng, mon):
    """zero-padded denominators (a pole at the origin), numerators longer than the denominator, every way of splitting them"""
    from philtorch.lti import lfilter as lf

    Ma = rng.randint(1, 4)
    Mb = Ma + rng.randint(-1, 4)
    B, T, form = rng.randint(1, 4), rng.randint(1, 40), rng.choice(["df2", "tdf2"])
    split = rng.choice([None, True, False]) if Mb > Ma else None
    dtype = rng.choice([torch.float64, torch.complex128])
    b = ops.randn(rng, (Mb + 1,), dtype)
    a = torch.zeros(1, dtype=dtype)
    if Ma > 1:
        a = torch.cat([ops.stable_a(rng, (), Ma - 1, dtype, mode="pole", sep=0.25), a])
    x = ops.randn(rng, (B, T), dtype)
    kw = {} if split is None else {"delayed_form": split}
    mon.case(form=form, Ma=Ma, Mb=Mb, B=B, T=T, dtype=str(dtype), split=split)
    y = mon.call(lf, b, a, x, form=form, backend="diag_ssm", **kw)
    mon.ev("zero-last-coefficient")
    if split is False and not torch.isfinite(torch.view_as_real(y) if y.is_complex() else y).all():
        return mon.known_finding(KNOWN_UNDELAYED, f"lfilter(backend='diag_ssm', form={form}, delayed_form=False) with a numerator of {Mb + 1} taps and a zero last denominator coefficient returned non-finite samples")
    w, _ = ops.ref.lfilter(b.expand(B, T, -1), a.expand(B, T, -1), x, torch.zeros(B, max(Ma, Mb), dtype=dtype), form)
    ops.compare(mon, (y,), (w,), tol=1e4)


STRATA = {
    "zero_last": (zero_last, 150, 1500),
    "lfilter": (lfilter, 1500, 15000),
    "lfilter_diag": (lfilter_diag, 300, 3000),
    "fir": (fir, 500, 5000),
    "long": (long, 60, 600),
    "scipy_small": (scipy_small, 400, 4000),
}
REQUIRED = {"compared": 200, "scipy-compared": 20, "nonzero-results": 100}
