"""The compiled operators compute the exact recurrence."""
import torch

from .. import load, ops, util
from ..core import Skip
from ..ops import Profile

ID = "C09"
QUICK = 3
RULE = ("Each case draws operator, dtype (half, bfloat16, float, double, complex64/128, int64), shared/per-row and constant/per-step matrices, sizes incl. one row / one step, an unusual memory layout for each argument with probability 0.4, OpenMP thread count; "
        "non-trivial: result compared with the reference (bitwise for integer-valued data), inputs compared bitwise with their snapshot and the result checked to own fresh storage; distinct: by the drawn configuration.")
ASSUMPTIONS = ["half and bfloat16 results are compared with the reference evaluated in double within 2^-6 / 2^-3 of the largest state; integer-valued cases that fit exactly are compared exactly"]
NAMES = ["lti_recur", "lti_recur2", "lti_recurN", "recur2", "recurN"]


def setup():
    load.philtorch()


def check(rng, mon, c, threads):
    snaps = {k: util.snapshot(v) for k, v in c.t.items()}
    mon.case(**c.desc, layout=[str(v.stride()) + ("c" if v.is_conj() else "") + ("n" if v.is_neg() else "") for v in c.t.values()], threads=threads)
    torch.set_num_threads(threads)
    try:
        (y,) = mon.call(c.run)
    finally:
        torch.set_num_threads(1)
    x = c.t["x"]
    if y.shape != x.shape or y.dtype != x.dtype:
        mon.fail("shape", f"result {tuple(y.shape)} {y.dtype} for x {tuple(x.shape)} {x.dtype}")
        return None
    for k, v in c.t.items():
        if not util.same_snapshot(snaps[k], v):
            mon.fail("mutated", f"argument {k} was changed by the call")
            return None
        if v.numel() and y.numel() and y.untyped_storage().data_ptr() == v.untyped_storage().data_ptr():
            mon.fail("alias", f"the result shares storage with argument {k}")
            return None
    mon.ev("inputs-unchanged")
    return y


def main(rng, mon):
    c = ops.gen_native(rng, Profile(long=0.01, modes=0.15, scale=0.1, layouts=0.4, maxM=rng.choice([12, 12, 33])), which=rng.choice(NAMES))
    y = check(rng, mon, c, rng.choice([1, 1, 2, 3, 8]))
    if y is not None:
        ops.compare(mon, (y,), c.want(), tol=c.tol, exact=c.exact)


def low(rng, mon):
    """half and bfloat16"""
    dt = rng.choice([torch.float16, torch.bfloat16])
    integer = rng.random() < 0.6
    c = ops.gen_native(rng, Profile(modes=0.15, dtype=torch.float64, numbers="int" if integer else "float", maxT=30 if integer else 60, maxM=6), which=rng.choice(NAMES))
    c.t = {k: v.to(dt) for k, v in c.t.items()}
    ref = c.want(**{k: v.double() for k, v in c.t.items()})[0]
    c.desc["dtype"] = str(dt)
    c.t = {k: ops.relayout(v, rng, 0.3) for k, v in c.t.items()}
    y = check(rng, mon, c, rng.choice([1, 2, 8]))
    if y is None:
        return
    mon.ev("low-precision")
    lim = ref.abs().max().item()
    eps = 2.0**-6 if dt == torch.float16 else 2.0**-3
    if integer and lim <= (2048 if dt == torch.float16 else 256):
        eps = 0.0
        mon.ev("low-precision-exact")
    err = (y.double() - ref).abs().max().item()
    if not err <= eps * max(lim, 1e-3):
        mon.fail("value", f"{dt}: error {err:.3g}, largest state {lim:.3g}")


def integer(rng, mon):
    c = ops.gen_native(rng, Profile(modes=0.15, dtype=torch.int64, layouts=0.3, maxM=9, maxT=60), which=rng.choice(NAMES[1:]))
    y = check(rng, mon, c, rng.choice([1, 4]))
    if y is not None:
        mon.ev("int64")
        ops.compare(mon, (y,), c.want())


def wrap(rng, mon):
    """int64 arithmetic is exact modulo 2^64 / special values propagate only to their own row"""
    c = ops.gen_native(rng, Profile(modes=0.15, dtype=torch.float64, numbers="float", maxT=40, maxB=9), which=rng.choice(NAMES))
    B, T = c.info["B"], c.info["T"]
    x = c.t["x"].clone()
    r, t = rng.randrange(B), rng.randrange(T)
    x[r, t] = rng.choice([float("nan"), float("inf"), -float("inf")])
    c.t["x"] = x
    y = check(rng, mon, c, rng.choice([1, 3]))
    if y is None:
        return
    w = c.want()[0]
    keep = torch.ones(B, dtype=torch.bool)
    keep[r] = False
    mon.ev("special-values")
    ops.compare(mon, (y[keep], y[r, :t]), (w[keep], w[r, :t]), what="rows/steps not reached by the special value", batch_dim=False)
    if torch.isfinite(y[r, t].reshape(-1)[0]).item() and torch.isfinite(y[r, t]).all():
        mon.fail("value", "a non-finite input sample vanished")


def large(rng, mon):
    name = rng.choice(NAMES)
    c = ops.gen_native(rng, Profile(modes=0.15, dtype=torch.float64, numbers="float", B=rng.choice([1, 2, 7, 200, 1031]), T=rng.choice([1, 3, 500, 3001]) , maxM=4), which=name)
    if c.info["B"] * c.info["T"] > 700000:
        raise Skip()
    y = check(rng, mon, c, rng.choice([1, 2, 8]))
    if y is not None:
        mon.ev("large")
        ops.compare(mon, (y,), c.want(), tol=c.tol)


STRATA = {
    "main": (main, 1500, 20000),
    "low": (low, 400, 5000),
    "int64": (integer, 250, 3000),
    "special": (wrap, 150, 2000),
    "large": (large, 60, 600),
}
REQUIRED = {"compared": 1000, "low-precision": 200, "low-precision-exact": 40, "int64": 150, "special-values": 60, "large": 20, "inputs-unchanged": 1500}
