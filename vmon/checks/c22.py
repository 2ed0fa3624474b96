"""The diagonalised state-space model equals the full one."""
import torch

from .. import load, ops, util
from ..core import Skip
from ..ops import Profile

ID = "C22"
RULE = ("Cases draw a diagonalisable system with separated poles and a well-conditioned eigenbasis, its specification (A; L with V, V^-1, both, or A), sharing, B/C/D/zi shapes, output index, unroll factor, dtype; outputs and final states are compared with the "
        "step-by-step recursion of the full matrix and with lti.state_space; a further stratum gives L alone (diagonal systems). Distinct: drawn configuration.")
ASSUMPTIONS = ["eigenvector condition number below 60, eigenvalue separation above 0.12: the tolerance 1e-4 (double) covers the conditioning"]


def setup():
    load.philtorch()


def main(rng, mon):
    c = ops.gen_diag_state_space(rng, Profile(long=0.01, modes=0.15, layouts=0.1))
    mon.ev("spec-" + str(c.info["spec"]))
    mon.case(**c.desc)
    got = mon.call(c.run)
    if not ops.compare(mon, tuple(g.real if c.info["real"] and not c.strict and g.is_complex() and g.is_floating_point() is False else g for g in got), c.want(), tol=c.tol, strict_dtype=c.strict):
        return
    if c.info["real"]:
        for g in got:
            if g.is_complex() and g.numel():
                mon.ev("complex-typed-real-results")
                if g.imag.abs().max() > 1e-4 * max(g.abs().max().item(), 1e-3) * (1 if g.dtype == torch.complex128 else 100):
                    mon.fail("imaginary", f"a real system returned imaginary parts up to {g.imag.abs().max().item():.3g}")


def full(rng, mon):
    """against lti.state_space itself"""
    from philtorch.lti import state_space

    c = ops.gen_diag_state_space(rng, Profile(modes=0.15, f32_ok=False))
    if c.info["spec"] != "A":
        raise Skip()
    kw = dict(util.case_kw(c))
    mon.case(**c.desc, sig=["full", c.desc])
    got = mon.call(c.run)
    t = c.t
    w = ops.astuple(mon.call(state_space, t["A"], t["x"], B=t["B"], C=t["C"], D=t["D"], zi=t["zi"], **kw))
    mon.ev("vs-full")
    ops.compare(mon, got, w, tol=c.tol, what="diagonalised vs full")


def lonly(rng, mon):
    from philtorch.lti import diag_state_space

    B, T, M = rng.choice([1, 2, 3, 5]), rng.choice([1, 2, 3, 7, 20, 41]), rng.choice([1, 2, 3, 4])
    if len({B, M, T}) < 3:
        raise Skip()
    dt = torch.complex128 if rng.random() < 0.6 else torch.float64
    ck = rng.random() < 0.5
    L = ops.randn(rng, (M,), dt, 0.4)
    L = L / L.abs().clamp(min=1) * 0.98
    x = ops.randn(rng, (B, T, M), dt)
    zi = ops.randn(rng, (B, M), dt) if rng.random() < 0.6 else None
    C = ops.randn(rng, rng.choice([(B, M), (M,)]), dt) if rng.random() < 0.5 else None
    kw = {}
    if C is None and rng.random() < 0.5:
        kw["out_idx"] = rng.randint(-M, M - 1)
    if rng.random() < 0.6:
        kw["unroll_factor"] = rng.choice([1, 2, 3, 5, 8, T, T + 1])
    mon.case(B=B, T=T, M=M, L=tuple(L.shape), C=None if C is None else tuple(C.shape), zi=zi is not None, dtype=str(dt), **kw)
    got = ops.astuple(mon.call(diag_state_space, x, L=L, C=C, zi=zi, **kw))
    h = torch.zeros(B, M, dtype=dt) if zi is None else zi
    ys = []
    for t in range(T):
        y = h if C is None else (C.expand(B, M) * h).sum(-1)
        ys.append(y[:, kw["out_idx"]] if "out_idx" in kw else y)
        h = L * h + x[:, t]
    mon.ev("diagonal-systems")
    ops.compare(mon, got, (torch.stack(ys, 1), h) if zi is not None else (torch.stack(ys, 1),), tol=100, strict_dtype=False)


STRATA = {"main": (main, 900, 10000), "full": (full, 500, 5000), "lonly": (lonly, 300, 3000)}
REQUIRED = {"compared": 900, "vs-full": 60, "diagonal-systems": 100, "spec-A": 100, "spec-LV": 40, "spec-LVinv": 40, "spec-LVVinv": 40, "spec-LA": 20}
