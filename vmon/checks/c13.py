"""Forward-mode and second-order derivatives."""
import torch
import torch.autograd.forward_ad as fwAD

from .. import load, ops, util
from ..core import Skip
from ..ops import Profile
from .c12 import SMALL, judge_grads, tolerance, run

ID = "C13"
QUICK = 3
RULE = ("Cases draw a public function or recurrence operator with options and shapes, a non-empty random subset of its arguments carrying tangents and random directions. Forward mode (dual numbers) is compared with forward mode through the "
        "step-by-step reference and, by the duality <v, J u> = <J^T v, u>, with the code's own reverse mode; second order differentiates <gradient, direction> again and compares with the same through the reference; forward over reverse and reverse over forward mode are compared in the same way. Distinct: drawn configuration and subset.")
ASSUMPTIONS = ["oracle: PyTorch's autograd of elementary operations through vmon/ref.py", "the functions that offer no forward mode (direct calls of the operators, torchlpc based paths) are excluded from the forward-mode strata"]


def setup():
    load.philtorch()


def fwd(fn, tensors, names, dirs):
    with fwAD.dual_level():
        # (PyTorch gives no tangents to tensors with overlapping memory)
        t = {k: (fwAD.make_dual(v.detach().clone() if v.numel() and any(s == 0 for s in v.stride()) else v.detach(), dirs[k]) if k in names else v) for k, v in tensors.items()}
        outs = [o for o in ops.astuple(fn(**t)) if o is not None and o.numel()]
        res = []
        for o in outs:
            p, d = fwAD.unpack_dual(o)
            res.append((p.detach().clone(), torch.zeros_like(p) if d is None else d.detach().clone()))
    return res


def _draw(rng, gen, kw):
    p = dict(SMALL)
    p["layouts"] = 0.08
    if rng.random() < 0.35:
        p["unroll"] = "one"  # the paths through the compiled recurrences
    p.update(kw)
    p["dtype"] = torch.complex128 if rng.random() < 0.3 else torch.float64
    c = gen(rng, Profile(**p))
    names = util.grad_leaves(rng, {k: v for k, v in c.t.items() if v is not None and k not in c.skip_grad})
    if not names:
        raise Skip()
    return c, names


def _forward(gen, **kw):
    def f(rng, mon):
        c, names = _draw(rng, gen, kw)
        if c.info.get("backend") == "torchlpc" or c.info.get("form") in ("df1", "tdf1") and c.op == "lpv.lfilter" and False:
            raise Skip()
        dirs = {k: ops.randn(rng, tuple(c.t[k].shape), c.t[k].dtype) for k in names}
        mon.case(**c.desc, tangents=names)
        want = fwd(c.ref, c.t, names, dirs)
        got = mon.call(fwd, c.fn, c.t, names, dirs)
        if len(got) != len(want):
            return mon.fail("arity", f"{len(got)} results, expected {len(want)}")
        mon.ev("tangents")
        tol = tolerance(c)
        for i, ((gp, gd), (wp, wd)) in enumerate(zip(got, want)):
            if gd.shape != wd.shape:
                return mon.fail("shape", f"tangent {i}: {tuple(gd.shape)}, expected {tuple(wd.shape)}")
            if gd.is_complex() and not wd.is_complex() and not c.strict:
                gd = gd.real
            if wd.abs().max() > 0:
                mon.ev("nonzero-tangents")
            e = util.relerr(gd, wd)
            if not e <= tol and (gd.to(wd.dtype if wd.is_complex() else gd.dtype) - wd).abs().max() > tol * wp.abs().max():
                return mon.fail("tangent", f"tangent of result {i} for directions in {names}: relative error {e:.3g} > {tol:.3g}; got {gd.flatten()[:3].tolist()}, expected {wd.flatten()[:3].tolist()}")
        if rng.random() < 0.5:
            # duality with the code's own reverse mode
            g, cots, _ = mon.call(run, c.fn, c.t, names, None, rng)
            if g is None or len(cots) != len(got):
                return
            lhs = sum((d * v.conj()).sum().real.item() for (_, d), v in zip(got, cots))
            rhs = sum((dirs[k].conj() * g[k]).sum().real.item() for k in names if g[k] is not None)
            scale = sum((d.abs() * v.abs()).sum().item() for (_, d), v in zip(got, cots)) + 1e-6
            mon.ev("duality")
            if not abs(lhs - rhs) <= tol * scale * 10:
                mon.fail("duality", f"<v, J u> = {lhs:.9g}, <J^T v, u> = {rhs:.9g}")

    return f


def second(fn, tensors, names, cots, dirs):
    t = {k: (v.detach().requires_grad_(True) if k in names else v) for k, v in tensors.items()}
    out = [o for o in ops.astuple(fn(**t)) if o is not None and o.numel()]
    if len(out) != len(cots) or any(o.shape != c.shape for o, c in zip(out, cots)):
        return None
    # (diagonalised models of real systems may return complex-typed reals)
    out = [o.real if o.is_complex() and not c.is_complex() else o for o, c in zip(out, cots)]
    loss = sum((o * c.conj()).sum().real + 0.5 * (o * o.conj()).sum().real for o, c in zip(out, cots) if o.requires_grad)
    if not torch.is_tensor(loss):
        return {k: None for k in names}
    g = torch.autograd.grad(loss, [t[k] for k in names], create_graph=True, allow_unused=True)
    s = sum((gi * d.conj()).sum().real for gi, d in zip(g, (dirs[k] for k in names)) if gi is not None and gi.requires_grad)
    if not torch.is_tensor(s):
        return {k: None for k in names}
    return dict(zip(names, torch.autograd.grad(s, [t[k] for k in names], allow_unused=True)))


def _second(gen, **kw):
    def f(rng, mon):
        c, names = _draw(rng, gen, dict(maxT=12, maxB=4, maxM=4, **kw))
        dirs = {k: ops.randn(rng, tuple(c.t[k].shape), c.t[k].dtype) for k in names}
        _, cots, _ = run(c.ref, c.t, names, None, rng)
        mon.case(**c.desc, wrt=names, sig=["second", c.desc, names])
        want = second(c.ref, c.t, names, cots, dirs)
        if all(v is None for v in want.values()):
            raise Skip()
        got = mon.call(second, c.fn, c.t, names, cots, dirs)
        if got is None:
            return mon.fail("shape", "result shapes differ")
        mon.ev("second-order")
        judge_grads(mon, c, names, got, want, tolerance(c) * 10)

    return f


def hvp(fn, tensors, names, cots, dirs):
    """directional derivative (forward) of the gradient (reverse)"""
    with fwAD.dual_level():
        leaves = {k: tensors[k].detach().clone().requires_grad_(True) for k in names}
        t = {k: (fwAD.make_dual(leaves[k], dirs[k]) if k in names else v) for k, v in tensors.items()}
        out = [o for o in ops.astuple(fn(**t)) if o is not None and o.numel()]
        if len(out) != len(cots) or any(o.shape != c.shape for o, c in zip(out, cots)):
            return None
        out = [o.real if o.is_complex() and not c.is_complex() else o for o, c in zip(out, cots)]
        loss = sum((o * c.conj()).sum().real + 0.5 * (o * o.conj()).sum().real for o, c in zip(out, cots) if o.requires_grad)
        if not torch.is_tensor(loss):
            return {k: None for k in names}
        g = torch.autograd.grad(loss, [t[k] for k in names], allow_unused=True, create_graph=True)
        res = {}
        for k, v in zip(names, g):
            d = None if v is None else fwAD.unpack_dual(v).tangent
            res[k] = None if d is None else d.detach().clone()
        return res


def _hvp(gen, **kw):
    def f(rng, mon):
        c, names = _draw(rng, gen, dict(maxT=12, maxB=4, maxM=4, **kw))
        if c.info.get("backend") == "torchlpc":
            raise Skip()
        dirs = {k: ops.randn(rng, tuple(c.t[k].shape), c.t[k].dtype) for k in names}
        _, cots, _ = run(c.ref, c.t, names, None, rng)
        mon.case(**c.desc, wrt=names, sig=["hvp", c.desc, names])
        want = hvp(c.ref, c.t, names, cots, dirs)
        if all(v is None for v in want.values()):
            raise Skip()
        got = mon.call(hvp, c.fn, c.t, names, cots, dirs)
        if got is None:
            return mon.fail("shape", "result shapes differ")
        mon.ev("forward-over-reverse")
        judge_grads(mon, c, names, got, want, tolerance(c) * 10)

    return f


def rof(fn, tensors, names, cots, dirs):
    """gradient (reverse) of <directional derivative (forward), cotangents>, with respect to arguments and directions"""
    leaves = {k: tensors[k].detach().clone().requires_grad_(True) for k in names}
    dl = {k: dirs[k].clone().requires_grad_(True) for k in names}
    with fwAD.dual_level():
        t = {k: (fwAD.make_dual(leaves[k], dl[k]) if k in names else v) for k, v in tensors.items()}
        out = [o for o in ops.astuple(fn(**t)) if o is not None and o.numel()]
        if len(out) != len(cots) or any(o.shape != c.shape for o, c in zip(out, cots)):
            return None
        out = [o.real if o.is_complex() and not c.is_complex() else o for o, c in zip(out, cots)]
        tans = [fwAD.unpack_dual(o).tangent for o in out]
        s = sum((d * c.conj()).sum().real + 0.5 * (d * d.conj()).sum().real for d, c in zip(tans, cots) if d is not None and d.requires_grad)
    keys = names + ["d" + k for k in names]
    if not torch.is_tensor(s):
        return {k: None for k in keys}
    return dict(zip(keys, torch.autograd.grad(s, [leaves[k] for k in names] + [dl[k] for k in names], allow_unused=True)))


def _rof(gen, **kw):
    def f(rng, mon):
        c, names = _draw(rng, gen, dict(maxT=12, maxB=4, maxM=4, **kw))
        if c.info.get("backend") == "torchlpc":
            raise Skip()
        dirs = {k: ops.randn(rng, tuple(c.t[k].shape), c.t[k].dtype) for k in names}
        _, cots, _ = run(c.ref, c.t, names, None, rng)
        mon.case(**c.desc, wrt=names, sig=["rof", c.desc, names])
        want = rof(c.ref, c.t, names, cots, dirs)
        if all(v is None for v in want.values()):
            raise Skip()
        got = mon.call(rof, c.fn, c.t, names, cots, dirs)
        if got is None:
            return mon.fail("shape", "result shapes differ")
        mon.ev("reverse-over-forward")
        judge_grads(mon, c, names + ["d" + k for k in names], got, want, tolerance(c) * 10)

    return f


FN = dict(lti_lfilter=200, lti_fir=60, lti_state_space=200, lti_ssr=150, lti_linrec=80, lti_diag=80, lti_comb=80, lti_filtfilt=50, lti_zi=30, lti_ic=30, lti_cspline=20, lti_spline=20,
          lpv_fir=80, lpv_allpole=80, lpv_lfilter=200, lpv_state_space=200, lpv_ssr=150, lpv_linrec=80, function=120, polydiv=50, mat=60)
SN = dict(lti_lfilter=120, lti_fir=50, lti_state_space=120, lti_ssr=100, lti_linrec=60, lti_diag=50, lti_comb=60, lti_filtfilt=40, lti_cspline=12, lti_spline=12,
          lpv_fir=50, lpv_allpole=60, lpv_lfilter=120, lpv_state_space=120, lpv_ssr=100, lpv_linrec=60, function=100, native=150, polydiv=40, mat=40)
STRATA = {f"fwd_{k}": (_forward(ops.ALL[k]), 2 * n, n * 24) for k, n in FN.items()} | {f"second_{k}": (_second(ops.ALL[k]), 2 * n, n * 24) for k, n in SN.items()}
HN = dict(polydiv=40, mat=40, lti_filtfilt=30, lti_spline=10, lti_lfilter=80, lti_fir=30, lti_state_space=80, lti_ssr=80, lti_linrec=40, lti_diag=40, lti_comb=40, lti_cspline=10,
          lpv_fir=30, lpv_allpole=40, lpv_lfilter=80, lpv_state_space=80, lpv_ssr=80, lpv_linrec=40, function=80)
STRATA |= {f"hvp_{k}": (_hvp(ops.ALL[k]), 2 * n, n * 24) for k, n in HN.items()}
STRATA |= {f"rof_{k}": (_rof(ops.ALL[k]), 2 * n, n * 24) for k, n in HN.items()}
REQUIRED = {"reverse-over-forward": 300, "forward-over-reverse": 300, "tangents": 1000, "nonzero-tangents": 1000, "duality": 300, "second-order": 700, "gradients-compared": 1000}
