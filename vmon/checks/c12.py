"""Reverse-mode gradients equal those of the defining recurrence."""
import torch

from .. import load, ops, util
from ..core import Skip
from ..ops import Profile

ID = "C12"
QUICK = 4
RULE = ("Each case draws a public function with options/shapes as in C01-C22 (double or complex128), a non-empty random subset of its tensor arguments requiring gradients and a random cotangent for every returned tensor; "
        "non-trivial: every requested gradient was compared with PyTorch's own autograd through the step-by-step reference; distinct: drawn configuration and subset.")
ASSUMPTIONS = ["oracle: autograd of elementary torch operations through vmon/ref.py", "functions are differentiated at points where the defining recurrence is differentiable (distinct eigenvalues, vandermonde/power edge cases excluded)"]


def setup():
    load.philtorch()


def run(fn, tensors, names, cots=None, rng=None):
    t = {}
    for k, v in tensors.items():
        t[k] = v
        if k in names:
            t[k] = v.detach().requires_grad_(True)
    out = [o for o in ops.astuple(fn(**t)) if o is not None and o.numel()]
    if cots is None:
        cots = [ops.randn(rng, tuple(o.shape), o.dtype if o.dtype.is_floating_point or o.dtype.is_complex else torch.float64) for o in out]
    if len(out) != len(cots) or any(o.shape != c.shape for o, c in zip(out, cots)):
        return None, cots, out
    loss = sum((o * c.conj()).sum().real for o, c in zip(out, cots) if o.requires_grad)
    if not torch.is_tensor(loss):
        return {n: None for n in names}, cots, out
    g = torch.autograd.grad(loss, [t[n] for n in names], allow_unused=True)
    return dict(zip(names, g)), cots, out


def restyle(rng, cots):
    """(outputs differentiated, their cotangents in the memory layouts that arise in training code)"""
    style = rng.choice(["dense"] * 5 + ["ones", "ones", "strided", "last", "first", "sparse"])
    use = list(range(len(cots)))
    if len(cots) > 1 and rng.random() < 0.3:
        use = [rng.choice(use)]  # only the output, or only the final state, enters the loss
    res = []
    for i in use:
        c = cots[i]
        if style == "ones":  # what .sum().backward() hands over: one number, all strides zero
            c = torch.ones((), dtype=c.dtype).expand(c.shape)
        elif style == "strided" and c.dim() > 1:
            c = c.transpose(0, -1).contiguous().transpose(0, -1)
        elif style in ("last", "first", "sparse") and c.numel():
            keep = torch.zeros(c.numel(), dtype=c.dtype)
            keep[{"last": -1, "first": 0}.get(style, rng.randrange(c.numel()))] = 1
            c = c * keep.reshape(c.shape)
        res.append(c)
    return style, use, res


def backward(fn, tensors, names, use, cots, twice=False):
    t = {k: (v.detach().requires_grad_(True) if k in names else v) for k, v in tensors.items()}
    out = [o for o in ops.astuple(fn(**t)) if o is not None and o.numel()]
    if len(out) <= max(use) or any(out[i].shape != c.shape for i, c in zip(use, cots)):
        return None, out
    pairs = [(out[i], c) for i, c in zip(use, cots) if out[i].requires_grad]
    pairs = [(o, c if o.is_complex() or not c.is_complex() else c.real) if o.is_complex() == c.is_complex() else (o.real, c) if o.is_complex() else (o, c.real) for o, c in pairs]
    if not pairs:
        return {n: None for n in names}, out
    leaves = [t[n] for n in names]
    args = ([o for o, _ in pairs], leaves, [c for _, c in pairs])
    if twice:
        torch.autograd.grad(*args, allow_unused=True, retain_graph=True)
    return dict(zip(names, torch.autograd.grad(*args, allow_unused=True))), out


def judge_grads(mon, case, names, g, w, tol):
    for n in names:
        a, b = g[n], w[n]
        ref = case.t.get(n, case.t.get(n[1:]))  # ("dA": the tangent of A)
        a = torch.zeros_like(ref) if a is None else a
        b = torch.zeros_like(ref) if b is None else b
        if a.shape != ref.shape:
            mon.fail("grad-shape", f"gradient of {n}: shape {tuple(a.shape)}, argument {tuple(ref.shape)}")
            return False
        mon.ev("gradients-compared")
        sc = 1e-3 * max([x.abs().max().item() for x in w.values() if x is not None and x.numel()] + [1e-3])
        if b.numel() == 0:
            continue
        if not torch.isfinite(b).all():
            mon.ev("reference-overflows")
            return True
        err = (a.to(torch.complex128) - b.to(torch.complex128)).abs()
        err = torch.where(torch.isfinite(err), err, torch.full_like(err, float("inf"))).max().item()
        rel = err / max(b.abs().max().item(), sc)
        if b.abs().max().item() > 0:
            mon.ev("nonzero-gradients")
        if not rel <= tol:
            mon.fail("gradient", f"gradient of {n}: relative error {rel:.3g} > {tol:.3g} (max |grad| {b.abs().max().item():.3g}, got {a.flatten()[:3].tolist()}, expected {b.flatten()[:3].tolist()})", wrt=names)
            return False
    return True


def tolerance(case):
    return min(1e-7 * max(case.tol, 1), 3e-3)


def grad_case(rng, mon, c):
    leaves = {k: v for k, v in c.t.items() if v is not None and k not in c.skip_grad}
    names = util.grad_leaves(rng, leaves)
    if not names:
        raise Skip()
    # a large shared function may return values independent of some arguments; that is compared as zero
    mon.case(**c.desc, wrt=names)
    with torch.no_grad():
        cots = [ops.randn(rng, tuple(o.shape), o.dtype) for o in c.ref(**c.t) if o is not None and o.numel()]
    if not cots:
        raise Skip()
    style, use, cots = restyle(rng, cots)
    w, _ = backward(c.ref, c.t, names, use, cots)
    if all(x is None for x in w.values()):
        raise Skip()
    twice = rng.random() < 0.1  # (the graph is used again)
    mon.ev("cotangents-" + style)
    g, out = mon.call(backward, c.fn, c.t, names, use, cots, twice)
    if g is None:
        mon.fail("shape", f"{[tuple(o.shape) for o in out]} returned, expected {[tuple(x.shape) for x in cots]}")
        return
    judge_grads(mon, c, names, g, w, tolerance(c))


SMALL = dict(f32_ok=False, numbers="float", maxT=24, maxB=7, maxM=6, layouts=0.12)


def _mk(gen, cplx=0.25, **kw):
    def f(rng, mon):
        p = dict(SMALL, long=0.004)
        p.update(kw)
        p["dtype"] = torch.complex128 if rng.random() < cplx else torch.float64
        c = gen(rng, Profile(**p))
        if any(v is not None and v.dtype == torch.int64 for v in c.t.values()):
            raise Skip()
        grad_case(rng, mon, c)

    return f


N = dict(lti_lfilter=400, lti_fir=150, lti_state_space=350, lti_ssr=250, lti_linrec=150, lti_diag=150, lti_comb=150, lti_filtfilt=100, lti_zi=80, lti_ic=80,
         lti_cspline=40, lti_spline=40, lpv_fir=150, lpv_allpole=150, lpv_lfilter=300, lpv_state_space=300, lpv_ssr=250, lpv_linrec=150, native=400, function=200, polydiv=120, mat=150)
STRATA = {k: (_mk(ops.ALL[k]), n, n * 12) for k, n in N.items()}
# without unrolling: the paths through the compiled recurrences
ONE = dict(lti_lfilter=250, lti_state_space=250, lti_ssr=80, lti_linrec=80, lti_diag=120, lti_comb=60, lpv_lfilter=200, lpv_state_space=250, lpv_ssr=80, lpv_linrec=60, function=150)
STRATA |= {k + "_direct": (_mk(ops.ALL[k], cplx=0.5, unroll="one"), n, n * 12) for k, n in ONE.items()}
REQUIRED = {"gradients-compared": 2500, "nonzero-gradients": 2000}
