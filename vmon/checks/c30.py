"""Function transforms (vmap, per-sample gradients, jacrev, jacfwd) agree with one call per sample."""
import warnings

import torch
from torch.func import grad, jacfwd, jacrev, vmap

from .. import load, ops, util
from ..core import Skip
from ..ops import Profile
from .c12 import SMALL, tolerance

ID = "C30"
RULE = ("Cases draw a public function or recurrence operator with options and shapes, the arguments that carry a mapped dimension (a random non-empty subset, its position among the dimensions drawn, one or two nested levels, chunked or not) and the transform; "
        "the transformed call either raises or every sample is compared with the step-by-step reference of that sample alone (values), with PyTorch's autograd through that reference (per-sample gradients), or the Jacobian with the one of the "
        "reference (jacrev, jacfwd). Distinct: drawn configuration, mapped arguments, transform.")
ASSUMPTIONS = ["a transform that a function does not support raises; which ones do is not specified (refusals are counted per function in the events)", "oracle: vmon/ref.py, one sample at a time", "forward mode through direct calls of the operators is outside the domain (PyTorch drops the tangents of custom operators)"]
warnings.filterwarnings("ignore", message=".*performance drop.*")


def setup():
    load.philtorch()


def _vary(rng, k, v, c):
    """another sample of the argument k: a state, a signal and numerators scale freely, denominators keep their poles inside the circle"""
    s = rng.uniform(0.55, 1.0)
    if k == "a" and c.op not in ("lti.comb_filter", "lti.linear_recurrence", "lpv.linear_recurrence") and not c.op.startswith("op."):
        return v * (s ** torch.arange(1, v.shape[-1] + 1, dtype=torch.float64)).to(v.dtype)
    return v * s * (1 if k in ("a", "A", "v") else rng.choice([1, -1, 2]))


FIXED = ("L", "V", "Vinv", "p", "xp", "yp")


def _draw(rng, gen, kw):
    p = dict(SMALL)
    p["unroll"] = rng.choice(["default", "one", "any"])
    p["dtype"] = torch.float64 if kw.get("real") or rng.random() < 0.75 else torch.complex128
    p.update({k: v for k, v in kw.items() if k != "real"})
    c = gen(rng, Profile(**p))
    names = [k for k, v in c.t.items() if v is not None and k not in FIXED and (v.is_floating_point() or v.is_complex()) and v.numel()]
    if c.info.get("spec") not in (None, "A"):
        names = [k for k in names if k != "A"]
    if not names:
        raise Skip()
    return c, names


def _stack(rng, c, names, S):
    """samples: list of dicts; batched: name -> (stacked tensor, dimension)"""
    n = rng.choice([1, 1, 2, len(names)])
    mapped = sorted(rng.sample(names, min(n, len(names))))
    samples = [{k: _vary(rng, k, c.t[k].detach(), c) for k in mapped} for _ in range(S)]
    dims = {k: rng.randint(0, c.t[k].dim()) for k in mapped}
    return mapped, samples, {k: torch.stack([s[k] for s in samples], dims[k]) for k in mapped}, dims


def _refused(mon, c, what, e):
    mon.ev("refused")
    mon.ev(f"refused-{what}:{c.op}" + (f":{c.info['backend']}:{c.info['form']}" if c.info.get("backend") else ""))


def _vmap(gen, **kw):
    def f(rng, mon):
        c, names = _draw(rng, gen, kw)
        S = rng.choice([1, 2, 3, 3, 4])
        mapped, samples, stacked, dims = _stack(rng, c, names, S)
        nested, chunk = rng.random() < 0.15, rng.choice([None, None, None, 1, 2])
        out_dims = rng.choice([0, 0, 0, -1])
        mon.case(**c.desc, mapped=mapped, dims=dims, S=S, nested=nested, chunk=chunk, out_dims=out_dims)
        g = lambda t: tuple(o for o in ops.astuple(c.fn(**{**c.t, **t})) if o is not None)
        if nested:
            # the outer level repeats the stack with the samples in another order
            perm = torch.randperm(S, generator=torch.Generator().manual_seed(rng.getrandbits(40)))
            two = {k: torch.stack([v, v.index_select(dims[k], perm)], 0) for k, v in stacked.items()}
            order = list(range(S)) + perm.tolist()
            call = lambda: tuple(o.flatten(0, 1) for o in vmap(vmap(g, in_dims=(dims,)))(two))
            out_dims = 0
        else:
            order = list(range(S))
            call = lambda: vmap(g, in_dims=(dims,), out_dims=out_dims, chunk_size=chunk)(stacked)
        try:
            got = call()
        except Exception as e:
            return _refused(mon, c, "vmap", e)
        mon.ev("vmapped")
        mon.ev("vmapped:" + c.op)
        for i, s in enumerate(order):
            want = c.want(**samples[s])
            ops.compare(mon, tuple(o.select(out_dims, i) for o in got), want, tol=c.tol * 10, what=f"sample {s} of vmap over {mapped}", strict_dtype=c.strict, batch_dim=False)
            mon.ev("samples-compared")
            if mon.fails:
                return

    return f


def _loss(outs, cots):
    return sum((o * w.conj()).real.sum() if o.is_complex() or w.is_complex() else (o * w).sum() for o, w in zip(outs, cots) if w is not None)


def _pergrad(gen, **kw):
    def f(rng, mon):
        c, names = _draw(rng, gen, dict(kw, real=True))
        names = [k for k in names if k not in c.skip_grad]
        if not names:
            raise Skip()
        S = rng.choice([2, 3])
        mapped, samples, stacked, dims = _stack(rng, c, names, S)
        wrt = rng.choice(names)
        cots = [None if w is None else ops.randn(rng, tuple(w.shape), w.dtype) for w in c.want()]
        mon.case(**c.desc, mapped=mapped, wrt=wrt, S=S, sig=["pergrad", c.desc, mapped, wrt])
        base = c.t[wrt].detach()

        def loss(v, t):
            return _loss(ops.astuple(c.fn(**{**c.t, **t, wrt: v})), cots)

        try:
            if wrt in mapped:
                rest = {k: v for k, v in stacked.items() if k != wrt}
                got = vmap(grad(loss), in_dims=(dims[wrt], {k: dims[k] for k in rest}) if rest else (dims[wrt], None))(stacked[wrt], rest)
            else:
                got = vmap(grad(loss), in_dims=(None, dims))(base, stacked)
        except Exception as e:
            return _refused(mon, c, "pergrad", e)
        mon.ev("per-sample-gradients")
        for i, s in enumerate(samples):
            leaf = s.get(wrt, base).detach().clone().requires_grad_(True)
            out = _loss(c.ref(**{**c.t, **s, wrt: leaf}), cots)
            want = torch.autograd.grad(out, leaf, allow_unused=True)[0] if out.requires_grad else None
            want = torch.zeros_like(leaf) if want is None else want
            if got[i].shape != want.shape:
                return mon.fail("shape", f"gradient of sample {i} with respect to {wrt}: {tuple(got[i].shape)}, expected {tuple(want.shape)}")
            e, tol = util.relerr(got[i], want), tolerance(c) * 10
            if not e <= tol and (got[i] - want).abs().max() > tol:
                return mon.fail("gradient", f"vmap(grad) with respect to {wrt}, sample {i} mapped over {mapped}: relative error {e:.3g}; got {got[i].flatten()[:3].tolist()}, expected {want.flatten()[:3].tolist()}")

    return f


def _jac(gen, **kw):
    def f(rng, mon):
        c, names = _draw(rng, gen, dict(maxT=10, maxB=3, maxM=3, **dict(kw, real=True)))
        names = [k for k in names if k not in c.skip_grad]
        if not names:
            raise Skip()
        wrt, which = rng.choice(names), rng.choice(["jacrev", "jacfwd"])
        mon.case(**c.desc, wrt=wrt, transform=which, sig=[which, c.desc, wrt])
        cat = lambda outs: torch.cat([o.flatten() for o in outs if o is not None])
        base = c.t[wrt].detach()
        try:
            J = (jacrev if which == "jacrev" else jacfwd)(lambda v: cat(ops.astuple(c.fn(**{**c.t, wrt: v}))))(base)
        except Exception as e:
            return _refused(mon, c, which, e)
        W = torch.autograd.functional.jacobian(lambda v: cat(c.ref(**{**c.t, wrt: v})), base)
        mon.ev(which)
        if J.is_complex() and not W.is_complex() and not c.strict:
            J = J.real
        if J.shape != W.shape:
            return mon.fail("shape", f"{which} of {wrt}: {tuple(J.shape)}, expected {tuple(W.shape)}")
        tol = tolerance(c) * 10
        if J.numel() and not (J - W).abs().max() <= tol * max(1.0, W.abs().max().item()):
            return mon.fail("jacobian", f"{which} with respect to {wrt}: off by {(J - W).abs().max().item():.3g}")

    return f


def _hess(gen, **kw):
    def f(rng, mon):
        c, names = _draw(rng, gen, dict(maxT=8, maxB=3, maxM=3, **dict(kw, real=True)))
        names = [k for k in names if k not in c.skip_grad]
        if not names:
            raise Skip()
        wrt = rng.choice(names)
        outer, inner = rng.choice([(jacfwd, jacrev), (jacrev, jacrev), (jacrev, jacfwd)])
        which = f"{outer.__name__}-{inner.__name__}"
        base = c.t[wrt].detach()
        if not base.numel() or base.numel() > 40:
            raise Skip()
        mon.case(**c.desc, wrt=wrt, transform=which, sig=[which, c.desc, wrt])
        cots = [None if w is None else ops.randn(rng, tuple(w.shape), w.dtype) for w in c.want()]

        def loss(outs):
            return _loss(outs, cots) + sum(0.5 * (o * o.conj()).real.sum() if o.is_complex() else 0.5 * (o * o).sum() for o in outs if o is not None)

        try:
            H = outer(inner(lambda v: loss(ops.astuple(c.fn(**{**c.t, wrt: v})))))(base)
        except Exception as e:
            return _refused(mon, c, "hessian", e)
        W = torch.autograd.functional.hessian(lambda v: loss(c.ref(**{**c.t, wrt: v})), base)
        mon.ev("hessians")
        mon.ev("hessian-" + which)
        if H.shape != W.shape:
            return mon.fail("shape", f"{which} of {wrt}: {tuple(H.shape)}, expected {tuple(W.shape)}")
        tol = tolerance(c) * 100
        if not torch.isfinite(W).all():
            return mon.ev("reference-not-finite")
        if not (H - W).abs().max() <= tol * max(1.0, W.abs().max().item()):
            mon.fail("hessian", f"{which} with respect to {wrt}: off by {(H - W).abs().max().item():.3g} of {W.abs().max().item():.3g}")

    return f


def _perjvp(gen, **kw):
    """forward-mode derivatives of every sample at once"""

    def f(rng, mon):
        c, names = _draw(rng, gen, dict(maxT=12, **dict(kw, real=True)))
        names = [k for k in names if k not in c.skip_grad]
        if not names:
            raise Skip()
        wrt, S = rng.choice(names), rng.choice([2, 3])
        base = c.t[wrt].detach()
        dirs = torch.stack([ops.randn(rng, tuple(base.shape), base.dtype) for _ in range(S)])
        mapped, samples, stacked, dims = _stack(rng, c, names, S)
        mapped = [k for k in mapped if k != wrt]
        rest, dims = {k: stacked[k] for k in mapped}, {k: dims[k] for k in mapped}
        mon.case(**c.desc, mapped=mapped, wrt=wrt, S=S, sig=["perjvp", c.desc, mapped, wrt])

        def one(d, t):
            return torch.func.jvp(lambda v: tuple(o for o in ops.astuple(c.fn(**{**c.t, **t, wrt: v})) if o is not None), (base,), (d,))[1]

        if c.op == "poly.polydiv" and c.t["u"].shape[-1] < c.t["v"].shape[-1]:
            raise Skip()  # (an empty or a zero quotient)
        try:
            got = vmap(one, in_dims=(0, dims) if rest else (0, None))(dirs, rest)
        except Exception as e:
            return _refused(mon, c, "perjvp", e)
        mon.ev("per-sample-jvps")
        for i, s in enumerate(samples):
            s = {k: s[k] for k in mapped}
            want = torch.autograd.functional.jvp(lambda v: tuple(o for o in c.ref(**{**c.t, **s, wrt: v}) if o is not None), (base,), (dirs[i],))[1]
            for k, (a, b) in enumerate(zip(got, want)):
                a = a[i].real if a.is_complex() and not b.is_complex() and not c.strict else a[i]
                if a.shape != b.shape:
                    return mon.fail("shape", f"jvp of sample {i}, result {k}: {tuple(a.shape)}, expected {tuple(b.shape)}")
                if b.numel() and torch.isfinite(b).all() and not (a - b).abs().max() <= 10 * tolerance(c) * max(1.0, b.abs().max().item()):
                    return mon.fail("jvp", f"vmap(jvp) with respect to {wrt} mapped over {mapped}, sample {i}, result {k}: off by {(a - b).abs().max().item():.3g}")

    return f


N = dict(lti_lfilter=100, lti_fir=40, lti_state_space=100, lti_ssr=60, lti_linrec=40, lti_diag=40, lti_comb=40, lti_filtfilt=30, lti_zi=20, lti_ic=20, lti_cspline=12, lti_spline=12,
         lpv_fir=40, lpv_allpole=40, lpv_lfilter=100, lpv_state_space=100, lpv_ssr=60, lpv_linrec=40, function=40, native=60, polydiv=30, mat=40)
STRATA = {f"vmap_{k}": (_vmap(ops.ALL[k]), 2 * n, n * 20) for k, n in N.items()}
STRATA |= {f"pergrad_{k}": (_pergrad(ops.ALL[k]), n, n * 12) for k, n in N.items()}
STRATA |= {f"jac_{k}": (_jac(ops.ALL[k]), n, n * 12) for k, n in N.items() if k != "native"}
STRATA |= {f"hess_{k}": (_hess(ops.ALL[k]), n // 2, n * 8) for k, n in N.items() if k != "native"}
STRATA |= {f"perjvp_{k}": (_perjvp(ops.ALL[k]), n, n * 12) for k, n in N.items() if k != "native"}
REQUIRED = {"hessians": 150, "per-sample-jvps": 250, "vmapped": 400, "samples-compared": 1000, "per-sample-gradients": 200, "jacrev": 120, "jacfwd": 120}
