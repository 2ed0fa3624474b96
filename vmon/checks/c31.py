"""In-place changes between forward and backward are noticed or harmless."""
import torch

from .. import load, ops, util
from ..core import Skip
from ..ops import Profile
from .c12 import SMALL, judge_grads, tolerance

ID = "C31"
QUICK = 6
RULE = ("Each case is one forward call of a public function or recurrence operator with random options, shapes and a random subset of arguments requiring gradients, then one change in place (an argument overwritten as an optimiser step does; a result "
        "overwritten behind autograd's back; a result scaled in place with autograd watching, before or after another output was used; several of them), then a backward pass of a random cotangent: it raises, or its gradients are compared with "
        "PyTorch's autograd through the step-by-step reference at the values of the call. Distinct: drawn configuration, subset, change.")
ASSUMPTIONS = ["changes that bypass PyTorch's version counters (Tensor.data, memory shared with NumPy) are outside the domain", "which changes are refused is not specified (counted per function in the events)"]
GEN = ["lti_lfilter", "lti_fir", "lti_state_space", "lti_ssr", "lti_linrec", "lti_diag", "lti_comb", "lti_filtfilt", "lti_zi", "lti_ic", "lti_cspline", "lti_spline",
       "lpv_fir", "lpv_allpole", "lpv_lfilter", "lpv_state_space", "lpv_ssr", "lpv_linrec", "native", "function", "polydiv", "mat"]


def setup():
    load.philtorch()


def _case(gen, **kw):
    def f(rng, mon):
        p = dict(SMALL, maxT=16, maxB=4, maxM=5, layouts=0.1)
        p["unroll"] = rng.choice(["one", "default", "any"])
        p.update(kw)
        p["dtype"] = torch.complex128 if rng.random() < 0.25 else torch.float64
        c = gen(rng, Profile(**p))
        floats = {k: v for k, v in c.t.items() if v is not None and (v.is_floating_point() or v.is_complex()) and v.numel()}
        names = util.grad_leaves(rng, {k: v for k, v in floats.items() if k not in c.skip_grad})
        if not names or any(v is not None and v.dtype == torch.int64 for v in c.t.values()):
            raise Skip()
        # every argument has its own memory; those requiring gradients are leaves
        t = {k: v if v is None else v.detach().resolve_conj().resolve_neg().clone() for k, v in c.t.items()}
        orig = {k: v if v is None else v.clone() for k, v in t.items()}
        for k in names:
            t[k].requires_grad_(True)
        change = rng.choice(["argument", "argument", "argument", "arguments", "result-behind", "result-scaled", "result-scaled", "result-after-use"])
        which = sorted(rng.sample(list(floats), len(floats) if change == "arguments" else 1))
        how = rng.choice(["zero", "scale", "copy", "slice"])
        mon.case(**c.desc, wrt=names, change=change, which=which if change.startswith("arg") else None, how=how)
        out = [o for o in ops.astuple(mon.call(c.fn, **t)) if o is not None and o.numel()]
        want = [o for o in c.ref(**orig) if o is not None and o.numel()]
        if len(out) != len(want) or any(o.shape != w.shape for o, w in zip(out, want)) or not any(o.requires_grad for o in out):
            raise Skip()  # (C12's concern)
        # (a complex result that stands for a real one counts with its real part)
        cots = [ops.randn(rng, tuple(o.shape), o.dtype if q.is_complex() else q.dtype) for o, q in zip(out, want)]
        k = rng.randrange(len(out))
        factor = ops.randn(rng, tuple(out[k].shape), cots[k].dtype) if how != "slice" else rng.choice([2.0, -0.5, 0.0])

        def loss(outs):
            return sum((o * w.conj()).real.sum() if o.is_complex() and w.is_complex() else ((o.real if o.is_complex() else o) * (w.real if w.is_complex() else w)).sum() for o, w in zip(outs, cots) if o.requires_grad)

        scaled = None
        early = loss(out) if change == "result-after-use" else None
        try:
            if change.startswith("arg"):
                with torch.no_grad():
                    for n in which:
                        v = t[n]
                        if how == "zero":
                            v.zero_()
                        elif how == "scale":
                            v.mul_(-0.5)
                        elif how == "copy":
                            v.copy_(ops.randn(rng, tuple(v.shape), v.dtype))
                        elif v.dim():
                            v.select(-1, rng.randrange(v.shape[-1])).add_(0.25)
                        else:
                            v.add_(0.25)
            elif change == "result-behind":
                with torch.no_grad():
                    out[k].detach().zero_() if how in ("zero", "copy") else out[k].detach().mul_(2)
            else:
                if not out[k].requires_grad:
                    raise Skip()
                out[k].mul_(factor)
                scaled = k
            total = early if early is not None else loss(out)
            g = dict(zip(names, torch.autograd.grad(total, [t[n] for n in names], allow_unused=True)))
        except RuntimeError as e:
            mon.ev("refused")
            mon.ev(f"refused-{change}")
            if "modified by an inplace" in str(e) or "in-place" in str(e) or "inplace" in str(e):
                mon.ev("refused-by-version")
            return
        mon.ev("accepted")
        mon.ev(f"accepted-{change}")
        r = {n: (v.clone().requires_grad_(True) if n in names else v) for n, v in orig.items()}
        ref = [o for o in c.ref(**r) if o is not None and o.numel()]
        ref = [o if o.is_complex() == x.is_complex() else (o.real if o.is_complex() else o + 0j) for o, x in zip(ref, out)]
        if scaled is not None and early is None:
            ref[scaled] = ref[scaled] * factor
        if any(o.requires_grad != q.requires_grad for o, q in zip(out, ref)) and not any(q.requires_grad for q in ref):
            raise Skip()
        w = torch.autograd.grad(loss(ref), [r[n] for n in names], allow_unused=True)
        c.t = orig
        judge_grads(mon, c, names, g, dict(zip(names, w)), tolerance(c))

    return f


def chain(rng, mon):
    """A state carried on and updated in place between two chunks of a stream."""
    gen = ops.ALL[rng.choice(["lti_lfilter", "lpv_lfilter", "lti_state_space", "lpv_state_space", "lti_fir", "lpv_fir", "lpv_allpole"])]
    c = gen(rng, Profile(**dict(SMALL, maxT=12, maxB=3, maxM=4, layouts=0, dtype=torch.float64, unroll=rng.choice(["one", "default"]))))
    if c.t.get("zi") is None or "x" not in c.t or not c.t["zi"].numel():
        raise Skip()
    t = {k: v if v is None else v.detach().clone() for k, v in c.t.items()}
    t["zi"].requires_grad_(True)
    mon.case(**c.desc, chain=True)
    # the state is a buffer that is overwritten by the next chunk's state
    buf = t["zi"] * 1.0
    first = [o for o in ops.astuple(mon.call(c.fn, **{**t, "zi": buf})) if o is not None]
    if len(first) != 2 or first[1].shape != buf.shape or not first[1].requires_grad:
        raise Skip()
    w0, w1 = ops.randn(rng, tuple(first[0].shape), torch.float64), ops.randn(rng, tuple(first[1].shape), torch.float64)
    try:
        buf.copy_(first[1])
        second = [o for o in ops.astuple(c.fn(**{**t, "zi": buf})) if o is not None]
        g, = torch.autograd.grad((first[0] * w0).sum() + (second[1] * w1).sum(), t["zi"])
    except RuntimeError:
        mon.ev("refused")
        return mon.ev("refused-chain")
    z = t["zi"].detach().clone().requires_grad_(True)
    a = [o for o in c.ref(**{**t, "zi": z}) if o is not None]
    b = [o for o in c.ref(**{**t, "zi": a[1]}) if o is not None]
    w, = torch.autograd.grad((a[0] * w0).sum() + (b[1] * w1).sum(), z)
    mon.ev("accepted")
    mon.ev("accepted-chain")
    c.t = {k: None if v is None else v.detach() for k, v in t.items()}
    judge_grads(mon, c, ["zi"], {"zi": g}, {"zi": w}, tolerance(c))


N = dict(lti_lfilter=120, lti_state_space=120, lti_ssr=100, lti_diag=80, lpv_lfilter=120, lpv_state_space=120, lpv_ssr=100, native=160, function=160)
STRATA = {k: (_case(ops.ALL[k]), N.get(k, 50), 12 * N.get(k, 50)) for k in GEN}
STRATA |= {k + "_direct": (_case(ops.ALL[k], unroll="one"), 60, 700) for k in ("lti_lfilter", "lti_state_space", "lti_diag", "lpv_lfilter", "lpv_state_space", "lti_comb")}
STRATA["chain"] = (chain, 100, 1500)
REQUIRED = {"accepted": 500, "refused-by-version": 400, "gradients-compared": 500, "accepted-result-scaled": 40, "accepted-argument": 200}
