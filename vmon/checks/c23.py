"""Purity: no mutation, no memory of past calls."""
import os
import pickle
import random
import signal

import numpy as np
import torch

from .. import load, ops, util
from ..core import Skip
from ..ops import Profile

ID = "C23"
QUICK = 3
RULE = ("Each case is a small history: one to four random calls (public functions and operators, random options, shapes, layouts, with or without gradients and backward passes), with bitwise snapshots of every argument (content, shape, strides, version "
        "counter, grad, flags) and of the interpreter-wide state (RNG states, default dtype, thread count, grad mode) taken before and compared after each; then the first call is repeated, also after its arguments were overwritten in place and after "
        "the earlier results were overwritten, and compared bitwise / with a call on fresh copies; pristine: a call made late in a worker's life, right after a similar call (other dtype, values or length), is compared with the same call in a process forked before the first call. Distinct: drawn histories.")
ASSUMPTIONS = ["repeatability is judged at a fixed thread count in one process, up to the rounding differences vendor kernels show for differently aligned operands (1e-10 in double, 1e-4 in single)"]
NAMES = ["lti_lfilter", "lti_fir", "lti_state_space", "lti_ssr", "lti_linrec", "lti_diag", "lti_comb", "lti_filtfilt", "lti_zi", "lti_ic", "lti_cspline", "lti_spline",
         "lpv_fir", "lpv_allpole", "lpv_lfilter", "lpv_state_space", "lpv_ssr", "lpv_linrec", "native", "polydiv", "mat"]


def setup():
    load.philtorch()


def world():
    s = np.random.get_state()
    return dict(rng=torch.get_rng_state().numpy().tobytes(), py=hash(random.getstate()), np=(s[1].tobytes(), s[2]), dtype=torch.get_default_dtype(), threads=torch.get_num_threads(),
                grad=torch.is_grad_enabled(), inference=torch.is_inference_mode_enabled(), det=torch.are_deterministic_algorithms_enabled(), anomaly=torch.is_anomaly_enabled(),
                matmul=torch.get_float32_matmul_precision(), device=str(torch.get_default_device()), mkldnn=torch.backends.mkldnn.enabled, warn=torch.is_deterministic_algorithms_warn_only_enabled(), err=str(np.geterr()), autocast=torch.is_autocast_enabled("cpu"))


def watch(mon, what, tensors, fn):
    """Run fn while watching the arguments and the global state."""
    before = {k: util.snapshot(v) for k, v in tensors.items()}
    grads = {k: (v.grad if v is not None and v.is_leaf else None) for k, v in tensors.items()}
    w = world()
    out = mon.call(fn)
    w2 = world()
    for k in w:
        if w[k] != w2[k]:
            mon.fail("global-state", f"{what} changed {k}: {str(w[k])[:60]} -> {str(w2[k])[:60]}")
    for k, v in tensors.items():
        mon.ev("argument-snapshots")
        if not util.same_snapshot(before[k], v):
            a, b = before[k], util.snapshot(v)
            names = ["shape", "stride", "offset", "dtype", "requires_grad", "version", "conj", "neg", "data_ptr"]
            mon.fail("mutated", f"{what} changed argument {k}: " + (", ".join(n for n, p, q in zip(names, a, b) if not p == q) or "content"))
        if v is not None and v.is_leaf and v.grad is not grads[k]:
            mon.fail("grad", f"{what} set the gradient of argument {k}")
    return out


def draw(rng, small=False, **kw):
    name = rng.choice(NAMES)
    p = dict(layouts=0.25)
    if small:
        p.update(maxT=24, maxB=6, maxM=5)
    p.update(kw)
    return ops.ALL[name](rng, Profile(**p))


def desc(c):
    return " ".join(f"{k}={v}" for k, v in c.desc.items())[:200]


def copies(t):
    return {k: None if v is None else v.detach().clone() for k, v in t.items()}


def same(mon, a, b, what, kind="history"):
    if len(a) != len(b):
        return mon.fail(kind, f"{what}: {len(a)} and {len(b)} results")
    for i, (p, q) in enumerate(zip(a, b)):
        if p is None or q is None:
            continue
        mon.ev("bitwise-comparisons")
        if util.same_bits(p, q):
            mon.ev("bitwise-equal")
            continue
        if p.shape != q.shape or p.dtype != q.dtype:
            return mon.fail(kind, f"{what}: result {i} was {tuple(p.shape)} {p.dtype}, now {tuple(q.shape)} {q.dtype}")
        # vendor kernels may round differently with the memory alignment of their operands
        e = util.relerr(p.detach(), q.detach())
        if not e <= {torch.float64: 1e-10, torch.complex128: 1e-10, torch.float32: 1e-4, torch.complex64: 1e-4}.get(p.dtype, 0):
            return mon.fail(kind, f"{what}: result {i} differs (relative {e:.3g})")


def history(rng, mon):
    cs = [draw(rng) for _ in range(rng.randint(1, 4))]
    mon.case(calls=[desc(c) for c in cs])
    first = None
    for c in cs:
        out = watch(mon, desc(c), c.t, c.run)
        if first is None:
            first = [o if o is None else o.detach().clone() for o in out]
            kept = out
    again = watch(mon, "repeat of " + desc(cs[0]), cs[0].t, cs[0].run)
    mon.ev("histories")
    same(mon, first, again, f"repeating the first call after {len(cs) - 1} others")
    same(mon, first, [None if o is None else o.detach() for o in kept], "a result changed after it was returned")


def stale(rng, mon):
    """overwrite the arguments in place, call again: the result must be that of the new values"""
    c = draw(rng, small=True)
    c2 = None
    mon.case(call=desc(c), sig=["stale", desc(c)])
    c.t = copies(c.t)
    mon.call(c.run)
    k = rng.choice([n for n, v in c.t.items() if v is not None and v.numel()])
    new = {n: (v.flip(0) * 0.5 if v.is_floating_point() or v.is_complex() else v.flip(0)) if v is not None and v.dim() else v for n, v in c.t.items()}
    if c.op == "lti.diag_state_space":  # keep the decomposition consistent
        ks = [n for n in ("x", "B", "C", "D", "zi") if c.t.get(n) is not None]
    elif c.op == "poly.polydiv" or c.op.startswith("mat"):
        ks = [n for n in ("u",) if n in c.t] or list(c.t)
    else:
        ks = [k] if rng.random() < 0.5 else [n for n, v in c.t.items() if v is not None]
    for n in ks:
        c.t[n].copy_(new[n])
    got = mon.call(c.run)
    fresh = mon.call(c.run, **copies(c.t))
    mon.ev("in-place-updates")
    same(mon, got, fresh, f"after overwriting {ks} in place, compared with fresh copies", "stale")


def results(rng, mon):
    """overwriting a result does not reach a later call's result"""
    c = draw(rng, small=True)
    mon.case(call=desc(c), sig=["results", desc(c)])
    saved = copies(c.t)
    out = mon.call(c.run, **saved)
    first = [None if o is None else o.detach().clone() for o in out]
    alias = {o.untyped_storage().data_ptr() for o in out if o is not None and o.numel()} & {v.untyped_storage().data_ptr() for v in saved.values() if v is not None and v.numel()}
    if alias:
        mon.ev("results-aliasing-an-argument")
    for o in out:
        if o is not None and o.numel():
            try:
                o.detach().fill_(7)
            except RuntimeError:
                mon.ev("read-only-results")  # an expanded view
    if len([o for o in out if o is not None]) > 1 and not alias:
        mon.ev("tuples")
    again = mon.call(c.run, **copies(c.t))
    mon.ev("result-overwrites")
    same(mon, first, again, "after overwriting the first result")


def backward(rng, mon):
    """gradients: nothing mutated, repeated backward identical, grads independent of each other"""
    p = dict(small=True, f32_ok=False, numbers="float", layouts=0.1)
    c = draw(rng, **p)
    leaves = {k: v for k, v in c.t.items() if v is not None and (v.is_floating_point() or v.is_complex()) and k not in c.skip_grad}
    names = util.grad_leaves(rng, leaves)
    if not names:
        raise Skip()
    mon.case(call=desc(c), wrt=names, sig=["bw", desc(c), names])
    t = {k: (v.detach().clone().requires_grad_(True) if k in names else v) for k, v in c.t.items()}
    box = {}

    def forward():
        box["out"] = [o for o in ops.astuple(c.fn(**t)) if o is not None and o.requires_grad]
        return box["out"]

    out = watch(mon, desc(c), t, forward)
    if not out:
        raise Skip()
    cots = [ops.randn(rng, tuple(o.shape), o.dtype) for o in out]
    if any(o.numel() == 0 for o in out):
        raise Skip()

    def bwd():
        return torch.autograd.grad(out, [t[k] for k in names], cots, retain_graph=True, allow_unused=True)

    allt = dict(t)
    allt.update({f"cotangent{i}": v for i, v in enumerate(cots)})
    allt.update({f"result{i}": v for i, v in enumerate(out)})
    g1 = watch(mon, "backward of " + desc(c), allt, bwd)
    keep = [None if g is None else g.clone() for g in g1]
    g2 = watch(mon, "second backward of " + desc(c), allt, bwd)
    mon.ev("backwards")
    same(mon, keep, list(g2), "second backward through the same graph", "backward")
    same(mon, keep, list(g1), "gradients changed after they were returned", "backward")
    with torch.no_grad():
        plain = [o for o in ops.astuple(mon.call(lambda: c.fn(**{k: None if v is None else v.detach() for k, v in t.items()}))) if o is not None]
    full = [o for o in ops.astuple(c.fn(**t)) if o is not None]
    ops.compare(mon, [f.detach() for f in full], plain, tol=max(c.tol, 1), what="with and without gradients", strict_dtype=False)


def modes(rng, mon):
    """no_grad and inference mode give the same values"""
    c = draw(rng, small=True)
    mon.case(call=desc(c), sig=["modes", desc(c)])
    a = mon.call(c.run)
    with torch.no_grad():
        b = mon.call(c.run)
    with torch.inference_mode():
        d = [None if o is None else o.clone() for o in mon.call(c.run)]
    mon.ev("modes")
    if any(o is not None and o.requires_grad for o in a):
        mon.fail("requires_grad", "a result requires grad although no argument does")
    same(mon, a, b, "under no_grad", "mode")
    same(mon, a, d, "under inference_mode", "mode")


_zygote = {}


def worker_init():
    """A child forked before any call was made: it forks again for every request, so each answer comes from a process without a past."""
    r1, w1 = os.pipe()
    r2, w2 = os.pipe()
    pid = os.fork()
    if pid:
        os.close(r1)
        os.close(w2)
        _zygote.update(w=os.fdopen(w1, "wb"), r=os.fdopen(r2, "rb"))
        return
    os.close(w1)
    os.close(r2)
    f = os.fdopen(r1, "rb")
    signal.signal(signal.SIGCHLD, signal.SIG_DFL)
    while True:
        try:
            key = pickle.load(f)
        except (EOFError, OSError):
            os._exit(0)
        child = os.fork()
        if not child:
            try:
                out = _case(key)[0].run()
                data = pickle.dumps([None if o is None else (o.dtype, o.detach().resolve_conj().resolve_neg().contiguous().clone()) for o in out])
            except BaseException as e:
                data = pickle.dumps(f"{type(e).__name__}: {e}")
            data = len(data).to_bytes(8, "little") + data
            while data:
                data = data[os.write(w2, data):]
            os._exit(0)
        os.waitpid(child, 0)


def _case(key):
    """the call named by key, and other calls like it"""
    rng = random.Random(key)
    torch.manual_seed(rng.getrandbits(60))
    return draw(rng, small=True), rng


def ask(key):
    pickle.dump(key, _zygote["w"])
    _zygote["w"].flush()
    n = int.from_bytes(_zygote["r"].read(8), "little")
    return pickle.loads(_zygote["r"].read(n))


OTHER = {torch.float64: [torch.float32, torch.complex128], torch.float32: [torch.float64, torch.complex64], torch.complex128: [torch.complex64], torch.complex64: [torch.complex128]}


def pristine(rng, mon):
    """a call after a long history, preceded by a similar one, against the same call in a process that never made another"""
    key = f"pristine {rng.getrandbits(60)}"
    c, r2 = _case(key)
    dt = next((v.dtype for v in c.t.values() if v is not None), None)
    how = r2.choice(["dtype", "dtype", "values", "part"])
    mon.case(call=desc(c), before=how, sig=["pristine", desc(c), how])
    like = copies(c.t)
    if how == "dtype" and dt in OTHER:
        to = r2.choice(OTHER[dt])
        like = {k: v if v is None or v.dtype != dt else v.to(to) for k, v in like.items()}
    elif how == "part" and c.info.get("T", 0) > 2:
        like = {**like, **util.time_slice(c, 0, c.info["T"] // 2)}
    else:
        like = {k: v if v is None or not v.dim() else v.flip(0) for k, v in like.items()}
    try:
        c.run(**like)  # (may be outside the function's domain)
    except Exception:
        mon.ev("similar-calls-refused")
    got = mon.call(c.run)
    want = ask(key)
    if isinstance(want, str):
        return mon.fail("history", f"the same call alone in a new process raised {want}")
    mon.ev("pristine-comparisons")
    same(mon, [o if o is None else o.detach() for o in got], [None if o is None else o[1] for o in want], f"after a history ({how} changed just before), against the same call in a new process")


def _unusual(f):
    def g(rng, mon):
        with util.unusual(rng, 0.4) as w:
            mon.ev("unusual-settings" if w else "default-settings")
            f(rng, mon)

    return g


history, backward = _unusual(history), _unusual(backward)
STRATA = {"pristine": (pristine, 700, 8000), "history": (history, 900, 10000), "stale": (stale, 600, 8000), "results": (results, 500, 6000), "backward": (backward, 500, 6000), "modes": (modes, 400, 5000)}
REQUIRED = {"histories": 700, "argument-snapshots": 5000, "bitwise-comparisons": 2000, "in-place-updates": 400, "backwards": 250, "modes": 300, "pristine-comparisons": 500}
