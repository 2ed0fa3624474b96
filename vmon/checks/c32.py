"""Memory is released: nothing the caller dropped stays alive, and repeated calls do not grow the process."""
import ctypes
import gc

import torch
from torch.multiprocessing.reductions import StorageWeakRef

from .. import load, ops, util
from ..core import Skip
from ..ops import Profile
from .c12 import SMALL

ID = "C32"
RULE = ("retain: one call (with or without gradients, a backward pass, a second-order pass, forward mode or vmap) on freshly allocated arguments; once the caller dropped everything no storage of an argument, result, "
        "cotangent or gradient may be alive (after a call that raised: once the garbage collector ran). growth: the same call, or the same refused call, repeated with arguments allocated anew; the bytes in use by malloc (mallinfo2) and the number of live tensors must not grow with the number of calls. "
        "Distinct: drawn configurations.")
ASSUMPTIONS = ["memory owned by Python's small-object allocator is counted only through the number of live objects", "a cache of bounded size keyed by values or shapes is allowed, retaining the caller's own tensors is not"]
GEN = ["lti_lfilter", "lti_fir", "lti_state_space", "lti_ssr", "lti_linrec", "lti_diag", "lti_comb", "lti_filtfilt", "lti_zi", "lti_ic", "lti_cspline", "lti_spline",
       "lpv_fir", "lpv_allpole", "lpv_lfilter", "lpv_state_space", "lpv_ssr", "lpv_linrec", "native", "function", "polydiv", "mat"]


def worker_init():
    _libc.mallopt(-8, 1)  # M_ARENA_MAX: one arena, which mallinfo2 describes, for all threads
    gc.collect()
    gc.freeze()  # what exists by now is not looked at again


class Info(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks", "uordblks", "fordblks", "keepcost")]


_libc = ctypes.CDLL(None)
_libc.mallinfo2.restype = Info


def in_use():
    i = _libc.mallinfo2()
    return i.uordblks + i.hblkhd


def live():
    return sum(1 for o in gc.get_objects() if type(o) is torch.Tensor or type(o) is torch.nn.Parameter)


def setup():
    load.philtorch()


def fresh(c):
    return {k: v if v is None else v.detach().resolve_conj().resolve_neg().clone() for k, v in c.t.items()}


MODES = ["plain", "no_grad", "graph", "backward", "backward", "partial", "second", "forward", "vmap"]


def use(c, t, mode, names, seen):
    """Call and use the result as mode says; every tensor the caller sees is put into seen."""
    seen += [v for v in t.values() if v is not None]
    if mode in ("plain", "no_grad", "vmap", "forward") or not names:
        if mode == "no_grad":
            with torch.no_grad():
                out = ops.astuple(c.fn(**t))
        elif mode == "vmap" and names:
            k = names[0]
            out = ops.astuple(torch.func.vmap(lambda v: tuple(o for o in ops.astuple(c.fn(**{**t, k: v})) if o is not None))(torch.stack([t[k], t[k]])))
        elif mode == "forward" and names:
            k = names[0]
            v = torch.ones_like(t[k])
            seen.append(v)
            out = sum((list(ops.astuple(o)) for o in torch.func.jvp(lambda u: tuple(o for o in ops.astuple(c.fn(**{**t, k: u})) if o is not None), (t[k],), (v,))), [])
        else:
            out = ops.astuple(c.fn(**t))
        seen += [o for o in out if o is not None]
        return
    for k in names:
        t[k].requires_grad_(True)
    out = [o for o in ops.astuple(c.fn(**t)) if o is not None]
    seen += out
    if mode == "graph":
        return
    out = [o for o in out if o.requires_grad and o.numel()]
    if not out:
        return
    if mode == "partial":
        out = out[-1:]
    cots = [torch.ones_like(o) for o in out]
    seen += cots
    g = torch.autograd.grad(out, [t[k] for k in names], cots, create_graph=mode == "second", allow_unused=True)
    seen += [x for x in g if x is not None]
    if mode == "second":
        s = [x for x in g if x is not None and x.requires_grad]
        if s:
            h = torch.autograd.grad(sum(x.abs().square().sum() for x in s), [t[k] for k in names], allow_unused=True)
            seen += [x for x in h if x is not None]


def draw(rng, gen, **kw):
    p = dict(SMALL, maxT=20, maxB=5, maxM=5, layouts=0)
    p["unroll"] = rng.choice(["one", "default", "any"])
    p.update(kw)
    p["dtype"] = torch.complex128 if rng.random() < 0.2 else torch.float64
    c = gen(rng, Profile(**p))
    floats = {k: v for k, v in c.t.items() if v is not None and (v.is_floating_point() or v.is_complex()) and v.numel() and k not in c.skip_grad}
    return c, util.grad_leaves(rng, floats)


def _retain(gen, **kw):
    def f(rng, mon):
        c, names = draw(rng, gen, **kw)
        mode = rng.choice(MODES)
        mon.case(**c.desc, mode=mode, wrt=names)
        seen, raised = [], False
        gc.disable()
        try:
            use(c, fresh(c), mode, names, seen)
        except Exception as e:
            if mode in ("plain", "no_grad"):
                gc.enable()
                return mon.fail("exception", f"{type(e).__name__}: {e}")
            mon.ev("refused-" + mode)  # (also what was seen until then has to go)
            e, raised = None, True
        refs = {}
        for v in seen:
            try:
                s = v.untyped_storage()
            except (RuntimeError, NotImplementedError):
                continue  # (a functorch wrapper)
            if s.nbytes():
                refs.setdefault(s.data_ptr(), (StorageWeakRef(s), tuple(v.shape)))
        mon.ev("retain-" + mode)
        mon.ev("storages-watched", len(refs))
        seen.clear()
        s = v = None
        late = [sh for r, sh in refs.values() if not r.expired()]
        gc.enable()
        if late:
            gc.collect()
        alive = [sh for r, sh in refs.values() if not r.expired()]
        mon.ev("storages-released", len(refs) - len(alive))
        if alive:
            mon.fail("retained", f"after {mode} of {c.op} {len(alive)} tensors the caller dropped are still alive: shapes {alive[:4]}")
        elif late:
            mon.ev("freed-only-by-the-garbage-collector")
            if not raised:
                mon.fail("cycle", f"after {mode} of {c.op} {len(late)} tensors the caller dropped are in a reference cycle that only the garbage collector frees: shapes {late[:4]}")

    return f


def _steps(fn, n):
    for _ in range(n):
        fn()
    gc.collect()
    return in_use(), live()


def _growth(gen, **kw):
    def f(rng, mon):
        c, names = draw(rng, gen, **{**dict(maxT=48, maxB=8, maxM=6), **kw})
        mode = rng.choice(["plain", "no_grad", "graph", "backward", "second"])
        mon.case(**c.desc, mode=mode, wrt=names, sig=["growth", c.desc, mode, names])
        leaves = c.t

        def once():
            use(c, fresh(c), mode, names, [])

        judge_growth(mon, once, f"{mode} of {c.op}", leaves)

    return f


def judge_growth(mon, once, what, leaves):
    n = 12
    try:
        _steps(once, 6)
    except Exception:
        raise Skip()
    m = [_steps(once, 1)]
    for rounds in range(40):
        for _ in range(3):
            m.append(_steps(once, n))
        mon.ev("growth-measurements", 3)
        mon.ev("calls", 3 * n)
        # a leak is at least one small block (16 bytes with its header: 32) in every call of every round
        bytes_ = [(b[0] - a[0]) / n for a, b in zip(m[-4:], m[-3:])]
        tensors = [(b[1] - a[1]) / n for a, b in zip(m[-4:], m[-3:])]
        if min(tensors) < 1 and min(bytes_) < 32:
            return mon.ev("steady" if rounds == 0 else "steady-after-a-while")
    # (a bounded cache has been filled by now)
    mon.fail("growth", f"{what}: after {len(m) * n} calls the number of live tensors still grows by {tensors} and the memory in use by {[round(b) for b in bytes_]} bytes per call")


def refused(rng, mon):
    """calls that raise release what they allocated"""
    c, _ = draw(rng, ops.ALL["native"])
    t = fresh(c)
    names = [k for k, v in t.items() if v is not None and v.dim()]
    k = rng.choice(names)
    d = rng.randrange(t[k].dim())
    bad = torch.cat([t[k], t[k].narrow(d, 0, min(1, t[k].shape[d]))], d) if rng.random() < 0.7 else t[k].to(torch.complex64 if t[k].is_complex() else torch.float32)
    mon.case(**c.desc, bad=k, dim=d, sig=["refused", c.desc, k, d])

    def once():
        try:
            c.fn(**{**t, k: bad.clone()})
        except Exception:
            once.raised += 1

    once.raised = 0
    judge_growth(mon, once, f"refused call of {c.op}", t)
    mon.ev("refused-calls", once.raised)


STRATA = {"retain_" + k: (_retain(ops.ALL[k]), 60, 700) for k in GEN}
STRATA |= {"retain1_" + k: (_retain(ops.ALL[k], unroll="one"), 40, 500) for k in ("lti_lfilter", "lti_state_space", "lti_ssr", "lti_diag", "lpv_lfilter", "lpv_state_space", "lpv_ssr", "function", "native")}
STRATA |= {"growth_" + k: (_growth(ops.ALL[k]), 6, 80) for k in GEN}
STRATA |= {"growth_native_ops": (_growth(ops.ALL["native"]), 20, 300), "refused": (refused, 15, 200)}
QUICK = 4
REQUIRED = {"storages-watched": 4000, "retain-backward": 250, "retain-second": 100, "growth-measurements": 300, "refused-calls": 300}
