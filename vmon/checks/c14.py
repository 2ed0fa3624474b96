"""Abstract evaluation, tracing and compilation agree with eager execution."""
import itertools

import torch

from .. import load, native, ops, util  # noqa: F401
from ..core import Skip
from ..ops import Profile
from . import c25

ID = "C14"
RULE = ("fake: the operators are evaluated on fake and on meta copies (same strides) of drawn arguments with unusual layouts and on symbolic shapes, shape/stride/dtype/device compared with the real result; reject: one size of a valid call is changed, "
        "fake and real must both raise; functions: public functions run on fake tensors must give the real output shapes and dtypes; fx: functions (and their gradients) are traced with make_fx and the graph is run on other data; "
        "compile: torch.compile (aot_eager) of functions and gradients, static or dynamic shapes, run on several inputs and sizes; opcheck: torch.library.opcheck on unusual layouts. Compared with eager on the same arguments. Distinct: drawn configuration.")
ASSUMPTIONS = ["torch.compile is run with the aot_eager backend (tracing, functionalisation and autograd partitioning, but no code generation)", "functions whose control flow needs tensor values (eigen-decomposition based ones, filtfilt's helpers) are only traced where PyTorch supports it"]
QUICK = 1
BUDGET = {"quick": 420, "thorough": 900}
NAMES = ["lti_recur", "lti_recur2", "lti_recurN", "recur2", "recurN"]


def setup():
    load.philtorch()
    import torch._dynamo  # noqa: F401
    from torch.fx.experimental.proxy_tensor import make_fx  # noqa: F401
    from torch._subclasses.fake_tensor import FakeTensorMode  # noqa: F401
    from torch.fx.experimental.symbolic_shapes import ShapeEnv  # noqa: F401


def meta(t):
    return (tuple(int(n) for n in t.shape), tuple(int(n) for n in t.stride()), t.dtype, str(t.device))


def norm(m):
    """strides of axes of size 1 carry no meaning"""
    return (m[0], tuple(s if n > 1 else 0 for n, s in zip(m[0], m[1])) if all(m[0]) else None) + m[2:]


def fake(rng, mon):
    from torch._subclasses.fake_tensor import FakeTensorMode
    from torch.fx.experimental.symbolic_shapes import ShapeEnv

    c = ops.gen_native(rng, Profile(layouts=0.6, maxB=9, maxT=20, maxM=7), which=rng.choice(NAMES))
    how = rng.choice(["fake", "meta", "symbolic"])
    mon.case(**c.desc, how=how, strides=[v.stride() for v in c.t.values()])
    (y,) = mon.call(c.run)
    want = meta(y)

    def ev():
        if how == "meta":
            t = {k: torch.empty_strided(v.shape, v.stride(), dtype=v.dtype, device="meta") for k, v in c.t.items()}
            return c.run(**t)[0]
        mode = FakeTensorMode(shape_env=ShapeEnv() if how == "symbolic" else None, static_shapes=how != "symbolic")
        t = {k: mode.from_tensor(v) for k, v in c.t.items()}
        with mode:
            return c.run(**t)[0]

    f = mon.call(ev)
    got = meta(f)
    mon.ev("fake-results")
    if how == "meta":
        got = got[:3] + ("cpu",)
    if norm(got) != norm(want):
        mon.fail("fake", f"{how} evaluation predicts {got}, the operator returns {want}")


def reject(rng, mon):
    """sizes that the operator rejects are rejected by its abstract evaluation too (and the reverse)"""
    c = ops.gen_native(rng, Profile(dtype=torch.float64, coincide=0, maxB=9, maxT=20, maxM=6), which=rng.choice(NAMES))
    x = c.t["x"]
    if min(x.shape) < 2:
        raise Skip()
    k = rng.choice(["A", "zi", "x"])
    s = list(c.t[k].shape)
    if not s:
        raise Skip()
    d = rng.randrange(len(s))
    r = rng.random()
    if r < 0.25:  # another rank
        if rng.random() < 0.5:
            s.insert(d, rng.choice([1, 2, *x.shape]))
        else:
            del s[d]
    else:
        s[d] = 1 if r < 0.5 else max(1, s[d] + rng.choice([-1, 1, 2, 5, s[d]]))
    t = dict(c.t)
    t[k] = torch.zeros(s, dtype=torch.float64)
    mon.case(**c.desc, changed=k, to=tuple(s))

    def attempt(t):
        try:
            return c.run(**t)[0].shape
        except Exception:
            return None

    real, pred = attempt(t), attempt({n: v.to("meta") for n, v in t.items()})
    mon.ev("rejected-by-both" if real is None and pred is None else "parity")
    if (real is None) != (pred is None):
        mon.fail("reject", f"{k} of shape {tuple(s)}: operator {'raises' if real is None else f'returns {tuple(real)}'}, abstract evaluation {'raises' if pred is None else f'predicts {tuple(pred)}'}")
    elif real is not None and tuple(real) != tuple(pred):
        mon.fail("fake", f"operator returns {tuple(real)}, abstract evaluation predicts {tuple(pred)}")


FUNS = ["lti_lfilter", "lti_fir", "lti_state_space", "lti_ssr", "lti_linrec", "lti_comb", "lti_cspline", "lti_spline", "lpv_fir", "lpv_allpole", "lpv_lfilter", "lpv_state_space", "lpv_ssr", "lpv_linrec", "native"]
UNTRACEABLE = ("DataDependent", "GuardOnDataDependent", "DynamicOutputShape", "UnsupportedOperator", "Unsupported", "NotImplementedError", "TorchRuntimeError")


def small(rng, op, **kw):
    p = dict(dtype=torch.complex128 if rng.random() < 0.15 else torch.float64, numbers="float", maxB=5, maxT=14, maxM=4)
    p.update(kw)
    c = ops.ALL[op](rng, Profile(**p))
    if c.desc.get("backend") in ("diag_ssm", "torchlpc"):
        raise Skip()
    if c.t["x"].numel() == 0 or any(v is not None and v.dtype == torch.int64 for v in c.t.values()):
        raise Skip()
    return c


def functions(rng, mon):
    from torch._subclasses.fake_tensor import FakeTensorMode

    c = small(rng, rng.choice(FUNS), layouts=0.3)
    mon.case(**c.desc)
    want = mon.call(c.run)
    mode = FakeTensorMode()
    t = {k: None if v is None else mode.from_tensor(v) for k, v in c.t.items()}

    def go():
        with mode:
            return c.run(**t)

    try:
        got = go()
    except Exception as e:
        if "torchlpc" in str(e):  # the dependency registers no abstract evaluation
            mon.ev("untraceable")
            return
        mon.fail("exception", f"on fake tensors: {type(e).__name__}: {e}")
        return
    mon.ev("functions-on-fake")
    a, b = [(tuple(o.shape), o.dtype) for o in got if o is not None], [(tuple(o.shape), o.dtype) for o in want if o is not None]
    if a != b:
        mon.fail("fake", f"on fake tensors {c.op} predicts {a}, eager returns {b}")


def program(c, names, leaves, grad):
    """tensors -> outputs (and gradients with respect to `leaves`)"""

    def f(*ts):
        t = dict(zip(names, ts))
        out = [o for o in c.run(**{**{k: None for k in c.t}, **t}) if o is not None]
        if not grad:
            return tuple(out)
        loss = sum((torch.view_as_real(o) if o.is_complex() else o).square().sum() * (0.7 + 0.3 * i) for i, o in enumerate(out))
        if not loss.requires_grad:  # (df1 and tdf1 have no state)
            return tuple(out)
        g = torch.autograd.grad(loss, [t[k] for k in leaves], allow_unused=True)
        return tuple(out) + tuple(x for x in g if x is not None)

    return f


def other(rng, c, names):
    """other data of the same shapes and layout"""
    return [torch.empty_strided(c.t[k].shape, c.t[k].stride(), dtype=c.t[k].dtype).copy_(c.t[k] * (0.3 + 0.6 * rng.random())) if c.t[k].numel() == 0 or min(c.t[k].stride() or (1,)) > 0 else c.t[k] * 0.5 for k in names]


def same(mon, got, want, c, what):
    got, want = [g for g in got], [w for w in want]
    if len(got) != len(want):
        mon.fail("arity", f"{what}: {len(got)} results, eager gives {len(want)}")
        return False
    for i, (g, w) in enumerate(zip(got, want)):
        if g.shape != w.shape or g.dtype != w.dtype:
            mon.fail("shape", f"{what}[{i}]: {tuple(g.shape)} {g.dtype}, eager gives {tuple(w.shape)} {w.dtype}")
            return False
        mon.ev("compared")
        if not util.relerr(g.detach(), w.detach()) <= 1e-8 * max(1.0, min(c.tol, 1e4)):
            mon.fail("value", f"{what}[{i}] differs from eager by {util.relerr(g.detach(), w.detach()):.3g}")
            return False
    return True


def fx(rng, mon):
    from torch.fx.experimental.proxy_tensor import make_fx

    c = small(rng, rng.choice(FUNS))
    names = [k for k, v in c.t.items() if v is not None]
    leaves = [k for k in names if rng.random() < 0.6] or names[:1]
    grad = rng.random() < 0.6
    tm = rng.choice(["real", "fake", "symbolic"])
    mon.case(**c.desc, mode=tm, grad=grad, leaves=leaves)
    f = program(c, names, leaves, grad)
    mk = lambda ts: [t.detach().clone().requires_grad_(grad and k in leaves) for k, t in zip(names, ts)]
    try:
        g = make_fx(f, tracing_mode=tm)(*mk([c.t[k] for k in names]))
    except Exception as e:
        if any(u in type(e).__name__ for u in UNTRACEABLE) or "unbacked" in str(e):
            mon.ev("untraceable")
            return
        mon.fail("exception", f"make_fx({tm}): {type(e).__name__}: {e}")
        return
    mon.ev("graphs")
    for _ in range(2):
        ts = other(rng, c, names)
        got = mon.call(g, *mk(ts))
        if not same(mon, got, f(*mk(ts)), c, f"graph traced with make_fx({tm})"):
            return


def compiled(rng, mon):
    import torch._dynamo as dyn

    dyn.reset()
    op = rng.choice(FUNS)
    c = small(rng, op)
    names = [k for k, v in c.t.items() if v is not None]
    leaves = [k for k in names if rng.random() < 0.6] or names[:1]
    grad = rng.random() < 0.7
    dynamic = rng.choice([None, True, False])
    mon.case(**c.desc, dynamic=dynamic, grad=grad, leaves=leaves)
    f = program(c, names, leaves, False)
    backend = "aot_eager"
    g = torch.compile(f, backend=backend, dynamic=dynamic)

    def both(h, ts):
        ts = [t.detach().clone().requires_grad_(grad and k in leaves) for k, t in zip(names, ts)]
        out = list(h(*ts))
        if grad:
            loss = sum((torch.view_as_real(o) if o.is_complex() else o).square().sum() * (0.7 + 0.3 * i) for i, o in enumerate(out))
            if loss.requires_grad:
                out += [x for x in torch.autograd.grad(loss, [t for t in ts if t.requires_grad], allow_unused=True) if x is not None]
        return out

    data = [other(rng, c, names) for _ in range(2)]
    for ts in data:
        want = both(f, ts)
        got = mon.call(both, g, ts)
        mon.ev("compiled-calls")
        if not same(mon, got, want, c, f"torch.compile(dynamic={dynamic})"):
            return
    # another length through the same compiled function
    T = c.info.get("T", 1)
    if op not in ("lti_cspline", "lti_spline") and T > 3:
        n = rng.randint(1, T - 1)
        sl = util.time_slice(c, 0, n)
        ts = [sl[k] if k in sl and sl[k] is not None else c.t[k] for k in names]
        try:
            want = both(f, ts)
        except Exception:
            return  # (the shorter length reads another way)
        got = mon.call(both, g, ts)
        mon.ev("other-length-calls")
        same(mon, got, want, c, f"torch.compile(dynamic={dynamic}) at another length")


def opcheck(rng, mon):
    name = rng.choice(NAMES)
    c = ops.gen_native(rng, Profile(dtype=rng.choice([torch.float64, torch.complex128]), numbers="float", layouts=0.5, maxB=5, maxT=8, maxM=4), which=name)
    t = [v.detach().clone(memory_format=torch.preserve_format) if min(v.stride() or (1,)) > 0 else v for v in c.t.values()]
    req = rng.random() < 0.7
    t = [v.requires_grad_(req and rng.random() < 0.7) for v in t]
    mon.case(**c.desc, strides=[v.stride() for v in t], grad=[v.requires_grad for v in t])
    mon.ev("opchecks")
    op = getattr(torch.ops.philtorch, name)
    r = torch.library.opcheck(op, tuple(t), test_utils=("test_schema", "test_autograd_registration", "test_faketensor") + (("test_aot_dispatch_dynamic",) if rng.random() < 0.5 else ()), raise_exception=False)
    badly = {k: v for k, v in r.items() if v != "SUCCESS"}
    if badly:
        mon.fail("opcheck", str({k: str(v)[:400] for k, v in badly.items()}))


STRATA = {
    "fake": (fake, 1500, 12000),
    "reject": (reject, 2500, 20000),
    "functions": (functions, 500, 5000),
    "fx": (fx, 260, 3000),
    "compile": (compiled, 90, 900),
    "opcheck": (opcheck, 60, 600),
}
REQUIRED = {"fake-results": 400, "rejected-by-both": 150, "functions-on-fake": 120, "graphs": 60, "compiled-calls": 40, "opchecks": 20}
