"""Gradients do not depend on how differentiation is driven."""
import pickle
import threading
import warnings

import torch
from torch.utils.checkpoint import checkpoint

from .. import load, ops, util
from ..core import Skip
from ..ops import Profile
from .c12 import SMALL
from .c23 import copies

ID = "C34"
RULE = ("Each case is one call of a public function or recurrence operator with random options and a random subset of arguments requiring gradients; its gradients for a random cotangent, obtained by one plain torch.autograd.grad, are compared with those obtained "
        "another way: saved tensors packed to bytes and unpacked (saved_tensors_hooks), activation checkpointing (both variants), several cotangents at once (is_grads_batched), backward() into .grad (twice: accumulated), "
        "backward from another thread, under no_grad, in anomaly mode, under another default dtype, with create_graph, one argument at a time, one result at a time through a retained graph, with the arguments behind a view or an identity operation, "
        "with one tensor passed for two arguments (the sum of their gradients), with a conjugated or expanded cotangent, with the call recorded by a module's parameters. Distinct: drawn configuration, subset, way.")
ASSUMPTIONS = ["whether the plain gradients are right is C12's concern", "batched cotangents and reentrant checkpointing may be refused (counted)"]
GEN = ["lti_lfilter", "lti_fir", "lti_state_space", "lti_ssr", "lti_linrec", "lti_diag", "lti_comb", "lti_filtfilt", "lti_zi", "lti_ic", "lti_cspline", "lti_spline",
       "lpv_fir", "lpv_allpole", "lpv_lfilter", "lpv_state_space", "lpv_ssr", "lpv_linrec", "native", "function", "polydiv", "mat"]


def setup():
    load.philtorch()


def pack(v):
    v = v.detach().resolve_conj().resolve_neg().contiguous()
    return pickle.dumps((v.numpy().tobytes(), v.dtype, tuple(v.shape)))


def unpack(b):
    data, dtype, shape = pickle.loads(b)
    return torch.frombuffer(bytearray(data), dtype=dtype).reshape(shape) if data else torch.empty(shape, dtype=dtype)


class Problem:
    def __init__(self, c, names, cots):
        self.c, self.names, self.cots = c, names, cots

    def fresh(self):
        t = copies(self.c.t)
        for k in self.names:
            t[k].requires_grad_(True)
        return t

    def out(self, t):
        return [o for o in ops.astuple(self.c.fn(**t)) if o is not None]

    def grad(self, out, t, cots=None, **kw):
        act = [(o, w) for o, w in zip(out, cots or self.cots) if o.requires_grad]
        return list(torch.autograd.grad([o for o, _ in act], [t[k] for k in self.names], [w for _, w in act], allow_unused=True, **kw))


def plain(q):
    t = q.fresh()
    return q.grad(q.out(t), t)


def hooks(q, rng):
    t = q.fresh()
    count = [0]

    def p(v):
        count[0] += 1
        return pack(v)

    with torch.autograd.graph.saved_tensors_hooks(p, unpack):
        out = q.out(t)
    g = q.grad(out, t)
    return g, {"tensors-packed": count[0]}


def ckpt(reentrant):
    def f(q, rng):
        t = q.fresh()
        keys = [k for k, v in t.items() if v is not None]

        def call(*a):
            return tuple(q.out({**t, **dict(zip(keys, a))}))

        out = list(checkpoint(call, *[t[k] for k in keys], use_reentrant=reentrant, preserve_rng_state=False))
        if reentrant:
            for k in q.names:
                t[k].grad = None
            torch.autograd.backward([o for o in out if o.requires_grad], [w.clone() for o, w in zip(out, q.cots) if o.requires_grad])  # (.grad may take over its memory)
            return [t[k].grad for k in q.names]
        return q.grad(out, t)

    return f


def batched(q, rng):
    t = q.fresh()
    out = q.out(t)
    K = rng.randint(1, 3)
    k = rng.randrange(K)
    stacked = [torch.stack([w if i == k else ops.randn(rng, tuple(w.shape), w.dtype) for i in range(K)]) for w in q.cots]
    g = q.grad(out, t, stacked, is_grads_batched=True)
    return [None if x is None else x[k] for x in g]


def accumulate(q, rng):
    t = q.fresh()
    n = rng.choice([1, 2])
    for _ in range(n):
        out = q.out(t)
        torch.autograd.backward([o for o in out if o.requires_grad], [w.clone() for o, w in zip(out, q.cots) if o.requires_grad])  # (.grad may take over its memory)
    return [None if t[k].grad is None else t[k].grad / n for k in q.names]


def thread(q, rng):
    t = q.fresh()
    where = rng.choice(["backward", "both"])
    out = q.out(t) if where == "backward" else None
    box = {}

    def go():
        try:
            box["g"] = q.grad(q.out(t) if out is None else out, t)
        except BaseException as e:
            box["e"] = e

    th = threading.Thread(target=go)
    th.start()
    th.join()
    if "e" in box:
        raise box["e"]
    return box["g"]


def no_grad(q, rng):
    t = q.fresh()
    out = q.out(t)
    with torch.no_grad():
        return q.grad(out, t)


def anomaly(q, rng):
    t = q.fresh()
    with torch.autograd.detect_anomaly(check_nan=False):
        return q.grad(q.out(t), t)


def default_dtype(q, rng):
    d = torch.get_default_dtype()
    torch.set_default_dtype(torch.float32 if d == torch.float64 else torch.float64)
    try:
        t = q.fresh()
        return q.grad(q.out(t), t)
    finally:
        torch.set_default_dtype(d)


def create(q, rng):
    t = q.fresh()
    return q.grad(q.out(t), t, create_graph=True)


def one_argument(q, rng):
    t = q.fresh()
    out = q.out(t)
    act = [(o, w) for o, w in zip(out, q.cots) if o.requires_grad]
    g = {}
    for k in rng.sample(q.names, len(q.names)):
        g[k], = torch.autograd.grad([o for o, _ in act], [t[k]], [w for _, w in act], allow_unused=True, retain_graph=True)
    return [g[k] for k in q.names]


def only_argument(q, rng):
    """the other arguments do not require gradients"""
    k = rng.choice(q.names)
    t = copies(q.c.t)
    t[k].requires_grad_(True)
    out = q.out(t)
    act = [(o, w) for o, w in zip(out, q.cots) if o.requires_grad]
    g = torch.autograd.grad([o for o, _ in act], [t[k]], [w for _, w in act], allow_unused=True)[0] if act else None
    return [g if n == k else ... for n in q.names]


def one_result(q, rng):
    t = q.fresh()
    out = q.out(t)
    total = [None] * len(q.names)
    for o, w in rng.sample(list(zip(out, q.cots)), len(out)):
        if o.requires_grad:
            g = torch.autograd.grad(o, [t[k] for k in q.names], w, allow_unused=True, retain_graph=True)
            total = [b if a is None else a if b is None else a + b for a, b in zip(total, g)]
    return total


def behind(q, rng):
    """the arguments are not leaves: views, identities, slices of a larger tensor"""
    t = copies(q.c.t)
    leaf, back = {}, {}
    for k in q.names:
        v = t[k]
        how = rng.choice(["one", "view", "slice", "transpose", "cat"])
        back[k] = lambda g: g
        if how == "view":
            leaf[k] = v.flatten().requires_grad_(True)
            t[k] = leaf[k].view(v.shape)
            back[k] = lambda g, s=v.shape: g.view(s)
        elif how == "slice" and v.dim():
            leaf[k] = torch.cat([v, v], -1).requires_grad_(True)
            t[k] = leaf[k][..., : v.shape[-1]]
            back[k] = lambda g, n=v.shape[-1]: g[..., :n]
        elif how == "transpose" and v.dim() > 1:
            leaf[k] = v.transpose(0, -1).contiguous().requires_grad_(True)
            t[k] = leaf[k].transpose(0, -1)
            back[k] = lambda g: g.transpose(0, -1)
        else:
            leaf[k] = v.requires_grad_(True)
            t[k] = torch.cat([v[..., :1], v[..., 1:]], -1) if how == "cat" and v.dim() and v.shape[-1] > 1 else v * 1
    out = q.out(t)
    act = [(o, w) for o, w in zip(out, q.cots) if o.requires_grad]
    g = torch.autograd.grad([o for o, _ in act], [leaf[k] for k in q.names], [w for _, w in act], allow_unused=True)
    return [None if x is None else back[k](x) for k, x in zip(q.names, g)]


def parameters(q, rng):
    class Module(torch.nn.Module):
        def __init__(self):
            super().__init__()
            for k in q.names:
                setattr(self, "p_" + k, torch.nn.Parameter(q.c.t[k].detach().clone()))

        def forward(self, rest):
            return q.out({**rest, **{k: getattr(self, "p_" + k) for k in q.names}})

    m = Module()
    out = m({k: v for k, v in copies(q.c.t).items() if k not in q.names})
    torch.autograd.backward([o for o in out if o.requires_grad], [w.clone() for o, w in zip(out, q.cots) if o.requires_grad])  # (.grad may take over its memory)
    return [getattr(m, "p_" + k).grad for k in q.names]


def cotangents(q, rng):
    t = q.fresh()
    out = q.out(t)
    cots = []
    for w in q.cots:
        how = rng.choice(["conj", "strided", "flipped", "same"])
        if how == "conj" and w.is_complex():
            w = w.conj().resolve_conj().conj()
        elif how == "strided" and w.dim():
            w = torch.stack([w, w], -1)[..., 0]
        elif how == "flipped" and w.dim() > 1:
            w = w.transpose(0, 1).contiguous().transpose(0, 1)
        cots.append(w)
    return q.grad(out, t, cots)


WAYS = dict(hooks=hooks, checkpoint=ckpt(False), reentrant=ckpt(True), batched=batched, accumulate=accumulate, thread=thread, no_grad=no_grad, anomaly=anomaly, default_dtype=default_dtype, create=create,
            one_argument=one_argument, only_argument=only_argument, one_result=one_result, behind=behind, parameters=parameters, cotangents=cotangents)
MAY_REFUSE = {"batched", "reentrant"}


def judge(mon, c, way, names, g, want, cots):
    for n, a, b in zip(names, g, want):
        if a is ...:
            continue
        mon.ev("gradients-compared")
        if a is None and b is None:
            continue
        b = torch.zeros_like(c.t[n]) if b is None else b.detach()
        a = torch.zeros_like(b) if a is None else a.detach()
        if a.shape != b.shape or a.dtype != b.dtype:
            return mon.fail("gradient", f"gradient of {n} ({way}) is {tuple(a.shape)} {a.dtype}, plainly {tuple(b.shape)} {b.dtype}")
        if not torch.isfinite(b).all():
            mon.ev("gradients-not-finite")
            continue
        e = (a - b).abs().max().item() if a.numel() else 0.0
        scale = b.abs().max().item() if b.numel() else 0.0
        if not e <= 1e-9 * max(c.tol, 1) * (1 + scale):
            return mon.fail("gradient", f"gradient of {n} of {c.op} ({way}) differs by {e:.3g} from the plain one of size {scale:.3g}")


def _case(gen, **kw):
    def f(rng, mon):
        p = dict(SMALL, maxT=14, maxB=4, maxM=5, layouts=0.1)
        p["unroll"] = rng.choice(["one", "default", "any"])
        p.update(kw)
        p["dtype"] = torch.complex128 if rng.random() < 0.25 else torch.float64
        c = gen(rng, Profile(**p))
        floats = {k: v for k, v in c.t.items() if v is not None and (v.is_floating_point() or v.is_complex()) and v.numel() and k not in c.skip_grad}
        names = util.grad_leaves(rng, floats)
        if not names or any(v is not None and v.dtype == torch.int64 for v in c.t.values()):
            raise Skip()
        q = Problem(c, names, [])
        with torch.no_grad():
            out = mon.call(q.out, copies(c.t))
        if any(not o.numel() for o in out):
            raise Skip()
        q.cots = [ops.randn(rng, tuple(o.shape), o.dtype) for o in out]
        t = q.fresh()
        if not any(o.requires_grad for o in q.out(t)):
            raise Skip()
        want = mon.call(plain, q)
        ways = rng.sample(list(WAYS), 4)
        mon.case(**c.desc, wrt=names, ways=ways)
        for way in ways:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                try:
                    g = WAYS[way](q, rng)
                except Exception as e:
                    if way in MAY_REFUSE:
                        mon.ev("refused-" + way)
                        continue
                    return mon.fail("exception", f"gradients of {c.op} ({way}): {type(e).__name__}: {e}")
            if isinstance(g, tuple):
                g, extra = g
                for k, n in extra.items():
                    mon.ev(k, n)
            mon.ev("way-" + way)
            judge(mon, c, way, names, g, want, q.cots)

    return f


def shared(rng, mon):
    """one tensor passed for two arguments"""
    name = rng.choice([g for g in GEN if g not in ("lti_zi", "lti_diag")])
    c = ops.ALL[name](rng, Profile(**dict(SMALL, maxT=6, maxB=3, maxM=4, layouts=0, dtype=torch.complex128 if rng.random() < 0.25 else torch.float64, unroll=rng.choice(["one", "default", "any"]))))
    floats = {k: v for k, v in c.t.items() if v is not None and (v.is_floating_point() or v.is_complex()) and v.numel() and k not in c.skip_grad}
    pairs = [(i, j) for i in floats for j in floats if i < j and floats[i].shape == floats[j].shape and floats[i].dtype == floats[j].dtype]
    if not pairs:
        raise Skip()
    i, j = rng.choice(pairs)
    c.t = copies(c.t)
    c.t[j] = c.t[i].clone()
    q = Problem(c, [i, j], [])
    try:
        with torch.no_grad():
            out = q.out(c.t)
    except Exception:
        raise Skip()
    if any(not o.numel() or not torch.isfinite(o).all() or (o.numel() and o.abs().max() > 1e6) for o in out):
        raise Skip()
    mon.case(**c.desc, shared=[i, j])
    q.cots = [ops.randn(rng, tuple(o.shape), o.dtype) for o in out]
    if not any(o.requires_grad for o in q.out(q.fresh())):
        raise Skip()
    a, b = plain(q)
    t = copies(c.t)
    t[i].requires_grad_(True)
    t[j] = t[i]
    one = Problem(c, [i], q.cots)
    got = one.out(t)
    for o, w in zip(got, out):
        if not util.relerr(o.detach(), w) <= 1e-9 * max(c.tol, 1):
            return mon.fail("shared", f"the result of {c.op} changes when one tensor is passed for {i} and {j}")
    want = b if a is None else a if b is None else a + b
    mon.ev("shared-arguments")
    judge(mon, c, f"one tensor for {i} and {j}", [i], one.grad(got, t), [want], q.cots)


N = dict(lti_lfilter=120, lti_state_space=120, lti_ssr=100, lti_diag=60, lpv_lfilter=120, lpv_state_space=120, lpv_ssr=100, native=120, function=120)
STRATA = {k: (_case(ops.ALL[k]), N.get(k, 50), 14 * N.get(k, 50)) for k in GEN}
STRATA |= {k + "_direct": (_case(ops.ALL[k], unroll="one"), 60, 800) for k in ("lti_lfilter", "lti_state_space", "lpv_lfilter", "lpv_state_space", "lti_comb")}
STRATA["shared"] = (shared, 400, 6000)
QUICK = 3
REQUIRED = {"gradients-compared": 8000, "shared-arguments": 60, "tensors-packed": 500} | {"way-" + w: 150 for w in WAYS if w != "reentrant"}
