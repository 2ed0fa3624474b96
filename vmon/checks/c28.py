"""Dtype and precision."""
import torch

from .. import load, ops, util
from ..core import Skip
from ..ops import Profile

ID = "C28"
RULE = ("Each case draws a public function with options and shapes and a dtype (float32, float64, complex64, complex128, int64 where accepted); results must have that dtype and device and an error, against the reference evaluated in double precision on the "
        "same values, of the order of the rounding error of that precision (calibrated by running the naive reference in the same precision). The same call under another global default dtype must give the same result. The prototype functions (partial fractions, polynomial helpers, newton_solve) are judged on dtype and on independence of the default dtype. Distinct: drawn configuration and dtype.")
ASSUMPTIONS = ["all arguments of a call have one dtype (the diagonal specification excepted: complex eigenvalues with real signals)", "the permitted error is 100 times that of the naive reference plus 2e-5 (single) or 1e-11 (double) of the largest result, "
               "times the case's conditioning factor for matrix solves and eigendecompositions"]
NAMES = ["lti_lfilter", "lti_lfilter", "lti_fir", "lti_state_space", "lti_state_space", "lti_ssr", "lti_linrec", "lti_diag", "lti_comb", "lti_filtfilt", "lti_zi", "lti_ic", "lti_cspline", "lti_spline",
         "lpv_fir", "lpv_allpole", "lpv_lfilter", "lpv_lfilter", "lpv_state_space", "lpv_state_space", "lpv_ssr", "lpv_linrec", "native", "native", "polydiv", "mat"]
FD = [torch.float32, torch.float64, torch.complex64, torch.complex128]
UP = {torch.float32: torch.float64, torch.complex64: torch.complex128, torch.float64: torch.float64, torch.complex128: torch.complex128}


def setup():
    load.philtorch()


def draw(rng, **kw):
    name = rng.choice(NAMES)
    dt = kw.pop("dtype", None) or rng.choice(FD)
    if dt.is_complex and name in ("lti_cspline", "lti_spline"):
        dt = torch.float32
    c = ops.ALL[name](rng, Profile(dtype=dt, numbers="float", **kw))
    return c, dt


def up(v):
    return v.to(UP[v.dtype]) if v is not None and v.dtype in UP else v


def precision(rng, mon):
    c, dt = draw(rng, maxT=100)
    mon.case(**c.desc, sig=[c.desc, "p"])
    got = mon.call(c.run)
    base = c.want()
    hi = c.want(**{k: up(v) for k, v in c.t.items()})
    single = dt in (torch.float32, torch.complex64)
    for i, (g, b, h) in enumerate(zip(got, base, hi)):
        if b is None:
            continue
        if g.device.type != "cpu":
            mon.fail("device", f"result {i} on {g.device}")
        if c.strict and g.dtype != dt:
            return mon.fail("dtype", f"result {i}: {g.dtype} for {dt} arguments")
        if g.dtype not in (dt, dt.to_complex()):
            return mon.fail("dtype", f"result {i}: {g.dtype} for {dt} arguments")
        if g.shape != h.shape:
            return mon.fail("shape", f"result {i}: {tuple(g.shape)}, expected {tuple(h.shape)}")
        mon.ev("dtypes-" + str(dt).split(".")[1])
        if h.numel() == 0 or not torch.isfinite(torch.view_as_real(h.to(torch.complex128).resolve_conj())).all():
            continue
        e, e0 = util.relerr(g.detach(), h), util.relerr(b, h)
        cond = max(c.tol, 1.0)
        lim = 100 * e0 + (2e-5 * min(cond, 100) if single else 1e-11 * cond)
        if single and cond > 100:
            continue
        mon.ev("precision-judged")
        if not e <= lim:
            return mon.fail("precision", f"result {i}: error {e:.3g} of the largest value in {dt}; the naive recurrence in that precision has {e0:.3g} (limit {lim:.3g})")


def default(rng, mon):
    c, dt = draw(rng, maxT=60)
    d = rng.choice([x for x in (torch.float64, torch.float32, torch.float16, torch.bfloat16) if x != torch.get_default_dtype()])
    mon.case(**c.desc, default=str(d), sig=[c.desc, str(d)])
    a = mon.call(c.run)
    old = torch.get_default_dtype()
    torch.set_default_dtype(d)
    try:
        b = mon.call(c.run)
    finally:
        torch.set_default_dtype(old)
    mon.ev("default-dtypes")
    for i, (p, q) in enumerate(zip(a, b)):
        if p is None:
            continue
        if p.dtype != q.dtype:
            return mon.fail("default-dtype", f"result {i}: {p.dtype} becomes {q.dtype} under default dtype {d}")
        if not util.same_bits(p, q) and not util.relerr(q.detach(), p.detach()) <= (1e-10 if p.dtype in (torch.float64, torch.complex128) else 1e-5):
            return mon.fail("default-dtype", f"result {i} depends on the default dtype {d}: relative difference {util.relerr(q, p):.3g}")


def integer(rng, mon):
    name = rng.choice(["lti_state_space", "lti_ssr", "lpv_state_space", "lpv_ssr", "native"])
    c = ops.ALL[name](rng, Profile(dtype=torch.int64, maxT=40, maxM=6))
    if any(v is not None and v.dtype != torch.int64 for v in c.t.values()) or c.op == "op.lti_recur":
        raise Skip()
    mon.case(**c.desc, sig=[c.desc, "i"])
    got = mon.call(c.run)
    for i, g in enumerate(got):
        if g.dtype != torch.int64:
            return mon.fail("dtype", f"result {i}: {g.dtype} for integers")
    mon.ev("integers")
    ops.compare(mon, got, c.want())


def grads(rng, mon):
    """gradients have the dtype of their argument and that precision"""
    from .c12 import run

    c, dt = draw(rng, maxT=20, maxB=5, maxM=4)
    if c.tol > 100:
        raise Skip()
    names = util.grad_leaves(rng, {k: v for k, v in c.t.items() if v is not None and k not in c.skip_grad})
    if not names:
        raise Skip()
    mon.case(**c.desc, wrt=names, sig=[c.desc, "g"])
    w, cots, _ = run(c.ref, {k: up(v) for k, v in c.t.items()}, names, None, rng)
    if all(v is None for v in w.values()):
        raise Skip()
    g, _, _ = mon.call(run, c.fn, c.t, names, [v.to(dt) if v.is_complex() or not dt.is_complex else v.to(dt.to_real()) for v in cots])
    if g is None:
        return mon.fail("shape", "result shapes differ")
    single = dt in (torch.float32, torch.complex64)
    top = max([v.abs().max().item() for v in w.values() if v is not None and v.numel()] + [1e-6])
    for k in names:
        if g[k] is None or w[k] is None or not g[k].numel():
            continue
        if g[k].dtype != c.t[k].dtype:
            return mon.fail("grad-dtype", f"gradient of {k}: {g[k].dtype} for a {c.t[k].dtype} argument")
        e = (g[k].to(torch.complex128) - w[k].to(torch.complex128)).abs().max().item() / max(w[k].abs().max().item(), 1e-2 * top)
        mon.ev("gradient-precision")
        if not e <= (1e-3 if single else 1e-8) * max(1.0, c.tol):
            return mon.fail("precision", f"gradient of {k}: error {e:.3g} in {dt}")


def prototype(rng, mon):
    """partial fractions, polynomial helpers and the Newton solver: dtype of every result, and no influence of the global default dtype"""
    from philtorch.prototype import nl, poly, signal

    dt = rng.choice([torch.float32, torch.float64])
    name = rng.choice(["residue", "residuez", "sos2pfe", "sos2pfe", "roots", "polydiv", "polyder", "polymul", "polyadd", "polysub", "polyval", "trim_zeros", "newton"])
    mon.case(op=name, dtype=str(dt))
    g = torch.Generator().manual_seed(rng.getrandbits(40))

    def rand(*s):
        return torch.randn(*s, generator=g, dtype=torch.float64).to(dt)

    if name in ("residue", "residuez"):
        nb, na = rng.randint(1, 6), rng.randint(2, 5)
        poles = torch.linspace(-0.9, 0.8, na - 1, dtype=torch.float64)
        a = poly.polysmul(*[torch.stack([torch.ones((), dtype=torch.float64), -p]) for p in poles]).to(dt)
        b = rand(nb)
        mon.case(nb=nb, na=na)
        f = lambda: getattr(signal, name)(b, a)
        want = [dt.to_complex(), dt.to_complex(), dt]
    elif name == "sos2pfe":
        kinds = [rng.choice("crd") for _ in range(rng.randint(1, 3))]
        rows = []
        for i, k in enumerate(kinds):
            p = 0.25 + 0.22 * i
            rows.append([1, -2 * p * 0.5, p * p] if k == "c" else [1, -(p - (p - 0.9)), p * (p - 0.9)] if k == "r" else [1, -2 * p, p * p])
        sos = torch.cat([rand(len(rows), 3), torch.tensor(rows, dtype=torch.float64).to(dt)], dim=1)
        sos[:, 0] = 1
        mon.case(sections=kinds)

        def f():
            (r1, r2), (p1, p2), (w1, w2), g0 = signal.sos2pfe(sos)
            return r1, r2, p1, p2, w1, w2, g0
        want = [dt, dt.to_complex(), dt, dt.to_complex(), None, None, dt]
    elif name == "newton":
        B, T, M = rng.randint(1, 3), rng.randint(4, 10), rng.randint(1, 3)
        x, init, W = rand(B, T, M), rand(B, M), rand(M, M) * 0.4
        inter, jac = rng.random() < 0.5, rng.random() < 0.5
        fp = (lambda h, u: torch.diag_embed(1 - torch.tanh(h @ W.T + u[:, : h.shape[1]]) ** 2) @ W) if jac else None
        mon.case(B=B, T=T, M=M, intermediate=inter, fprime=jac)

        def f():
            o = nl.newton_solve(lambda h, u: torch.tanh(h @ W.T + u[:, : h.shape[1]]), x, torch.zeros(B, T, M, dtype=dt), init, max_iter=3, fprime=fp, return_intermediate=inter)
            return (o[0],) + (tuple(v for p in o[2] for v in p) if inter else ())
        want = None
    else:
        p, q = rand(rng.randint(1, 7)), rand(rng.randint(1, 5))
        if rng.random() < 0.3:
            p[-1] = 0
        if rng.random() < 0.3:
            p[0] = 0
        if name == "roots":
            f, want = (lambda: (poly.roots(p),)), [dt.to_complex()]
        elif name == "polyval":
            z = rand(3).to(rng.choice([dt, dt.to_complex()]))
            f, want = (lambda: (poly.polyval(p, z),)), [z.dtype]
        elif name == "trim_zeros":
            f, want = (lambda: (poly.trim_zeros(p),)), [dt]
        elif name == "polyder":
            m = rng.randint(0, 3)
            f, want = (lambda: (poly.polyder(p, m),)), [dt]
        else:
            def f():
                o = getattr(poly, name)(p, q)
                return o if isinstance(o, tuple) else (o,)
            want = [dt, dt]
    out = mon.call(f)
    for i, v in enumerate(out):
        w = want[i] if want else dt
        if w is None:
            if v.dtype != torch.int64:
                return mon.fail("dtype", f"{name}: powers of dtype {v.dtype}")
        elif v.dtype != w:
            return mon.fail("dtype", f"{name}: result {i} has dtype {v.dtype} for {dt} arguments")
    d = rng.choice([x for x in (torch.float64, torch.float32, torch.float16, torch.bfloat16) if x != torch.get_default_dtype()])
    old = torch.get_default_dtype()
    torch.set_default_dtype(d)
    try:
        other = mon.call(f)
    finally:
        torch.set_default_dtype(old)
    mon.ev("prototype-functions")
    for i, (u, v) in enumerate(zip(out, other)):
        if u.dtype != v.dtype or u.shape != v.shape:
            return mon.fail("default-dtype", f"{name}: result {i}: {u.dtype} {tuple(u.shape)} becomes {v.dtype} {tuple(v.shape)} under default dtype {d}")
        if u.numel() and not util.same_bits(u, v) and not util.relerr(v.detach(), u.detach()) <= (1e-10 if dt is torch.float64 else 1e-4):
            return mon.fail("default-dtype", f"{name}: result {i} depends on the default dtype {d}: relative difference {util.relerr(v, u):.3g}")


STRATA = {"prototype": (prototype, 400, 4000), "precision": (precision, 1500, 20000), "default": (default, 700, 8000), "integer": (integer, 300, 3000), "grads": (grads, 400, 5000)}
REQUIRED = {"precision-judged": 1000, "dtypes-float32": 250, "dtypes-float64": 250, "dtypes-complex64": 250, "dtypes-complex128": 250, "default-dtypes": 500, "integers": 150, "gradient-precision": 400, "prototype-functions": 300}
