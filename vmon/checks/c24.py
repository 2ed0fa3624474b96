"""Linearity, causality, time invariance, separate batch rows."""
import torch

from .. import load, ops, util
from ..core import Skip
from ..ops import Profile

ID = "C24"
RULE = ("Each case draws a filter or state-space call and a transformation of it: other rows replaced by unrelated data, rows permuted, input and coefficient trajectories replaced after a random sample, superposition of two inputs and states, the input delayed "
        "by d zero samples. Only relations between outputs of the code are judged, also for long signals. Distinct: drawn configuration and transformation.")
ASSUMPTIONS = []
FILT = {"lti_lfilter": 5, "lti_fir": 2, "lti_state_space": 4, "lti_ssr": 3, "lti_linrec": 2, "lti_diag": 3, "lti_comb": 2, "lpv_fir": 2, "lpv_allpole": 2, "lpv_lfilter": 5, "lpv_state_space": 4, "lpv_ssr": 3, "lpv_linrec": 2, "native": 4}
ROWS = dict(FILT, lti_filtfilt=3, lti_cspline=1, lti_spline=1)
STATE = ("zi", "init")


def setup():
    load.philtorch()


def pick(rng, d):
    return rng.choices(list(d), list(d.values()))[0]


def draw(rng, table, long=0.04, **kw):
    p = dict(f32_ok=False, numbers="float", long=long, layouts=0.1, modes=0.3)
    p.update(kw)
    c = ops.ALL[pick(rng, table)](rng, Profile(**p))
    if any(v is not None and v.dtype == torch.int64 for v in c.t.values()):
        raise Skip()
    return c


def other(rng, v):
    return ops.randn(rng, tuple(v.shape), v.dtype)


def per_row(c):
    x = c.t["x"]
    if x.dim() == 1:
        raise Skip()
    return [k for k, v in c.t.items() if v is not None and util.batch_dim(k, v, c) is not None]


def tol(c):
    return max(c.tol, 1) * 10


def shared_zi(c):
    z = c.t.get("zi")
    return z is not None and z.dim() == 1


def rows(rng, mon):
    c = draw(rng, ROWS)
    ks = per_row(c)
    B = c.t["x"].shape[0]
    if B < 2:
        raise Skip()
    y = mon.call(c.run)
    t2 = dict(c.t)
    if rng.random() < 0.5:
        keep = sorted(rng.sample(range(B), rng.randint(1, B - 1)))
        gone = [i for i in range(B) if i not in keep]
        kind = "replace"
        for k in ks:
            v = c.t[k].detach().clone()
            if k == "x" or k in STATE or k in ("B", "C", "D", "b"):
                # (what rows contribute to each other must be exactly nothing, so very large and non-finite values may not show either)
                scale = rng.choice([1.0, 1.0, 1e3, 2.0**60, float("nan"), float("inf")] if k in STATE + ("x",) else [1.0, 1e3])
                mon.ev("amplified-rows", scale != 1 and scale != 1e3)
                v[gone] = other(rng, v[gone]) * scale
            else:  # keep recurrences stable: reuse rows
                v[gone] = v[[rng.choice(range(B)) for _ in gone]]
            t2[k] = v
        # a decomposition must stay consistent: all its parts come from the same row
        if c.op == "lti.diag_state_space":
            src = [rng.randrange(B) for _ in gone]
            for k in ("A", "L", "V", "Vinv"):
                if k in ks:
                    v = c.t[k].detach().clone()
                    v[gone] = c.t[k][src]
                    t2[k] = v
        sel = lambda o: (o[keep], o[keep])
    else:
        perm = list(range(B))
        rng.shuffle(perm)
        kind = "permute"
        for k in ks:
            t2[k] = c.t[k][perm]
        sel = None
    mon.case(**c.desc, transform=kind)
    z = mon.call(c.run, **t2)
    mon.ev("rows-" + kind)
    if kind == "replace":
        ops.compare(mon, [o[keep] for o in z], [o[keep] for o in y], tol=tol(c), what="rows whose own data did not change", strict_dtype=False)
    else:
        ops.compare(mon, z, [o[perm] for o in y], tol=tol(c), what="rows permuted", strict_dtype=False)


def single(rng, mon):
    """a row alone"""
    table = {k: v for k, v in ROWS.items() if k in ("lti_lfilter", "lti_fir", "lti_comb", "lpv_fir", "lpv_allpole", "lpv_lfilter", "lti_filtfilt", "lti_cspline", "lti_spline", "native", "lti_ssr", "lpv_ssr")}
    c = draw(rng, table)
    ks = per_row(c)
    B = c.t["x"].shape[0]
    i = rng.randrange(B)
    mon.case(**c.desc, row=i)
    y = mon.call(c.run)
    z = mon.call(c.run, **{k: c.t[k][i : i + 1] for k in ks})
    mon.ev("rows-alone")
    ops.compare(mon, z, [o[i : i + 1] for o in y], tol=tol(c), what=f"row {i} alone", strict_dtype=False)


def causal(rng, mon):
    c = draw(rng, FILT)
    T = c.info["T"]
    if T < 2:
        raise Skip()
    n = rng.choice([1, T - 1, rng.randint(1, T - 1), rng.randint(1, T - 1)])
    t2 = dict(c.t)
    for k, v in c.t.items():
        if v is None or k in STATE:
            continue
        d = util.time_dim(k, v, c)
        if d is None:
            continue
        w = v.detach().clone()
        tail = w.narrow(d, n, T - n)
        if k == "x" or k in ("B", "C", "D", "b"):
            scale = rng.choice([1.0, 1.0, 2.0**50, 2.0**100]) if k == "x" else 1.0
            mon.ev("amplified-futures", scale != 1)
            tail.copy_(other(rng, tail) * scale)
        else:
            tail.copy_(tail.flip(d) * rng.choice([-1, 1]))
        t2[k] = w
    mon.case(**c.desc, n=n)
    y, z = mon.call(c.run), mon.call(c.run, **t2)
    d = 0 if c.t["x"].dim() == 1 and y[0].dim() == 1 else 1
    # with a given state the zi-dependent rank may keep the batch dimension
    if y[0].shape != z[0].shape:
        return mon.fail("shape", f"{tuple(y[0].shape)} and {tuple(z[0].shape)}")
    mon.ev("prefixes")
    ops.compare(mon, (z[0].narrow(d, 0, n),), (y[0].narrow(d, 0, n),), tol=tol(c), what=f"first {n} of {T} samples", strict_dtype=False)


def linear(rng, mon):
    c = draw(rng, FILT, zi=True if rng.random() < 0.7 else None)
    x1 = c.t["x"]
    x2 = other(rng, x1)
    al, be = rng.uniform(-2, 2), rng.choice([1.0, rng.uniform(-2, 2)])
    if x1.is_complex():
        al = complex(al, rng.uniform(-1, 1))
    zs = {k: c.t[k] for k in STATE if c.t.get(k) is not None}
    z2 = {k: other(rng, v) for k, v in zs.items()}
    mon.case(**c.desc, alpha=al, beta=be, sig=["lin", c.desc])
    y1 = mon.call(c.run)
    y2 = mon.call(c.run, x=x2, **z2)
    y3 = mon.call(c.run, x=al * x1 + be * x2, **{k: al * zs[k] + be * z2[k] for k in zs})
    mon.ev("superpositions")
    if zs:
        mon.ev("superpositions-with-state")
    ops.compare(mon, y3, [al * p + be * q for p, q in zip(y1, y2)], tol=tol(c) * 10, what="superposition", strict_dtype=False)
    if rng.random() < 0.3:
        y0 = mon.call(c.run, x=torch.zeros_like(x1), **{k: torch.zeros_like(v) for k, v in zs.items()})
        mon.ev("zero-inputs")
        for i, o in enumerate(y0):
            if o.numel() and not (o == 0).all():
                return mon.fail("nonzero", f"zero input and state gave {o.abs().max().item():.3g} in result {i}")


def delayed(rng, mon):
    table = {k: v for k, v in FILT.items() if k.startswith("lti") and k != "lti_linrec"}
    c = draw(rng, table, zi=False)
    if "zi" in c.t and c.t["zi"] is not None:
        c.t["zi"] = torch.zeros_like(c.t["zi"])
    if c.op == "lti.linear_recurrence":
        raise Skip()
    x = c.t["x"]
    d = 0 if x.dim() == 1 else 1
    k = rng.choice([1, 2, 3, 5, rng.randint(1, 40)])
    sh = list(x.shape)
    sh[d] = k
    if c.op in ("lti.state_space", "lti.diag_state_space") and (x.shape[1] + k in (c.info["B"], c.info["K"]) or x.shape[1] in (c.info["B"], c.info["K"])):
        raise Skip()
    mon.case(**c.desc, delay=k)
    y = mon.call(c.run)
    z = mon.call(c.run, x=torch.cat([torch.zeros(sh, dtype=x.dtype), x], d))
    mon.ev("delays")
    pre = z[0].narrow(d, 0, k)
    if pre.numel() and not (pre.abs() <= 1e-12).all():
        return mon.fail("early", f"output {pre.abs().max().item():.3g} before the input starts")
    ops.compare(mon, (z[0].narrow(d, k, x.shape[d]),), (y[0],), tol=tol(c), what=f"delayed by {k}", strict_dtype=False)


STRATA = {"rows": (rows, 900, 12000), "single": (single, 400, 5000), "causal": (causal, 700, 9000), "linear": (linear, 700, 9000), "delayed": (delayed, 500, 6000)}
REQUIRED = {"rows-replace": 200, "rows-permute": 200, "rows-alone": 200, "prefixes": 400, "superpositions": 400, "superpositions-with-state": 200, "delays": 250, "zero-inputs": 100}
