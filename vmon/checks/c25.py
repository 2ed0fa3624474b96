"""Inconsistent arguments are rejected."""
import random

import torch

from .. import load, ops, shapes, util
from ..core import Skip
from ..ops import Profile

ID = "C25"
RULE = ("Each case takes one valid call (sizes all different, at least two rows and three steps), checks that it works, then changes exactly one thing so that the arguments contradict each other (see MUT: a batch, length, state, order or feature size, a rank, "
        "a non-square matrix, C with an output index, an unknown option, an index or factor out of range) and requires an exception of any type. "
        "shapes strata: every size drawn independently from 1..3; the call must raise or match an admissible reading (vmon/shapes.py). Distinct: function, mutation and shapes.")
ASSUMPTIONS = ["arguments that some form or path broadcasts from size 1 (see ONES for those that none does) and empty signals are outside the domain", "any exception type counts as a rejection"]


def setup():
    load.philtorch()


def rnd(rng, like, shape):
    return ops.randn(rng, tuple(shape), like.dtype)


def resize(rng, v, d, n):
    s = list(v.shape)
    s[d] = n
    return rnd(rng, v, s) * 0.1


# a mutation: (name, function(rng, case, kw) -> dict of replaced tensors, or None when not applicable)
def batch(names):
    """a per-row argument has one row more or one less than the signal"""

    def f(rng, c, kw):
        B = c.info["B"]
        c1 = [k for k in names if c.t.get(k) is not None and util.batch_dim(k, c.t[k], c) == 0 and c.t[k].dim() and c.t[k].shape[0] == B]
        c1 = [k for k in c1 if not other_reading(c, k)]
        if not c1 or c.t["x"].dim() == 1:
            return None
        k = rng.choice(c1)
        others = [B + 1, B + 2, B + 7, 2 * B] + ([B - 1] if B > 2 else [])
        used = {n for v in c.t.values() if v is not None for n in v.shape}
        others = [n for n in others if n not in used]
        if not others:
            return None
        return {k: resize(rng, c.t[k], 0, rng.choice(others))}, k

    return f


def other_reading(c, k):
    """Would another size make this argument mean something else, or nothing?"""
    if "lfilter" in c.op and k in ("zi",) and c.desc.get("form") in ("df1", "tdf1"):
        return True  # documented as unused
    # C of shape (n, M) is an output matrix; B of shape (M, n) an input matrix; D of shape (n,) a gain per feature, (n, m) a matrix
    return ("state_space" in c.op and ((k == "C" and c.t[k].dim() == 2) or (k == "D" and c.t[k].dim() <= 2) or (k == "B" and c.t[k].dim() == 2)))


def length(names):
    def f(rng, c, kw):
        T = c.info["T"]
        c1 = [k for k in names if c.t.get(k) is not None and util.time_dim(k, c.t[k], c) is not None]
        # (a C of shape (B, N, M) also reads as a per-row output matrix, B of (B, N, M) and D of (B, N) likewise)
        c1 = [k for k in c1 if not ("state_space" in c.op and ((k in "BC" and c.t[k].dim() <= 3) or (k == "D" and c.t[k].dim() <= 3)))]
        if not c1:
            return None
        k = rng.choice(c1)
        d = util.time_dim(k, c.t[k], c)
        used = {n for v in c.t.values() if v is not None for n in v.shape}
        n = [m for m in (T - 1, T + 1, T + 5, 2 * T, 3 * T) if m > 1 and m not in used]
        if not n:
            return None
        return {k: resize(rng, c.t[k], d, rng.choice(n))}, k

    return f


def last(names, delta=(1, 2, -1)):
    """a state, order or feature size that disagrees"""

    def f(rng, c, kw):
        c1 = [k for k in names if c.t.get(k) is not None and c.t[k].dim() and not ("lfilter" in c.op and k == "zi" and c.desc.get("form") in ("df1", "tdf1"))]
        if not c1:
            return None
        k = rng.choice(c1)
        M = c.t[k].shape[-1]
        if M == 1:
            return None
        used = {n for v in c.t.values() if v is not None for n in v.shape}
        n = [M + d for d in delta if M + d > 1 and M + d not in used]
        if not n:
            return None
        return {k: resize(rng, c.t[k], -1, rng.choice(n))}, k

    return f


def ones(spec):
    """a size that must match is one instead (and would broadcast if nothing checked it): spec = "name:axis ..." with axis batch, time, last or rows"""
    spec = [w.split(":") for w in spec.split()]

    def f(rng, c, kw):
        opts = []
        for k, axis in spec:
            v = c.t.get(k)
            if v is None or not v.dim():
                continue
            b, t = util.batch_dim(k, v, c), util.time_dim(k, v, c)
            d = {"batch": b, "time": t, "last": v.dim() - 1, "rows": v.dim() - 2 if v.dim() > 1 else None}[axis]
            if d is None or v.shape[d] < 2 or (axis in ("last", "rows") and d in (b, t)):
                continue
            opts.append((k, axis, d))
        if not opts:
            return None
        k, axis, d = rng.choice(opts)
        return {k: resize(rng, c.t[k], d, 1)}, f"{k} {axis} -> 1"

    return f


ONES = {
    "lpv_allpole": "a:batch a:time zi:batch zi:last", "lpv_fir": "b:batch b:time zi:batch zi:last", "lpv_linrec": "a:time",
    "lpv_ssr": "A:batch A:time A:last A:rows zi:batch zi:last", "lti_ssr": "A:batch A:last A:rows zi:batch zi:last",
    "lti_state_space": "A:batch A:last A:rows zi:batch zi:last B:last B:rows C:last", "lpv_state_space": "A:time A:last A:rows zi:batch zi:last B:last B:rows C:last",
    "lti_diag": "A:batch A:last A:rows zi:batch zi:last L:batch L:last V:last V:rows Vinv:last Vinv:rows C:last", "lti_fir": "b:batch zi:batch zi:last", "lti_lfilter": "a:batch", "lti_filtfilt": "a:batch",
    "native": "A:time A:last A:rows zi:batch zi:last",
}


def rows_of(name):
    def f(rng, c, kw):
        v = c.t.get(name)
        if v is None or v.dim() < 2:
            return None
        M = v.shape[-2]
        if M == 1:
            return None
        used = {n for w in c.t.values() if w is not None for n in w.shape}
        n = [M + d for d in (1, 2, -1) if M + d > 1 and M + d not in used]
        return ({name: resize(rng, v, -2, rng.choice(n))}, name) if n else None

    return f


def rank(name, up=True, down=True, extra=2):
    def f(rng, c, kw):
        v = c.t.get(name)
        if v is None:
            return None
        opts = []
        if up:
            opts.append(v.reshape((1,) * (extra + 3 - 3) + tuple(v.shape)) if False else rnd(rng, v, (2, 3) + tuple(v.shape)))
        if down and v.dim():
            opts.append(rnd(rng, v, ()))
        return ({name: rng.choice(opts)}, name) if opts else None

    return f


def edge(c):
    """Is anything padded at all?"""
    p = c.desc.get("padlen")
    return p is None or str(p) not in ("0",)


def option(**kv):
    def f(rng, c, kw):
        k = rng.choice(sorted(kv))
        vals = kv[k]
        if callable(vals):
            vals = vals(c)
        if k in ("padmode", "padlen") and (c.desc.get("padmode") == "None" or c.desc.get("padmode", "") is None or (k == "padmode" and not edge(c))):
            return None
        kw[k] = rng.choice(vals)
        return {}, f"{k}={kw[k]}"

    return f


def c_and_idx(rng, c, kw):
    if c.t.get("C") is None or kw.get("out_idx") is not None:
        return None
    kw["out_idx"] = rng.choice([0, -1, 1])
    return {}, f"out_idx={kw['out_idx']} with C"


def idx_range(rng, c, kw):
    if "out_idx" not in kw or kw["out_idx"] is None:
        return None
    M = c.info["K"]
    kw["out_idx"] = rng.choice([M, M + 3, -M - 1])
    return {}, f"out_idx={kw['out_idx']} of {M}"


UF = dict(unroll_factor=[0, -1, -3])
MUT = {
    "lti_lfilter": [("batch", batch(["b", "a", "zi"])), ("state size", last(["zi"])), ("rank x", rank("x")), ("rank b", rank("b")), ("rank a", rank("a")), ("form", option(form=["df3", "", "TDF2", None])),
                    ("backend", option(backend=["foo", "", None]))],
    "lti_fir": [("batch", batch(["b", "zi"])), ("state size", last(["zi"])), ("rank x", rank("x")), ("rank b", rank("b")), ("rank zi", rank("zi"))],
    "lti_state_space": [("batch", batch(["A", "zi", "B", "C", "D"])), ("A", last(["A"])), ("A rows", rows_of("A")), ("zi", last(["zi"])), ("B", rows_of("B")), ("C", last(["C"])), ("rank A", rank("A")), ("rank x", rank("x")),
                        ("C and index", c_and_idx), ("index", idx_range), ("unroll", option(**UF))],
    "lti_ssr": [("batch", batch(["A", "zi"])), ("A", last(["A"])), ("A rows", rows_of("A")), ("zi", last(["zi"])), ("x", lambda rng, c, kw: last(["x"])(rng, c, kw) if c.t["x"].dim() == 3 else None), ("rank A", rank("A")), ("rank x", rank("x")),
                ("rank zi", rank("zi", down=False)), ("index", idx_range), ("unroll", option(**UF))],
    "lti_linrec": [("batch", batch(["a", "init"])), ("rank a", rank("a", down=False)), ("rank x", rank("x")), ("rank init", rank("init", down=False)), ("unroll", option(**UF))],
    "lti_diag": [("batch", batch(["A", "zi", "B", "C", "D", "L", "V", "Vinv"])), ("A", last(["A"])), ("A rows", rows_of("A")), ("zi", last(["zi"])), ("V", last(["V", "Vinv"])), ("C", last(["C"])), ("B", rows_of("B")), ("rank x", rank("x")), ("C and index", c_and_idx), ("index", idx_range)],
    "lti_comb": [("batch", batch(["a", "zi"])), ("state size", last(["zi"])), ("rank a", rank("a", down=False)), ("rank x", rank("x"))],
    "lti_filtfilt": [("batch", batch(["b", "a"])), ("rank x", rank("x")), ("form", option(form=["df3", ""])), ("method", option(method=["gust", "foo", ""])), ("padmode", option(padmode=["foo", "odd"])),
                     ("padlen", option(padlen=lambda c: [c.info["T"], c.info["T"] + 1, 10 * c.info["T"]])), ("backend", option(backend=["foo"]))],
    "lpv_fir": [("batch", batch(["b", "zi"])), ("length", length(["b"])), ("state size", last(["zi"])), ("rank x", rank("x")), ("rank b", rank("b")), ("rank zi", rank("zi"))],
    "lpv_allpole": [("batch", batch(["a", "zi"])), ("length", length(["a"])), ("state size", last(["zi"])), ("rank x", rank("x")), ("rank a", rank("a"))],
    "lpv_lfilter": [("batch", batch(["b", "a", "zi"])), ("length", length(["b", "a"])), ("state size", last(["zi"])), ("rank x", rank("x")), ("rank b", rank("b")), ("rank a", rank("a")), ("form", option(form=["df3", "", None])),
                    ("backend", option(backend=["foo", "", None]))],
    "lpv_state_space": [("batch", batch(["A", "zi", "B", "C", "D"])), ("length", length(["A", "B", "C", "D"])), ("A", last(["A"])), ("A rows", rows_of("A")), ("zi", last(["zi"])), ("B", rows_of("B")), ("C", last(["C"])), ("rank A", rank("A")),
                        ("rank x", rank("x")), ("C and index", c_and_idx), ("index", idx_range), ("unroll", option(**UF))],
    "lpv_ssr": [("batch", batch(["A", "zi"])), ("length", length(["A"])), ("A", last(["A"])), ("A rows", rows_of("A")), ("zi", last(["zi"])), ("x", lambda rng, c, kw: last(["x"])(rng, c, kw) if c.t["x"].dim() == 3 else None), ("rank A", rank("A")), ("rank x", rank("x")),
                ("index", idx_range), ("unroll", option(**UF))],
    "lpv_linrec": [("batch", batch(["a", "init"])), ("length", length(["a"])), ("rank a", rank("a")), ("rank x", rank("x")), ("rank init", rank("init", down=False)), ("unroll", option(**UF))],
    "native": [("batch", batch(["A", "zi"])), ("length", length(["A"])), ("A", lambda rng, c, kw: None if c.op == "op.lti_recur" else last(["A"])(rng, c, kw)), ("A rows", rows_of("A")), ("zi", lambda rng, c, kw: None if c.op == "op.lti_recur" else last(["zi"])(rng, c, kw)),
               ("x", lambda rng, c, kw: None if c.op == "op.lti_recur" else last(["x"])(rng, c, kw)), ("rank A", rank("A", down=False)), ("rank x", rank("x")), ("rank zi", rank("zi"))],
}


for _k, _v in ONES.items():
    MUT[_k].append(("one", ones(_v)))


def tensors_case(rng, mon, op, only=None):
    for _ in range(60):
        c = ops.ALL[op](rng, Profile(dtype=torch.float64, numbers="float", coincide=0, maxT=40, maxB=9, maxM=6, unroll=rng.choice(["one", "default"])))
        T = c.info["T"]
        x = c.t["x"]
        if T < 3 or (x.dim() > 1 and x.shape[0] < 2) or c.info["K"] in (T, c.info["B"]) or T == c.info["B"]:
            continue
        kw = util.case_kw(c)
        saved = dict(kw)
        muts = [m for m in MUT[op] if only is None or m[0] == only]
        name, mut = rng.choice(muts)
        r = mut(rng, c, kw)
        if r is None:
            kw.clear()
            kw.update(saved)
            continue
        break
    else:
        raise Skip()
    over, what = r
    bad = dict(kw)
    kw.clear()
    kw.update(saved)
    mon.case(**{**c.desc, "mutation": f"{name}: {what}", "shapes": {k: tuple(v.shape) for k, v in over.items()}})
    mon.call(c.run)  # the valid call works
    kw.clear()
    kw.update(bad)
    mon.ev("mutations")
    try:
        got = c.run(**over)
    except (KeyboardInterrupt, MemoryError):
        raise
    except Exception as e:
        mon.ev("rejected")
        mon.ev("rejected-" + type(e).__name__)
        return
    finally:
        kw.clear()
        kw.update(saved)
    mon.fail("accepted:" + op + ":" + name, f"{name} ({what} {[tuple(v.shape) for v in over.values()]}) was accepted and returned {[tuple(o.shape) if o is not None else None for o in got]}",
             valid={k: None if v is None else tuple(v.shape) for k, v in c.t.items()})


def _mk(op):
    return lambda rng, mon: tensors_case(rng, mon, op)


def misc(rng, mon):
    """helpers"""
    from philtorch import lti, lpv, mat, poly
    from philtorch.lti.interp import cspline
    from philtorch.prototype import nl

    f = torch.float64
    n = rng.randint(2, 5)
    r = lambda *s: ops.randn(rng, s, f)
    calls = {
        "matrix_power_accumulate non-square": lambda: mat.matrix_power_accumulate(r(n, n + 1), 3),
        "matrix_power_accumulate vector": lambda: mat.matrix_power_accumulate(r(n), 3),
        "matrices_cumdot non-square": lambda: mat.matrices_cumdot(r(4, n, n + 1)),
        "matrices_cumdot rank 2": lambda: mat.matrices_cumdot(r(n, n)),
        "find_eigenvectors size": lambda: mat.find_eigenvectors(r(n, n), r(n + 1)),
        "find_eigenvectors non-square": lambda: mat.find_eigenvectors(r(n, n + 1), r(n + 1)),
        "find_eigenvectors vector": lambda: mat.find_eigenvectors(r(n), r(n)),
        "companion scalar": lambda: mat.companion(r()),
        "polydiv scalar": lambda: poly.polydiv(r(), r(n)),
        "polydiv batch": lambda: poly.polydiv(r(2, n + 2), r(3, n)),
        "cubic_spline factor 0": lambda: lti.cubic_spline(r(2, 50), rng.choice([0, -1, -5])),
        "cubic_spline fractional factor": lambda: lti.cubic_spline(r(2, 50), rng.choice([1.5, 2.0, 2.5])),
        "cspline lamb": lambda: cspline(r(2, 50), lamb=0.5),
        "comb delay": lambda: lti.comb_filter(r(), rng.choice([0, -1, -3]), r(2, 20)),
        "lfilter_zi without b": lambda: lti.lfilter_zi(r(n)),
        "lfiltic y size": lambda: lti.lfiltic(r(n + 1), r(n), r(n + 2), r(n)),
        "lfiltic x size": lambda: lti.lfiltic(r(n + 1), r(n), r(n), r(n + 3)),
        "diag_state_space without A and L": lambda: lti.diag_state_space(r(2, 9)),
        "newton_solve iterations": lambda: nl.newton_solve(lambda y, x: y + x, r(2, 5, 1), r(2, 5, 1), r(2, 1), max_iter=5),
        "lpv torchlpc tdf2": lambda: lpv.lfilter(r(9, 3), r(9, 2) * 0.1, r(2, 9), form="tdf2", backend="torchlpc"),
        "diag_ssm df1": lambda: lti.lfilter(r(3), torch.tensor([0.1, 0.02], dtype=f), r(2, 9), form=rng.choice(["df1", "tdf1"]), backend="diag_ssm"),
        "unknown keyword": lambda: lti.lfilter(r(3), r(2) * 0.1, r(2, 9), nonsense=3),
    }
    k = rng.choice(sorted(calls))
    mon.case(what=k, n=n)
    mon.ev("mutations")
    try:
        y = calls[k]()
    except Exception as e:
        mon.ev("rejected")
        return
    mon.fail("accepted:" + k, f"accepted and returned {tuple(y.shape) if torch.is_tensor(y) else type(y)}")


def shapes_filters(rng, mon):
    """sizes 1..3 drawn independently, so that they coincide by accident: raise, or return what an admissible reading means"""
    shapes.check(rng, mon, shapes.FILTERS)


def shapes_ss(rng, mon):
    shapes.check(rng, mon, [shapes.state_space])


STRATA = {k: (_mk(k), 120 if k != "native" else 300, 1500) for k in MUT} | {"misc": (misc, 150, 600), "shapes": (shapes_filters, 12000, 200000), "shapes_ss": (shapes_ss, 10000, 200000)}
REQUIRED = {"mutations": 1200, "rejected": 1200, "shape-calls": 10000, "shape-accepted": 3000, "shape-rejected": 3000}
