"""Partial fractions and polynomial helpers of philtorch.prototype."""
import cmath
import math

import numpy as np
import torch

from .. import load, ops, util
from ..core import Skip

ID = "C27"
RULE = ("pfe: random cascades of second-order sections (complex pairs, real poles, repeated sections, unnormalised a0, orders of repetition up to 3, FIR parts) are expanded by sos2pfe and evaluated at 6 points against the product of the sections; "
        "residue/residuez: random numerators/denominators (real, complex-pair, double poles; numerators shorter and longer) are expanded and evaluated at 6 points against b/a and, for simple poles, compared with scipy's residues; "
        "poly: the algebraic identities of roots, polymul, polysmul, polydiv, polyadd, polysub, polyder, polyval, trim_zeros at random points. Distinct: orders, pole structure, options.")
ASSUMPTIONS = ["distinct poles are at least 0.15-0.2 apart, repeated ones coincide exactly before the polynomial is formed", "residue(z): denominator of degree at least 1; the tolerance grouping poles is given as 3e-3 when poles are repeated"]


def setup():
    load.philtorch()
    import philtorch.prototype.signal  # noqa: F401
    import philtorch.prototype.poly  # noqa: F401


def apart(ps, d):
    return all(abs(p - q) >= d or abs(p - q) < 1e-9 for i, p in enumerate(ps) for q in ps[:i])


def points(rng, n=6, lo=1.6, hi=2.4):
    return torch.tensor([cmath.rect(rng.uniform(lo, hi), rng.uniform(0.1, 3.0) + 3.1 * (k % 2)) for k in range(n)], dtype=torch.complex128)


def err(a, b):
    return ((a - b).abs().max() / b.abs().max().clamp(min=1e-3)).item()


def pfe(rng, mon):
    from philtorch.prototype.signal import sos2pfe

    n = rng.choice([1, 1, 2, 2, 3, 3, 4])
    kinds = []
    for _ in range(100):
        A, kinds = [], []
        for _ in range(n):
            k = rng.choice("ccr")
            kinds.append(k)
            if k == "c":
                r, t = rng.uniform(0.2, 0.95), rng.uniform(0.3, 2.8)
                A.append([1.0, -2 * r * math.cos(t), r * r])
            else:
                p, q = rng.uniform(-0.95, 0.95), rng.uniform(-0.95, 0.95)
                A.append([1.0, -(p + q), p * q])
        if apart([p for a in A for p in np.roots(a)], 0.15):
            break
    else:
        raise Skip()
    rep = 1
    if n > 1 and rng.random() < 0.4:
        rep = 2
        A[1], kinds[1] = list(A[0]), kinds[0]
        if n > 2 and rng.random() < 0.2 and kinds[0] == "c":
            rep = 3
            A[2], kinds[2] = list(A[0]), kinds[0]
    order = list(range(n))
    rng.shuffle(order)
    A, kinds = [A[i] for i in order], [kinds[i] for i in order]
    sos = torch.tensor([[rng.uniform(-2, 2) for _ in range(3)] + a for a in A], dtype=torch.float64)
    if rng.random() < 0.4:
        sos[:, 3:] *= torch.tensor([[rng.choice([-1, 1]) * rng.uniform(0.5, 2)] for _ in range(n)], dtype=torch.float64)
    kw = {}
    if rng.random() < 0.4:
        kw["rtype"] = rng.choice(["avg", "min", "max"])
    mon.case(sections="".join(kinds), repeated=rep, **kw, sos=[[round(v, 4) for v in s] for s in sos.tolist()])
    (rr, rc), (pr, pc), (wr, wc), g = mon.call(sos2pfe, sos, **kw)
    mon.ev("expansions")
    z = points(rng)
    H = g + 0 * z
    for r, p, w in zip(rr, pr, wr):
        H = H + r / (z - p) ** w
    for r, p, w in zip(rc, pc, wc):
        H = H + r / (z - p) ** w + r.conj() / (z - p.conj()) ** w
    W = torch.ones_like(z)
    for s in sos.tolist():
        W = W * (s[0] + s[1] / z + s[2] / z**2) / (s[3] + s[4] / z + s[5] / z**2)
    if len(rr) + 2 * len(rc) != 2 * n:
        mon.fail("count", f"{len(rr)} real and {len(rc)} complex terms for {n} sections")
        return
    if rr.is_complex() or pr.is_complex():
        mon.fail("dtype", "the real residues or poles are complex tensors")
        return
    tol = {1: 1e-8, 2: 1e-5, 3: 3e-3}[rep]
    e = err(H, W)
    mon.ev("repeated" if rep > 1 else "simple")
    if not e <= tol:
        mon.fail("value", f"the expansion differs from the cascade by {e:.3g} (tolerance {tol})")


def poles(rng, n, minabs=0.3):
    for _ in range(100):
        ps = []
        while len(ps) < n:
            if rng.random() < 0.5 and n - len(ps) >= 2:
                r, t = rng.uniform(minabs, 1.3), rng.uniform(0.4, 2.7)
                ps += [cmath.rect(r, t), cmath.rect(r, -t)]
            else:
                ps.append(complex(rng.choice([-1, 1]) * rng.uniform(minabs, 1.3)))
        if apart(ps, 0.2):
            return ps
    raise Skip()


def rational(rng, mon):
    from scipy import signal

    from philtorch.prototype.signal import residue, residuez

    n = rng.choice([1, 1, 2, 2, 3, 4, 5])
    ps = poles(rng, n)
    rep = 1
    if n <= 3 and rng.random() < 0.35:
        ps, rep = ps + ps, 2
    a = torch.tensor(np.real(np.poly(ps)), dtype=torch.float64) * (rng.choice([-1, 1]) * rng.uniform(0.5, 2))
    b = torch.tensor([rng.uniform(-2, 2) for _ in range(rng.randint(1, len(a) + 3))], dtype=torch.float64)
    f = rng.choice([residue, residuez])
    kw = dict(rtype=rng.choice(["avg", "min", "max"])) if rng.random() < 0.5 else {}
    if rep > 1:
        kw["tol"] = 3e-3
    mon.case(fn=f.__name__, poles=n, repeated=rep, nb=len(b), **kw, b=[round(v, 4) for v in b.tolist()], a=[round(v, 4) for v in a.tolist()])
    r, p, k = mon.call(f, b, a, **kw)
    mon.ev("expansions")
    if len(r) != len(p) or len(p) != len(ps):
        mon.fail("count", f"{len(r)} residues, {len(p)} poles for a denominator of degree {len(ps)}")
        return
    z = points(rng)
    mult = {}
    if f is residue:
        H = sum((kk * z ** (len(k) - 1 - j) for j, kk in enumerate(k)), 0 * z)
        W = torch.tensor(np.polyval(b, z.numpy()) / np.polyval(a, z.numpy()))
        for x, y in zip(r, p):
            q = complex(y)
            mult[q] = mult.get(q, 0) + 1
            H = H + x / (z - y) ** mult[q]
    else:
        zi = 1 / z
        H = sum((kk * zi**j for j, kk in enumerate(k)), 0 * z)
        W = torch.tensor(np.polyval(b.flip(0), zi.numpy()) / np.polyval(a.flip(0), zi.numpy()))
        for x, y in zip(r, p):
            q = complex(y)
            mult[q] = mult.get(q, 0) + 1
            H = H + x / (1 - y * zi) ** mult[q]
    tol = 1e-7 if rep == 1 else 3e-3
    mon.ev("repeated" if rep > 1 else "simple")
    e = err(H, W)
    if not e <= tol:
        mon.fail("value", f"the expansion differs from b/a by {e:.3g} (tolerance {tol})")
        return
    if rep == 1 and f is residue or rep == 1 and len(b) >= 1:
        R, P, K = (signal.residue if f is residue else signal.residuez)(b.numpy(), a.numpy())
        used = set()
        for x, y in zip(r, p):
            j = min((j for j in range(len(P)) if j not in used), key=lambda j: abs(P[j] - complex(y)))
            used.add(j)
            if not abs(R[j] - complex(x)) <= 1e-6 * max(1, np.abs(R).max()):
                mon.fail("scipy", f"residue {complex(x)} at {complex(y)}, scipy gives {R[j]}")
                return
        if len(k) != len(K) or len(K) and not np.abs(k.numpy() - K).max() <= 1e-6 * max(1, np.abs(K).max()):
            mon.fail("scipy", f"direct terms {k.tolist()}, scipy gives {K.tolist()}")
        mon.ev("scipy-residues")


def poly(rng, mon):
    from philtorch.prototype import poly as P

    which = rng.choice(["polyval", "polymul", "polysmul", "polyadd", "polysub", "polyder", "polydiv", "roots", "roots", "trim_zeros", "zero", "unique_roots"])
    F = torch.complex128 if rng.random() < 0.25 and which not in ("roots", "zero") else torch.float64
    deg = lambda hi=6: rng.randint(0, hi)
    one = lambda: complex(rng.uniform(-2, 2), rng.uniform(-2, 2)) if F.is_complex else rng.uniform(-2, 2)
    rand = lambda d: torch.tensor([one() for _ in range(d + 1)], dtype=F)

    def zeros(p):
        if rng.random() < 0.25:
            p = torch.cat([torch.zeros(rng.randint(1, 3), dtype=F), p])
        if rng.random() < 0.2:
            p = torch.cat([p, torch.zeros(rng.randint(1, 3), dtype=F)])
        return p

    a, b = zeros(rand(deg())), zeros(rand(deg()))
    x = torch.tensor([rng.uniform(-1.5, 1.5) for _ in range(5)], dtype=torch.float64)
    if F.is_complex or rng.random() < 0.3:
        x = points(rng, 5, 0.3, 1.5)
    ev = lambda p, x=x: torch.tensor(np.polyval(p.resolve_conj().numpy(), x.numpy()))
    rnd = lambda v: round(v, 3) if not isinstance(v, complex) else str(complex(round(v.real, 3), round(v.imag, 3)))
    mon.case(which=which, complex=F.is_complex, a=[rnd(v) for v in a.tolist()], b=[rnd(v) for v in b.tolist()])
    mon.ev("identities")
    tol = 1e-9

    def eq(g, w, what):
        if tuple(g.shape) != tuple(w.shape):
            mon.fail("shape", f"{what}: {tuple(g.shape)}, expected {tuple(w.shape)}")
        elif g.numel() and not (g - w).abs().max().item() <= tol * (1 + w.abs().max().item()):
            mon.fail("value", f"{which} {what}: off by {(g - w).abs().max().item():.3g}")

    if which == "polyval":
        eq(mon.call(P.polyval, a, x).to(x.dtype), ev(a).to(x.dtype), "values")
    elif which == "polymul":
        eq(ev(mon.call(P.polymul, a, b)), ev(a) * ev(b), "values of the product")
    elif which == "polysmul":
        cs = [rand(deg(3)) for _ in range(rng.randint(1, 5))]
        w = torch.ones_like(x)
        for c in cs:
            w = w * ev(c)
        eq(ev(mon.call(P.polysmul, *cs)), w, "values of the product")
    elif which == "polyadd":
        eq(ev(mon.call(P.polyadd, a, b)), ev(a) + ev(b), "values of the sum")
    elif which == "polysub":
        eq(ev(mon.call(P.polysub, a, b)), ev(a) - ev(b), "values of the difference")
    elif which == "polyder":
        m = rng.randint(0, 4)
        eq(ev(mon.call(P.polyder, a, m)), torch.tensor(np.polyval(np.polyder(a.numpy(), m), x.numpy())), f"derivative {m}")
    elif which == "polydiv":
        v = rand(deg(4))
        v[0] = rng.choice([-1, 1]) * rng.uniform(0.7, 2)
        u = zeros(rand(deg(8)))
        if rng.random() < 0.25:
            v = torch.cat([torch.zeros(rng.randint(1, 2), dtype=F), v])
        q, r = mon.call(P.polydiv, u, v)
        tol = 1e-6
        eq(ev(q) * ev(v) + ev(r), ev(u), "q v + r")
        if len(P.trim_zeros(r)) > max(len(P.trim_zeros(v)) - 1, 1) and len(P.trim_zeros(u)) >= len(P.trim_zeros(v)):
            mon.fail("degree", f"remainder of length {len(r)} for a divisor of length {len(v)}")
    elif which == "roots":
        n = rng.randint(0, 6)
        ps = poles(rng, n) if n else []
        z = rng.choice([0, 0, 1, 2, 3])
        lead = rng.choice([0, 0, 1, 2, 3])
        c = torch.tensor([0.0] * lead + list(np.real(np.atleast_1d(np.poly(ps))) * rng.uniform(0.5, 2)) + [0.0] * z, dtype=F)
        r = mon.call(P.roots, c)
        want = sorted(ps + [0j] * z, key=lambda p: (round(p.real, 6), round(p.imag, 6)))
        got = sorted((complex(v) for v in r), key=lambda p: (round(p.real, 6), round(p.imag, 6)))
        if len(got) != len(want):
            mon.fail("count", f"{len(got)} roots of a polynomial of degree {len(want)}")
        else:
            left = list(got)
            for w in want:
                j = min(range(len(left)), key=lambda j: abs(left[j] - w))
                if abs(left[j] - w) > 1e-6:
                    mon.fail("value", f"root {w} is missing from {got}")
                    break
                left.pop(j)
    elif which == "trim_zeros":
        t = mon.call(P.trim_zeros, a)
        w = np.trim_zeros(a.numpy(), "f")
        eq(t, torch.tensor(w if len(w) else [0.0], dtype=F), "trimmed")
    elif which == "zero":
        o = torch.zeros(rng.randint(1, 4), dtype=F)
        eq(ev(mon.call(P.polyadd, a, o)), ev(a), "a + 0")
        eq(ev(mon.call(P.polymul, a, torch.ones(1, dtype=F))), ev(a), "a * 1")
        if len(mon.call(P.roots, o)):
            mon.fail("value", "the zero polynomial has roots")
    else:
        from philtorch.prototype.signal import unique_roots

        n = rng.randint(1, 4)
        base = poles(rng, n)
        ms = [rng.choice([1, 1, 2, 3]) for _ in base]
        allp = [p + complex(rng.uniform(-1, 1), rng.uniform(-1, 1)) * 1e-5 for p, m in zip(base, ms) for _ in range(m)]
        rng.shuffle(allp)
        rt = rng.choice(["min", "max", "avg"])
        out = mon.call(unique_roots, torch.tensor(allp, dtype=torch.complex128), tol=1e-3, rtype=rt)
        u, m = out[0], out[1]
        if len(u) != n:
            mon.fail("count", f"{len(u)} groups, expected {n}")
            return
        for p, k in zip(base, ms):
            j = int((u - p).abs().argmin())
            if abs(complex(u[j]) - p) > 1e-4 or int(m[j]) != k:
                mon.fail("value", f"root {p} of multiplicity {k}: found {complex(u[j])} x {int(m[j])}")
                return


STRATA = {"pfe": (pfe, 1200, 12000), "rational": (rational, 1200, 12000), "poly": (poly, 1500, 15000)}
REQUIRED = {"expansions": 1800, "repeated": 300, "simple": 900, "identities": 1200, "scipy-residues": 300}
