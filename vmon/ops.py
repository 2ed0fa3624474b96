"""Adapters: one generator per public function.

gen_xxx(rng, P) returns a Case: the tensors, the call into philtorch, and the reference.
P (Profile) bounds sizes, dtypes and options, so the same adapters serve value, gradient,
purity, dtype, fallback ... checks.
"""
import math
import os
import random
from dataclasses import dataclass, field, replace
from typing import Any, Callable, Optional

import torch

from . import ref
from .core import Skip

F64, F32, C128, C64, I64 = torch.float64, torch.float32, torch.complex128, torch.complex64, torch.int64

TS = [1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13, 15, 16, 17, 19, 23, 25, 29, 31, 32, 33, 36, 37, 47, 49, 50, 61, 64, 65, 67, 97, 100, 121, 128, 131, 160, 200]
BS = [1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 33]


@dataclass
class Profile:
    maxT: int = 200
    maxB: int = 33
    maxM: int = 8
    dtype: Any = None  # fixed dtype, or None: random mix
    complex_ok: bool = True
    f32_ok: bool = True
    numbers: str = "mix"  # 'float', 'int', 'mix'
    zi: Optional[bool] = None  # force presence / absence of a state
    unroll: str = "any"  # 'any', 'one', 'default'
    coincide: float = 0.25
    T: Optional[int] = None
    B: Optional[int] = None
    layouts: float = 0.0  # probability that an argument gets an unusual memory layout
    forms: Any = None
    backends: Any = None
    long: float = 0.0  # probability of a long signal
    patterns: float = 0.12  # probability of special values (silence, impulses, zero taps ...)
    scale: float = 0.0  # probability of a very small or very large signal
    modes: float = 0.0  # probability of a gradient mode other than the default one
    grow: float = 0.04  # probability of an unstable model
    big: float = 0.03  # probability of a large order (where maxM is not reduced)


@dataclass
class Case:
    op: str
    t: dict  # name -> tensor or None
    fn: Callable  # fn(**t) -> tensor or tuple
    ref: Callable  # ref(**t) -> tuple of tensors
    desc: dict
    tol: float = 1.0  # multiplier on the default tolerance
    exact: bool = False
    pure_ext: bool = False
    skip_grad: tuple = ()
    stateful: bool = False
    strict: bool = True  # the result dtype is specified
    info: dict = field(default_factory=dict)

    def run(self, **over):
        t = dict(self.t)
        t.update(over)
        mode = getattr(self.t, "mode", "plain")
        if mode == "no_grad":
            with torch.no_grad():
                return astuple(self.fn(**t))
        if mode == "inference":
            with torch.inference_mode():
                return astuple(self.fn(**t))
        if mode in ("grad", "parameters"):  # (values must not depend on whether gradients are recorded)
            for k, v in t.items():
                if v is not None and (v.is_floating_point() or v.is_complex()):
                    if mode == "parameters" and k not in ("x", "zi", "init", "y"):
                        t[k] = torch.nn.Parameter(v.detach())
                    else:
                        t[k] = v.detach().requires_grad_(True)
            return tuple(o.detach() if isinstance(o, torch.Tensor) else o for o in astuple(self.fn(**t)))
        return astuple(self.fn(**t))

    def want(self, **over):
        t = dict(self.t)
        t.update(over)
        return tuple(w for w in self.ref(**t))


def astuple(y):
    return tuple(y) if isinstance(y, (tuple, list)) else (y,)


# ---------------------------------------------------------------- numbers
def pick_dtype(rng, P):
    if P.dtype is not None:
        return P.dtype
    r = rng.random()
    if P.complex_ok and r < 0.15:
        return C128
    if P.f32_ok and r > 0.9:
        return F32
    if P.f32_ok and P.complex_ok and r > 0.87:
        return C64
    return F64


def randn(rng, shape, dtype, scale=1.0):
    g = torch.Generator().manual_seed(rng.getrandbits(60))
    if dtype == I64:
        return torch.randint(-3, 4, shape, generator=g)
    if dtype.is_complex:
        re = torch.randn(shape, generator=g, dtype=F64)
        im = torch.randn(shape, generator=g, dtype=F64)
        return (torch.complex(re, im) * (scale * 2**-0.5)).to(dtype)
    return (torch.randn(shape, generator=g, dtype=F64) * scale).to(dtype)


def randint(rng, shape, dtype, lo=-4, hi=4):
    g = torch.Generator().manual_seed(rng.getrandbits(60))
    v = torch.randint(lo, hi + 1, shape, generator=g)
    if dtype.is_complex:
        w = torch.randint(lo, hi + 1, shape, generator=g)
        return torch.complex(v.double(), w.double()).to(dtype)
    return v.to(dtype)


def doubling_growth(poles):
    """How much the rounding errors of computing companion^(2^k) by repeated squaring can be amplified."""
    import numpy as np

    M = len(poles)
    A = np.eye(M, k=-1, dtype=complex)
    A[0] = -np.poly(poles)[1:]
    f = 1.0
    for _ in range(7):
        f *= max(1.0, np.linalg.norm(A))
        A = A @ A
    return f


def stable_a(rng, shape, M, dtype, rmax=0.95, mode=None, sep=False, origin=0.0):
    """Coefficients (1 omitted) of a stable polynomial, shape + (M,); origin: probability of a pole at or next to zero"""
    n = int(math.prod(shape)) if shape else 1
    rows = []
    if dtype in (F32, C64) and not sep:  # keep the conditioning within reach of single precision
        rmax = min(rmax, 0.8)
        if M > 3:
            mode = "l1"
    for _ in range(n):
        m = mode or rng.choice(["pole", "l1", "l1", "pole", "small"])
        if M > 6 and not sep:
            m = "l1"
        if M == 0:
            rows.append(torch.zeros(0, dtype=C128))
            continue
        if m == "l1":
            v = randn(rng, (M,), C128 if dtype.is_complex else F64).to(C128)
            rows.append(v / v.abs().sum() * rng.uniform(0.3, 0.95))
        elif m == "small":
            rows.append(randn(rng, (M,), C128 if dtype.is_complex else F64).to(C128) * (0.3 / M))
        else:
            extra = [rng.choice([0.0, 0.0, 1e-9, 1e-4, -1e-2])] if rng.random() < origin else []
            for _try in range(1000):
                poles = []
                if dtype.is_complex:
                    for _ in range(M - len(extra)):
                        r, th = rmax * rng.random() ** 0.5, rng.uniform(0, 2 * math.pi)
                        poles.append(complex(r * math.cos(th), r * math.sin(th)))
                else:
                    for _ in range((M - len(extra)) // 2):
                        r, th = rmax * rng.random() ** 0.5, rng.uniform(0.1, math.pi - 0.1)
                        p = complex(r * math.cos(th), r * math.sin(th))
                        poles += [p, p.conjugate()]
                    if (M - len(extra)) % 2:
                        poles.append(complex(rng.uniform(-rmax, rmax), 0))
                poles += extra
                if not sep and (M < 3 or doubling_growth(poles) < 1e4 or _try > 100):
                    break
                if sep and (min([abs(p - q) for i, p in enumerate(poles) for q in poles[:i]], default=1) > sep and min((abs(p) for p in poles[: M - len(extra)]), default=1) > 0.15):
                    break
            c = [1 + 0j]
            for p in poles:
                c = [u - p * v for u, v in zip(c + [0], [0] + c)]
            rows.append(torch.tensor(c[1:], dtype=C128))
    v = torch.stack(rows).reshape(tuple(shape) + (M,))
    return (v if dtype.is_complex else v.real).to(dtype)


_CYC = [[1, -1], [1, 1], [1, 0, 1], [1, 1, 1], [1, -1, 1], [1, 0, -1]]


def int_a(rng, shape, M, dtype):
    """Integer coefficients whose recurrences grow at most polynomially (products of cyclotomics)."""
    n = int(math.prod(shape)) if shape else 1
    rows = []
    for _ in range(n):
        c, left, k = [1], M, 0
        while left > 0 and k < 2 and rng.random() < 0.85:
            f = rng.choice([f for f in _CYC if len(f) - 1 <= left])
            z = [0] * (len(c) + len(f) - 1)
            for i, u in enumerate(c):
                for j, v in enumerate(f):
                    z[i + j] += u * v
            c, left, k = z, left - len(f) + 1, k + 1
        rows.append(torch.tensor((c + [0] * left)[1:], dtype=F64))
    return torch.stack(rows).reshape(tuple(shape) + (M,)).to(dtype)


def relayout(t, rng, prob):
    """The same values in another memory layout (a view whose storage is laid out unusually)."""
    if t is None or prob <= 0 or rng.random() >= prob or t.dim() == 0 or t.numel() == 0:
        return t
    k = rng.choice(["transposed", "strided", "offset", "flip", "lazyconj", "expand", "neg"])
    d = t.detach()
    if k == "transposed" and t.dim() >= 2:
        i, j = rng.sample(range(t.dim()), 2)
        return d.transpose(i, j).contiguous().transpose(i, j)
    if k == "strided":
        i = rng.randrange(t.dim())
        shape = list(t.shape)
        shape[i] *= 2
        big = torch.full(shape, 7, dtype=t.dtype)
        sl = [slice(None)] * t.dim()
        sl[i] = slice(None, None, 2)
        big[tuple(sl)] = d
        return big[tuple(sl)]
    if k == "offset":
        i = t.dim() - 1
        shape = list(t.shape)
        shape[i] += 3
        big = torch.full(shape, 9, dtype=t.dtype)
        v = big.narrow(i, 2, t.shape[i])
        v.copy_(d)
        return v
    if k == "expand":
        for i in range(t.dim()):
            if t.shape[i] > 1 and bool((d == d.narrow(i, 0, 1)).all()):
                return d.narrow(i, 0, 1).contiguous().expand(t.shape)
        return d
    if k == "lazyconj" and t.is_complex():
        return d.conj().resolve_conj().conj()
    if k == "neg" and t.dtype != torch.bool:
        return torch._neg_view((-d).contiguous())
    if k == "flip" and t.dim() >= 2:
        perm = list(range(t.dim()))
        rng.shuffle(perm)
        inv = [perm.index(i) for i in range(t.dim())]
        return d.permute(perm).contiguous().permute(inv)
    return d


def sizes(rng, P, M=None):
    B = P.B or rng.choice([b for b in BS if b <= P.maxB])
    T = P.T or rng.choice([t for t in TS if t <= P.maxT])
    if P.B is None and P.T is None and rng.random() < P.coincide:
        k = rng.choice(["B=T", "B=M", "T=M", "B=T=M", "T=M+1", "B=M+1"])
        m = M if M else rng.randint(1, 6)
        if k == "B=T":
            T = B
        elif k == "B=M":
            B = m
        elif k == "T=M":
            T = m
        elif k == "T=M+1":
            T = m + 1
        elif k == "B=M+1":
            B = m + 1
        else:
            B = T = m
    if P.long and rng.random() < P.long:
        if (M or 1) <= 4 and rng.random() < 0.3:
            T, B = rng.choice([(40, 130), (12, 521), (7, 300), (3, 1025)])
        else:
            T, B = rng.choice([(1000, 3), (4096, 2), (4097, 2), (5003, 1), (2048, 5)] + [None] * 4) or (int(200 * 30 ** rng.random()), rng.choice([1, 2, 3]))
    return B, T


def growth(rng, P, T, dtype):
    """A factor per step that makes a model unstable, with a bounded total growth; 1 in most cases."""
    if not P.grow or dtype == I64 or rng.random() >= P.grow:
        return 1.0
    return min(3.0, (100 if dtype in (F32, C64) else 1e4) ** (1 / max(T, 1)))


def grown(rng, P, a, T, kind):
    """Coefficients or matrices of an unstable model; kind: 's' scalar recurrence, 'p' polynomial (1 omitted), 'm' matrix."""
    g = growth(rng, P, T, a.dtype) if kind else 1.0
    if g == 1.0:
        return a
    if kind == "s":
        return a / a.abs().max().clamp(min=1e-3) * g
    if kind == "m":
        return a / torch.linalg.matrix_norm(a, ord=2).max().clamp(min=1e-3) * g
    return a * g ** torch.arange(1, a.shape[-1] + 1, dtype=a.dtype if not a.dtype.is_complex else F64).to(a.dtype)


def pick_unroll(rng, P, T, allow_none=True):
    if P.unroll == "one":
        return 1
    if P.unroll == "default":
        return None if allow_none else 1
    c = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 18, 24, 30, 32, max(T - 1, 1), T, T + 1, 2 * T + 1, max(T // 2, 1), max(round(T**0.5), 1)]
    if allow_none and rng.random() < 0.25:
        return None
    if T > 300:  # the memory grows with the square of the factor
        c = [u for u in c if u <= 80]
    return rng.choice(c)


def order(rng, P, choices):
    if P.maxM >= 8 and rng.random() < P.big:
        return rng.randint(9, 24)
    return min(rng.choice(choices), P.maxM)


def is_int(rng, P, dtype):
    if dtype == I64:
        return True
    return P.numbers == "int" or (P.numbers == "mix" and rng.random() < 0.25)


class Args(dict):
    """The tensors of a case; `scale` is the power of two the signal and the state were multiplied with."""

    scale = 1.0
    mode = "plain"


def patterned(rng, name, t):
    """Special values: silence, impulses, gaps, constants, equal rows, zero/unit coefficients (taken from the tensor's own values)."""
    if t is None or t.numel() == 0:
        return t
    t = t.clone()
    if name in ("x", "y", "zi", "init"):
        td = 1 if t.dim() > 1 else 0
        n = t.shape[td] if t.dim() else 1
        k = rng.choice(["zero", "zero", "impulse", "lead", "tail", "gap", "constant", "zero-row", "equal-rows"])
        if k == "zero" or t.dim() == 0:
            return torch.zeros_like(t)
        i = rng.randrange(n)
        if k == "impulse":
            v = t.narrow(td, i, 1).clone()
            t.zero_().narrow(td, i, 1).copy_(v)
        elif k == "lead":
            t.narrow(td, 0, i).zero_()
        elif k == "tail":
            t.narrow(td, i, n - i).zero_()
        elif k == "gap":
            t.narrow(td, i, rng.randint(0, n - i)).zero_()
        elif k == "constant":
            t = t.narrow(td, i, 1).expand(t.shape).clone()
        elif td == 1:
            t = torch.cat([torch.zeros_like(t[:1]), t[1:]]) if k == "zero-row" else t[:1].expand(t.shape).clone()
        return t
    if name in ("a", "b"):
        k = rng.choice(["zero", "first", "last", "unit", "rest"])
        if name == "a" and t.dim() > 1 and rng.random() < 0.5:  # (dropping single coefficients could make the filter unstable)
            return torch.cat([torch.zeros_like(t[:1]), t[1:]])
        if t.dim() == 0 or k == "zero" or name == "a":
            return torch.zeros_like(t)
        if k == "first":
            t[..., 0] = 0
        elif k == "last":
            t[..., -1] = 0
        elif k == "rest":
            t[..., 1:] = 0
        elif name == "b":
            t.zero_()
            t[..., 0] = 1
        return t
    k = rng.choice(["zero", "equal", "sparse"])
    if k == "zero" or t.dim() == 0:
        return torch.zeros_like(t)
    if k == "equal":
        return t[:1].expand(t.shape).clone() if t.dim() > 2 or name != "A" else t
    t[..., rng.randrange(t.shape[-1])] = 0
    return t


def integral(t):
    return t.dtype == I64 or bool((torch.view_as_real(t.to(C128)) % 1 == 0).all())


def special(rng, name, t):
    """Tiny coefficients; matrices that are the identity, diagonal, triangular or symmetric."""
    if t is None or t.numel() == 0:
        return t
    k = rng.choice(["tiny", "identity", "diagonal", "lower", "upper", "symmetric"] if name == "A" and t.dim() >= 2 and t.shape[-1] == t.shape[-2] else ["tiny", "one-tiny"])
    if k.endswith("tiny"):
        if t.dtype not in (F64, C128) or integral(t):
            return t
        g = 2.0 ** -rng.randint(8, 20)
        if k == "tiny" or t.dim() == 0:
            return t * g
        t = t.clone()
        t[..., rng.randrange(t.shape[-1])] *= g
        l1 = t.abs().sum(-1).max().item()
        if l1 > 0.95:  # (a changed coefficient may move the poles out of the circle)
            t = t * ((0.95 / l1) ** torch.arange(1, t.shape[-1] + 1, dtype=F64)).to(t.dtype)
        return t
    if k == "identity":
        return torch.eye(t.shape[-1], dtype=t.dtype).expand(t.shape).clone()
    if k == "symmetric" and integral(t):
        return t
    s = torch.diag_embed(torch.diagonal(t, dim1=-2, dim2=-1)) if k == "diagonal" else t.tril() if k == "lower" else t.triu() if k == "upper" else (t + t.mT) / 2
    if s.dtype in (F64, C128) and not integral(t):
        # the new matrix may not grow faster than the old one
        top = torch.linalg.eigvals(t).abs().max().item()
        new = s.abs().sum(-1).max().item()
        if new > max(top, 0.95):
            s = s * min(1.0, max(top, 0.95) / new)
    return s.contiguous()


PATTERNABLE = ("x", "zi", "init", "b", "B", "C", "D")


def lay(rng, P, d, also=()):
    d = Args(d)
    if P.patterns and rng.random() < P.patterns:
        names = [k for k, v in d.items() if v is not None and k in PATTERNABLE + tuple(also)]
        for k in rng.sample(names, min(len(names), rng.choice([1, 1, 2, 3]))):
            d[k] = patterned(rng, k, d[k])
    if P.scale and rng.random() < P.scale:
        names = [k for k in ("x", "y", "zi", "init") if d.get(k) is not None]
        if all(d[k].dtype in (F64, C128, F32, C64) for k in names):
            d.scale = 2.0 ** rng.choice([-70, -40, -20, 20, 40, 70] if all(d[k].dtype in (F64, C128) for k in names) else [-40, -20, 20, 40])
            for k in names:
                d[k] = d[k] * d.scale
            if rng.random() < 0.5:
                names = [n for n in ((["b"], ["B"], ["C", "D"])) if d.get(n[0]) is not None and all(d.get(k) is None or d[k].dtype in (F64, C128) for k in n)]
                if names:
                    g = 2.0 ** rng.choice([-30, -15, 15, 30])
                    for k in rng.choice(names):
                        if d.get(k) is not None:
                            d[k] = d[k] * g
                    d.scale *= min(g, 1.0)
    if P.patterns and rng.random() < 0.3 * P.patterns:
        for k in set(also) & {"a", "A"}:
            d[k] = special(rng, k, d[k])
    out = Args({k: relayout(v, rng, P.layouts) for k, v in d.items()})
    out.scale = d.scale
    if P.modes and rng.random() < P.modes:
        out.mode = rng.choice(["no_grad", "no_grad", "inference", "grad", "grad", "parameters"])
    return out


def _full(v, B, T, tail, kind):
    """expand a shared ('' ), per-row ('B'), per-step ('N') or full ('BN') tensor to (B,T)+tail"""
    if kind == "":
        v = v.reshape((1, 1) + tuple(tail))
    elif kind == "B":
        v = v.unsqueeze(1)
    elif kind == "N":
        v = v.unsqueeze(0)
    return v.expand((B, T) + tuple(tail))


# ---------------------------------------------------------------- LTI filters
def gen_lti_lfilter(rng, P):
    from philtorch.lti import lfilter

    dtype = pick_dtype(rng, P)
    backend = rng.choice(P.backends or ["ssm", "ssm", "ssm", "diag_ssm"])
    form = rng.choice(P.forms or (["df1", "df2", "tdf1", "tdf2"] if backend == "ssm" else ["df2", "tdf2"]))
    integer = backend == "ssm" and is_int(rng, P, dtype)
    Ma = order(rng, P, [1, 1, 2, 2, 3, 3, 4, 5, 6, min(8, P.maxM), P.maxM]) if backend == "ssm" else min(rng.randint(1, 5), P.maxM)
    Mb = rng.choice([0, 1, Ma, Ma, max(Ma - 1, 0), Ma + 1, Ma + 2, Ma + 4, rng.randint(0, P.maxM)])
    kw = {}
    if backend == "ssm" and rng.random() < 0.07:
        Ma, Mb = 0, rng.randint(1, 4)
    B, T = sizes(rng, P, max(Ma, Mb))
    if integer:
        T = min(T, 40)
    long_num = backend == "diag_ssm" and Mb > Ma
    kind = rng.random()
    one_d = kind < 0.25
    if one_d:
        B = 1
    bk = "" if one_d or rng.random() < 0.45 else "B"
    ak = "" if one_d or rng.random() < 0.45 else "B"
    bs, as_ = ((B,) if bk else ()), ((B,) if ak else ())
    K = max(Ma, Mb)
    if integer:
        b, a = randint(rng, bs + (Mb + 1,), dtype), int_a(rng, as_, Ma, dtype)
        x = randint(rng, (T,) if one_d else (B, T), dtype)
    else:
        b = randn(rng, bs + (Mb + 1,), dtype)
        if backend == "diag_ssm":
            # the undelayed split divides by the last coefficient
            split = rng.choice([None, None, True, False]) if long_num else None
            if split is not None:
                kw["delayed_form"] = split
            a = stable_a(rng, as_, Ma, dtype, rmax=0.95, mode="pole", sep=0.25 if Ma < 4 else 0.15, origin=0.0 if split is False else 0.25)
        else:
            up = growth(rng, P, T, dtype) != 1.0
            a = stable_a(rng, as_, Ma, dtype, mode="l1" if up else None)
            a = grown(rng, replace(P, grow=1.0), a, T, "p") if up else a
        x = randn(rng, (T,) if one_d else (B, T), dtype)
    want_zi = P.zi if P.zi is not None else rng.random() < 0.5
    if long_num:
        want_zi = False
    zi = None
    if want_zi and K > 0:
        Kz = Ma if backend == "diag_ssm" else K
        zs = (Kz,) if one_d and rng.random() < 0.8 or rng.random() < 0.3 else (B, Kz)
        zi = randint(rng, zs, dtype) if integer else randn(rng, zs, dtype)
    if backend == "diag_ssm" and not long_num and zi is not None and False:
        pass
    if P.unroll != "default":
        u = pick_unroll(rng, P, T, allow_none=form in ("df2", "tdf2"))
        if u is not None or rng.random() < 0.5:
            if u is not None or form in ("df2", "tdf2"):
                kw["unroll_factor"] = u
    squeeze = one_d and (zi is None or zi.dim() == 1)
    stateful = form in ("df2", "tdf2")

    def f(b, a, x, zi):
        return lfilter(b, a, x, zi=zi, form=form, backend=backend, **kw)

    def r(b, a, x, zi):
        x2 = x.unsqueeze(0) if x.dim() == 1 else x
        z = torch.zeros(B, K, dtype=x.dtype) if zi is None else (zi.expand(B, -1) if zi.dim() == 1 else zi)
        if z.shape[1] < K:
            z = ref._padk(z, K)
        y, zf = ref.lfilter(_full(b, B, T, b.shape[-1:], bk), _full(a, B, T, a.shape[-1:], ak), x2, z, form)
        out = (y,) if zi is None or not stateful else (y, zf)
        return tuple(o[0] for o in out) if squeeze else out

    tol = 1.0
    if backend == "diag_ssm":
        tol = 1e4
        if kw.get("delayed_form") is False:
            tol = 1e8 if Mb - Ma > 2 else 1e6
    return Case("lti.lfilter", lay(rng, P, dict(b=b, a=a, x=x, zi=zi), ("a",) if backend == "ssm" else ()), f, r,
                dict(op="lti.lfilter", form=form, backend=backend, B=B, T=T, Ma=Ma, Mb=Mb, b=tuple(b.shape), a=tuple(a.shape), x=tuple(x.shape),
                     zi=None if zi is None else tuple(zi.shape), dtype=str(dtype), integer=integer, **kw),
                tol=tol, exact=integer, stateful=stateful and zi is not None,
                info=dict(B=B, T=T, K=K, form=form, backend=backend, bk=bk, ak=ak, time=("x",), batch=("b",) * bool(bk) + ("a",) * bool(ak), one_d=one_d))


def gen_lti_fir(rng, P):
    from philtorch.lti import fir

    dtype = pick_dtype(rng, P)
    M = order(rng, P, [0, 1, 2, 3, 4, 5, P.maxM])
    B, T = sizes(rng, P, M)
    integer = is_int(rng, P, dtype)
    g = randint if integer else randn
    tr = rng.random() < 0.5
    b, x = g(rng, (B, M + 1), dtype), g(rng, (B, T), dtype)
    zi = g(rng, (B, M), dtype) if (P.zi if P.zi is not None else rng.random() < 0.5) else None
    kw = {} if tr and rng.random() < 0.3 else dict(transpose=tr)

    def f(b, x, zi):
        return fir(b, x, zi=zi, **kw)

    def r(b, x, zi):
        z = torch.zeros(B, M, dtype=x.dtype) if zi is None else zi
        y, zf = ref.fir(b.unsqueeze(1).expand(B, T, M + 1), x, z, tr)
        return (y,) if zi is None else (y, zf)

    return Case("lti.fir", lay(rng, P, dict(b=b, x=x, zi=zi)), f, r,
                dict(op="lti.fir", B=B, T=T, M=M, transpose=tr, zi=zi is not None, dtype=str(dtype), integer=integer), exact=integer,
                stateful=zi is not None, info=dict(B=B, T=T, K=M, time=("x",), batch=("b",)))


def _rand_A(rng, B, T, M, kind, dtype, integer):
    """State matrices of moderate powers; kind '', 'B', 'N', 'BN'."""
    shape = ((B,) if "B" in kind else ()) + ((T,) if "N" in kind else ()) + (M, M)
    if dtype == I64:
        return randint(rng, shape, dtype, -2, 2)
    if integer:
        # signed permutation-like matrices (entries 0, +-1, one per row and column at most): no growth
        n = int(math.prod(shape[:-2]))
        A = torch.zeros(n, M, M, dtype=F64)
        for i in range(n):
            p = list(range(M))
            rng.shuffle(p)
            for j in range(M):
                if rng.random() < 0.9:
                    A[i, j, p[j]] = rng.choice([-1, 1])
        return A.reshape(shape).to(dtype)
    A = randn(rng, shape, dtype)
    nrm = torch.linalg.matrix_norm(A.to(C128), ord=2)[..., None, None]
    s = torch.rand(nrm.shape, generator=torch.Generator().manual_seed(rng.getrandbits(60)), dtype=F64) * 0.5 + 0.5
    return (A.to(C128) / nrm * s).to(dtype) if dtype.is_complex else (A.double() / nrm.real * s).to(dtype)


def gen_lti_state_space(rng, P):
    from philtorch.lti import state_space

    return _gen_ss(rng, P, state_space, "lti.state_space", lpv=False)


def gen_lpv_state_space(rng, P):
    from philtorch.lpv import state_space

    return _gen_ss(rng, P, state_space, "lpv.state_space", lpv=True)


def gen_diag_state_space(rng, P):
    from philtorch.lti import diag_state_space

    return _gen_ss(rng, P, diag_state_space, "lti.diag_state_space", lpv=False, diag=True)


def _gen_ss(rng, P, fun, name, lpv, diag=False):
    dtype = pick_dtype(rng, P)
    if P.dtype is None and not diag and rng.random() < 0.12 and P.complex_ok:
        dtype = I64
    integer = not diag and is_int(rng, P, dtype)
    M = min(rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, P.maxM]), P.maxM) if diag else order(rng, P, [1, 1, 2, 2, 3, 3, 4, 5, 6, P.maxM])
    if diag:
        M = min(M, 5)
    if lpv and dtype == I64 and M == 1:
        M = 2  # order 1 runs through torchlpc, which takes no integers
    B, T = sizes(rng, P, M)
    if integer:
        T = min(T, 60)
    feat = rng.random() < 0.4
    Fd = rng.choice([1, 2, 3, 4, M]) if feat else None
    K = rng.choice([1, 2, 3, 4, 5, M])
    ks = ["", "B"] if not lpv else ["", "B", "N", "BN"]
    Ak = rng.choice(ks if not lpv else ["N", "BN"])
    has_B = (feat and Fd != M) or rng.random() < 0.5
    Bk = rng.choice(ks) if has_B else None
    if dtype == I64 and has_B and feat:
        Bk = ""  # per-row / per-step contractions of int64 are not available in PyTorch (linalg.vecdot)
    Ck = rng.choice([None, "s", "s", "v", "v"])
    Cb = rng.choice(ks) if Ck else None
    if dtype == I64 and Ck:
        Cb = "" if Ck == "s" else rng.choice(["", "B"])
    out_idx = rng.randint(-M, M - 1) if Ck is None and rng.random() < 0.5 else None
    ydim = "s" if Ck == "s" or out_idx is not None else "v"
    if Ck is None:
        K = M
    has_D = rng.random() < 0.5
    if has_D and ydim == "v" and Ck is None and False:
        has_D = False
    Dk = rng.choice(ks) if has_D else None
    if dtype == I64 and feat and has_D:
        Dk = ""
    if has_D and ydim == "v" and K == 1 and not feat and Dk == "":
        Dk = "B"  # a (1,) feedthrough next to a (K,1) output matrix reads as a scalar
    # documented shapes that read two ways: keep the sizes distinct there
    distinct = False
    if Ck == "v" and Cb in ("", "N") or has_D and ydim == "v":
        distinct = True
    if lpv and (Bk == "N" or Cb in ("N", "B") or Dk in ("N", "B") or (Bk == "B")):
        distinct = True
    if feat and has_D:
        distinct = True
    if lpv and feat and has_B and Bk in ("", "N", "B"):
        distinct = True
    if distinct:
        dims = {"B": B, "T": T}
        for _ in range(60):
            vals = [B, T, K, M]
            if feat:
                vals.append(Fd)
            if B != T and B not in (K, M, Fd) and T not in (K, M, Fd):
                break
            B, T = sizes(rng, Profile(maxT=P.maxT, maxB=P.maxB, coincide=0, T=P.T, B=P.B))
            if integer:
                T = min(T, 60)
        else:
            raise Skip()
    g = randint if integer else randn

    def mk(kind, tail):
        return g(rng, ((B,) if "B" in kind else ()) + ((T,) if "N" in kind else ()) + tuple(tail), dtype)

    spec = None
    if diag:
        # A = V diag(L) V^-1 with a well-conditioned V; diagonal and triangular systems too,
        # whose eigenvectors have components that are exactly zero
        cplx = dtype.is_complex
        sh = (B,) if Ak else ()
        n = B if Ak else 1
        Ls, Vs, Afs = [], [], []
        structure = rng.choice(["full"] * 6 + ["diagonal", "lower", "upper", "mixed"]) if M > 1 else "full"
        for _ in range(n):
            how = rng.choice(["full", "diagonal", "lower", "upper"]) if structure == "mixed" else structure
            for _try in range(200):
                a = grown(rng, P, stable_a(rng, (), M, dtype if cplx else F64, mode="pole", sep=0.2 if M < 4 else 0.12), T, "p")
                Ac = ref.companion(a.to(C128))
                S = randn(rng, (M, M), C128 if cplx else F64).to(C128) * 0.3 + torch.eye(M, dtype=C128)
                if not cplx:
                    S = S.real.to(C128)
                A1 = S @ Ac @ torch.linalg.inv(S)
                L1, V1 = torch.linalg.eig(A1)
                if how != "full":
                    if not cplx:  # a real triangular matrix has real eigenvalues
                        L1 = torch.tensor([rng.uniform(-0.9, 0.9) if rng.random() < 0.9 else 0.0 for _ in range(M)], dtype=F64)
                        if torch.pdist(L1[:, None]).min() < 0.12:
                            continue
                    A1 = (randn(rng, (M, M), C128 if cplx else F64) * 0.5).to(C128)
                    A1 = {"diagonal": torch.zeros_like, "lower": lambda t: t.tril(-1), "upper": lambda t: t.triu(1)}[how](A1)
                    A1 = A1 + torch.diag(L1.to(C128))
                    L1, V1 = torch.linalg.eig(A1)
                if torch.linalg.cond(V1) < 60:
                    break
            else:
                raise Skip()
            Ls.append(L1)
            Vs.append(V1)
            Afs.append(A1)
        L, V = torch.stack(Ls).reshape(sh + (M,)), torch.stack(Vs).reshape(sh + (M, M))
        Afull = torch.stack(Afs).reshape(sh + (M, M))
        if not cplx:
            Afull = Afull.real
        cd = C128 if dtype in (F64, C128) else C64
        spec = rng.choice(["A", "A", "LV", "LVinv", "LVVinv", "LA" if not Ak else "LV"])
        A = Afull.to(dtype)
        sp = dict(L=None, V=None, Vinv=None, A=None)
        if spec in ("A", "LA"):
            sp["A"] = A
        if spec != "A":
            sp["L"] = L.to(cd)
        if spec in ("LV", "LVVinv"):
            sp["V"] = V.to(cd)
        if spec in ("LVinv", "LVVinv"):
            sp["Vinv"] = torch.linalg.inv(V).to(cd)
        if Ck is None:
            pass
    else:
        A = grown(rng, P, _rand_A(rng, B, T, M, Ak, dtype, integer), T, "" if integer else "m")
    x = g(rng, (B, T) + ((Fd,) if feat else ()), dtype)
    Bt = mk(Bk, (M, Fd) if feat else (M,)) if has_B else None
    Ct = mk(Cb, (M,) if Ck == "s" else (K, M)) if Ck else None
    Dt = None
    Dform = None
    if has_D:
        if feat:
            tail = (Fd,) if ydim == "s" else (K, Fd)
            Dt = mk(Dk, tail)
        elif ydim == "s":
            Dt = mk(Dk, ())
            if Dk == "" and rng.random() < 0.5:
                Dt = Dt.reshape(1)
        else:
            Dt = mk(Dk, (K,))
    want_zi = P.zi if P.zi is not None else rng.random() < 0.5
    zi = None
    if want_zi:
        zi = g(rng, (M,) if rng.random() < 0.35 else (B, M), dtype)
    kw = {}
    u = pick_unroll(rng, P, T)
    if u is not None or rng.random() < 0.5:
        kw["unroll_factor"] = u
    if out_idx is not None or rng.random() < 0.2:
        kw["out_idx"] = out_idx

    def f(A, x, B, C, D, zi, **sp):
        if diag:
            return fun(x, A=A, B=B, C=C, D=D, zi=zi, **sp, **kw)
        return fun(A, x, B=B, C=C, D=D, zi=zi, **kw)

    def r(A, x, B, C, D, zi, **sp):
        nB = x.shape[0]
        if diag and spec not in ("A", "LA"):
            V_ = sp["V"] if sp["V"] is not None else torch.linalg.inv(sp["Vinv"])
            A = V_ @ torch.diag_embed(sp["L"]) @ (sp["Vinv"] if sp["Vinv"] is not None else torch.linalg.inv(V_))
            # a perturbation of one eigenpair alone leaves the real systems: real parts are taken of the results only
            cplx_ = lambda v: None if v is None else v.to(A.dtype)
            x, B, C, D, zi = map(cplx_, (x, B, C, D, zi))
        Fx = x.shape[-1] if feat else 1
        xx = x if feat else x.unsqueeze(-1)
        AA = _full(A, nB, T, (M, M), Ak)
        if B is None:
            Bf = torch.eye(M, dtype=x.dtype)[:, :Fx].expand(nB, T, M, Fx)
        else:
            Bf = _full(B, nB, T, (M, Fx) if feat else (M,), Bk)
            Bf = Bf if feat else Bf.unsqueeze(-1)
        Cf = None
        if C is not None:
            Cf = _full(C, nB, T, (M,) if Ck == "s" else (K, M), Cb)
            Cf = Cf.unsqueeze(-2) if Ck == "s" else Cf
        Df = None
        if D is not None:
            if feat:
                Df = _full(D, nB, T, (Fx,) if ydim == "s" else (K, Fx), Dk)
                Df = Df.unsqueeze(-2) if ydim == "s" else Df
            elif ydim == "s":
                Df = _full(D.reshape(()) if Dk == "" else D, nB, T, (), Dk)[..., None, None]
            else:
                Df = _full(D, nB, T, (K,), Dk).unsqueeze(-1)
        z = torch.zeros(nB, M, dtype=x.dtype) if zi is None else (zi.expand(nB, -1) if zi.dim() == 1 else zi)
        y, zf = ref.state_space(AA, Bf, Cf, Df, xx, z, out_idx)
        if ydim == "s":
            y = y.squeeze(-1)
        if diag and not dtype.is_complex and y.is_complex():
            y, zf = y.real, zf.real
        return (y,) if zi is None else (y, zf)

    t = dict(A=A if not diag else sp["A"], x=x, B=Bt, C=Ct, D=Dt, zi=zi)
    if diag:
        t.update(L=sp["L"], V=sp["V"], Vinv=sp["Vinv"])
    return Case(name, lay(rng, P, t, () if diag else ("A",)), f, r,
                dict(op=name, B=B, T=T, M=M, A=Ak, Bm=None if Bt is None else tuple(Bt.shape), C=None if Ct is None else tuple(Ct.shape),
                     D=None if Dt is None else tuple(Dt.shape), x=tuple(x.shape), zi=None if zi is None else tuple(zi.shape), dtype=str(dtype),
                     integer=integer, spec=spec, **kw),
                tol=1e5 if diag else 1.0, exact=integer, skip_grad=("V", "Vinv") if spec == "LVVinv" else ("A", "L") if spec == "LA" else (), stateful=zi is not None, strict=not (diag and Ck is None and spec not in ("A", "LA")),
                info=dict(B=B, T=T, K=M, distinct=distinct, spec=spec, Ak=Ak, Bk=Bk, Cb=Cb, Dk=Dk, real=not dtype.is_complex, Cnone=Ck is None, zi=zi is not None,
                          time=("x",) + tuple(n for n, k in (("A", Ak), ("B", Bk), ("C", Cb), ("D", Dk)) if k and "N" in k),
                          batch=tuple(n for n, k in (("A", Ak), ("B", Bk), ("C", Cb), ("D", Dk)) if k and "B" in k)
                          + (("L", "V", "Vinv") if diag and Ak else ()),
                          axes={n: k for n, k in (("A", Ak), ("B", Bk), ("C", Cb), ("D", Dk))}))


def _gen_ssr(rng, P, fun, name, lpv):
    dtype = pick_dtype(rng, P)
    if P.dtype is None and rng.random() < 0.12 and P.complex_ok:
        dtype = I64
    integer = is_int(rng, P, dtype)
    M = order(rng, P, [1, 1, 2, 2, 3, 4, 5, 7, P.maxM])
    B, T = sizes(rng, P, M)
    Ak = rng.choice(["N", "BN"] if lpv else ["", "B"])
    feat = rng.random() < 0.5
    g = randint if integer else randn
    A = grown(rng, P, _rand_A(rng, B, T, M, Ak, dtype, integer), T, "" if integer else "m")
    x = g(rng, (B, T, M) if feat else (B, T), dtype)
    zi = g(rng, (B, M), dtype)
    kw = {}
    out_idx = rng.randint(-M, M - 1) if rng.random() < 0.5 else None
    if out_idx is not None:
        kw["out_idx"] = out_idx
    u = pick_unroll(rng, P, T, allow_none=False)
    if u != 1 or rng.random() < 0.5:
        kw["unroll_factor"] = u

    def f(A, zi, x):
        return fun(A, zi, x, **kw)

    def r(A, zi, x):
        nB = x.shape[0]
        uu = x if feat else torch.cat([x.unsqueeze(-1), torch.zeros(x.shape + (M - 1,), dtype=x.dtype)], -1)
        h = ref.mat_rec(_full(A, nB, T, (M, M), Ak), zi, uu)
        return (h if out_idx is None else h[..., out_idx],)

    return Case(name, lay(rng, P, dict(A=A, zi=zi, x=x), ("A",)), f, r,
                dict(op=name, B=B, T=T, M=M, A=Ak, feat=feat, dtype=str(dtype), integer=integer, **kw), exact=integer,
                info=dict(B=B, T=T, K=M, time=("x",) + (("A",) if lpv else ()), batch=("A",) if "B" in Ak else (), axes={"A": Ak}, u=u))


def gen_lti_ssr(rng, P):
    from philtorch.lti import state_space_recursion

    return _gen_ssr(rng, P, state_space_recursion, "lti.state_space_recursion", False)


def gen_lpv_ssr(rng, P):
    from philtorch.lpv import state_space_recursion

    return _gen_ssr(rng, P, state_space_recursion, "lpv.state_space_recursion", True)


def _gen_linrec(rng, P, fun, name, lpv):
    dtype = pick_dtype(rng, P)
    integer = is_int(rng, P, dtype)
    B, T = sizes(rng, P, 1)
    if lpv:
        Ak = rng.choice(["N", "BN"])
        ash = (T,) if Ak == "N" else (B, T)
    else:
        Ak = rng.choice(["0", "1", "B"])
        ash = {"0": (), "1": (1,), "B": (B,)}[Ak]
    zk = rng.choice(["0", "1", "B"])
    zsh = {"0": (), "1": (1,), "B": (B,)}[zk]
    g = randint if integer else randn
    if integer:
        a = randint(rng, ash, dtype, -1, 1)
    else:
        a = randn(rng, ash, dtype, 0.5)
        a = grown(rng, P, a / torch.clamp(a.abs(), min=1.0), T, "s")
    x, init = g(rng, (B, T), dtype), g(rng, zsh, dtype)
    kw = {}
    u = pick_unroll(rng, P, T, allow_none=False)
    if u != 1 or rng.random() < 0.5:
        kw["unroll_factor"] = u

    def f(a, init, x):
        return fun(a, init, x, **kw)

    def r(a, init, x):
        nB = x.shape[0]
        aa = a.expand(nB, T) if Ak in ("0", "N", "BN") else a.reshape(-1, 1).expand(nB, T)
        return (ref.lin_rec(aa, init.expand(nB) if init.dim() == 0 or init.shape[0] == 1 else init, x),)

    return Case(name, lay(rng, P, dict(a=a, init=init, x=x), ("a",)), f, r,
                dict(op=name, B=B, T=T, a=tuple(a.shape), init=tuple(init.shape), dtype=str(dtype), integer=integer, **kw), exact=integer,
                info=dict(B=B, T=T, K=1, time=("x",) + (("a",) if lpv else ()), batch=(("a",) if Ak in ("B", "BN") else ()) + (("init",) if zk == "B" else ()),
                          axes={"a": {"BN": "BN", "N": "N", "B": "B"}.get(Ak, ""), "init": "B" if zk == "B" else ""}, u=u))


def gen_lti_linrec(rng, P):
    from philtorch.lti import linear_recurrence

    return _gen_linrec(rng, P, linear_recurrence, "lti.linear_recurrence", False)


def gen_lpv_linrec(rng, P):
    from philtorch.lpv import linear_recurrence

    return _gen_linrec(rng, P, linear_recurrence, "lpv.linear_recurrence", True)


def gen_comb(rng, P):
    from philtorch.lti import comb_filter

    dtype = pick_dtype(rng, P)
    integer = is_int(rng, P, dtype)
    D = rng.choice([1, 1, 2, 3, 4, 5, 7, 8, 13, 20])
    B, T = sizes(rng, P, D)
    D = min(D, max(1, P.maxT // 2))
    ak = rng.choice(["", "B"])
    g = randint if integer else randn
    a = randint(rng, (B,) if ak else (), dtype, -1, 1) if integer else randn(rng, (B,) if ak else (), dtype, 0.4)
    if not integer:
        a = grown(rng, P, a / torch.clamp(a.abs(), min=1.0), T, "s")
    x = g(rng, (B, T), dtype)
    zi = None
    if P.zi if P.zi is not None else rng.random() < 0.5:
        zi = g(rng, (D,) if rng.random() < 0.4 else (B, D), dtype)
    kw = {}

    def f(a, x, zi):
        return comb_filter(a, D, x, zi=zi, **kw)

    def r(a, x, zi):
        nB = x.shape[0]
        z = torch.zeros(nB, D, dtype=x.dtype) if zi is None else zi.expand(nB, D)
        y, zf = ref.comb(a.expand(nB), D, x, z)
        return (y,) if zi is None else (y, zf)

    return Case("lti.comb_filter", lay(rng, P, dict(a=a, x=x, zi=zi), ("a",)), f, r,
                dict(op="lti.comb_filter", B=B, T=T, D=D, a=ak, zi=None if zi is None else tuple(zi.shape), dtype=str(dtype), integer=integer),
                exact=integer, stateful=zi is not None, info=dict(B=B, T=T, K=D, time=("x",), batch=("a",) if ak else (), axes={"a": ak}))


def gen_filtfilt(rng, P):
    from philtorch.lti import filtfilt

    dtype = pick_dtype(rng, P)
    Ma = min(rng.choice([1, 2, 3, 4, 5]), P.maxM)
    Mb = rng.choice([0, 1, Ma, Ma, Ma + 1, Ma + 2, max(Ma - 1, 0)])
    nt = max(Ma, Mb) + 1
    B = P.B or rng.choice([1, 2, 3, 5, 8])
    one_d = rng.random() < 0.3
    bk = "" if one_d or rng.random() < 0.5 else "B"
    ak = "" if one_d or rng.random() < 0.5 else "B"
    padmode = rng.choice(["replicate", "reflect", None, "default"])
    padlen = rng.choice([None, None, 0, 1, 2, rng.randint(0, 25)])
    edge = 3 * nt if padlen is None else padlen
    if padmode is None:
        edge = 0
    T = edge + rng.choice([1, 2, 3, 7, 20, 40, rng.randint(1, 60)])
    if P.maxT < 60:
        T = edge + rng.randint(1, 6)
    form = rng.choice(["tdf2", "tdf2", "df2", "df1", "tdf1"])
    b, a = randn(rng, ((B,) if bk else ()) + (Mb + 1,), dtype), stable_a(rng, (B,) if ak else (), Ma, dtype, rmax=0.9)
    x = randn(rng, (T,) if one_d else (B, T), dtype)
    kw = dict(form=form) if form != "tdf2" or rng.random() < 0.5 else {}
    if padmode != "default":
        kw["padmode"] = padmode
    if padlen is not None:
        kw["padlen"] = padlen
    if P.unroll != "default" and rng.random() < 0.3:
        kw["unroll_factor"] = pick_unroll(rng, P, T, allow_none=form in ("df2", "tdf2"))
    backend = rng.choice(P.backends or ["ssm", "ssm", "ssm", "diag_ssm"])
    if backend == "diag_ssm" and form in ("df2", "tdf2"):
        kw["backend"] = backend
        a = stable_a(rng, (B,) if ak else (), Ma, dtype, rmax=0.9, mode="pole", sep=0.25 if Ma < 4 else 0.15)

    def f(b, a, x):
        return filtfilt(b, a, x, **kw)

    def r(b, a, x):
        x2 = x.unsqueeze(0) if x.dim() == 1 else x
        nB = x2.shape[0]
        if edge:
            if padmode == "reflect":
                left, right = x2[:, 1 : edge + 1].flip(1), x2[:, -edge - 1 : -1].flip(1)
            else:
                left, right = x2[:, :1].expand(-1, edge), x2[:, -1:].expand(-1, edge)
            e = torch.cat([left, x2, right], 1)
        else:
            e = x2
        bb, aa = b.expand(nB, -1) if b.dim() == 1 else b, a.expand(nB, -1) if a.dim() == 1 else a
        z = ref.lfilter_zi(bb, aa, True)
        n = e.shape[1]

        def once(v):
            return ref.lfilter(bb.unsqueeze(1).expand(-1, n, -1), aa.unsqueeze(1).expand(-1, n, -1), v, z * v[:, :1], "tdf2")[0]

        y = once(once(e).flip(1)).flip(1)
        y = y[:, edge : n - edge]
        return (y[0] if x.dim() == 1 else y,)

    return Case("lti.filtfilt", lay(rng, P, dict(b=b, a=a, x=x)), f, r,
                dict(op="lti.filtfilt", B=B, T=T, Ma=Ma, Mb=Mb, b=tuple(b.shape), a=tuple(a.shape), x=tuple(x.shape), dtype=str(dtype), **kw), tol=100.0 if "backend" not in kw else 1e7,
                info=dict(B=B, T=T, K=nt - 1, edge=edge, padmode=padmode, padlen=padlen, time=(), batch=("b",) * bool(bk) + ("a",) * bool(ak), one_d=one_d))


def gen_lfilter_zi(rng, P):
    from philtorch.lti import lfilter_zi

    dtype = pick_dtype(rng, P)
    Ma = min(rng.choice([1, 2, 3, 4, 5, 8]), P.maxM)
    Mb = rng.choice([0, 1, Ma, max(Ma - 1, 0), Ma + 1, Ma + 3])
    B = P.B or rng.choice([1, 2, 3, 5])
    bk, ak = rng.choice([("", ""), ("B", ""), ("", "B"), ("B", "B")])
    tr = rng.random() < 0.6
    lead = (rng.randint(1, 3), B) if rng.random() < 0.2 else (B,)
    b, a = randn(rng, (lead[rng.choice([0, -1]):] if bk and ak else lead if bk else ()) + (Mb + 1,), dtype), stable_a(rng, lead if ak else (), Ma, dtype, rmax=0.9)
    passb = tr or rng.random() < 0.3
    dflt = tr and rng.random() < 0.5
    if not tr:
        bk = ""

    def f(a, b):
        if dflt:
            return lfilter_zi(a, b)
        return lfilter_zi(a, b if passb else None, transpose=tr)

    def r(a, b):
        return (ref.lfilter_zi(b, a, True) if tr else ref.lfilter_zi(b[..., :1].reshape(-1)[:1], a, False),)

    if not tr:
        b = b.reshape(-1)[: Mb + 1]
    return Case("lti.lfilter_zi", lay(rng, P, dict(a=a, b=b)), f, r,
                dict(op="lti.lfilter_zi", a=tuple(a.shape), b=tuple(b.shape), transpose=tr, dtype=str(dtype)), tol=1e3,
                skip_grad=() if tr else ("b",), info=dict(B=B, bk=bk, ak=ak, tr=tr, Ma=Ma, Mb=Mb))


def gen_lfiltic(rng, P):
    from philtorch.lti import lfiltic

    dtype = pick_dtype(rng, P)
    Ma = min(rng.choice([1, 2, 3, 4, 5, 8]), P.maxM)
    Mb = rng.choice([0, 1, Ma, max(Ma - 1, 0), Ma + 1, Ma + 3])
    B = P.B or rng.choice([1, 2, 3, 5])
    lead = (rng.randint(1, 3), B) if rng.random() < 0.2 else (B,)
    k = [rng.choice(["", "B"]) for _ in range(4)]
    sh = [lead[rng.choice([0, 0, -1]) :] if q else () for q in k]
    b, a = randn(rng, sh[0] + (Mb + 1,), dtype), stable_a(rng, sh[1], Ma, dtype)
    y = randn(rng, sh[2] + (Ma,), dtype)
    x = randn(rng, sh[3] + (Mb,), dtype) if rng.random() < 0.7 else None

    def f(b, a, y, x):
        return lfiltic(b, a, y, x)

    def r(b, a, y, x):
        K = max(Ma, Mb)
        xx = torch.zeros(Mb, dtype=b.dtype) if x is None else x
        out = []
        for m in range(K):
            z = 0
            for j in range(m + 1, Mb + 1):
                z = z + b[..., j] * xx[..., j - m - 1]
            for j in range(m + 1, Ma + 1):
                z = z - a[..., j - 1] * y[..., j - m - 1]
            out.append(z)
        full = torch.broadcast_shapes(b.shape[:-1], a.shape[:-1], y.shape[:-1], xx.shape[:-1])
        return (torch.stack([o.expand(full) if torch.is_tensor(o) else torch.zeros(full, dtype=b.dtype) for o in out], -1),)

    return Case("lti.lfiltic", lay(rng, P, dict(b=b, a=a, y=y, x=x), ("y", "a")), f, r,
                dict(op="lti.lfiltic", b=tuple(b.shape), a=tuple(a.shape), y=tuple(y.shape), x=None if x is None else tuple(x.shape), dtype=str(dtype)),
                info=dict(B=B, Ma=Ma, Mb=Mb))


def spline_coeff(x, scipy_padding):
    """B-spline coefficients by solving the banded interpolation system directly.

    reflect (whole-sample symmetric, period 2L-2): c[-1]=c[1], c[L]=c[L-2].
    scipy (half-sample symmetric for the prefilter): c[-1]=c[0], c[L]=c[L-1]."""
    L = x.shape[-1]
    A = torch.zeros(L, L, dtype=F64)

    def idx(i):
        if scipy_padding:
            return -1 - i if i < 0 else (2 * L - 1 - i if i >= L else i)
        return -i if i < 0 else (2 * L - 2 - i if i >= L else i)

    for i in range(L):
        A[i, i] += 4 / 6
        A[i, idx(i - 1)] += 1 / 6
        A[i, idx(i + 1)] += 1 / 6
    return x @ torch.linalg.inv(A).to(x.dtype).T


def gen_cspline(rng, P):
    from philtorch.lti.interp import cspline

    dtype = pick_dtype(rng, Profile(dtype=P.dtype, complex_ok=False, f32_ok=P.f32_ok))
    if dtype.is_complex:
        raise Skip()
    # the causal start uses the whole signal as its horizon: the periodic tail it drops is 0.27^(L-1)
    L = rng.choice([40, 41, 45, 50, 64, 77, 100, 129, 200]) if P.maxT >= 60 else rng.choice([40, 45])
    B = P.B or rng.choice([1, 2, 3, 5, 16])
    sp = rng.random() < 0.5
    pf = rng.random() < 0.5
    x = randn(rng, (B, L), dtype)
    kw = {}
    if not pf or rng.random() < 0.5:
        kw["parallel_form"] = pf
    if sp or rng.random() < 0.5:
        kw["scipy_padding"] = sp
    pf = kw.get("parallel_form", True)

    def f(x):
        return cspline(x, **kw)

    def r(x):
        return (spline_coeff(x, sp),)

    return Case("lti.cspline", lay(rng, P, dict(x=x)), f, r, dict(op="cspline", B=B, L=L, dtype=str(dtype), **kw), tol=100.0, info=dict(B=B, T=L, time=(), batch=()))


def gen_cubic_spline(rng, P):
    from philtorch.lti import cubic_spline

    dtype = pick_dtype(rng, Profile(dtype=P.dtype, complex_ok=False, f32_ok=P.f32_ok))
    if dtype.is_complex:
        raise Skip()
    L = rng.choice([40, 41, 45, 50, 64, 77, 100, 129]) if P.maxT >= 60 else rng.choice([40, 45])
    m = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 24, 31, 49, 50, 64, 98, 100, 103]) if P.maxT >= 60 else rng.choice([2, 3, 5])
    B = P.B or rng.choice([1, 2, 3, 5])
    sp = rng.random() < 0.5
    pf = rng.random() < 0.5
    x = randn(rng, (B, L), dtype)
    kw = {}
    if not pf:
        kw["parallel_form"] = pf
    if sp or rng.random() < 0.5:
        kw["scipy_padding"] = sp

    def f(x):
        return cubic_spline(x, m, **kw)

    def r(x):
        c = spline_coeff(x, sp)
        n = (L - 1) * m + 1
        W = torch.zeros(n, L, dtype=F64)
        for i in range(n):
            j0 = i // m
            fr = (i - j0 * m) / m
            for j in range(j0 - 1, j0 + 3):
                d = abs(j0 + fr - j)
                w = (4 - 6 * d**2 + 3 * d**3) / 6 if d <= 1 else max(2 - d, 0) ** 3 / 6
                if w:
                    if sp:  # half-sample symmetric coefficients, as cspline1d_eval
                        jj = -j - 1 if j < 0 else (2 * L - 1 - j if j > L - 1 else j)
                    else:
                        jj = -j if j < 0 else (2 * (L - 1) - j if j > L - 1 else j)
                    W[i, jj] += w
        return (c @ W.to(x.dtype).T,)

    return Case("lti.cubic_spline", lay(rng, P, dict(x=x)), f, r, dict(op="cubic_spline", B=B, L=L, m=m, dtype=str(dtype), **kw), tol=100.0,
                info=dict(B=B, T=L, m=m, sp=sp, time=(), batch=()))


# ---------------------------------------------------------------- LPV filters
def _tv_a(rng, B, T, M, kind, dtype, integer):
    sh = ((B,) if "B" in kind else ()) + (T,)
    if M == 0:
        return torch.zeros(sh + (0,), dtype=dtype)
    if integer:
        # at most one nonzero +-1 coefficient per step: polynomial growth
        n = int(math.prod(sh))
        a = torch.zeros(n, M, dtype=F64)
        for i in range(n):
            if rng.random() < 0.8:
                a[i, rng.randrange(M)] = rng.choice([-1, 1])
        return a.reshape(sh + (M,)).to(dtype)
    v = randn(rng, sh + (M,), dtype)
    return v / (v.abs().sum(-1, keepdim=True) + 1e-3) * 0.9


def gen_lpv_fir(rng, P):
    from philtorch.lpv import fir

    dtype = pick_dtype(rng, P)
    M = order(rng, P, [0, 1, 2, 3, 4, 5, P.maxM])
    B, T = sizes(rng, P, M)
    integer = is_int(rng, P, dtype)
    g = randint if integer else randn
    tr = rng.random() < 0.5
    b, x = g(rng, (B, T, M + 1), dtype), g(rng, (B, T), dtype)
    zi = g(rng, (B, M), dtype) if (P.zi if P.zi is not None else rng.random() < 0.5) else None
    kw = {} if not tr and rng.random() < 0.3 else dict(transpose=tr)

    def f(b, x, zi):
        return fir(b, x, zi=zi, **kw)

    def r(b, x, zi):
        z = torch.zeros(x.shape[0], M, dtype=x.dtype) if zi is None else zi
        y, zf = ref.fir(b, x, z, tr)
        return (y,) if zi is None else (y, zf)

    return Case("lpv.fir", lay(rng, P, dict(b=b, x=x, zi=zi)), f, r,
                dict(op="lpv.fir", B=B, T=T, M=M, transpose=tr, zi=zi is not None, dtype=str(dtype), integer=integer), exact=integer,
                stateful=zi is not None, info=dict(B=B, T=T, K=M, time=("x", "b"), batch=("b",), axes={"b": "BN"}))


def gen_lpv_allpole(rng, P):
    from philtorch.lpv import allpole

    dtype = pick_dtype(rng, P)
    M = order(rng, P, [1, 1, 2, 3, 4, 5, P.maxM])
    B, T = sizes(rng, P, M)
    integer = is_int(rng, P, dtype)
    if integer:
        T = min(T, 40)
    g = randint if integer else randn
    tr = rng.random() < 0.5
    a, x = grown(rng, P, _tv_a(rng, B, T, M, "BN", dtype, integer), T, "" if integer else "p"), g(rng, (B, T), dtype)
    zi = g(rng, (B, M), dtype) if (P.zi if P.zi is not None else rng.random() < 0.5) else None
    kw = {} if not tr and rng.random() < 0.3 else dict(transpose=tr)

    def f(a, x, zi):
        return allpole(a, x, zi=zi, **kw)

    def r(a, x, zi):
        z = torch.zeros(x.shape[0], M, dtype=x.dtype) if zi is None else zi
        y, zf = ref.allpole(a, x, z, tr)
        return (y,) if zi is None else (y, zf)

    return Case("lpv.allpole", lay(rng, P, dict(a=a, x=x, zi=zi), ("a",)), f, r,
                dict(op="lpv.allpole", B=B, T=T, M=M, transpose=tr, zi=zi is not None, dtype=str(dtype), integer=integer), exact=integer,
                stateful=zi is not None, info=dict(B=B, T=T, K=M, time=("x", "a"), batch=("a",), axes={"a": "BN"}, transpose=tr))


def gen_lpv_lfilter(rng, P):
    from philtorch.lpv import lfilter

    dtype = pick_dtype(rng, P)
    backend = rng.choice(P.backends or ["ssm", "ssm", "torchlpc"])
    if backend == "diag_ssm":
        backend = "ssm"
    forms = ["df1", "df2", "tdf1", "tdf2"] if backend == "ssm" else ["df1", "df2", "tdf1"]
    form = rng.choice([f for f in (P.forms or forms) if f in forms] or forms)
    integer = is_int(rng, P, dtype)
    Ma = order(rng, P, [1, 1, 2, 2, 3, 4, 5, P.maxM])
    Mb = min(rng.choice([0, 1, Ma, Ma, max(Ma - 1, 0), Ma + 1, Ma + 3]), P.maxM + 2)
    K = max(Ma, Mb)
    B, T = sizes(rng, P, K)
    if integer:
        T = min(T, 30)
    mode = rng.random()
    one_d = mode < 0.25
    if one_d:
        B = 1
    bk = "N" if one_d or rng.random() < 0.4 else "BN"
    ak = "N" if one_d or rng.random() < 0.4 else "BN"
    g = randint if integer else randn
    b = g(rng, ((B,) if "B" in bk else ()) + (T, Mb + 1), dtype)
    a = grown(rng, P, _tv_a(rng, B, T, Ma, ak, dtype, integer), T, "" if integer else "p")
    x = g(rng, (T,) if one_d else (B, T), dtype)
    zi = None
    if P.zi if P.zi is not None else rng.random() < 0.5:
        zi = g(rng, (K,) if (one_d and rng.random() < 0.8) or rng.random() < 0.3 else (B, K), dtype)
    kw = {}
    if form != "df2" or rng.random() < 0.7:
        kw["form"] = form
    if backend != "ssm" or rng.random() < 0.5:
        kw["backend"] = backend
    if backend == "ssm" and P.unroll != "default":
        u = pick_unroll(rng, P, T, allow_none=form in ("df2", "tdf2"))
        # df1/tdf1 with the extension ignore the factor; without a state the default is used
        if u is not None:
            kw["unroll_factor"] = u
    squeeze = one_d and (zi is None or zi.dim() == 1)
    stateful = form in ("df2", "tdf2")

    def f(b, a, x, zi):
        return lfilter(b, a, x, zi=zi, **kw)

    def r(b, a, x, zi):
        x2 = x.unsqueeze(0) if x.dim() == 1 else x
        nB = x2.shape[0]
        z = torch.zeros(nB, K, dtype=x.dtype) if zi is None else (zi.expand(nB, -1) if zi.dim() == 1 else zi)
        y, zf = ref.lfilter(_full(b, nB, T, b.shape[-1:], bk), _full(a, nB, T, a.shape[-1:], ak), x2, z, form)
        out = (y,) if zi is None or not stateful else (y, zf)
        return tuple(o[0] for o in out) if squeeze else out

    return Case("lpv.lfilter", lay(rng, P, dict(b=b, a=a, x=x, zi=zi), ("a",)), f, r,
                dict(op="lpv.lfilter", form=form, backend=backend, B=B, T=T, Ma=Ma, Mb=Mb, b=tuple(b.shape), a=tuple(a.shape), x=tuple(x.shape),
                     zi=None if zi is None else tuple(zi.shape), dtype=str(dtype), integer=integer, u=kw.get("unroll_factor")),
                exact=integer, stateful=stateful and zi is not None,
                info=dict(B=B, T=T, K=K, form=form, backend=backend, time=("x", "b", "a"), one_d=one_d,
                          batch=("b",) * ("B" in bk) + ("a",) * ("B" in ak), axes={"b": bk, "a": ak}))


# ---------------------------------------------------------------- compiled operators
def gen_native(rng, P, which=None):
    name = which or rng.choice(["lti_recur", "lti_recur2", "lti_recurN", "recur2", "recurN"])
    op = getattr(torch.ops.philtorch, name)
    dtype = pick_dtype(rng, P)
    if P.dtype is None and name != "lti_recur" and rng.random() < 0.12 and P.complex_ok:
        dtype = I64
    integer = is_int(rng, P, dtype)
    M = 1 if name == "lti_recur" else 2 if name.endswith("2") else order(rng, P, [1, 2, 3, 3, 4, 5, 6, 7, P.maxM])
    B, T = sizes(rng, P, M)
    g = randint if integer else randn
    if name == "lti_recur":
        Ak = rng.choice(["0", "1", "B"])
        A = (randint(rng, (), dtype, -1, 1) if integer else randn(rng, (), dtype, 0.4)) if Ak == "0" else None
        if Ak != "0":
            n = 1 if Ak == "1" else B
            A = randint(rng, (n,), dtype, -1, 1) if integer else randn(rng, (n,), dtype, 0.4)
        if not integer:
            A = grown(rng, P, A / torch.clamp(A.abs(), min=1.0), T, "s")
        x, zi = g(rng, (B, T), dtype), g(rng, (B,), dtype)

        def r(A, zi, x):
            return (ref.lin_rec(A.reshape(-1, 1).expand(x.shape[0], x.shape[1]), zi, x),)

        axes = "B" if Ak == "B" else ""
    else:
        Ak = rng.choice(["", "B"]) if name.startswith("lti") else rng.choice(["N", "BN"])
        A = grown(rng, P, _rand_A(rng, B, T, M, Ak, dtype, integer), T, "" if integer else "m")
        x, zi = g(rng, (B, T, M), dtype), g(rng, (B, M), dtype)

        def r(A, zi, x):
            return (ref.mat_rec(_full(A, x.shape[0], x.shape[1], (M, M), Ak), zi, x),)

        axes = Ak

    def f(A, zi, x):
        return op(A, zi, x)

    return Case("op." + name, lay(rng, P, dict(A=A, zi=zi, x=x), ("A",)), f, r,
                dict(op=name, B=B, T=T, M=M, A=tuple(A.shape), dtype=str(dtype), integer=integer), exact=integer, pure_ext=True,
                info=dict(B=B, T=T, K=M, time=("x",) + (("A",) if "N" in axes else ()), batch=("A",) if "B" in axes else (), axes={"A": axes}))


def gen_function(rng, P):
    """The differentiable wrappers of the operators (torch.autograd.Function subclasses)."""
    import importlib

    mod, cls, which, x1 = rng.choice([("lti.recur", "LTIRecurrence", "lti_recur", False), ("lti.ssm", "LTIMatrixRecurrence", "lti_recurN", False), ("lti.ssm", "LTIMatrixRecurrence", "lti_recur2", False),
                                      ("lpv.ssm", "MatrixRecurrence", "recurN", False), ("lpv.ssm", "MatrixRecurrence", "recur2", False)])
    F = getattr(importlib.import_module("philtorch." + mod), cls, None)
    if F is None:
        raise Skip()
    c = gen_native(rng, P, which)
    if which == "lti_recur" and c.t["A"].dim() == 1 and c.t["A"].shape[0] != c.info["B"]:
        raise Skip()
    c.fn = lambda A, zi, x: F.apply(A, zi, x)
    c.op = cls
    c.desc["op"] = cls
    return c


# ---------------------------------------------------------------- helpers
def gen_polydiv(rng, P):
    from philtorch.poly import polydiv

    dtype = pick_dtype(rng, P)
    m, n = rng.randint(0, 8), rng.randint(0, 5)
    # (a longer divisor leaves u itself as the remainder: whether it is expanded is not specified)
    uk, vk = rng.choice([("", ""), ("B", "B"), ("B", ""), ("", "B"), ("BC", "BC"), ("BC", "C")][: None if m >= n else 3])
    dims = {"B": 3, "C": 2}
    u = randn(rng, tuple(dims[c] for c in uk) + (m + 1,), dtype)
    v = randn(rng, tuple(dims[c] for c in vk) + (n + 1,), dtype, 0.4)
    lead = torch.sgn(v[..., :1]) * (0.8 + v[..., :1].abs())
    v = torch.cat([lead, v[..., 1:]], -1)

    def f(u, v):
        return polydiv(u, v)

    def r(u, v):
        if m < n:
            return (None, u)
        sh = torch.broadcast_shapes(u.shape[:-1], v.shape[:-1])
        rr = [u[..., i].expand(sh) for i in range(m + 1)]
        q = []
        for k in range(m - n + 1):
            d = rr[k] / v[..., 0]
            q.append(d)
            for j in range(n + 1):
                rr[k + j] = rr[k + j] - d * v[..., j]
        rem = rr[m - n + 1 :]
        return (torch.stack(q, -1), torch.stack(rem, -1) if rem else torch.zeros(sh + (0,), dtype=u.dtype))

    return Case("poly.polydiv", lay(rng, P, dict(u=u, v=v)), f, r, dict(op="polydiv", u=tuple(u.shape), v=tuple(v.shape), dtype=str(dtype)), tol=1e4,
                info=dict(m=m, n=n))


def gen_mat(rng, P, which=None):
    from philtorch import mat

    dtype = pick_dtype(rng, P)
    which = which or rng.choice(["companion", "power", "cumdot", "vandermonde"])
    M = min(rng.choice([1, 2, 3, 4, 5, 6]), P.maxM)
    lead = rng.choice([(), (1,), (3,), (2, 3)])
    if which == "companion":
        a = randn(rng, lead + (M,), dtype)
        return Case("mat.companion", lay(rng, P, dict(a=a)), lambda a: mat.companion(a), lambda a: (ref.companion(a),),
                    dict(op="companion", a=tuple(a.shape), dtype=str(dtype)))
    if which == "power":
        n = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 16, 17, 18, 24, 27, 30, 36, 49, 64, -1, -2, -3, -5, -6, -7, -8, -9, -11, -12, -15, -16])
        A = _rand_A(rng, 1, 1, M, "", dtype, False)
        A = torch.stack([_rand_A(rng, 1, 1, M, "", dtype, False) for _ in range(int(math.prod(lead)) or 1)]).reshape(lead + (M, M))
        if n < 0:
            A = A * 0.5 + torch.eye(M, dtype=dtype)

        def r(A):
            if n == 0:
                return (torch.eye(M, dtype=A.dtype).expand(A.shape).unsqueeze(-3),)
            base, outs = (A, [A]) if n > 0 else (torch.linalg.inv(A), [torch.linalg.inv(A)])
            for _ in range(abs(n) - 1):
                outs.append(outs[-1] @ base)
            return (torch.stack(outs, -3),)

        return Case("mat.power", lay(rng, P, dict(A=A)), lambda A: mat.matrix_power_accumulate(A, n), r,
                    dict(op="matrix_power_accumulate", A=tuple(A.shape), n=n, dtype=str(dtype)), tol=10 if n > 0 else 1e6,
                    skip_grad=("A",) if n == 0 else ())
    if which == "cumdot":
        n = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 16, 18, 20, 24, 27, 30, 31, 36])
        A = _rand_A(rng, int(math.prod(lead)) or 1, n, M, "BN", dtype, rng.random() < 0.3).reshape(lead + (n, M, M))

        def r(A):
            outs = [A[..., 0, :, :]]
            for i in range(1, n):
                outs.append(outs[-1] @ A[..., i, :, :])
            return (torch.stack(outs, -3),)

        return Case("mat.cumdot", lay(rng, P, dict(A=A)), lambda A: mat.matrices_cumdot(A), r,
                    dict(op="matrices_cumdot", A=tuple(A.shape), dtype=str(dtype)))
    lead = rng.choice([(), (3,), (2, 3)])
    p = randn(rng, lead + (M,), dtype)
    if rng.random() < 0.3:
        p = torch.where(torch.rand(p.shape, generator=torch.Generator().manual_seed(rng.randrange(1 << 30))) < 0.3, torch.zeros_like(p), p)

    def r(p):
        rows = [torch.ones_like(p)]
        for _ in range(M - 1):
            rows.append(rows[-1] * p)
        return (torch.stack(rows[::-1], -2),)

    return Case("mat.vandermonde", lay(rng, P, dict(p=p)), lambda p: mat.vandermonde(p), r, dict(op="vandermonde", p=tuple(p.shape), dtype=str(dtype)),
                skip_grad=("p",) if M == 1 else ())


LTI = dict(lfilter=gen_lti_lfilter, fir=gen_lti_fir, state_space=gen_lti_state_space, ssr=gen_lti_ssr, linrec=gen_lti_linrec,
           diag=gen_diag_state_space, comb=gen_comb, filtfilt=gen_filtfilt, zi=gen_lfilter_zi, ic=gen_lfiltic, cspline=gen_cspline, spline=gen_cubic_spline)
LPV = dict(fir=gen_lpv_fir, allpole=gen_lpv_allpole, lfilter=gen_lpv_lfilter, state_space=gen_lpv_state_space, ssr=gen_lpv_ssr, linrec=gen_lpv_linrec)
ALL = {f"lti_{k}": v for k, v in LTI.items()} | {f"lpv_{k}": v for k, v in LPV.items()} | dict(native=gen_native, function=gen_function, polydiv=gen_polydiv, mat=gen_mat)


# ---------------------------------------------------------------- oracle on a pair of results
RTOL = {F64: 1e-9, C128: 1e-9, F32: 3e-4, C64: 3e-4}


MARGIN = os.environ.get("VMON_MARGIN")  # file for results close to the tolerance (tuning only)


def rtol_for(dtype):
    return RTOL.get(dtype, 0.0)


def compare(mon, got, want, tol=1.0, exact=False, dtype=None, what="output", kind="value", batch_dim=True, strict_dtype=True, floor=1e-6):
    """Compare tuples of tensors; reports to mon; returns True when equal."""
    if len(got) != len(want):
        mon.fail("arity", f"{what}: {len(got)} results returned, {len(want)} expected")
        return False
    ok = True
    for i, (g, w) in enumerate(zip(got, want)):
        if w is None:
            continue
        if not isinstance(g, torch.Tensor):
            mon.fail("type", f"{what}[{i}]: {type(g).__name__} returned")
            return False
        if tuple(g.shape) != tuple(w.shape):
            mon.fail("shape", f"{what}[{i}]: shape {tuple(g.shape)}, expected {tuple(w.shape)}")
            return False
        if strict_dtype and g.dtype != w.dtype:
            mon.fail("dtype", f"{what}[{i}]: dtype {g.dtype}, expected {w.dtype}")
            return False
        mon.ev("compared")
        mon.ev("elements", w.numel())
        if w.numel() == 0:
            continue
        g, w = g.detach(), w.detach()
        if w.dtype == I64 or not (w.is_floating_point() or w.is_complex()):
            if not torch.equal(g, w):
                j = (g != w).nonzero()[0].tolist()
                mon.fail(kind, f"{what}[{i}]: integer results differ first at {j}: got {g[tuple(j)]}, expected {w[tuple(j)]}")
                ok = False
            continue
        rt = rtol_for(dtype or w.dtype) * tol
        gg, ww = (v.to(C128).resolve_conj().resolve_neg() for v in (g, w))
        if exact and w.dtype in (F64, C128):
            if ww.abs().max() < 2**45:
                rt = 1e-12 if tol <= 1 else rt
        if not torch.isfinite(torch.view_as_real(ww)).all():
            mon.ev("nonfinite-reference")
            continue
        flat = ww.abs().reshape(ww.shape[0], -1) if (batch_dim and ww.dim() > 1) else ww.abs().reshape(1, -1)
        sc = flat.max(1).values
        sc = torch.maximum(sc, 1e-2 * sc.max()).clamp(min=floor)
        err = (gg - ww).abs().reshape(flat.shape)
        err = torch.where(torch.isfinite(err), err, torch.full_like(err, float("inf")))
        rel = (err / sc[:, None]).max().item()
        if MARGIN and rel > float(os.environ.get("VMON_MARGIN_AT", "0.1")) * rt:
            with open(MARGIN, "a") as fh:
                fh.write(f"{rel / rt:.3g} {mon.stratum}#{mon.index} seed {mon.seed} {what} {getattr(mon, 'desc', '')}\n")
        if not rel <= rt:
            j = (err / sc[:, None]).argmax().item()
            mon.fail(kind, f"{what}[{i}]: relative error {rel:.3g} > {rt:.3g} at flat index {j}: got {gg.flatten()[j].item()}, expected {ww.flatten()[j].item()}",
                     shape=tuple(w.shape))
            ok = False
        if ww.abs().max() > 0:
            mon.ev("nonzero-results")
    return ok


def judge(mon, case, got=None, **kw):
    """Run a case and compare with its reference."""
    mon.case(**case.desc)
    if got is None:
        got = mon.call(case.run)
    want = case.want()
    kw.setdefault("strict_dtype", case.strict)
    kw.setdefault("floor", 1e-6 * getattr(case.t, "scale", 1.0))
    mon.ev("mode-" + getattr(case.t, "mode", "plain"))
    mon.ev("scaled-signals", int(getattr(case.t, "scale", 1.0) != 1.0))
    return compare(mon, got, want, tol=case.tol, exact=case.exact, **kw)
