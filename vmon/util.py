"""Helpers shared by the checks."""
import contextlib
import itertools

import numpy as np
import torch


def case_kw(case):
    """The keyword dictionary the case's call uses (so that a check can vary an option)."""
    fn = case.fn
    cells = dict(zip(fn.__code__.co_freevars, fn.__closure__ or ()))
    return cells["kw"].cell_contents if "kw" in cells else {}


def time_dim(name, t, case):
    """Axis of time of a tensor of this case, or None."""
    if name == "x":
        return 0 if t.dim() == 1 else 1
    if name not in case.info["time"]:
        return None
    ax = case.info.get("axes", {}).get(name, "")
    return ax.index("N") if "N" in ax else None


def time_slice(case, lo, hi):
    """The case's tensors restricted to the steps [lo, hi) (the state excluded)."""
    out = {}
    for k, v in case.t.items():
        if k in ("zi", "init"):
            continue
        d = None if v is None else time_dim(k, v, case)
        out[k] = v if d is None else v.narrow(d, lo, hi - lo)
    return out


def batch_dim(name, t, case):
    if name == "x":
        return None if t.dim() == 1 else 0
    if name in ("zi", "init"):
        if case.op.startswith("op."):
            return 0
        return 0 if t.dim() == 2 or (name == "init" and t.dim() == 1 and t.shape[0] > 1) else None
    return 0 if name in case.info["batch"] else None


def partition(rng, T, allowed=None, style=None):
    """A random composition of T into positive chunk lengths drawn from `allowed`."""
    style = style or rng.choice(["ones", "two", "few", "many", "tail", "head"])
    ok = (lambda n: n >= 1) if allowed is None else (lambda n: n >= 1 and allowed(n))
    for _ in range(60):
        if style == "ones":
            c = [1] * T if T <= 40 else [1] * 12 + [T - 12]
        elif style == "two":
            k = rng.randint(1, max(T - 1, 1))
            c = [k, T - k]
        elif style == "tail":
            c = [T - 1, 1]
        elif style == "head":
            c = [1, T - 1]
        elif style == "few":
            c, left = [], T
            while left:
                k = rng.randint(1, left)
                c.append(k)
                left -= k
                if len(c) > 4:
                    c.append(left)
                    break
        else:
            c, left = [], T
            while left:
                k = min(left, rng.randint(1, 5))
                c.append(k)
                left -= k
        c = [n for n in c if n > 0]
        if sum(c) == T and all(ok(n) for n in c):
            return c
        style = rng.choice(["two", "few", "many"])
    return None


def snapshot(t):
    """Bitwise content and metadata of a tensor."""
    if t is None:
        return None
    return (tuple(t.shape), t.stride(), t.storage_offset(), t.dtype, t.requires_grad, t._version, t.is_conj(), t.is_neg(), t.data_ptr(), t.detach().clone())


def bits(t):
    """Raw content as integers, so that NaN and signed zero are compared too."""
    t = t.detach().resolve_conj().resolve_neg()
    t = torch.empty(t.shape, dtype=t.dtype).copy_(t)
    if t.is_complex():
        t = torch.view_as_real(t)
    return t.flatten().view(torch.uint8) if t.numel() else t.flatten()


def same_bits(a, b):
    return a.shape == b.shape and a.dtype == b.dtype and torch.equal(bits(a), bits(b))


def same_snapshot(a, t):
    if a is None:
        return t is None
    b = snapshot(t)
    return a[:-1] == b[:-1] and same_bits(a[-1], b[-1])


def grad_leaves(rng, tensors, names=None, at_least=1):
    """Choose a random non-empty subset of the floating arguments."""
    names = [k for k, v in tensors.items() if v is not None and (v.is_floating_point() or v.is_complex()) and (names is None or k in names)]
    if not names:
        return []
    if rng.random() < 0.4:
        return names
    k = rng.randint(at_least, len(names))
    return sorted(rng.sample(names, k))


def relerr(g, w):
    """Largest error relative to the largest reference entry."""
    if w.numel() == 0:
        return 0.0
    g, w = g.to(torch.complex128), w.to(torch.complex128)
    e = (g - w).abs()
    e = torch.where(torch.isfinite(e), e, torch.full_like(e, float("inf")))
    return (e.max() / w.abs().max().clamp(min=1e-6)).item()


@contextlib.contextmanager
def unusual(rng, p=1.0):
    """Interpreter-wide settings away from their defaults: code that sets one and 'restores' the default is seen."""
    if rng.random() >= p:
        yield {}
        return
    want = dict(dtype=rng.choice([torch.float32, torch.float64]), threads=rng.choice([1, 2, 3]), det=rng.random() < 0.3, precision=rng.choice(["highest", "high"]), err=rng.choice(["warn", "ignore"]))
    old = torch.get_default_dtype(), torch.get_num_threads(), torch.are_deterministic_algorithms_enabled(), torch.is_deterministic_algorithms_warn_only_enabled(), torch.get_float32_matmul_precision(), np.geterr()
    torch.set_default_dtype(want["dtype"])
    torch.set_num_threads(want["threads"])
    torch.use_deterministic_algorithms(want["det"], warn_only=True)
    torch.set_float32_matmul_precision(want["precision"])
    np.seterr(under=want["err"])
    try:
        yield want
    finally:
        torch.set_default_dtype(old[0])
        torch.set_num_threads(old[1])
        torch.use_deterministic_algorithms(old[2], warn_only=old[3])
        torch.set_float32_matmul_precision(old[4])
        np.seterr(**old[5])
