"""newton_solve against the sequential solution."""
import torch

from .. import load, ops, util
from ..core import Skip

ID = "C26"
RULE = ("Each case draws a recurrence (affine with input-dependent matrices, tanh network, rational contraction, piecewise-linear envelope follower, sine map), state and input sizes, batch, length, initial guess (zero, random, constant, the solution), "
        "Jacobian given or derived, unroll factor, iteration limit and tolerances. Observed: shape, iteration count, the first k samples after k iterations, the whole sequence when the run stopped early or the recurrence is affine, "
        "and gradients through the solution of affine recurrences. The functions count and log their calls (times of x they were given). Distinct: drawn configuration.")
ASSUMPTIONS = ["the recurrences are contractions or bounded, so that rounding errors are not amplified"]


def setup():
    load.philtorch()
    import philtorch.prototype.nl  # noqa: F401


def make(rng, D, N, B, dt):
    """func(prev, x), fprime(prev, x), affine"""
    kind = rng.choice(["affine", "affine", "tanh", "rational", "sine"] + (["gated", "gated"] if N >= 2 else []) + (["envelope"] if D == 1 and N == 1 else []))
    W = ops.randn(rng, (D, D), dt)
    W = W * (rng.choice([0.4, 0.8]) / torch.linalg.matrix_norm(W, 2))
    U = ops.randn(rng, (N, D), dt)
    V = ops.randn(rng, (N, D), dt)
    if kind == "affine":
        # y = (W + 0.3 tanh(x0) diag) y + x U : the matrix depends on x
        g = ops.randn(rng, (D,), dt).tanh() * 0.3 * rng.choice([0.0, 1.0])

        def f(p, x):
            return p @ W.mT + g * torch.tanh(x[..., :1]) * p + x @ U

        def df(p, x):
            return W + torch.diag_embed((g * torch.tanh(x[..., :1])).expand(p.shape))

        return kind, f, df, True
    if kind == "tanh":

        def f(p, x):
            return torch.tanh(p @ W.mT + x @ U)

        def df(p, x):
            return (1 - torch.tanh(p @ W.mT + x @ U) ** 2).unsqueeze(-1) * W

        return kind, f, df, False
    if kind == "rational":

        def f(p, x):
            q = p @ W.mT
            return q / (1 + q * q) + x @ U

        def df(p, x):
            q = p @ W.mT
            return ((1 - q * q) / (1 + q * q) ** 2).unsqueeze(-1) * W

        return kind, f, df, False
    if kind == "sine":

        def f(p, x):
            return torch.sin(p @ W.mT + x @ V) * 0.9 + 0.1 * (x @ U)

        def df(p, x):
            return 0.9 * torch.cos(p @ W.mT + x @ V).unsqueeze(-1) * W

        return kind, f, df, False
    if kind == "gated":
        # the first input switches the memory off (0) and on (1)

        def f(p, x):
            q = p @ W.mT
            return x[..., :1] * (torch.tanh(q) + q * q / 8) + x[..., 1:] @ U[1:]

        def df(p, x):
            q = p @ W.mT
            return (x[..., :1] * (1 - torch.tanh(q) ** 2 + q / 4)).unsqueeze(-1) * W

        return kind, f, df, False
    at, rt = torch.tensor(rng.uniform(0.2, 0.9), dtype=dt), torch.tensor(rng.uniform(0.2, 0.9), dtype=dt)

    def f(p, x):
        c = torch.where(x < p, at, rt)
        return c * x + (1 - c) * p

    def df(p, x):
        return (1 - torch.where(x < p, at, rt)).unsqueeze(-1)

    return kind, f, df, False


def case(rng, mon):
    from philtorch.prototype.nl import newton_solve

    dt = torch.float64 if rng.random() < 0.85 else torch.float32
    D, N, B = rng.choice([1, 1, 2, 2, 3, 4]), rng.choice([1, 1, 2, 3]), rng.choice([1, 2, 3, 5])
    L = rng.choice([2, 3, 4, 5, 7, 8, 12, 17, 30, 50])
    kind, f, df, affine = make(rng, D, N, B, dt)
    x, init = ops.randn(rng, (B, L, N), dt), ops.randn(rng, (B, D), dt)
    if kind == "gated":
        gate = torch.ones(B, L, dtype=dt)
        for b in range(B):
            if rng.random() < 0.75:
                gate[b, rng.choice([L - 1, L - 1, 0, rng.randrange(L)])] = 0
                if rng.random() < 0.3:
                    gate[b, rng.randrange(L):] = 0
        x = torch.cat([gate.unsqueeze(-1), 0.7 * torch.tanh(x[..., 1:])], -1)
    if rng.random() < 0.4:  # rows that settle at different speeds
        scale = torch.tensor([rng.choice([1.0, 1.0, 0.1, 1e-3, 0.0]) for _ in range(B)], dtype=dt)
        init = init * scale[:, None]
        if kind != "gated":
            x = x * scale[:, None, None]
    k = rng.choice([1, 1, 2, 3, L - 1, rng.randint(1, L - 1)])
    k = max(1, min(k, L - 1))
    seq, p = [], init
    for n in range(L):
        p = f(p, x[:, n])
        seq.append(p)
    want = torch.stack(seq, 1)
    guess = rng.choice(["zero", "random", "ones", "exact"])
    y0 = {"zero": torch.zeros_like(want), "random": ops.randn(rng, (B, L, D), dt), "ones": torch.ones_like(want), "exact": want.clone()}[guess]
    tolk = rng.choice(["zero", "default", "tight"])
    kw = dict(max_iter=k)
    if k == 3 and rng.random() < 0.5 and L > 3:
        kw = {}
    if tolk != "default":
        kw.update(atol=0.0, rtol=0.0) if tolk == "zero" else kw.update(atol=1e-10, rtol=1e-10)
    given = rng.random() < 0.5
    if given:
        kw["fprime"] = df
    u = rng.choice([None, None, 1, 2, 3, 5, L, L + 3])
    if u is not None:
        kw["unroll_factor"] = u
    inter = rng.random() < 0.2
    if inter:
        kw["return_intermediate"] = True
    mon.case(kind=kind, D=D, N=N, B=B, L=L, guess=guess, fprime=given, dtype=str(dt), **{a: b for a, b in kw.items() if a != "fprime"})
    calls = []

    def log(p, x):
        calls.append((tuple(p.shape), tuple(x.shape)))
        return f(p, x)

    snap = [util.snapshot(v) for v in (x, y0, init)]
    r = mon.call(newton_solve, log, x, y0, init, **kw)
    y, it = r[0], r[1]
    mon.ev("solutions")
    mon.ev("function-calls", len(calls))
    if tuple(y.shape) != tuple(want.shape) or y.dtype != dt:
        mon.fail("shape", f"solution {tuple(y.shape)} {y.dtype}, expected {tuple(want.shape)}")
        return
    if any(not util.same_snapshot(s, v) for s, v in zip(snap, (x, y0, init))):
        mon.fail("mutated", "newton_solve changed an argument")
        return
    if not 1 <= it <= k:
        mon.fail("iterations", f"{it} iterations reported, limit {k}")
        return
    eps = 1e-9 if dt == torch.float64 else 2e-4
    sc = want.abs().max().item() + 1
    e = ((y - want).abs().amax((0, 2)) / sc)
    if not (e[:it] <= eps).all():
        mon.fail("prefix", f"after {it} iterations sample {int((~(e[:it] <= eps)).nonzero()[0])} differs from the sequential solution by {e[:it].max().item():.3g}")
        return
    mon.ev("prefix-samples", it)
    if affine or it == L:
        mon.ev("affine-exact")
        if not (e <= eps).all():
            mon.fail("affine", f"the solution of an affine recurrence differs from the sequential one by {e.max().item():.3g}")
            return
    elif it < k:
        mon.ev("converged")
        lim = 5e-4 if tolk == "default" or dt == torch.float32 else 1e-6
        if not (e <= lim).all():
            mon.fail("converged", f"stopped after {it} < {k} iterations, {e.max().item():.3g} away from the sequential solution")
            return
    if guess == "exact" and tolk != "zero" and dt == torch.float64 and not (it == 1 and (e <= 1e-6).all()):
        mon.fail("converged", f"started at the solution, {it} iterations and an error of {e.max().item():.3g}")
        return


def grads(rng, mon):
    """gradients through the solution (affine, so one iteration is exact)"""
    from philtorch.prototype.nl import newton_solve

    dt = torch.float64
    D, N, B, L = rng.choice([1, 2, 3]), rng.choice([1, 2]), rng.choice([1, 3]), rng.choice([2, 4, 9, 16])
    W = ops.randn(rng, (D, D), dt)
    W = W * (0.7 / torch.linalg.matrix_norm(W, 2))
    U = ops.randn(rng, (N, D), dt)
    x, init = ops.randn(rng, (B, L, N), dt), ops.randn(rng, (B, D), dt)
    given = rng.random() < 0.5
    u = rng.choice([1, 1, 2, 5])
    mon.case(D=D, N=N, B=B, L=L, fprime=given, unroll_factor=u, gradients=True)
    cot = ops.randn(rng, (B, L, D), dt)

    def grad(solve):
        a, b, c, d = (v.clone().requires_grad_() for v in (W, U, x, init))
        y = solve(lambda p, q: p @ a.mT + q @ b, lambda p, q: a.expand(*p.shape[:2], D, D), c, d)
        return torch.autograd.grad((y * cot).sum(), [a, b, c, d])

    def seq(f, df, x, p):
        out = []
        for n in range(L):
            p = f(p, x[:, n])
            out.append(p)
        return torch.stack(out, 1)

    w = grad(seq)
    g = mon.call(grad, lambda f, df, x, p: newton_solve(f, x, torch.zeros(B, L, D, dtype=dt), p, max_iter=1, fprime=df if given else None, unroll_factor=u)[0])
    mon.ev("gradients")
    for n, a, b in zip("WUx0", g, w):
        if not util.relerr(a, b) <= 1e-7:
            mon.fail("gradient", f"gradient with respect to {n} differs by {util.relerr(a, b):.3g}")
            return


STRATA = {"solve": (case, 6000, 40000), "gradients": (grads, 400, 3000)}
REQUIRED = {"solutions": 700, "affine-exact": 200, "converged": 100, "gradients": 100}
