"""Matrix helpers."""
import torch

from .. import load, ops, util
from ..core import Skip
from ..ops import Profile

ID = "C20"
RULE = ("Cases draw size, leading batch dimensions, count, dtype and layout; companion, powers (also zero and negative), prefix products and Vandermonde matrices are compared with their element-wise definition, and the identities (characteristic "
        "polynomial, diagonalisation, A v = lambda v, unit norm, pairing) are evaluated on the returned values. Distinct: drawn configuration.")
ASSUMPTIONS = ["find_eigenvectors is exercised on matrices with separated eigenvalues (0.1) and an eigenbasis of condition number below 80"]


def setup():
    load.philtorch()


def _mk(which):
    def f(rng, mon):
        ops.judge(mon, ops.gen_mat(rng, Profile(modes=0.15, layouts=0.15, f32_ok=which != "power"), which=which), batch_dim=False)

    return f


def charpoly(rng, mon):
    from philtorch.mat import companion

    M, lead = rng.randint(1, 8), rng.choice([(), (4,), (2, 3)])
    dt = rng.choice([torch.float64, torch.complex128])
    a = ops.randn(rng, lead + (M,), dt)
    mon.case(M=M, lead=lead, dtype=str(dt))
    C = mon.call(companion, a)
    if C.shape != lead + (M, M):
        return mon.fail("shape", f"{tuple(C.shape)}")
    z = ops.randn(rng, (3,), torch.complex128)
    p = z**M
    p = p.reshape((3,) + (1,) * len(lead)).expand((3,) + lead).clone()
    for k in range(M):
        p = p + a[..., k] * (z ** (M - 1 - k)).reshape((3,) + (1,) * len(lead))
    d = torch.linalg.det(z.reshape((3,) + (1,) * (len(lead) + 2)) * torch.eye(M) - C)
    mon.ev("charpoly")
    ops.compare(mon, (d,), (p,), tol=1e4, what="det(zI - companion(a))", batch_dim=False)


def _sep_matrix(rng, lead, M, cplx, structure="full"):
    n = 1
    for k in lead:
        n *= k
    As, Ls = [], []
    for _ in range(n):
        how = rng.choice(["full", "diagonal", "lower", "upper"]) if structure == "mixed" else structure
        for _try in range(300):
            a = ops.stable_a(rng, (), M, torch.complex128 if cplx else torch.float64, mode="pole", sep=0.2 if M < 4 else 0.12)
            from .. import ref

            S = ops.randn(rng, (M, M), torch.complex128 if cplx else torch.float64) * 0.3 + torch.eye(M)
            A = S @ ref.companion(a) @ torch.linalg.inv(S)
            if how != "full":  # triangular and diagonal: eigenvectors with components that are exactly zero
                A = ops.randn(rng, (M, M), A.dtype) * 0.5
                A = {"diagonal": torch.zeros_like(A), "lower": A.tril(-1), "upper": A.triu(1)}[how]
                A = A + torch.diag(ops.randn(rng, (M,), A.dtype))
            elif rng.random() < 0.3:  # a companion matrix as lfilter builds it, with a pole at the origin
                a = ops.stable_a(rng, (), M, A.dtype, mode="pole", sep=0.2 if M < 4 else 0.12, origin=1.0)
                A = ref.companion(a)
                if rng.random() < 0.5:
                    A = A.mT.contiguous()
            L, V = torch.linalg.eig(A)
            if M > 1 and (L[:, None] - L + 9 * torch.eye(M)).abs().min() < 0.1:
                continue
            if torch.linalg.cond(V) < 80:
                break
        else:
            raise Skip()
        As.append(A)
        Ls.append(L[torch.randperm(M, generator=torch.Generator().manual_seed(rng.getrandbits(40)))])
    return torch.stack(As).reshape(lead + (M, M)), torch.stack(Ls).reshape(lead + (M,))


def eigvec(rng, mon):
    from philtorch.mat import find_eigenvectors

    M, lead, cplx = rng.choice([2, 2, 3, 3, 4, 5]), rng.choice([(), (1,), (3,), (2, 2), (5,)]), rng.random() < 0.5
    if rng.random() < 0.2:
        lead = (M,)
    structure = rng.choice(["full"] * 4 + ["diagonal", "lower", "upper", "mixed"])
    A, L = _sep_matrix(rng, lead, M, cplx, structure)
    A = A.to(torch.complex128)
    mon.case(M=M, lead=lead, cplx=cplx, structure=structure)
    mon.ev("structure-" + structure)
    V = mon.call(find_eigenvectors, A, L)
    if V.shape != A.shape:
        return mon.fail("shape", f"{tuple(V.shape)} for A {tuple(A.shape)}")
    mon.ev("eigenvectors", V.numel() // M)
    ops.compare(mon, (A @ V,), (V * L.unsqueeze(-2),), tol=1e5, what="A v = lambda v", batch_dim=False)
    ops.compare(mon, (torch.linalg.vector_norm(V, dim=-2),), (torch.ones(L.shape, dtype=torch.float64),), tol=1e3, what="norm", batch_dim=False)


def vander(rng, mon):
    from philtorch.mat import companion, vandermonde

    M, lead = rng.randint(1, 5), rng.choice([(), (3,), (2, 2)])
    cplx = rng.random() < 0.5
    a = ops.stable_a(rng, lead, M, torch.complex128 if cplx else torch.float64, mode="pole", sep=0.2 if M < 4 else 0.12).to(torch.complex128)
    p = torch.linalg.eigvals(ops.ref.companion(a))
    mon.case(M=M, lead=lead, cplx=cplx)
    V, C = mon.call(vandermonde, p), mon.call(companion, a)
    if V.shape != C.shape:
        return mon.fail("shape", f"vandermonde {tuple(V.shape)} for poles {tuple(p.shape)}")
    mon.ev("diagonalised")
    ops.compare(mon, (C @ V,), (V * p.unsqueeze(-2),), tol=1e5, what="companion vandermonde = vandermonde diag", batch_dim=False)


def big_counts(rng, mon):
    from philtorch.mat import matrix_power_accumulate, matrices_cumdot

    n = rng.choice([37, 48, 60, 72, 81, 96, 97, 100, 101, 120, 125, 128, 144, 150, 180, 192, 210, 211, 256, 360])
    M, lead = rng.choice([1, 2, 3]), rng.choice([(), (2,)])
    integer = rng.random() < 0.5
    k = 1
    for q in lead:
        k *= q
    mon.case(n=n, M=M, lead=lead, integer=integer)
    A = ops._rand_A(rng, k, n, M, "BN", torch.float64, integer).reshape(lead + (n, M, M))
    got = mon.call(matrices_cumdot, A)
    w = [A[..., 0, :, :]]
    for i in range(1, n):
        w.append(w[-1] @ A[..., i, :, :])
    ok = ops.compare(mon, (got,), (torch.stack(w, -3),), tol=1 if not integer else 0.001, what="cumdot")
    A = A[..., 0, :, :]
    got = mon.call(matrix_power_accumulate, A, n)
    w = [A]
    for i in range(1, n):
        w.append(w[-1] @ A)
    mon.ev("big-counts")
    if ok:
        ops.compare(mon, (got,), (torch.stack(w, -3),), tol=10, what="powers")


STRATA = {
    "companion": (_mk("companion"), 200, 2000),
    "power": (_mk("power"), 400, 5000),
    "cumdot": (_mk("cumdot"), 400, 5000),
    "vandermonde": (_mk("vandermonde"), 200, 2000),
    "charpoly": (charpoly, 200, 2000),
    "eigvec": (eigvec, 200, 2500),
    "vander": (vander, 200, 2000),
    "big": (big_counts, 60, 600),
}
REQUIRED = {"compared": 1200, "charpoly": 120, "eigenvectors": 300, "diagonalised": 120, "big-counts": 40, "structure-diagonal": 10, "structure-lower": 10}
