"""Memory safety and undefined behaviour of the compiled operators."""
import os

import torch

from .. import load, native, ops
from ..core import Skip
from . import c25

ID = "C10"
RULE = ("The repository's csrc is compiled with ASan, UBSan and libstdc++ assertions and driven through the dispatcher: each case draws operator, dtype, sizes (incl. zero, one, primes), a layout per argument "
        "(windows of a larger storage whose rest is poisoned, transposed, strided, expanded, conjugated, negated) and, for a third, 1-2 corruptions of sizes, ranks or dtypes; fresh memory is filled with 0xFF / 0x7E. "
        "Observed: any sanitizer report, a crash, a result of wrong shape, any value differing from the exact recurrence (uninitialised memory), heap growth per call. "
        "Python strata: size mismatches must raise in the production build; tensors of more than 2^31 elements are processed correctly. Distinct: op, shapes, dtype, layouts.")
ASSUMPTIONS = ["libtorch itself is not instrumented (accesses it makes through intercepted libc functions are seen)", "heap redzones of ASan or manual poisoning delimit every argument"]
QUICK = 1
BUDGET = {"quick": 100, "thorough": 900}


def setup():
    load.philtorch()


def mismatch(rng, mon):
    c25.tensors_case(rng, mon, "native")


def mem_available():
    for l in open("/proc/meminfo"):
        if l.startswith("MemAvailable"):
            return int(l.split()[1]) * 1024
    return 0


HUGE = ["rows", "rows_own", "long", "lti_mat", "lti_mat_rows", "tv", "tv_rows"]


def huge(rng, mon):
    """more than 2^31 elements: zero-stride inputs, half precision, A = 0 so that y = x"""
    k = HUGE[(mon.index + mon.seed) % len(HUGE)]
    if mem_available() < 18 << 30:
        raise Skip()
    O = torch.ops.philtorch
    h = torch.float16
    one = torch.ones(1, dtype=h)
    e = lambda *s: one.view(*[1] * len(s)).expand(*s)
    z = lambda *s: torch.zeros(1, dtype=h).view(*[1] * len(s)).expand(*s)
    n = 1 << 31
    torch.set_num_threads(8)
    try:
        with torch.no_grad():
            if k == "rows":
                B, T = (n >> 20) + 3, 1 << 20
                y = mon.call(O.lti_recur, torch.zeros((), dtype=h), z(B), e(B, T))
            elif k == "rows_own":
                B, T = (n >> 20) + 3, 1 << 20
                y = mon.call(O.lti_recur, torch.zeros(B, dtype=h), z(B), e(B, T))
            elif k == "long":
                B, T = 1, n + 5
                y = mon.call(O.lti_recur, torch.zeros((), dtype=h), z(B), e(B, T))
            elif k == "lti_mat":
                B, T = (n >> 21) + 1, 1 << 20
                y = mon.call(O.lti_recur2, z(2, 2), z(B, 2), e(B, T, 2))
            elif k == "lti_mat_rows":
                B, T = (n >> 21) + 1, 1 << 20
                y = mon.call(O.lti_recurN, z(B, 2, 2), z(B, 2), e(B, T, 2))
            elif k == "tv":
                B, T, N = 2, (n >> 12) + 9, 64
                y = mon.call(O.recurN, z(T, N, N), z(B, N), e(B, T, N))
            else:
                B, T, N = 3, (n >> 13) + 9, 64
                y = mon.call(O.recurN, z(B, T, N, N), z(B, N), e(B, T, N))
    finally:
        torch.set_num_threads(1)
    mon.case(sig=k, case=k, shape=tuple(y.shape))
    mon.ev("huge")
    f = y.view(-1)
    at = sorted({0, 1, f.numel() - 1, f.numel() - 2, f.numel() // 2, min(n, f.numel() - 1), min(n - 1, f.numel() - 1)} | {rng.randrange(f.numel()) for _ in range(200)})
    if not bool((f[torch.tensor(at)] == 1).all()):
        mon.fail("value", f"{k}: entries of a result of shape {tuple(y.shape)} are not those of the recurrence")
    ends = y.reshape(y.shape[0], -1)
    if not bool((ends[:, -64:] == 1).all() & (ends[:, :64] == 1).all()):
        mon.fail("value", f"{k}: row ends of a result of shape {tuple(y.shape)} are not those of the recurrence")


STRATA = {"mismatch": (mismatch, 300, 2000), "huge": (huge, 1, 7)}
REQUIRED = {"native_valid_returned": 2000, "native_malformed_rejected": 600, "native_elements_compared": 100000, "rejected": 100}
CASE_CPU = 600


def run_native(seed, jobs, seconds):
    exe = native.asan()
    base = "detect_leaks=0:abort_on_error=0:max_malloc_fill_size=1073741824:detect_stack_use_after_return=1:malloc_fill_byte="
    envs = [dict(ASAN_OPTIONS=base + b, UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1", OMP_NUM_THREADS=t, MALLOC_PERTURB_="0")
            for b, t in (("255", "1"), ("126", "3"), ("255", "2"), ("60", "8"))]
    return native.run(exe, "fuzz", seed, jobs, seconds, envs, "ASan")


def post(tier, seed, total):
    n, per, secs = (4, 12000, 60) if tier == "quick" else (8, 400000, 900)
    native.merge(total, *run_native(seed, [(k * 10000000, per) for k in range(n)], secs), "fuzz", "native_")


def replay(r):
    ev, fails, bad, _ = run_native(r["seed"], [(r["index"], 1)] * 4, 60)
    return fails, bad
