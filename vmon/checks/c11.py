"""No data race; results independent of thread count, schedule and concurrent callers."""
import threading

import torch

from .. import load, native, ops, util
from ..core import Skip
from ..ops import Profile

ID = "C11"
RULE = ("Native part: csrc compiled with TSan and linked with an OpenMP runtime made of pthreads whose thread order is perturbed by random yields, sleeps and spins; each case runs one operator with 1, 2, 3, 4, 8 threads "
        "and then 2-4 application threads calling operators (same and different arguments) at once, three times each; observed: TSan reports with a frame in csrc, any bitwise difference from the single-threaded call. "
        "Python part: the production build, real libgomp, thread counts 1..8 and concurrent Python threads calling operators, filter functions and their gradients, compared bitwise (operators) or within rounding. "
        "Distinct: op, shapes, dtype, layouts; distinct_thread_orders counts different completion orders of parallel regions.")
ASSUMPTIONS = ["TSan sees the accesses of csrc and of torch headers compiled into it, not those inside libtorch", "races are detected on executed schedules (happens-before), not on all"]
QUICK = 1
BUDGET = {"quick": 60, "thorough": 600}


def setup():
    load.philtorch()


def counts(rng, mon):
    """bitwise equality over thread counts"""
    c = ops.gen_native(rng, Profile(layouts=0.2, maxB=40, maxT=200, maxM=8))
    mon.case(**c.desc)
    torch.set_num_threads(1)
    (w,) = mon.call(c.run)
    for n in rng.sample([2, 3, 4, 5, 8, 16], 3):
        torch.set_num_threads(n)
        try:
            (y,) = mon.call(c.run)
        finally:
            torch.set_num_threads(1)
        mon.ev("thread-count-comparisons")
        if not util.same_bits(y, w):
            mon.fail("threads", f"the result with {n} threads differs from the result with one")
            return


def callers(rng, mon):
    """concurrent Python threads (the interpreter lock is released inside the operators)"""
    k = rng.choice([2, 3, 4, 6])
    cs = [ops.gen_native(rng, Profile(maxB=20, maxT=300, maxM=6, layouts=0.1))]
    for _ in range(k - 1):
        cs.append(cs[0] if rng.random() < 0.5 else ops.gen_native(rng, Profile(maxB=20, maxT=300, maxM=6, layouts=0.1)))
    mon.case(**cs[0].desc, callers=k)
    want = [mon.call(c.run)[0] for c in cs]
    got, err = [[] for _ in cs], []
    bar = threading.Barrier(k)
    nt = rng.choice([1, 2])

    def go(i):
        try:
            torch.set_num_threads(nt)
            bar.wait()
            for _ in range(4):
                got[i].append(cs[i].run()[0])
        except Exception as e:
            err.append(repr(e))

    th = [threading.Thread(target=go, args=(i,)) for i in range(k)]
    [t.start() for t in th]
    [t.join() for t in th]
    torch.set_num_threads(1)
    if err:
        mon.fail("exception", err[0])
        return
    for i, c in enumerate(cs):
        for y in got[i]:
            mon.ev("concurrent-call-comparisons")
            if not util.same_bits(y, want[i]):
                mon.fail("callers", f"a concurrent call of {c.op} returned something else than the same call alone")
                return


FUNS = ["lti_lfilter", "lti_fir", "lti_state_space", "lti_ssr", "lti_linrec", "lti_diag", "lti_comb", "lpv_fir", "lpv_allpole", "lpv_lfilter", "lpv_state_space", "lpv_ssr", "lpv_linrec"]


def functions(rng, mon):
    """the whole functions and their gradients from several Python threads"""
    k = rng.choice([2, 3, 4])
    cs = []
    for _ in range(k):
        for _ in range(20):
            c = ops.ALL[rng.choice(FUNS)](rng, Profile(dtype=torch.float64, numbers="float", maxB=6, maxT=60, maxM=4))
            if c.t["x"].numel():
                break
        cs.append(c)
        if rng.random() < 0.3:
            cs[-1] = cs[0]
    mon.case(sig=[c.desc for c in cs], **cs[0].desc, callers=[c.op for c in cs])

    def one(c, g):
        leaves = {n: v.detach().clone().requires_grad_() for n, v in c.t.items() if v is not None}
        if c.op == "lti.diag_state_space":
            leaves = {n: v.requires_grad_(n in ("x", "zi", "B", "C", "D")) for n, v in ((n, v.detach()) for n, v in leaves.items())}
        out = [o for o in c.run(**leaves) if o is not None]
        s = sum((o * torch.linspace(0.3, 1, o.numel(), dtype=torch.float64).view(o.shape)).abs().sum() for o in out)
        act = [v for v in leaves.values() if v.requires_grad]
        return [o.detach() for o in out] + [q for q in torch.autograd.grad(s, act, allow_unused=True) if q is not None]

    want = [mon.call(one, c, 0) for c in cs]
    got, err = [[] for _ in cs], []
    bar = threading.Barrier(k)

    def go(i):
        try:
            bar.wait()
            for _ in range(2):
                got[i].append(one(cs[i], 0))
        except Exception as e:
            err.append(repr(e))

    th = [threading.Thread(target=go, args=(i,)) for i in range(k)]
    [t.start() for t in th]
    [t.join() for t in th]
    if err:
        mon.fail("exception", err[0])
        return
    for i, c in enumerate(cs):
        for r in got[i]:
            for a, b in zip(r, want[i]):
                mon.ev("concurrent-function-comparisons")
                if a.shape != b.shape or not util.relerr(a, b) <= 1e-9 * max(c.tol, 1.0):
                    mon.fail("functions", f"a concurrent call of {c.op} differs from the same call alone by {util.relerr(a, b) if a.shape == b.shape else 'shape'}")
                    return


STRATA = {"counts": (counts, 500, 6000), "callers": (callers, 200, 3000), "functions": (functions, 150, 2000)}
REQUIRED = {"thread-count-comparisons": 300, "concurrent-call-comparisons": 1000, "concurrent-function-comparisons": 400, "native_threadcount_comparisons": 500, "native_concurrent_comparisons": 1500,
            "native_distinct_thread_orders": 50}


def run_native(seed, jobs, seconds):
    exe = native.tsan()
    envs = [dict(TSAN_OPTIONS="halt_on_error=0:exitcode=66:report_signal_unsafe=0:history_size=4", OMP_NUM_THREADS="1")]
    return native.run(exe, "race", seed, jobs, seconds, envs, "TSan")


def post(tier, seed, total):
    n, per, secs = (4, 500, 60) if tier == "quick" else (8, 20000, 800)
    native.merge(total, *run_native(seed, [(k * 10000000, per) for k in range(n)], secs), "race", "native_")


def replay(r):
    ev, fails, bad, _ = run_native(r["seed"], [(r["index"], 60)] * 2, 60)
    return fails, bad
