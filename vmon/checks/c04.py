"""The unroll factor never changes a result."""
import torch

from .. import load, ops, util
from ..core import Skip
from ..ops import Profile

ID = "C04"
RULE = ("A case is one argument tuple of one of the ten functions accepting an unroll factor; it is run with many factors (all of 1..T+2 for short signals; 1, primes, composites, divisors, T-1, T, T+1, 2T+1 otherwise) and every run "
        "is compared with the step-by-step reference, exactly on integer-valued data; non-trivial: at least three factors compared; distinct: function, shapes, options.")
ASSUMPTIONS = ["reference recurrences in vmon/ref.py"]


def setup():
    load.philtorch()


def factors(rng, T):
    if T <= 14:
        return list(range(1, T + 3))
    pool = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 24, 25, 27, 30, 31, 32, 35, 36, 48, 49, 64]
    pool += [d for d in range(2, T) if T % d == 0]
    return sorted(set(rng.sample(pool, 7) + [rng.choice([T - 1, T, T + 1, 2 * T + 1]), rng.choice([1, 2, 3])]))


def _mk(gen, **prof):
    def f(rng, mon):
        p = dict(unroll="one", f32_ok=False, modes=0.15)
        p.update(prof)
        if rng.random() < 0.35:
            p.update(maxT=14)
        c = gen(rng, Profile(**p))
        kw = util.case_kw(c)
        T = c.info["T"]
        fs = factors(rng, T)
        mon.case(**c.desc, factors=fs)
        want = c.want()
        for u in fs:
            kw["unroll_factor"] = u
            got = mon.call(c.run)
            mon.ev("factor-runs")
            if T % u and u < T:
                mon.ev("remainder-runs")
            if not ops.compare(mon, got, want, tol=c.tol * 3, exact=c.exact, what=f"unroll_factor={u}", strict_dtype=c.strict):
                return
        kw.pop("unroll_factor")

    return f


def invalid(rng, mon):
    gen = rng.choice([ops.gen_lti_ssr, ops.gen_lpv_ssr, ops.gen_lti_linrec, ops.gen_lpv_linrec, ops.gen_lti_state_space, ops.gen_lpv_state_space, ops.gen_lti_lfilter])
    c = gen(rng, Profile(modes=0.15, unroll="one", f32_ok=False, maxT=20, complex_ok=False, numbers="float"))
    if c.info.get("backend") == "diag_ssm":
        raise Skip()
    u = rng.choice([0, -1, -2, -7])
    util.case_kw(c)["unroll_factor"] = u
    mon.case(**{**c.desc, "unroll_factor": u})
    mon.ev("invalid-factors")
    try:
        got = c.run()
    except Exception:
        mon.ev("invalid-rejected")
        return
    mon.fail("accepted", f"unroll_factor={u} was accepted and returned {tuple(got[0].shape)}")


STRATA = {
    "lti_linrec": (_mk(ops.gen_lti_linrec), 200, 3000),
    "lpv_linrec": (_mk(ops.gen_lpv_linrec), 200, 3000),
    "lti_ssr": (_mk(ops.gen_lti_ssr), 300, 4000),
    "lpv_ssr": (_mk(ops.gen_lpv_ssr), 300, 4000),
    "lti_ss": (_mk(ops.gen_lti_state_space), 250, 3000),
    "lpv_ss": (_mk(ops.gen_lpv_state_space), 250, 3000),
    "diag": (_mk(ops.gen_diag_state_space, maxT=60), 80, 1000),
    "lti_lfilter": (_mk(ops.gen_lti_lfilter), 200, 3000),
    "lpv_lfilter": (_mk(ops.gen_lpv_lfilter, backends=["ssm"]), 200, 3000),
    "invalid": (invalid, 80, 600),
}
REQUIRED = {"factor-runs": 5000, "remainder-runs": 2000, "invalid-rejected": 40}
