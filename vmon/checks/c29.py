"""The accelerator kernels compute the recurrence of the CPU operators."""
import os

os.environ["HELION_INTERPRET"] = "1"  # the Helion kernels run as their reference semantics on the CPU

import torch

from .. import load, native, ops, util
from ..core import Skip
from ..ops import Profile
from . import c12

ID = "C29"
RULE = ("helion: hl_lti_recurN / hl_recurN (all four kernels) run under Helion's reference interpreter on drawn sizes, layouts and dtypes, compared with the step-by-step recurrence (exactly on integer data), inputs unchanged; gradients against the differentiated recurrence; abstract evaluation against the real result; "
        "routed: the state-space functions with the Helion path switched on (as for CUDA tensors) compared with the oracle, values and gradients. "
        "cuda: the .cu files compiled for the host with Thrust replaced by a shim whose scan combines elements in a random bracketing, under ASan + UBSan, driven like C10 (valid calls compared exactly with the recurrence, malformed ones must not touch foreign memory). Distinct: drawn configuration.")
ASSUMPTIONS = ["Helion's reference interpreter has the meaning of the generated GPU code (block scheduling, autotuning and generated code are not executed)", "Thrust's scan is any bracketing of the ordered product; nvcc code generation, streams and devices are not executed"]
QUICK = 1
BUDGET = {"quick": 300, "thorough": 700}


def setup():
    p = load.philtorch()
    assert p.HELION_LOADED


def gen(rng, **kw):
    name = rng.choice(["lti_recurN", "recurN"])
    p = dict(maxB=9, maxT=24, maxM=7, layouts=0.3, complex_ok=False)
    p.update(kw)
    c = ops.gen_native(rng, Profile(**p), which=name)
    d = c.t["x"].dtype
    if c.t["x"].numel() == 0 or d.is_complex or not d.is_floating_point:
        raise Skip()
    op = getattr(torch.ops.philtorch, "hl_" + name)
    c.fn = lambda A, zi, x: op(A, zi, x)
    c.op = "op.hl_" + name
    c.desc["op"] = "hl_" + name
    return c


def forward(rng, mon):
    c = gen(rng)
    snaps = {k: util.snapshot(v) for k, v in c.t.items()}
    mon.case(**c.desc, strides=[v.stride() for v in c.t.values()])
    (y,) = mon.call(c.run)
    for k, v in c.t.items():
        if not util.same_snapshot(snaps[k], v):
            return mon.fail("mutated", f"argument {k} was changed by the call")
        if y.untyped_storage().data_ptr() == v.untyped_storage().data_ptr():
            return mon.fail("alias", f"the result shares storage with argument {k}")
    mon.ev("helion-calls")
    mon.ev("kernel:" + c.desc["op"] + ("-rows" if "B" in c.info["axes"]["A"] else "-shared"))
    ops.compare(mon, (y,), c.want(), tol=c.tol, exact=c.exact)


def grads(rng, mon):
    c = gen(rng, dtype=torch.float64, numbers="float", layouts=0.1, maxB=5, maxT=12, maxM=5)
    mon.ev("helion-gradients")
    c12.grad_case(rng, mon, c)


def fake(rng, mon):
    from torch._subclasses.fake_tensor import FakeTensorMode

    c = gen(rng)
    how = rng.choice(["fake", "meta"])
    mon.case(**c.desc, how=how)
    (y,) = mon.call(c.run)

    def ev():
        if how == "meta":
            return c.run(**{k: torch.empty_strided(v.shape, v.stride(), dtype=v.dtype, device="meta") for k, v in c.t.items()})[0]
        mode = FakeTensorMode()
        t = {k: mode.from_tensor(v) for k, v in c.t.items()}
        with mode:
            return c.run(**t)[0]

    f = mon.call(ev)
    mon.ev("fake-results")
    n = lambda t: (tuple(t.shape), tuple(s if m > 1 else 0 for m, s in zip(t.shape, t.stride())), t.dtype)
    if n(f) != n(y):
        mon.fail("fake", f"{how} evaluation predicts {n(f)}, the kernel returns {n(y)}")


class Routed:
    """The dispatch the state-space functions choose for CUDA tensors, on the CPU."""

    def __enter__(self):
        import philtorch.lpv.ssm as v
        import philtorch.lti.ssm as l

        self.calls = 0
        self.saved = []
        for m in (l, v):
            if hasattr(m, "helion_backend_indicator"):
                self.saved.append((m, m.helion_backend_indicator))
                m.helion_backend_indicator = self.on
        return self

    def on(self, x):
        self.calls += 1
        return not x.is_complex() and x.is_floating_point()

    def __exit__(self, *a):
        for m, f in self.saved:
            m.helion_backend_indicator = f


def routed(rng, mon):
    op = rng.choice(["lti_ssr", "lpv_ssr", "lti_state_space", "lpv_state_space", "lti_lfilter", "lpv_lfilter"])
    g = rng.random() < 0.35
    kw = dict(numbers="float") if g else {}
    c = ops.ALL[op](rng, Profile(dtype=torch.float64, maxB=6, maxT=20, maxM=5, layouts=0.1, complex_ok=False, **kw))
    if c.t["x"].numel() == 0 or not c.t["x"].is_floating_point() or c.desc.get("backend") in ("diag_ssm", "torchlpc"):
        raise Skip()
    mon.case(**c.desc, gradient=g)
    with Routed() as r:
        if g:
            c12.grad_case(rng, mon, c)
        else:
            ops.judge(mon, c)
    if r.calls:
        mon.ev("routed-calls")


STRATA = {"forward": (forward, 500, 6000), "grads": (grads, 200, 2500), "fake": (fake, 150, 1500), "routed": (routed, 500, 6000)}
REQUIRED = {"helion-calls": 300, "helion-gradients": 120, "fake-results": 80, "kernel:hl_lti_recurN-rows": 40, "kernel:hl_lti_recurN-shared": 40, "kernel:hl_recurN-rows": 40, "kernel:hl_recurN-shared": 40}


def run_native(seed, jobs, seconds):
    exe = native.emu()
    base = "detect_leaks=0:abort_on_error=0:max_malloc_fill_size=1073741824:detect_stack_use_after_return=1:malloc_fill_byte="
    envs = [dict(ASAN_OPTIONS=base + b, UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1", OMP_NUM_THREADS="1", MALLOC_PERTURB_="0") for b in ("255", "126", "60")]
    return native.run(exe, "fuzz", seed, jobs, seconds, envs, "CUDA emulation")


def post(tier, seed, total):
    n, per, secs = (6, 6000, 40) if tier == "quick" else (8, 300000, 700)
    try:
        native.emu()
    except RuntimeError as e:
        # the sources use a part of Thrust the shim does not provide: nothing is decided about them
        print("NOTE: the CUDA sources do not compile against the host shim; their part of the property was not monitored:", str(e)[-600:])
        total["events"]["cuda_not_monitored"] = 1
        return
    ev, fails, bad, samples = run_native(seed, [(k * 10000000, per) for k in range(n)], secs)
    if not fails and ev.get("valid_returned", 0) < 2000 * n // 6:
        bad.append(f"CUDA emulation returned only {ev.get('valid_returned', 0)} valid results")
    native.merge(total, ev, fails, bad, samples, "fuzz", "cuda_")


def replay(r):
    ev, fails, bad, _ = run_native(r["seed"], [(r["index"], 1)] * 3, 60)
    return fails, bad
