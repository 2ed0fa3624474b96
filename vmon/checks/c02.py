"""LTI streaming: any chunking with carried state equals the one-shot run."""
import torch

from .. import load, ops, util
from ..core import Skip
from ..ops import Profile

ID = "C02"
RULE = ("A history = one signal, a random partition into chunks (1-sample chunks, chunks shorter than the order, one long head/tail) and the state fed back after each chunk; "
        "non-trivial: at least two chunks were run and output plus final state compared with the step-by-step reference of the whole signal; distinct: function, shapes, options, partition.")
ASSUMPTIONS = ["state conventions as in vmon/ref.py; the tdf2/transposed ones are cross-checked with scipy.signal.lfilter's zi/zf"]
KNOWN_LONG = "diag_ssm-long-numerator-ignores-zi"


def setup():
    load.philtorch()


def stream(rng, mon, case, allowed=None, style=None):
    T = case.info["T"]
    parts = util.partition(rng, T, allowed, style)
    if parts is None:
        raise Skip()
    mon.case(**case.desc, parts=parts)
    state, ys, pos = case.t["zi"], [], 0
    idle = rng.randint(0, len(parts)) if rng.random() < 0.2 else -1
    for i, n in enumerate(parts):
        if i == idle and not empty_chunk(mon, case, pos, state):
            return
        t = util.time_slice(case, pos, pos + n)
        got = mon.call(lambda: case.run(**t, zi=state))
        if len(got) != 2:
            mon.fail("arity", f"a state was given but {len(got)} value(s) returned for chunk [{pos},{pos + n})")
            return
        y, state = got
        xs = t["x"]
        td = 0 if xs.dim() == 1 and y.dim() == 1 else 1
        if y.shape[td] != n:
            mon.fail("shape", f"chunk of {n} samples gave an output of shape {tuple(y.shape)}")
            return
        ys.append(y)
        pos += n
        mon.ev("chunks")
        mon.ev("short-chunks", int(n < case.info["K"]))
    y = torch.cat(ys, td)
    want = case.want()
    ops.compare(mon, (y, state), want, tol=case.tol * 3, exact=case.exact, what="chunked (output, state)", kind="streaming", strict_dtype=case.strict)
    if len(parts) > 1:
        mon.ev("histories")
    # one shot, with state
    one = mon.call(case.run)
    ops.compare(mon, one, want, tol=case.tol, exact=case.exact, what="one-shot (output, state)", kind="state", strict_dtype=case.strict)


def empty_chunk(mon, case, pos, state):
    """a chunk without samples is refused, or it gives no output and leaves the state as it is"""
    t = util.time_slice(case, pos, pos)
    try:
        got = case.run(**t, zi=state)
    except Exception:
        mon.ev("empty-chunk-refused")
        return True
    mon.ev("empty-chunk-taken")
    if len(got) != 2 or got[0].numel() or not torch.equal(torch.broadcast_to(got[1], torch.broadcast_shapes(got[1].shape, state.shape)).to(state.dtype), torch.broadcast_to(state, torch.broadcast_shapes(got[1].shape, state.shape))):
        mon.fail("empty", f"a chunk without samples changed the state or gave output: {[tuple(g.shape) for g in got]}")
        return False
    return True


def _mk(gen, **kw):
    def f(rng, mon):
        c = gen(rng, Profile(long=0.015, modes=0.15, zi=True, layouts=0.05, maxT=130, **kw))
        if c.t.get("zi") is None or not c.stateful:
            raise Skip()
        stream(rng, mon, c)

    return f


def scipy_state(rng, mon):
    """zi/zf in the scipy convention for tdf2 and the transposed FIR."""
    import numpy as np
    from scipy import signal
    from philtorch.lti import lfilter, fir

    dtype = rng.choice([torch.float64, torch.complex128])
    B, Ma, Mb = rng.randint(1, 5), rng.randint(0, 5), rng.randint(0, 6)
    K = max(Ma, Mb)
    if K == 0:
        raise Skip()
    use_fir = Ma == 0
    T = rng.randint(1, 40)
    b = ops.randn(rng, (B, Mb + 1), dtype)
    a = ops.stable_a(rng, (B,), Ma, dtype)
    x, zi = ops.randn(rng, (B, T), dtype), ops.randn(rng, (B, K), dtype)
    mon.case(B=B, Ma=Ma, Mb=Mb, T=T, dtype=dtype)
    y, zf = mon.call(lambda: fir(b, x, zi=zi, transpose=True) if use_fir else lfilter(b, a, x, zi=zi, form="tdf2"))
    ys, zs = zip(*[signal.lfilter(b[i].numpy(), np.r_[1.0, a[i].numpy()], x[i].numpy(), zi=zi[i].numpy()) for i in range(B)])
    mon.ev("scipy-compared")
    ops.compare(mon, (y, zf), (torch.from_numpy(np.stack(ys)), torch.from_numpy(np.stack(zs))), tol=10, what="scipy (y, zf)")


def long_numerator(rng, mon):
    """diag_ssm with a numerator longer than the denominator: the state argument (known finding)."""
    from philtorch.lti import lfilter

    Ma = rng.randint(1, 3)
    Mb = Ma + rng.randint(1, 3)
    B, T = rng.randint(1, 4), rng.randint(3, 30)
    form = rng.choice(["df2", "tdf2"])
    dtype = torch.float64
    b = ops.randn(rng, (Mb + 1,), dtype)
    a = ops.stable_a(rng, (), Ma, dtype, mode="pole", sep=0.25)
    x, zi = ops.randn(rng, (B, T), dtype), ops.randn(rng, (B, rng.choice([Ma, Mb])), dtype)
    mon.case(form=form, Ma=Ma, Mb=Mb, B=B, T=T)
    try:
        got = lfilter(b, a, x, zi=zi, form=form, backend="diag_ssm", delayed_form=rng.random() < 0.5)
    except Exception:
        mon.ev("long-numerator-rejected")
        return
    if torch.is_tensor(got):
        mon.known_finding(KNOWN_LONG, f"lfilter(backend='diag_ssm', form={form}) with {Mb + 1} numerator and {Ma} denominator taps returned no final state for the given zi")
        mon.ev("long-numerator-no-state")
        return
    if zi.shape[1] != Mb:
        return
    y, zf = got
    K = Mb
    w = ops.ref.lfilter(b.expand(B, T, -1), a.expand(B, T, -1), x, zi, form)
    ops.compare(mon, (y, zf), w, tol=1e7, what="long numerator (y, zf)")


STRATA = {
    "lfilter": (_mk(ops.gen_lti_lfilter, forms=["df2", "tdf2"]), 600, 6000),
    "fir": (_mk(ops.gen_lti_fir), 350, 3500),
    "state_space": (_mk(ops.gen_lti_state_space), 500, 5000),
    "diag": (_mk(ops.gen_diag_state_space, f32_ok=False), 250, 2500),
    "comb": (_mk(ops.gen_comb), 300, 3000),
    "scipy_state": (scipy_state, 200, 2000),
    "long_numerator": (long_numerator, 10, 60),
}
REQUIRED = {"histories": 300, "short-chunks": 300, "scipy-compared": 50, "chunks": 2000}
