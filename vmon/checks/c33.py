"""Interrupted calls leave no trace."""
import gc
import inspect
import os
import sys
import warnings

import numpy as np
import torch
from torch.multiprocessing.reductions import StorageWeakRef
from torch.utils._python_dispatch import TorchDispatchMode

from .. import load, ops, util
from ..core import Skip
from ..ops import Profile
from .c12 import SMALL
from .c23 import copies, same, world

ID = "C33"
RULE = ("Each case is one call (a public function or operator, random options; with a backward pass in half of the cases), made once undisturbed and then interrupted: an exception (KeyboardInterrupt, MemoryError, torch.OutOfMemoryError, RuntimeError) is raised "
        "when the call, or its backward pass, is about to execute its k-th tensor operation, or enters its n-th Python function of philtorch, for up to six positions per case. After each the exception must have reached the caller (or the result must be right all the same), "
        "no argument may have changed (content, metadata, version counter, grad), no interpreter-wide setting may have changed, nothing the caller dropped may stay alive, and the call made again must return what it returned undisturbed. "
        "Distinct: drawn configuration and positions.")
ASSUMPTIONS = ["exceptions are injected before tensor operations and on entry of philtorch's Python functions, not inside a compiled kernel or between lines"]
GEN = ["lti_lfilter", "lti_fir", "lti_state_space", "lti_ssr", "lti_linrec", "lti_diag", "lti_comb", "lti_filtfilt", "lti_zi", "lti_ic", "lti_cspline", "lti_spline",
       "lpv_fir", "lpv_allpole", "lpv_lfilter", "lpv_state_space", "lpv_ssr", "lpv_linrec", "native", "function", "polydiv", "mat"]
HERE = None


def setup():
    global HERE
    HERE = str(load.philtorch().__path__[0]) + os.sep


def surroundings():
    w = world()
    w |= dict(autocast=torch.is_autocast_enabled("cpu"), filters=str(warnings.filters), environ=dict(os.environ), errstate=str(np.geterr()), recursion=sys.getrecursionlimit(),
              denormal=(torch.tensor([1e-310], dtype=torch.float64) * 0.5).item(), modes=torch._C._len_torch_dispatch_stack(), functions=torch._C._len_torch_function_stack(),
              functorch=torch._C._functorch.maybe_current_level(), hooks=torch._C._autograd._top_saved_tensors_default_hooks(True) is not None,
              multithreading=torch._C._is_multithreading_enabled(), views=torch._C._is_fwd_grad_enabled())
    return w


class Ops(TorchDispatchMode):
    """counts tensor operations and raises before the k-th"""

    def __init__(self, k=None, exc=None):
        super().__init__()
        self.n, self.k, self.exc = 0, k, exc

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        self.n += 1
        if self.n == self.k:
            raise self.exc("injected by the monitor")
        return func(*args, **(kwargs or {}))


class Calls:
    """counts the calls of philtorch's own Python functions and raises on entry of the k-th

    (not between lines: an exception at the end of a with block would skip its __exit__ whatever the code does)"""

    def __init__(self, k=None, exc=None):
        self.n, self.k, self.exc = 0, k, exc

    def __enter__(self):
        self.old = sys.gettrace()
        sys.settrace(self.call)
        return self

    def __exit__(self, *a):
        sys.settrace(self.old)

    def call(self, frame, event, arg):
        code = frame.f_code
        if event == "call" and code.co_filename.startswith(HERE) and not code.co_flags & (inspect.CO_GENERATOR | inspect.CO_COROUTINE | inspect.CO_ASYNC_GENERATOR) and not code.co_name.startswith("__"):
            self.n += 1
            if self.n == self.k:
                raise self.exc("injected by the monitor")


EXC = [KeyboardInterrupt, MemoryError, torch.OutOfMemoryError, RuntimeError]


def _case(gen, **kw):
    def f(rng, mon):
        p = dict(SMALL, maxT=12, maxB=4, maxM=4, layouts=0.1)
        p["unroll"] = rng.choice(["one", "default", "any"])
        p.update(kw)
        p["dtype"] = torch.complex128 if rng.random() < 0.2 else torch.float64
        c = gen(rng, Profile(**p))
        floats = {k: v for k, v in c.t.items() if v is not None and (v.is_floating_point() or v.is_complex()) and v.numel() and k not in c.skip_grad}
        names = util.grad_leaves(rng, floats) if rng.random() < 0.6 else []
        how = rng.choice([Ops, Ops, Calls])
        mon.case(**c.desc, wrt=names, how=how.__name__)
        t = copies(c.t)
        for k in names:
            t[k].requires_grad_(True)

        def go(t, box):
            out = [o for o in ops.astuple(c.fn(**t)) if o is not None]
            box["out"] = [o.detach().clone() for o in out]
            act = [o for o in out if o.requires_grad and o.numel()]
            if names and act:
                box["back"] = True
                box["g"] = list(torch.autograd.grad(act, [t[k] for k in names], [torch.ones_like(o) for o in act], allow_unused=True))

        first = {}
        mon.call(go, t, {})  # (what is imported or set up once)
        with how() as m:
            mon.call(go, t, first)
        total = m.n
        if not total:
            raise Skip()
        for _ in range(rng.randint(1, 6)):
            k, exc = rng.randint(1, total), rng.choice(EXC)
            u = copies(c.t)
            for n in names:
                u[n].requires_grad_(True)
            before = {n: util.snapshot(v) for n, v in u.items()}
            w = surroundings()
            box, raised = {}, False
            try:
                with how(k, exc) as m:
                    go(u, box)
            except BaseException as e:
                if "injected by the monitor" not in str(e):
                    if not isinstance(e, Exception):
                        raise
                    mon.ev("another-exception")
                raised = True
            w2 = surroundings()
            where = f"after {exc.__name__} at {'operation' if how is Ops else 'function'} {k} of {total}"
            mon.ev("interruptions")
            mon.ev("interrupted-" + ("backward" if box.get("back") else "forward") + "-" + how.__name__)
            for q in w:
                if w[q] != w2[q]:
                    mon.fail("global-state", f"{c.op} {where}: {q} is {str(w2[q])[:80]}, was {str(w[q])[:80]}")
                    return
            for n, v in u.items():
                mon.ev("argument-snapshots")
                if not util.same_snapshot(before[n], v):
                    return mon.fail("mutated", f"{c.op} {where}: argument {n} has changed")
                if v is not None and v.grad is not None:
                    return mon.fail("grad", f"{c.op} {where}: argument {n} has a gradient")
            if not raised:
                mon.ev("exceptions-swallowed")
                same(mon, first["out"], box["out"], f"{c.op} {where}, which did not reach the caller", "swallowed")
                same(mon, first.get("g", []), box.get("g", []), f"gradients of {c.op} {where}, which did not reach the caller", "swallowed")
            # the same arguments are used again
            box = {}
            mon.call(go, u, box)
            mon.ev("calls-after-an-interruption")
            same(mon, first["out"], box["out"], f"{c.op} {where}", "again")
            same(mon, first.get("g", []), box.get("g", []), f"gradients of {c.op} {where}", "again")
        refs = [StorageWeakRef(v.untyped_storage()) for v in u.values() if v is not None and v.numel()]
        u = v = before = box = None
        if any(not r.expired() for r in refs):
            gc.collect()
        mon.ev("storages-watched", len(refs))
        if any(not r.expired() for r in refs):
            mon.fail("retained", f"{c.op} {where}: an argument the caller dropped is still alive")

    return f


N = dict(lti_lfilter=60, lti_state_space=60, lti_ssr=50, lti_diag=50, lpv_lfilter=60, lpv_state_space=60, lpv_ssr=50, native=50, function=50)
def _unusual(f):
    def g(rng, mon):
        with util.unusual(rng, 0.7) as w:
            mon.ev("unusual-settings" if w else "default-settings")
            f(rng, mon)

    return g


STRATA = {k: (_unusual(_case(ops.ALL[k])), N.get(k, 30), 20 * N.get(k, 30)) for k in GEN}
QUICK = 3
REQUIRED = {"interruptions": 3000, "calls-after-an-interruption": 3000, "interrupted-forward-Ops": 500, "interrupted-forward-Calls": 300, "interrupted-backward-Ops": 300, "interrupted-backward-Calls": 30}
