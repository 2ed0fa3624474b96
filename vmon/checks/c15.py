"""The package without its compiled extension."""
import subprocess
import sys
import textwrap

import torch

from .. import load, ops, util
from ..core import Skip
from ..ops import Profile
from . import c12

ID = "C15"
QUICK = 3
RULE = ("The package is imported with the extension withheld (import of philtorch._C fails); cases are those of C01-C22: every public function with random options and shapes, its outputs and final states compared with the step-by-step reference "
        "(which the extension build is held to by the other checks), and reverse-mode gradients with autograd through it. Distinct: drawn configuration.")
ASSUMPTIONS = ["Helion is absent or present as installed; CPU tensors only"]


def setup():
    load.philtorch(ext=False)


def _value(name):
    def f(rng, mon):
        c = ops.ALL[name](rng, Profile(layouts=0.1))
        ops.judge(mon, c)
        mon.ev("fallback-values")

    return f


def _grad(name):
    def f(rng, mon):
        p = dict(c12.SMALL)
        p["dtype"] = torch.complex128 if rng.random() < 0.2 else torch.float64
        c = ops.ALL[name](rng, Profile(**p))
        mon.ev("fallback-gradients")
        c12.grad_case(rng, mon, c)

    return f


def importing(rng, mon):
    """a fresh interpreter: import succeeds, warns, and the documented entry points work"""
    order = rng.sample(["philtorch.lti", "philtorch.lpv", "philtorch.mat", "philtorch.poly", "philtorch.lti.interp", "philtorch"], 6)
    code = textwrap.dedent(f"""
        import sys, warnings
        sys.path[:0] = [{load.VERIF!r}, {load.REPO!r}]
        sys.dont_write_bytecode = True
        from vmon.load import _Finder
        sys.meta_path.insert(0, _Finder(None))
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            import importlib
            mods = [importlib.import_module(m) for m in {order!r}]
        import philtorch, torch
        assert philtorch.EXTENSION_LOADED is False
        print("WARNED", sum("xtension" in str(x.message) for x in w))
        from philtorch import lti, lpv
        x = torch.arange(1., 7.).reshape(1, 6)
        print("NAMES", sorted(n for m in (lti, lpv) for n in m.__all__ if not callable(getattr(m, n))))
        y = lti.lfilter(torch.tensor([1., 1.]), torch.tensor([.5, .25]), x)
        print("VALUE", y.tolist()[0][:3])
    """)
    mon.case(order=order)
    r = subprocess.run([sys.executable, "-c", code], capture_output=True, text=True, timeout=300)
    if r.returncode:
        return mon.fail("import", "import without the extension failed: " + r.stderr[-800:])
    mon.ev("fresh-imports")
    if "WARNED 0" in r.stdout:
        mon.fail("warning", "no warning about the missing extension")
    if "NAMES []" not in r.stdout:
        mon.fail("names", r.stdout)
    if "VALUE [1.0, 2.5, 3.5]" not in r.stdout:
        mon.fail("value", r.stdout)


V = dict(lti_lfilter=300, lti_fir=60, lti_state_space=300, lti_ssr=200, lti_linrec=100, lti_diag=150, lti_comb=100, lti_filtfilt=80, lti_zi=30, lti_ic=30, lti_cspline=40, lti_spline=40,
         lpv_fir=60, lpv_allpole=80, lpv_lfilter=300, lpv_state_space=250, lpv_ssr=200, lpv_linrec=100, polydiv=40, mat=60)
G = dict(lti_lfilter=100, lti_state_space=100, lti_ssr=80, lti_linrec=50, lti_diag=60, lti_comb=50, lti_filtfilt=30, lti_spline=15,
         lpv_allpole=40, lpv_lfilter=100, lpv_state_space=100, lpv_ssr=80, lpv_linrec=50)
STRATA = {f"value_{k}": (_value(k), n, n * 12) for k, n in V.items()} | {f"grad_{k}": (_grad(k), n, n * 12) for k, n in G.items()} | {"importing": (importing, 3, 8)}
REQUIRED = {"fallback-values": 1500, "gradients-compared": 800, "fresh-imports": 2, "compared": 1500}
