#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json (run it to regenerate the file)."""
import json, pathlib

V = pathlib.Path(__file__).resolve().parent.parent
PROPS = [json.loads(l)["id"] for l in open(V / "properties.jsonl")]
ORACLE = "The oracle is an independent step-by-step reference in /verif/vmon/ref.py (plain Python/float128-free loops over the defining equations) "
EXPL = "Randomised exploration of executions of the real code: no violation on any generated case; says nothing about inputs not generated. "
T = {
    "C01": ("runtime monitor: online comparison of every call with a step-by-step difference-equation oracle under generated workloads", "Exact on integer data, tolerance scaled to conditioning on float data."),
    "C02": ("runtime monitor: offline conservation check of recorded chunk histories (state handed over) against the one-shot run and the oracle", "Exact on integer data."),
    "C03": ("runtime monitor: state-trace oracle for h'=Ah+Bx, y=Ch+Dx over generated shapes", "Shape readings follow the documented precedence."),
    "C04": ("runtime monitor: differential check of every unroll factor against the step-by-step oracle", "Exact on integer data."),
    "C05": ("runtime monitor: time-varying difference-equation oracle", ""),
    "C06": ("runtime monitor: structure-level simulator (delay lines) as oracle", ""),
    "C07": ("runtime monitor: time-varying state-trace oracle", ""),
    "C08": ("runtime monitor: offline conservation check of recorded chunk histories", ""),
    "C09": ("runtime monitor: exact recurrence oracle on the compiled operators under hostile layouts, dtypes and thread counts", "Integer-valued data is compared exactly."),
    "C10": ("compiler sanitizers: ASan + UBSan build of the repository's csrc under a hostile-shape driver, with poisoned allocations", "Sanitizers see the executions of the driver only; libtorch itself is not instrumented."),
    "C11": ("race detector: TSan build with an instrumented OpenMP shim, plus bitwise comparison of executions across thread counts and concurrent callers", "TSan reports races of the schedules executed (happens-before based); libtorch is not instrumented."),
    "C12": ("runtime monitor: reverse-mode gradients compared with gradients of the reference recurrence", "The reference is differentiated by PyTorch's autograd over elementary operations."),
    "C13": ("runtime monitor: forward mode / double backward compared with the differentiated reference, and the duality invariant", ""),
    "C14": ("runtime monitor: differential execution fake/meta vs real, traced/compiled vs eager", "torch.compile is exercised with backends that need no C++ codegen (aot_eager)."),
    "C15": ("runtime monitor: differential execution with the extension withheld", ""),
    "C16": ("runtime monitor: scipy.signal.filtfilt as online oracle", "Trusts scipy."),
    "C17": ("runtime monitor: step-response/continuation oracle and scipy", "Trusts scipy."),
    "C18": ("runtime monitor: interpolation invariants and a B-spline oracle", ""),
    "C19": ("runtime monitor: comb recurrence oracle, exact on integers", ""),
    "C20": ("runtime monitor: defining identities checked on every result", ""),
    "C21": ("runtime monitor: u = q v + r and degree checked on every result", ""),
    "C22": ("runtime monitor: full state-space trace as oracle for the diagonalised model", "Domain: well-conditioned eigenvector bases."),
    "C23": ("runtime monitor: before/after snapshots (bits, metadata, global state) around every call, history replay", ""),
    "C24": ("runtime monitor: metamorphic invariants (rows, prefixes, superposition, delay) over executions", ""),
    "C25": ("runtime monitor: fault injection of one inconsistency into a valid call, exception required", "Any exception type counts."),
    "C26": ("runtime monitor: per-iteration comparison with the sequential solution", ""),
    "C27": ("runtime monitor: reconstruction of the rational function at random points", "Domain: separated or exactly repeated poles."),
    "C28": ("runtime monitor: dtype and error of every result against a higher-precision oracle", ""),
    "C29": ("runtime monitor: execution of the kernels under the Helion interpreter / a host emulation of the CUDA scan, compared with the recurrence", ""),
    "C30": ("runtime monitor: every sample of a transformed call compared with the reference recurrence of that sample alone", "A transform may be refused with any exception."),
    "C31": ("runtime monitor: fault injection of in-place changes between forward and backward, gradients compared with the reference at the values of the call", "A change may be refused with any RuntimeError."),
    "C32": ("runtime monitor: leak detection - weak references to every storage, live-object and allocator accounting over repeated calls", "Small-object allocations of Python are seen through live tensors only."),
    "C33": ("runtime monitor: fault injection (exceptions at random tensor operations and internal calls), snapshots of arguments and settings, and the call repeated", "Injection points lie between tensor operations, not inside compiled kernels."),
    "C34": ("runtime monitor: differential execution of 16 ways to drive a backward pass", "Correctness of the plain gradient is judged by C12."),
}
NA = {}
checks = []
for p in PROPS:
    if p in NA or not (V / "vmon" / "checks" / f"{p.lower()}.py").exists():
        NA.setdefault(p, "check not built yet")
        continue
    tech, note = T[p]
    checks.append(dict(property=p, quick_cmd=f"./check.sh {p} --tier quick", thorough_cmd=f"./check.sh {p} --tier thorough",
                       evidence_file=f"evidence/{p}.json", technique=tech, level="exploration", level_note=(EXPL + note).strip()))
m = dict(version=1, setup_cmd="./check.sh --setup", checks=checks,
         hooks=dict(guard="none", enable="No hooks: the monitors run the unmodified tree; sanitizer builds compile /repo's csrc outside /repo.", source_commits=[]),
         not_applicable=[dict(property=p, reason=r) for p, r in sorted(NA.items())],
         notes="See DESIGN.md. Known and repaired defects: known_findings.json.")
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks;", sorted(NA))
