#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate the file)."""
import json, pathlib

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text},
                  why_tests_cant=why, anchors=a))


F_LTI = "philtorch/lti/filtering.py"
F_SSM = "philtorch/lti/ssm.py"
F_REC = "philtorch/lti/recur.py"
F_INT = "philtorch/lti/interp.py"
V_LTI = "philtorch/lpv/filtering.py"
V_SSM = "philtorch/lpv/ssm.py"
V_REC = "philtorch/lpv/recur.py"
V_UTL = "philtorch/lpv/utils.py"
CS = ["philtorch/csrc/host_lti_recur.cpp", "philtorch/csrc/host_lti_recurN.cpp",
      "philtorch/csrc/host_recurN.cpp", "philtorch/csrc/host_recur2.cpp"]
INIT = "philtorch/__init__.py"
MAT = "philtorch/mat.py"
POLY = "philtorch/poly.py"

prop("C01", "LTI filtering solves the linear difference equation",
     "For every numerator b, denominator a (leading 1 omitted) and signal x, the LTI filter functions (lti.lfilter in every form df1/df2/tdf1/tdf2 and every backend, and lti.fir direct or transposed) return exactly the zero-state solution of y[n] = sum_k b[k] x[n-k] - sum_k a[k] y[n-k], i.e. what scipy.signal.lfilter([b],[1,a],x) returns. This holds for real and complex data, for coefficients shared by the batch or given per row, for 1-D and batched signals, for every pair of orders (including single-tap numerators, numerators longer than the denominator and the reverse), for signals shorter than the filter, and for every unroll factor.",
     ["inputs", "configurations"], "all coefficient/signal values, shapes, orders, dtypes, forms, backends and unroll factors",
     "The tests compare a handful of orders (1-5), batches (1, 8), lengths (32, 128) of random real data with scipy; nothing exercises signals shorter than the filter, order coincidences with the batch size, complex coefficients, single taps or non-default unroll factors.",
     [F_LTI, F_SSM, F_REC, POLY, MAT], [("lfilter form/backend dispatch and companion realisation", F_LTI), ("state_space recursion", F_SSM), ("polynomial split for long numerators", POLY)],
     ["lti.lfilter", "lti.fir"])

prop("C02", "LTI streaming: chunked filtering with carried state equals one shot",
     "Splitting a signal into any sequence of non-empty chunks, and passing the final state returned for one chunk as the initial state of the next, gives exactly the output and the final state of filtering the whole signal at once, for every stateful LTI function (lti.lfilter in forms df2 and tdf2, lti.fir direct and transposed, lti.state_space, lti.diag_state_space, lti.comb_filter). The state has the documented meaning: for tdf2 and the transposed FIR it is the zi/zf of scipy.signal.lfilter, for df2 the most recent internal values newest first, for the direct FIR and the comb the most recent inputs/outputs newest first, for the state-space functions the state vector itself. Supplying a state always makes the function return the final one, and chunks may be shorter than the filter; a chunk without samples is either refused or leaves the state as it is.",
     ["inputs", "histories"], "all partitions of all signals into chunks, all functions, orders and batch shapes",
     "The tests pass one random zi to one long signal (tdf2) and never feed a returned state back for LTI filters, nor use chunks shorter than the order.",
     [F_LTI, F_SSM], [("zf extraction", F_LTI), ("final state returned when zi is given", F_SSM)], ["lti.lfilter(zi=)", "lti.fir(zi=)", "lti.state_space(zi=)", "lti.comb_filter(zi=)"])

prop("C03", "LTI state-space evaluation follows h'=Ah+Bx, y=Ch+Dx",
     "lti.state_space returns y[n] = C h[n] + D x[n] with h[n+1] = A h[n] + B x[n] and h[0] = zi (zero if omitted), and, exactly when zi is given, also the state after the last sample; an output index selects that component of h (negative indices count from the end). This holds for A shared or per batch row, for x with or without a feature dimension, for every accepted shape of B, C, D (absent, scalar, shared, per row, vector or matrix) and zi (1-D or 2-D), for real, complex and integer tensors, and for every unroll factor. lti.state_space_recursion returns the sequence h[1..N] of h[n] = A h[n-1] + x[n], a signal without feature dimension driving the first component.",
     ["inputs", "configurations"], "all values, shapes, dtypes and options accepted",
     "The shape tests check only that a shape comes out for one size (B=5, N=97, M=3); values are compared for a few random cases with A shared.",
     [F_SSM, F_REC], [("shape dispatch of B, C, D", F_SSM), ("recursion back ends (native, loop, block-unrolled)", F_SSM)], ["lti.state_space", "lti.state_space_recursion"])

prop("C04", "The unroll factor never changes a result",
     "For every function that accepts an unroll factor (linear_recurrence, state_space_recursion, state_space, diag_state_space and lfilter, time-invariant and parameter-varying), every positive unroll factor, including 1, primes, composites, values that do not divide the length, and values equal to or above it, gives the same result as the step-by-step recurrence, up to rounding and exactly on integer-valued data. Values below 1 are rejected.",
     ["inputs", "configurations"], "all unroll factors, lengths, orders, batch shapes, output indices",
     "Tests use one or two factors (5, 8) and lengths; the blocked algorithm recurses, pads and factors the block size, so its corner cases depend on the arithmetic of length and factor.",
     [F_REC, F_SSM, V_REC, V_SSM, MAT], [("block unrolling with remainder padding and recursion", F_SSM), ("accumulated matrix powers/products", MAT)], ["unroll_factor="])

prop("C05", "LPV FIR and all-pole filters solve their time-varying equations",
     "lpv.fir returns y[n] = sum_k b_k[n] x[n-k] (direct) or sum_k b_k[n-k] x[n-k] (transposed), and lpv.allpole returns y[n] = x[n] - sum_k a_k[n] y[n-k] (direct) or x[n] - sum_k a_k[n-k] y[n-k] (transposed). A given initial state contributes as past inputs / past outputs newest first (direct) or as the pending delay-line contents (transposed), and then the final state, of the same shape, is returned as well. This holds for real and complex data, every order (for fir including 0 taps of memory), and signals shorter than the filter.",
     ["inputs", "configurations"], "all coefficient trajectories, signals, orders, lengths and states",
     "Tests use T=64..128 and orders 1-5 with real data; short signals, order 0 and complex coefficients are never reached.",
     [V_LTI, V_UTL], [("diagonal shift of the coefficient grid", V_UTL), ("windowed dot products / sample-wise LPC", V_LTI)], ["lpv.fir", "lpv.allpole"])

prop("C06", "LPV lfilter realises each filter structure sample by sample",
     "lpv.lfilter with time-varying b[n], a[n] returns the output of the named structure (df1, df2, tdf1, tdf2) whose coefficients are replaced at every sample, starting from the given or zero state, and for df2/tdf2 with a given state also returns the final state. The result does not depend on the backend where both support the form, equals lti.lfilter when the coefficients are constant, and holds for shared or per-row coefficients, any pair of orders, and any coincidence between batch size, length and order.",
     ["inputs", "configurations"], "all coefficient trajectories, forms, backends, orders and shape coincidences",
     "The only value tests use coefficients that are constant in time and compare with LTI scipy, so any mistake in which time step's coefficients are used is invisible to them.",
     [V_LTI, V_SSM], [("form dispatch", V_LTI), ("time-varying state space", V_SSM)], ["lpv.lfilter"])

prop("C07", "LPV state-space evaluation follows h'=A_n h+B_n x, y=C_n h+D_n x",
     "lpv.state_space returns y[n] = C[n] h[n] + D[n] x[n] with h[n+1] = A[n] h[n] + B[n] x[n] and h[0] = zi (zero if omitted), plus the final state exactly when zi is given, where every matrix may be shared, per batch row, per time step or both, in every accepted shape, and an output index selects one component of h. lpv.state_space_recursion returns h[n] = A[n] h[n-1] + x[n] and lpv.linear_recurrence h[n] = a[n] h[n-1] + x[n]. The result is the same on every path (native, loop, unrolled) and for real, complex and integer data.",
     ["inputs", "configurations"], "all matrix trajectories, shapes, dtypes, options",
     "Tests check shapes for a single size and values for a few random time-varying systems.",
     [V_SSM, V_REC], [("shape dispatch of A, B, C, D", V_SSM), ("recursion back ends", V_SSM)], ["lpv.state_space", "lpv.state_space_recursion", "lpv.linear_recurrence"])

prop("C08", "LPV streaming: chunked filtering with carried state equals one shot",
     "Splitting the signal and the coefficient trajectory into any sequence of non-empty chunks and carrying the returned state gives exactly the one-shot output and final state, for lpv.fir and lpv.allpole (direct and transposed), lpv.lfilter (df2 and tdf2 on every backend that supports them) and lpv.state_space. Chunks may be shorter than the filter order, down to one sample.",
     ["inputs", "histories"], "all partitions of all signals",
     "One test splits once in the middle of a long signal (fir and allpole only).",
     [V_LTI, V_SSM, V_UTL], [("zf extraction and diagonal shift", V_LTI), ("final state", V_SSM)], ["lpv.*(zi=)"])

prop("C09", "The compiled recurrence operators compute the exact recurrence",
     "The operators philtorch::lti_recur, lti_recur2, lti_recurN, recur2 and recurN return y[t] = A y[t-1] + x[t] (A scalar or per-row scalar; shared or per-row matrix; or one matrix per time step, shared or per row) with y[-1] = zi, with x's shape and dtype. This holds for every dtype they accept (half, bfloat16, float, double, complex, and int64 for the matrix forms), every memory layout of the inputs (transposed, strided, expanded, conjugated, negated views), every number of rows and steps including a single one, and every thread count; the inputs are left untouched and the result is freshly allocated.",
     ["inputs", "configurations"], "all values, sizes, dtypes, layouts",
     "Tests compare contiguous double tensors of one size with a Python loop.",
     CS + [INIT], [("OpenMP row-parallel loops over contiguous copies", "philtorch/csrc/")], ["torch.ops.philtorch.*"])

prop("C10", "No call can make the compiled operators touch memory out of bounds",
     "Whatever tensors are passed to the compiled recurrence operators, with matching or mismatching sizes, ranks, dtypes and layouts, zero-size dimensions included, a call either returns a result computed only from its arguments or raises an error: it never reads or writes outside the tensors' storage, uses uninitialised memory, or executes undefined behaviour. In particular arguments whose batch, time or state sizes disagree are rejected.",
     ["inputs"], "all argument tuples, well-formed or not",
     "Tests only pass well-formed tensors to an uninstrumented build, where an out-of-bounds read returns garbage silently.",
     CS, [("TORCH_CHECK argument validation", "philtorch/csrc/"), ("raw pointer loops", "philtorch/csrc/")], ["torch.ops.philtorch.*"])

prop("C11", "The compiled operators are race-free and schedule-independent",
     "The compiled recurrence operators give bitwise the same result for every number of OpenMP threads, and when called concurrently from several application threads each call returns bitwise what it returns alone. No execution contains a data race on the operators' own data.",
     ["schedules", "configurations"], "all thread counts, interleavings and sets of concurrent callers",
     "Tests call each operator from one thread with a fixed thread count and an uninstrumented build.",
     CS, [("one row per parallel iteration, no shared state", "philtorch/csrc/")], ["torch.ops.philtorch.*"])

prop("C12", "Reverse-mode gradients equal the derivative of the computation",
     "For every differentiable function of the public API (lti.*, lpv.*, and the compiled operators), and for any subset of its tensor arguments requiring gradients, backpropagating any cotangent through all returned tensors (outputs and final states) yields the gradient of the defining recurrence with respect to each argument, real or complex, shared (summed over the batch) or per row. It does not depend on the backend, form, unroll factor or memory layout.",
     ["inputs", "configurations"], "all functions, argument subsets, cotangents, shapes, options",
     "gradcheck is run on a few operators at one size with real doubles; gradients of lfilter forms, final states, shared coefficients, the spline, comb, zi helpers and the LPV functions are never compared with anything.",
     [INIT, F_SSM, F_REC, V_SSM], [("hand-written backward rules", INIT), ("autograd.Function backward", F_SSM), ("autograd.Function backward", F_REC), ("autograd.Function backward", V_SSM)], ["torch.autograd.grad"])

prop("C13", "Forward-mode and second-order derivatives are correct",
     "Forward-mode directional derivatives (dual numbers / jvp) of the recurrence-based public functions for any subset of arguments carrying tangents, and second-order derivatives obtained by differentiating a gradient again (double backward, Hessian-vector products), equal the corresponding derivatives of the defining recurrence. They agree with reverse mode through the duality <v, J u> = <J^T v, u>.",
     ["inputs", "configurations"], "all functions supporting it, argument subsets, directions",
     "gradgradcheck/forward-mode gradcheck run at one small size on the raw recurrences with every argument active at once.",
     [F_SSM, F_REC, V_SSM], [("jvp rules", F_SSM), ("jvp rules", F_REC), ("jvp rules", V_SSM)], ["torch.func.jvp", "torch.autograd.grad(create_graph=True)"])

prop("C14", "Shape propagation and compilation agree with eager execution",
     "For every argument tuple the operators accept, their abstract (fake/meta) evaluation predicts the shape, strides, dtype and device of the real result, and it rejects argument tuples with inconsistent sizes as the real operator does. Tracing or compiling code that uses the operators (torch.compile, make_fx), with gradients, gives the eager results.",
     ["inputs", "programs"], "all argument tuples and layouts; programs using the operators",
     "opcheck is run on contiguous inputs of one size; strides for non-contiguous inputs and the rejection of malformed inputs are never compared.",
     [INIT] + CS, [("register_fake kernels", INIT), ("register_autograd rules", INIT)], ["FakeTensorMode", "torch.compile", "torch.fx.experimental.proxy_tensor.make_fx"])

prop("C15", "The pure-Python fallback gives the results of the compiled extension",
     "When the compiled extension is unavailable, importing the package still succeeds (with a warning) and every public function still works, returning for the same arguments the same outputs, final states and gradients as with the extension.",
     ["configurations", "inputs"], "all public functions and arguments, with and without the extension",
     "All tests run with the extension loaded; the fallback of most functions is never imported.",
     [INIT, F_LTI, F_SSM, F_REC, F_INT, V_SSM, V_LTI], [("EXTENSION_LOADED dispatch", INIT), ("backend indicators", F_SSM), ("backend indicators", V_SSM)], ["philtorch.lti.*", "philtorch.lpv.*"])

prop("C16", "filtfilt performs zero-phase forward-backward filtering like scipy",
     "lti.filtfilt(b, a, x) equals scipy.signal.filtfilt with the corresponding padding (replicate=constant, reflect=even, none) and pad length, default or given, for every order pair, batch shape and filter form, and returns a tensor of x's shape. Padding lengths that do not fit the signal are rejected.",
     ["inputs", "configurations"], "all filters, signals, padding modes and lengths, forms, batch shapes",
     "Tests use one order pair, one length, form tdf2 only.",
     [F_LTI], [("edge extension, steady-state start, two passes", F_LTI)], ["lti.filtfilt"])

prop("C17", "Initial-state helpers produce the state they promise",
     "lfilter_zi returns the state for which a unit step input to lfilter in the matching form (tdf2 if transpose, else df2) produces a constant output from the first sample, equal to the filter's DC gain for tdf2 and scipy.signal.lfilter_zi's value there. lfiltic returns the tdf2 state such that filtering the continuation of a signal, given the past outputs and inputs newest first, continues the original response, as scipy.signal.lfiltic does. Both hold for all order pairs and for shared or per-row coefficients.",
     ["inputs"], "all filters, order pairs, past data and batch shapes",
     "Tests cover single order pairs.",
     [F_LTI, MAT], [("linear solve with the companion matrix", F_LTI), ("Hankel products", F_LTI)], ["lti.lfilter_zi", "lti.lfiltic"])

prop("C18", "Cubic spline coefficients and upsampling interpolate the samples",
     "lti.cubic_spline(x, m) returns (L-1)*m+1 samples that pass through x at every m-th position and follow, in between, the cubic B-spline with the selected boundary extension whose coefficients reproduce x (up to rounding and the truncated boundary extension, at most of the order of 0.268^(L-1)); with scipy padding the coefficients and values equal scipy.signal.cspline1d / cspline1d_eval. This holds for every upsampling factor m >= 1, every admissible length, both internal forms (parallel and cascaded) and any batch.",
     ["inputs", "configurations"], "all signals, lengths, factors, boundary conventions, forms",
     "Tests use m in {2,3,7} and n in {20,100} with loose tolerances.",
     [F_INT, F_REC], [("causal/anticausal recursive prefilter", F_INT), ("polyphase B-spline kernel", F_INT)], ["lti.cubic_spline", "lti.interp.cspline"])

prop("C19", "The comb filter solves y[n] = x[n] - a y[n-D] for every delay",
     "lti.comb_filter(a, D, x) returns y[n] = x[n] - a y[n-D] for every delay D >= 1, a shared or per row, every length (also shorter than the delay or not a multiple of it), with past outputs newest first as optional state; if a state is given, the D most recent outputs, newest first, are returned as the final state. It agrees with lti.lfilter with denominator [0,...,0,a].",
     ["inputs", "configurations"], "all delays, lengths, gains, states, batch shapes",
     "Tests use delays 1-5 with one length and never look at the final state.",
     [F_LTI, F_REC], [("folding the signal into D interleaved first-order recurrences", F_LTI)], ["lti.comb_filter"])

prop("C20", "Matrix helpers satisfy their defining identities",
     "companion(a) has characteristic polynomial z^M + sum a_k z^(M-k); matrix_power_accumulate(A, n) is [A, A^2, ..., A^n] (identity for 0, powers of the inverse for negative n); matrices_cumdot(A) is the sequence of prefix products in order; find_eigenvectors returns unit vectors with A v = lambda v paired column by column with the eigenvalues; vandermonde(p) has the descending powers of pole j in column j and diagonalises the companion matrix. All hold for arbitrary leading batch dimensions, real and complex, and all counts n (prime, composite, 1).",
     ["inputs"], "all matrices, sizes, batch dimensions and counts",
     "There are no tests of these helpers on their own; filters exercise them for a few sizes.",
     [MAT], [("factorised power/product accumulation", MAT)], ["philtorch.mat.*"])

prop("C21", "Polynomial division returns the unique quotient and remainder",
     "poly.polydiv(u, v) returns q and r with u = q*v + r, q of length max(len(u)-len(v)+1, 0) and r of length len(v)-1 (r = u if v is longer), for every length pair, batched, broadcast between batched and unbatched operands, real and complex, and is differentiable in both arguments. Consequently lfilter's split of a long numerator into a direct FIR part and a proper remainder is exact.",
     ["inputs"], "all polynomials, degrees and batch shapes",
     "polydiv has no test of its own; the diagonal backend uses it for a few sizes without gradients.",
     [POLY, F_LTI], [("long division", POLY)], ["philtorch.poly.polydiv"])

prop("C22", "The diagonalised state-space model equals the full one",
     "diag_state_space gives the output and final state of the state-space recursion with A = V diag(L) V^-1 however the system is specified (A alone; L with V, V^-1, both, or A; L alone for a diagonal system), for shared or per-row systems, every accepted B, C, D, zi shape, output index and unroll factor. Real coefficients and signals give real outputs (up to rounding), complex ones complex.",
     ["inputs", "configurations"], "all diagonalisable systems, specifications and shapes",
     "Tests check shapes for one size and values for one filter per order.",
     [F_SSM, MAT], [("eigenbasis recursion", F_SSM), ("eigenvector construction", MAT)], ["lti.diag_state_space", "lti.lfilter(backend='diag_ssm')"])

prop("C23", "Functions are pure: no mutation, no aliasing, no memory of past calls",
     "No public function changes any of its argument tensors (values, shape, strides, gradients, requires-grad flag), the global random state, default dtype, thread count or grad mode, and the results of the compiled operators never share memory with an argument. The result depends only on the arguments: repeating a call, calling with any other arguments in between, or overwriting earlier results gives the same result, up to rounding differences of the vendor kernels (bitwise for the compiled operators).",
     ["inputs", "histories"], "all functions, arguments and call histories",
     "Tests never compare arguments before and after nor repeat calls in different orders.",
     [F_LTI, F_SSM, F_REC, F_INT, V_LTI, V_SSM, V_REC, MAT, POLY, INIT], [("pure functional implementation, no stateful objects (README)", "README.md")], ["every public function"])

prop("C24", "Filters are linear, causal, time-invariant and keep batch rows separate",
     "For every filter and state-space function: row i of a batched result equals the result of the same call on row i alone; the first n output samples depend only on the first n input samples (and coefficient steps); superposition holds in (x, zi) jointly for fixed coefficients; and delaying the input of an LTI filter by d zero samples delays its output by d.",
     ["inputs"], "all functions, batch sizes, prefixes, delays, superpositions",
     "Two LPV tests check linearity and batch independence for one size; nothing covers LTI, long signals or large batches.",
     [F_LTI, F_SSM, F_REC, V_LTI, V_SSM, V_REC], [("row-wise and step-wise recurrences", F_SSM)], ["every filter"])

prop("C25", "Inconsistent arguments are rejected, never silently computed",
     "Calls to the public filter functions and operators whose shapes contradict each other (batch sizes, lengths, state sizes, non-square state matrices, wrong ranks, C together with an output index, unknown forms or backends, unroll factor below 1, unsupported methods) raise an exception instead of returning a value.",
     ["inputs"], "all combinations of one valid call with one inconsistency",
     "Only a couple of pytest.raises cases exist.",
     [F_LTI, F_SSM, F_REC, V_LTI, V_SSM, V_REC, INIT] + CS, [("assertions and checks at function entry", F_SSM)], ["every public function"])

prop("C26", "newton_solve converges to the sequential solution of the recurrence",
     "prototype.nl.newton_solve(func, x, y0, init) returns, for a recurrence y[n] = func(y[n-1], x[n]), a sequence of x's length whose first k samples equal the sequential solution exactly (up to rounding) after k iterations, and the whole sequence when it reports convergence before the iteration limit or when the recurrence is affine; this holds with the Jacobian given or derived, every state size, and every unroll factor.",
     ["inputs", "configurations"], "all recurrences, initial guesses, iteration limits",
     "One nonlinear example (skipped or failing in the current environment) is tested.",
     ["philtorch/prototype/nl.py", V_SSM], [("Newton iteration with a linear recurrence solve", "philtorch/prototype/nl.py")], ["prototype.nl.newton_solve"])

prop("C27", "Partial-fraction expansions reconstruct the rational function",
     "For rational functions whose distinct poles are well separated, prototype.signal.residue and residuez (denominator of degree at least 1) return residues, poles and direct terms whose sum equals b/a at every point that is not a pole, as scipy.signal.residue / residuez do, with repeated poles; sos2pfe returns real and complex-pair residues, poles and powers that together with the gain reconstruct the cascade of second-order sections, also when sections are repeated. The polynomial helpers they use (roots, polymul, polydiv, polyadd, polysub, polyval, polyder) satisfy the algebraic identities.",
     ["inputs"], "all rational functions with well-separated or exactly repeated poles",
     "These modules have no tests at all.",
     ["philtorch/prototype/signal.py", "philtorch/prototype/poly.py"], [("residue recursion", "philtorch/prototype/signal.py")], ["prototype.signal.*", "prototype.poly.*"])

prop("C28", "Results keep the precision and dtype of their inputs",
     "For inputs of one dtype (float32, float64, complex64, complex128) every public function returns tensors of that dtype on the same device with an error consistent with that precision (no hidden computation in a lower precision), on every form, backend, unroll factor and with or without state; integer tensors stay integer and exact where the state-space functions accept them. The global default dtype does not influence the result.",
     ["inputs", "configurations"], "all functions, dtypes, options and default dtypes",
     "Tests use float32 or float64 with loose tolerances and never check the dtype of results.",
     [F_LTI, F_SSM, F_REC, F_INT, V_LTI, V_SSM, V_REC, MAT, POLY, "philtorch/prototype/signal.py", "philtorch/prototype/poly.py", "philtorch/prototype/nl.py"], [("dtype-generic tensor code", F_SSM)], ["every public function"])

prop("C29", "Accelerator kernels compute the same recurrence as the CPU operators",
     "The Helion kernels and the CUDA scan kernels shipped with the package compute, for every batch size, length and order they accept, the same y[t] = A y[t-1] + x[t] recurrence as the CPU operators, with shared or per-row and constant or time-varying matrices.",
     ["inputs", "configurations"], "all sizes, layouts, dtypes the kernels accept",
     "Without a GPU all their tests are skipped: in this environment nothing runs them.",
     ["philtorch/_helion.py", "philtorch/csrc/lti_recur.cu", "philtorch/csrc/lti_recur2.cu", "philtorch/csrc/recur2.cu", "philtorch/csrc/recur2.cuh"],
     [("tile/grid recurrences", "philtorch/_helion.py"), ("associative scan over affine maps", "philtorch/csrc/recur2.cuh")], ["philtorch._helion.*", "torch.ops.philtorch.* (CUDA)"])

prop("C30", "Function transforms agree with one call per sample",
     "For every public function (lti, lpv, mat, poly) and every recurrence operator, torch.func.vmap over any subset of the tensor arguments, with the mapped dimension anywhere, nested or chunked, and per-sample gradients (vmap of grad) either raise an error or return for each sample exactly what the call with that sample alone returns; jacrev, jacfwd and their compositions (hessian) and vmap of jvp of a public function either raise or return its derivatives. No transform silently returns wrong values. (Forward mode through direct calls of the compiled operators, and forward mode nested in forward mode, are excluded.)",
     ["inputs", "configurations"], "all functions, options, mapped arguments, positions of the mapped dimension and transforms",
     "No test applies a function transform; a reshape, broadcast or in-place write that confuses the mapped dimension shows only under the transform, and only for some ranks and mapped subsets.",
     [F_LTI, F_SSM, F_REC, F_INT, V_LTI, V_SSM, V_REC, MAT, POLY], [("new-style autograd functions with setup_context", F_SSM), ("broadcast linear solve for initial states", F_LTI)], ["torch.func.vmap/grad/jacrev/jacfwd of every public function"])

prop("C31", "In-place changes before backward never give silently wrong gradients",
     "When a tensor that took part in a differentiable call of a public function or operator (an argument, or a result) is modified in place between the forward call and the backward pass, the backward pass either raises an error or gives the gradients of the call at the values the arguments had when it was made (with the modification itself differentiated where autograd recorded it). Modifications hidden from PyTorch's version counters are excluded.",
     ["inputs", "histories"], "all functions, options, subsets requiring gradients and in-place modifications",
     "No test modifies a tensor between forward and backward; an autograd function that keeps a saved tensor outside save_for_backward, or a state written into the caller's buffer, passes every gradcheck.",
     [F_LTI, F_SSM, F_REC, F_INT, V_LTI, V_SSM, V_REC, MAT, POLY], [("save_for_backward of arguments and results", F_REC)], ["every differentiable public function"])

prop("C32", "Memory is released",
     "After a call of a public function or operator (with a graph, a backward, a second-order or forward-mode pass, or a refused call) no tensor the caller has dropped stays alive (nor waits in a reference cycle for the garbage collector, unless the call raised), and repeating calls does not make the process's memory or the number of live tensors grow with the number of calls.",
     ["inputs", "histories"], "all functions, options, differentiation modes and numbers of calls",
     "Tests are short-lived processes that never look at memory: reference cycles through autograd contexts, caches keyed by tensors and unreleased native buffers do not change any value.",
     [F_LTI, F_SSM, F_REC, F_INT, V_LTI, V_SSM, V_REC, MAT, POLY] + CS, [("autograd contexts", F_REC), ("native work buffers", CS[0])], ["every public function", "torch.ops.philtorch.*"])

prop("C33", "Interrupted calls leave no trace",
     "When a call of a public function or operator, or its backward pass, is interrupted by an exception at any tensor operation or internal function call (keyboard interrupt, out of memory, error), the exception reaches the caller (or the result is right all the same), no argument and no interpreter-wide setting (default dtype, thread count, grad mode, determinism flags, random state, ...) has changed, nothing the caller drops stays alive, and later calls return what they would have returned without the interruption.",
     ["crash points", "inputs", "histories"], "all functions, options and points of interruption",
     "No test interrupts a call: a setting restored outside finally, a cache filled half-way or a temporary in-place change shows only then.",
     [F_LTI, F_SSM, F_REC, F_INT, V_LTI, V_SSM, V_REC, MAT, POLY, INIT], [("multi-step tensor programs", F_LTI), ("autograd functions", F_SSM)], ["every public function", "torch.ops.philtorch.*"])

prop("C34", "Gradients do not depend on how differentiation is driven",
     "The gradients of a differentiable call are the same (up to rounding) whether obtained by one torch.autograd.grad, by backward() accumulating into .grad, one argument or one result at a time, with only some arguments requiring gradients, with batched cotangents, with create_graph, in another thread, in anomaly mode, under another default dtype, with saved tensors offloaded by hooks, with activation checkpointing, through parameters of a module, through views of the arguments, or with one tensor passed for two arguments (the sum of their gradients). Batched cotangents and reentrant checkpointing may raise instead.",
     ["inputs", "configurations"], "all functions, options, subsets and ways of differentiation",
     "Tests use gradcheck alone, where every argument is a leaf and each backward pass happens once, in one thread, with ordinary saved tensors.",
     [F_LTI, F_SSM, F_REC, F_INT, V_LTI, V_SSM, V_REC, MAT, POLY, INIT], [("needs_input_grad branches and saved tensors", F_SSM), ("operator backward formulas", INIT)], ["every differentiable public function"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P), "properties")
