#!/usr/bin/env python3
"""Regenerates properties.jsonl (kept as code so the long strings stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=list(files), state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=None)))

prop("C01", "Element-wise vector kernels equal their formula at every index",
 "Every element-wise kernel (a*x+b*y in place and out of place, a*x+y, x.*y, x.*y+z, y-x, |x|, constant fill, zeroed allocation) leaves in its output, at every index below the length it is given, exactly the value of its documented formula of the inputs' values at call time. No input array, no element at or beyond the given length and nothing else in memory changes, for every length including 0 and lengths that are no multiple of the SIMD width.",
 ["inputs"], "all lengths N, all scalars, all vector contents",
 "the unit tests sample a couple of fixed lengths (mostly 6 or 256); the tail iterations, N=0 and elements past N are never looked at",
 ["src/l1c_math.c", "src/vcl/vcl_math.cpp", "src/bregman.c", "src/l1c_memory.c"],
 [("parallel element loops", "src/l1c_math.c"), ("4-wide body plus scalar tail", "src/vcl/vcl_math.cpp:vcl_dxMy_pz"), ("breg_mxpy_z", "src/bregman.c"), ("l1c_calloc_double", "src/l1c_memory.c")],
 observe=["output arrays"])

prop("C02", "Reductions equal the mathematical sum, norm or maximum of all elements",
 "Sum, 1-norm, sum of log(a*x), 2-norm of a difference, relative 2-norm error (||x-y||/||y||) and maximum element return the mathematical reduction over exactly the first N elements: every element is counted once, none beyond N is read, inputs are unchanged. For N<=0 the sums are 0 and the maximum is NaN.",
 ["inputs"], "all N (every residue modulo the SIMD width), all contents",
 "tests use one or two fixed lengths; a dropped or doubled tail element for other residues, or a wrong empty case, is not sampled",
 ["src/l1c_math.c", "src/vcl/vcl_math.cpp"],
 [("accumulation loops", "src/l1c_math.c"), ("4-lane accumulator, scalar tail, horizontal add", "src/vcl/vcl_math.cpp")],
 observe=["return values"])

prop("C03", "Image difference operators are the exact stencils and exact adjoints",
 "For every n by m image (n,m>=2) and scale a, the horizontal and vertical difference operators give a*(next-current) with a zero last column/row, their transposes are the exact adjoints (<Dx u,v> = <u,DxT v>, likewise for Dy), and the two second-difference operators equal transpose-after-forward, i.e. D'(D u) with the scale squared. Inputs and memory outside the n*m outputs are untouched.",
 ["inputs"], "all n,m>=2, all scales, all images",
 "tests compare against stored matrices for one 4x3-like size; other shapes (n>m, m>n, 2-wide, long rows) and adjointness are not settled",
 ["src/TV.c"],
 [("row-wise stencils ddiff_z, ddiffT_z, ddiff2_z", "src/TV.c"), ("l1c_Dy, l1c_DyT, l1c_DyTDy guards", "src/TV.c")],
 observe=["output arrays"])

prop("C04", "Split-Bregman building blocks implement shrinkage and the TV normal equations",
 "Shrinkage returns sign(x)*max(|x|-gamma,0) element-wise (0 where |x|<=gamma, gamma>=0). The right-hand side is mu*f + lambda*Dx'(dx-bx) + lambda*Dy'(dy-by); the Hessian action, its inverse diagonal, one Jacobi sweep and one in-place row-major Gauss-Seidel sweep are those of H = mu*I + lambda*(Dx'Dx + Dy'Dy), so each swept pixel solves its own equation with already-updated predecessors and old successors. Only the documented outputs and work arrays change.",
 ["inputs"], "all n,m (>=2), all images, all mu, lambda with mu+2*lambda>0",
 "stored-vector tests of one small shape exercise each stencil branch at one size; corner/edge weights at other shapes are unsettled",
 ["src/bregman.c"],
 [("breg_shrink1", "src/bregman.c"), ("breg_anis_rhs", "src/bregman.c"), ("breg_anis_guass_seidel corner/edge/interior cases", "src/bregman.c"), ("breg_anis_jacobi, hess_inv_diag, breg_hess_eval", "src/bregman.c")],
 observe=["output arrays"])

prop("C05", "TV denoising follows the split-Bregman recurrence and stops as documented",
 "Starting from u=f and zero split/Bregman variables, every outer iteration performs: right-hand side, the requested number of Gauss-Seidel sweeps, d=shrink(Du+b,1/lambda), b=(Du+b)-d in both directions (lambda=2mu); it stops after the first iteration whose relative change ||u_k-u_{k-1}||/||u_{k-1}|| is below tol or after the iteration limit, and returns that u with status 0. The input image is never modified; if an allocation fails the call reports out-of-memory and leaves the output image untouched.",
 ["inputs", "fault_sequences"], "all images, sizes, mu, tol, iteration limits; every subset of failing allocations",
 "the end-to-end tests check one denoised picture to a tolerance: a wrong update order, a stop off by one or a modified input still converges to nearly the same picture",
 ["src/bregman.c"],
 [("l1c_breg_anistropic_TV main loop", "src/bregman.c"), ("convergence test on the relative error", "src/bregman.c"), ("allocation check and cleanup", "src/bregman.c")],
 observe=["output image", "return status", "input image"])

prop("C06", "Backtracking line search: sufficient decrease on success, rollback on failure",
 "On success (status 0) the iterate(s) equal the start plus s times the direction(s), the stored objective equals the (non-NaN) objective at that point, s = s0*beta^(i-1) for the reported trial i<=32, and objective <= f0 + alpha*s*g'd with f0 the objective at entry; every earlier trial failed that test or was NaN. On failure (status 1, after exactly 32 rejected trials) the iterates are bit-for-bit what they were. This holds for both the one-variable and the two-variable search, for any objective callback, including one that overwrites the stored objective while evaluating.",
 ["inputs", "histories"], "all sizes, directions, parameters and all objective callbacks (any sequence of returned values including NaN)",
 "tests use one quadratic-like callback that succeeds, and one failure; callbacks with side effects on the stored objective and NaN-then-recover sequences are not explored",
 ["src/linesearch.c"],
 [("trial loop with NaN rejection", "src/linesearch.c"), ("saved entry objective", "src/linesearch.c:l1c_linesearch_xu"), ("copy-back only on success", "src/linesearch.c")],
 observe=["x, u, *fx0, returned status/step/iter/flin"])

prop("C07", "CG returns the best iterate and its true relative residual",
 "For any symmetric linear operator and nonzero right-hand side, plain and diagonally preconditioned CG return an x whose reported residual equals ||b-Ax||/||b||, never larger than that of the starting x and the smallest over all iterates visited; each step moves along the conjugate direction with the exact line-minimising length. They stop at the first iterate below tol or after max_iter iterations (reported count never exceeds max_iter), and leave b, the preconditioner and everything but x, the work arrays and the result record untouched.",
 ["inputs"], "all sizes, operators, right-hand sides, starting points, tolerances, iteration limits, preconditioners",
 "tests solve a few well-conditioned systems to convergence, where best and last iterate coincide and residual bookkeeping errors vanish",
 ["src/cgsolve.c"],
 [("residual recurrence r -= alpha*q", "src/cgsolve.c"), ("best iterate bookkeeping", "src/cgsolve.c"), ("warm start r = b - A x", "src/cgsolve.c")],
 observe=["x", "cg_result.cgres, cg_result.cgiter"])

prop("C08", "Dense-matrix transform set is A, its adjoint and its normal operator",
 "After setting up transforms for an n by m row-major matrix, forward gives A*x, adjoint gives A'*y, the normal operator gives A'*(A*x), sampling operators equal A and A', the dictionary operators are the identity on m-vectors, for all n,m>=1 in either order (n<m, n=m, n>m). Inputs and the matrix are never modified and results do not depend on earlier calls; reported dimensions match.",
 ["inputs", "histories"], "all shapes, matrices, vectors and call histories",
 "tests use one shape with n<m; a work array sized for that order or a swapped dimension is invisible there",
 ["src/matrix_transforms.c"],
 [("cblas_dgemv wrappers", "src/matrix_transforms.c"), ("work array of length max(n,m)", "src/matrix_transforms.c"), ("field population", "src/matrix_transforms.c")],
 state=[("xfm_dwork, xfm_A, xfm_N, xfm_M", "current matrix transform", "src/matrix_transforms.c")],
 observe=["output vectors", "ax_funs fields"])

prop("C09", "1-D DCT set: A=E*M, exact adjoints, inputs preserved, history-free",
 "With a set of distinct in-range sample indices, synthesis M is the orthonormally scaled inverse DCT (first coefficient weighted sqrt(2), all by sqrt(1/2m)), M' its transpose, E selects the sampled entries, E' scatters them into zeros, A=E*M, A'=M'*E', and the normal operator equals A'A. Each call leaves its input vector as it was (at the latest on return) and gives a result that depends only on that input, not on earlier calls through the same transform set.",
 ["inputs", "histories"], "all sizes, index sets, vectors, and every sequence of operator calls between setup and destroy",
 "the C unit tests for this set do not run here (they need SciPy data); the Python/Octave end-to-end runs exercise one call order and one size",
 ["src/dct1.c"],
 [("scaling of coefficient 0 before/after the FFTW call", "src/dct1.c"), ("scatter buffer that stays zero off the mask", "src/dct1.c:dct_Ety_sparse")],
 state=[("dct_Ety_sparse", "scatter buffer; zero off the sample set between calls", "src/dct1.c"), ("dct_x, dct_y", "scratch", "src/dct1.c")],
 observe=["output vectors", "input vectors after the call"])

prop("C10", "2-D DCT set: A=E*M, exact adjoints, inputs preserved, history-free",
 "As for the 1-D set but for an mrow by mcol image: M is the separable orthonormal inverse 2-D DCT (first row and first column weighted sqrt(2), corner 2, all by sqrt(1/(4*mrow*mcol))), M' its transpose, E/E' sampling and scattering, A=E*M, A'=M'*E', normal operator A'A. It must hold for every non-square shape, leave inputs unchanged and not depend on previous calls.",
 ["inputs", "histories"], "all mrow,mcol>=2, index sets, images, call histories",
 "the C unit tests for this set do not run here; end-to-end tests use square or single shapes where row/column mix-ups cancel",
 ["src/dct2.c"],
 [("first row/column scaling with strided dscal", "src/dct2.c"), ("scatter buffer", "src/dct2.c:dct2_Ety_sparse")],
 state=[("dct2_Ety_sparse", "scatter buffer; zero off the sample set between calls", "src/dct2.c")],
 observe=["output vectors", "input vectors after the call"])

prop("C11", "Transform set-up validates its arguments and fills a consistent operator table",
 "Set-up rejects non-positive dimensions, dimensions whose product (times the number of blocks of the DCT+TV dictionary) does not fit an int, negative TV weights, TV on images with a side of 2 or less, and any sample index outside [0, total pixels) with the invalid-argument status before touching any transform or the table; valid arguments are never rejected that way. Otherwise it dispatches to the 1-D set exactly when a side is 1 or 1-D mode was asked for, else to the 2-D set, for the given sizes and samples. On success every operator entry a caller may use is set to the matching operator with dimensions n (measurements), m, p, q consistent with it, and the reported dictionary norm is 1 for the DCT sets and synthesis mode and the upper bound sqrt(1+4av^2+4ah^2) for the analysis DCT+TV dictionary (0, i.e. not provided, for the dense-matrix set).",
 ["inputs", "configurations"], "all dimension/weight/mode combinations and all index arrays",
 "tests probe a handful of invalid calls; index checks for late positions, boundary indices and mode/shape combinations are not enumerated",
 ["src/dct_transforms.c", "src/dct_tv_transforms.c", "src/dct1.c", "src/dct2.c", "src/matrix_transforms.c"],
 [("check_pix_idx", "src/dct_transforms.c, src/dct_tv_transforms.c"), ("dispatch", "src/dct_transforms.c:l1c_setup_dct_transforms"), ("norm_W", "src/dct_tv_transforms.c")],
 observe=["return status", "ax_funs fields"])

prop("C12", "DCT+TV dictionary: W=[M, av*Dy, ah*Dx], W' its adjoint, modes wired correctly",
 "With vertical/horizontal TV weights av, ah (each block present exactly when its weight is positive) the dictionary operator maps stacked coefficients [v0;v1;v2] to M*v0 + av*Dy*v1 + ah*Dx*v2 and its transpose maps an image to the stacked [M'x; av*Dy'x; ah*Dx'x]. In analysis mode A is the sampling operator and M the identity; in synthesis mode A = sampling after W, A' = W' after scattering, and M is W. Inputs are not modified and results do not depend on earlier calls.",
 ["inputs", "configurations", "histories"], "all image shapes, all four zero/nonzero weight combinations, both modes, all vectors",
 "the C tests for this set do not run here; the end-to-end tests use one weight combination and mode",
 ["src/dct_tv_transforms.c"],
 [("block offsets _inc_TVV, _inc_TVH and job flags", "src/dct_tv_transforms.c"), ("Wv, Wtx, Av, Aty", "src/dct_tv_transforms.c")],
 state=[("_inc_TVV, _inc_TVH, jobs, _p", "layout of the stacked coefficients", "src/dct_tv_transforms.c")],
 observe=["output vectors", "ax_funs fields"])

prop("C13", "NESTA smoothing, projection and continuation schedule are the documented ones",
 "The smoothed objective is the Huber value sum(h_mu(W'x)) with gradient W*u, u=W'x/max(mu,|W'x|). The projection step returns the minimiser of <g,v> + (L/2mu)||v-x||^2 over ||Av-b||<=sigma when AA'=I; in particular it is feasible. Set-up starts from A'b with mu0=0.9*max|W'A'b| over all dictionary coefficients and geometric factors that reach the requested mu and tolerance after the requested number of continuation steps, and rejects an incomplete operator table.",
 ["inputs", "configurations"], "all sizes (p>=m), vectors, operators with AA'=I, mu, sigma, L, n_continue",
 "the tests for projection and functional need data that is not available here; only one end-to-end run is compared to a tolerance",
 ["src/nesta.c"],
 [("l1c_nesta_feval", "src/nesta.c"), ("l1c_nesta_project closed form", "src/nesta.c"), ("l1c_nesta_setup", "src/nesta.c")],
 observe=["NP->fx, NP->gradf, vk, NP->mu_j, *beta_mu"])

prop("C14", "NESTA returns a feasible point after the documented number of continuations",
 "When AA'=I, mu,sigma>0 and at least one continuation step is requested, the returned x satisfies ||Ax-b||<=sigma; each inner step combines the two projections with weights tau and 1-tau, tau=2/(k+3), gradient weights (k+1)/2, and each continuation multiplies mu and tolerance by their factors, restarts the gradient sum and the averaging window, and ends when |f-fbar|/fbar, fbar the mean of the (at most) ten previous values of this continuation, is below the current tolerance. b is not modified, mismatched dimensions are rejected and nothing is printed unless asked.",
 ["inputs", "histories"], "all problems with AA'=I, all option values, all convergence histories",
 "one end-to-end run compares a reconstruction to a tolerance; feasibility and the stopping window are not checked",
 ["src/nesta.c"],
 [("main iteration", "src/nesta.c:l1c_nesta"), ("ring buffer of ten values", "src/nesta.c:_l1c_push_fmeans_fifo, _l1c_mean_fmean_fifo")],
 observe=["xk on return", "return status"])

prop("C15", "Barrier functional, gradient, Hessian and Newton step of the l1 solver agree",
 "The evaluated functional is sum(u) - (1/tau)*[sum log(u-x) + sum log(u+x) + log((eps^2-||Ax-b||^2)/2)], with residual and constraint values stored to match; the gradient is its exact derivative in x and u, the reduced Hessian operator is its exact second derivative with the u-block eliminated, and the right-hand side and back-substitution give (dx,du) solving the full Newton system whenever the inner linear solve is exact. A linear solve with relative residual above 1/2 is reported as failure.",
 ["inputs"], "all sizes, operators, strictly feasible (x,u), tau, eps",
 "the unit tests for these pieces need data that is not available here; only end-to-end reconstructions run",
 ["src/l1qc_newton.c"],
 [("_l1c_l1qc_f_eval", "src/l1qc_newton.c"), ("_l1c_l1qc_hess_grad, _l1c_l1qc_H11pfun, _l1c_l1qc_descent_dir", "src/l1qc_newton.c")],
 observe=["problem record fields", "return values"])

prop("C16", "The l1 solver keeps its iterates strictly inside the constraints",
 "The maximal step returned for a strictly feasible (x,u) and any direction is in (0,0.99] and every step up to it keeps |x|<u element-wise and ||Ax-b||<eps strictly; for every nonzero start the initial u is 0.95|x|+0.1*max|x|, strictly above |x|, and tau starts at max((2m+1)/||x||_1, 1). A start with ||Ax-b||>eps is rejected with the infeasible-start status and x unchanged; from a start with ||Ax-b||<eps the solver returns status 0 and a point with ||Ax-b||<eps, whatever the line searches and linear solves do. The reported l1 is ||x||_1 of the x returned, b is not modified, and x is not touched when memory is exhausted.",
 ["inputs", "histories"], "all problems with measurements n<=m, nonzero starts, directions, parameter values (mu>1, eps,lbtol>0), line-search/CG outcomes",
 "end-to-end runs never meet the zero direction, a complex root, a tie at the boundary or a line-search failure mid-way",
 ["src/l1qc_newton.c"],
 [("_l1c_l1qc_find_max_step", "src/l1qc_newton.c"), ("_l1c_l1qc_newton_init, _l1c_l1qc_check_feasible_start", "src/l1qc_newton.c"), ("l1c_l1qc_newton loops", "src/l1qc_newton.c")],
 observe=["x on return", "lb_res", "step"])

prop("C17", "No out-of-bounds access, misaligned use, null dereference or index overflow",
 "For all valid arguments (sizes whose products fit the index type, arrays of the documented lengths and alignment) no library routine reads or writes outside the arrays it was given or allocated, uses memory it has not initialised as an index or branch condition, passes a misaligned or overlapping array to a routine that assumes otherwise, dereferences a null pointer or overflows index arithmetic.",
 ["inputs", "configurations"], "all valid sizes, shapes, modes and contents",
 "tests run a few sizes without instrumentation; an out-of-bounds element at another shape goes unnoticed",
 ["src/*.c", "src/vcl/vcl_math.cpp"],
 [("loop bounds and index expressions", "src/*.c"), ("allocation sizes", "src/*.c"), ("64-byte aligned allocation", "src/l1c_memory.c")],
 observe=["memory accesses"])

prop("C18", "Every allocation failure is reported and everything acquired is released once",
 "Whichever allocation or plan creation fails, in whatever combination, each routine that allocates returns the documented failure indication (null, or the out-of-memory / transform-initialisation status), having released exactly once everything it had acquired and nothing else, and without touching released or never-acquired memory. On success what is not handed to the caller is released exactly once too, and the matching destroy/free routine releases the rest.",
 ["fault_sequences", "inputs"], "every subset of failing allocations / plan creations in every allocating routine",
 "the tests never make an allocation fail",
 ["src/l1c_memory.c", "src/bregman.c", "src/nesta.c", "src/l1qc_newton.c", "src/l1qc_dct.c", "src/dct1.c", "src/dct2.c", "src/dct_tv_transforms.c", "src/matrix_transforms.c", "src/json_utils.c"],
 [("goto-cleanup paths", "src/*.c"), ("l1c_free_double_2D, l1c_free_nesta_problem, _l1c_l1qcProb_delete, destroy functions", "src/*.c")],
 observe=["return value", "set of live allocations"])

prop("C19", "Multithreaded loops give the sequential result under every schedule",
 "In every loop that runs in parallel, no two iterations write the same memory, no iteration reads what another writes, and every temporary is private to its iteration and set before use (or is a declared reduction), so the result is that of sequential execution for any number of threads and any interleaving.",
 ["schedules"], "all thread counts and interleavings, all sizes",
 "a race only shows under particular interleavings; the tests run once and small loops are executed by few threads",
 ["src/l1c_math.c", "src/TV.c", "src/bregman.c", "src/l1qc_newton.c"],
 [("omp parallel for with private/reduction clauses", "src/*.c"), ("one output element or row per iteration", "src/*.c")],
 observe=["output arrays"])

prop("C20", "JSON readers return exactly the stored data or a nonzero status",
 "Reading a file and extracting an int, double, int array or double array by name returns 0 with exactly the stored value(s) and element count in order, or a nonzero status when the file is missing, unreadable or not JSON, the document is absent, the name is absent or has the wrong type, or memory is exhausted; the array readers then also report length 0 when the name is absent or not an array. Nothing is leaked on failure, files are only read and always closed, and the document is not modified.",
 ["inputs", "fault_sequences"], "all documents, names, types, array lengths; every failing library call",
 "tests read well-formed files only",
 ["src/json_utils.c"],
 [("load_file_as_text, load_file_to_json", "src/json_utils.c"), ("extract_json_*", "src/json_utils.c")],
 observe=["return status", "output parameters"])

prop("C21", "One-call DCT solver: start, solve, map back, and report status faithfully",
 "The one-call solver builds the DCT transforms for the given samples, starts from A'b, runs the l1 solver on private copies, and on success writes M*eta (the image) to the output with status 0; transform set-up failure (the DCT-initialisation status), memory exhaustion (the out-of-memory status) and solver failure (the solver's own status) each give their nonzero status without writing the output. The measurements and index array are never modified and everything it set up is torn down exactly once.",
 ["inputs", "fault_sequences"], "all inputs, every failing step",
 "only the successful path is run",
 ["src/l1qc_dct.c"],
 [("l1qc_dct control flow", "src/l1qc_dct.c")],
 observe=["x_out", "return status", "lb_res"])

prop("C22", "Python binding: faithful arguments and results, exceptions, no leaked references",
 "Each solver function of the Python module hands every keyword argument to the matching solver option (with its documented default when absent), runs the solver on private copies of the inputs, and returns a new double array of the image's shape holding exactly the image the solver computed (M times its result in synthesis mode), together with the solver's status or result dictionary. Wrong arguments (dimensions whose product does not fit an int included), exhausted memory, transform set-up failure and (where the function reports it that way) solver failure raise an exception and return no result. The caller's arrays are never modified, and whatever happens every temporary array, buffer and transform set is released exactly once and no reference is leaked or dropped twice.",
 ["inputs", "fault_sequences"], "all argument combinations and array contents; every failing step",
 "the Python tests call each function once on good input and look at the result only",
 ["interfaces/python/l1cPy.c"],
 [("_l1qc_dct, _breg_anistropic_TV, _nesta_dctTV", "interfaces/python/l1cPy.c"), ("fail/fail1/fail2 cleanup paths", "interfaces/python/l1cPy.c")],
 observe=["returned objects", "exceptions", "reference counts", "live allocations"])

prop("C23", "Matlab/Octave binding: faithful arguments and results, errors, nothing leaked",
 "Each mex function (l1qc_dct, breg_anistropic_TV, nesta_dctTV) raises an error, without calling the solver, for a wrong number of arguments or outputs, an argument of the wrong type or size (a sparse or complex image or vector and dimensions whose product does not fit an int included), a missing or wrong option field and a sample index outside the image; it raises an error for exhausted memory and for failed set-up. Otherwise it calls the solver once with every argument and option field in its documented place (indices made zero-based, the column-major image described with its rows and columns in the right order) on private aligned copies, and the output array has the documented size and holds exactly what the solver computed (M times its result in synthesis mode), with the documented status outputs. The caller's arrays are never modified, no value that was never written reaches an output, and on every path (errors included) each buffer and transform set the function made is released exactly once.",
 ["inputs", "fault_sequences"], "all argument types, sizes and contents; every failing step",
 "the mex tests run each function on good square input only, and only when Matlab or Octave is there",
 ["interfaces/mex"],
 [("mexFunction of l1qc_dct", "interfaces/mex/l1qc_dct_mex.c"), ("mexFunction of breg_anistropic_TV", "interfaces/mex/breg_anistropic_TV_mex.c"), ("mexFunction of nesta_dctTV", "interfaces/mex/nesta_dctTV_mex.c"), ("argument checks", "interfaces/mex/l1c_mex_utils.c")],
 observe=["output arrays", "errors raised", "arguments as the library receives them", "live allocations"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
