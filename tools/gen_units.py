#!/usr/bin/env python3
"""Source of units.json: which explorer programs decide which property, and how their evidence is to be read."""
import json
from pathlib import Path
V = Path(__file__).resolve().parent.parent
U = {}
COMMON = ["std::thread::hardware_concurrency() is answered by the harness (1 unless stated), so loops run in the calling thread; other core counts are explored by C22",
          "built at -O1 without -ffast-math; floating-point values compared to a double-precision reference within the stated tolerance"]
def prop(pid, units, technique, rule, note, assumptions=()):
    U[pid] = dict(units=[u if isinstance(u, dict) else dict(src=u, config="asan") for u in units], technique=technique, rule=rule, note=note, assumptions=COMMON + list(assumptions))

EX = "explicit enumeration of every case within bounds, run on the real code and compared with an independent reference model; each case in a crash-isolated worker under AddressSanitizer"
prop("C01", ["tensor_arith.cc"], "exhaustive bounded exploration of the implementation (all shape pairs x operators x aliasing patterns) against a reference model",
     "one case = operator x ordered pair of shapes (rank<=3, extent<=3; thorough: larger) x aliasing/value pattern (the scalar operand may be any element of the tensor itself); non-trivial = at least one comparison of result, operands or bystander copies was made; states = distinct (operator,result) observations",
     EX + ". Values come from fixed generic patterns (results are index-wise, so distinct generic entries expose any misplacement), not all doubles.")
prop("C02", ["gemm.cc"], "exhaustive bounded exploration of the implementation (all m,k,n, transpose flags, rank combinations, dirty buffers) against a reference model",
     "one case = (m,n,k) x entry point (gemm with 4 transpose settings, multiply, operator*, 1-D operands) x float/double x aliasing; non-trivial = at least one product compared; states = distinct results",
     EX + ". CUDA/BLAS back ends are not built in this configuration and are not covered.")
prop("C03", ["storage.cc"], "explicit-state model checking: breadth-first over all operation histories on tensor slots, real objects replayed against a shared-buffer model, canonical states hashed",
     "one case = one operation history (create/copy/deep-copy/assign/write/resize/reshape/reset/destroy/gc) over the slots; every step compares every slot with the model and checks that unrelated live tensors do not overlap; sizes bracketing every power of two up to 2^18 elements (thorough 2^20) and ranks up to 40 are checked for their initial values; states = distinct canonical model states",
     "every history up to depth 3 (quick) / 4 (thorough) over the alphabet; ASan sees every access, block recycling included. Single-threaded histories only.")
prop("C04", ["rearrange.cc"], "exhaustive bounded exploration of the implementation (all shapes, axes, counts) against index-arithmetic reference",
     "one case = operation x shape (rank<=4, extent<=3; thorough 4) looping over every axis/count/target shape; non-trivial = a rearranged tensor was compared; states = distinct results", EX + ".")
prop("C05", ["reduce.cc"], "exhaustive bounded exploration of the implementation (all shapes, axes, keepdims, value patterns; all value tuples on short rows) against definitional reference",
     "one case = shape x value pattern x axis x keepdims (or a full tuple over a 4-value alphabet); non-trivial = a statistic was compared; states = distinct results", EX + ". float and double.")
prop("C06", ["textio.cc"], "exhaustive enumeration of shapes, value patterns, tensor sequences and every losing truncation point, executed on the real reader/writer",
     "one case = shape x value pattern x element type x stream precision, a sequence of tensors in one stream, or one file with every cut that loses a value; non-trivial = a round trip or a rejection was checked; states = distinct tensors read back",
     EX + ". A cut inside the very last number cannot be told from a shorter number in this text format and is outside the property; non-finite values are outside it too.")
prop("C07", [dict(src="lzw.cc", config="plain", case_timeout=240)], "exhaustive enumeration of inputs and of every truncation point, executed on the real codec, round-trip oracle",
     "one case = one byte string (all strings up to a length over three small alphabets, all byte pairs, every prefix length of six structured families, lengths bracketing every code-width change and the dictionary restart) or one string with every truncation of its compressed form; non-trivial = a round trip or a rejection was checked; states = distinct compressed streams",
     "the codec is run on every enumerated string and every cut; long strings (beyond about 1300 bytes quick / 9000 thorough) only at lengths around width changes and restarts. An abort or a non-zero status counts as 'reported'.")
prop("C08", ["session_io.cc"], "explicit-state search over save/modify/restore histories plus enumeration of every crash point, torn write and truncation, on the real session code against a snapshot model",
     "one case = a history of writes/saves/restores (every transition from every model state within the depth), a save in one process and a restore in another, all truncations of one file, or all crash points (write call x torn prefix) of a save or a restore; non-trivial = restored variables or a rejection were checked; states = distinct (variables, files) model states and crash outcomes",
     EX + ". Crashes are process deaths at a write() call with a prefix of its bytes done (writes reach the file in order; power loss with reordered sectors is not modelled). An abort counts as a rejection.")
def elem(what):
    return [dict(src="elementwise.cc", config="asan", flags=["-DWHAT=%d" % what, "-DGROUP=%d" % g, "-DVT=%s" % v], shards=4) for g in (1, 2, 4) for v in ("double", "float")]
prop("C09", elem(1), "exhaustive bounded exploration of the implementation (all operators x value grid x shapes x leaf kinds) against a reference model",
     "one case = operator x element type x (one value, a whole value grid, or shape x value window) x kind of leaf (variable, placeholder, constant); non-trivial = value and unchanged inputs compared; states = distinct results",
     EX + ". Values come from a grid over each operator's domain (kinks and both signs included) and over every decimal magnitude (1e-290 to 1e290 in double, 1e-30 to 1e30 in float, judged by relative accuracy), not all doubles; float against a double reference with tolerance 3e-5.")
prop("C10", elem(2), "exhaustive bounded exploration of the implementation (all operators x value grid x shapes) against analytic derivatives",
     "one case = operator x element type x (value, grid, or shape x window); the gradient at every operand, the upstream gradient and the forward results are compared; non-trivial = a gradient compared; states = distinct gradients",
     EX + ". Operands of every decimal magnitude are included. Kinks are left out; the reciprocal is differentiated at |x| >= 1e-4 (its slope is capped nearer zero); rounding operators pass gradients straight through by design.")
def vt(src, what, shards=4, extra=()):
    return [dict(src=src, config="asan", flags=["-DWHAT=%d" % what, "-DVT=%s" % v, *extra], shards=shards) for v in ("double", "float")]
prop("C11", vt("structural.cc", 3), "exhaustive bounded exploration of the implementation (all structural operators x parameters x shapes x leaf kinds) against a reference model and its exact adjoint",
     "one case = operator with its parameters x shape (all up to rank 3, extent 3; thorough 4; larger ones listed) x values (or every tuple over a 4-value alphabet for extrema) x kind of leaves; output, inputs, gradients and a second run compared; non-trivial = a comparison was made; states = distinct outputs and gradients",
     EX + ". The structural operators are linear (extrema and softmax piecewise/smooth), so generic values expose any misplacement.", ["flip is defined for at most four dimensions (the library asserts it)"])
prop("C12", vt("conv.cc", 3), "exhaustive bounded exploration of the implementation (all extents x kernels x strides x dilations x paddings along both axes, batch and channel counts) against a window-definition reference and its exact adjoint",
     "one case = operator with its parameters x image (and kernel) shape x values x kind of leaves; every pair of per-axis configurations (extent 1-5, kernel 1-3, stride 1-3, dilation 1-2; thorough: larger) for convolution; output, inputs, both gradients and a second run compared; non-trivial = a comparison was made; states = distinct outputs and gradients",
     EX + ". Convolutions are bilinear, padding/pooling/cropping linear (max pooling piecewise), so generic values expose any misplacement; windows of max pooling also get every tuple over a 4-value alphabet.",
     ["'same' padding pads (total + (k odd))/2 on both sides as the library does; conv2d asserts an even total, such settings are left out", "transposed convolution without dilation; 'same' for odd kernels; its 'valid' extent is in*stride+kernel-1 (trailing zeros past the last window for strides above 1)"])
prop("C13", [dict(u, quick_flags=["-O0"]) for u in elem(4)[::2] + vt("structural.cc", 4)[:1] + vt("conv.cc", 4)[:1] + vt("losses.cc", 4, 8)[:1] + [dict(src="shape.cc", config="asan", flags=["-DGROUP=%d" % g], shards=2) for g in (1, 2, 3, 4, 5)]],
     "exhaustive bounded exploration: declared shape compared with the produced shape for every operator, parameter, operand shape, and pair of chained operators, before binding, after binding and after evaluation",
     "one case = operator x parameters x operand shapes (or placeholder hint x batch sizes, or first operator of a chain followed by every applicable second one); non-trivial = declared and produced shapes compared; states = distinct outputs",
     EX + ". Placeholders with an unspecified shape are not considered before binding.")
prop("C14", [dict(src="graph.cc", config="asan", flags=["-DALPHA=%d" % a]) for a in (1, 2)], "explicit enumeration of all expression graphs (straight-line programs with every sharing pattern) up to a node bound, executed on the real code against reverse-mode reference differentiation",
     "one case = a program prefix with every possible last node (matrix alphabet of 19 operators to 2 nodes and of 9 to 3, image alphabet of 12 to 3; thorough: 3 and 4 nodes); for each graph the value, all gradients, the same after evaluating another expression that shares its nodes, and the sum after differentiating both; non-trivial = a graph using all its nodes was compared; states = distinct values",
     EX + ". Operators are made by shared makers (one functor used for many nodes). Graphs whose nodes sit on a kink are compared in value only; mean_reduce is left out (known finding of C11).")
prop("C15", [dict(src="history.cc", config="asan", flags=["-DGROUP=%d" % g]) for g in (1, 2, 3, 4, 5, 6)] + [dict(src="pairs.cc", config="asan", flags=["-DGROUP=%d" % g], quick_flags=["-O0"]) for g in (1, 2, 3)], "explicit-state exploration of every bind/write/evaluate/infer/differentiate history up to a depth, per operator, each evaluation compared with a freshly built expression's reference value",
     "one case = an operator (or small graph) with a history over {bind batch 1/2/3, rewrite a variable, evaluate, infer, back-propagate}; every evaluation is compared with the reference for the current bindings; or an operator used twice (two expressions made alike, one functor applied to two operands, or the operator applied to its own result) with every interleaving of three (thorough: four) evaluations, differentiations and sums of the two; non-trivial = an evaluation was compared; states = distinct (bindings, values, results)",
     EX + ". Convolutions take their spatial extent from declared shapes, so only their batch size and values vary. A result is read before the next evaluation (results may alias the operator's buffer by design).")
prop("C16", [dict(src="variable.cc", config="asan")], "explicit-state exploration of every history of evaluations, back-propagations, writes, resets and trainable switches up to a depth over two variables, their copies and four expressions, replayed on the real code against a model of the shared state",
     "one case = a history prefix with all two-step continuations; after every step data, gradient, trainable flag and optimizer-state count of each variable, its copy and the session's copy are compared; non-trivial = a comparison was made; states = distinct model states",
     EX + ". Histories up to 4 steps (quick) / 5 (thorough) over 18 actions and two configurations of regularisers and flags.", ["distinct variables are built from distinct tensors (tensors share storage when copied)"])
prop("C17", vt("optimizers.cc", 0, 8), "explicit-state exploration of every history of training steps, accumulations, freezes, evaluations and writes up to a depth, for every optimizer and hyper-parameter setting, replayed on the real code against the update rules",
     "one case = optimizer x hyper-parameters x the first two of a history's steps with every continuation (depth 4; thorough 5), every sequence of 7 (thorough 10) gradients in other shapes and through the maker functions, or every interleaving of two optimizers; all variables, gradients and flags compared after each step; non-trivial = a variable compared; states = distinct variable values",
     EX + ". One optimizer per variable (optimizer state lives in the variable); gradients from a four-vector alphabet including zeros and 300.", ["amsgrad is not implemented by the library (marked TODO there)"])
prop("C18", vt("losses.cc", 3, 8), "exhaustive bounded exploration of the implementation (all losses x ways of calling x all small value tuples x shapes, and all evaluation histories up to a depth) against definitional reference and analytic derivative",
     "one case = loss x {function on placeholder, constant or variable ground truth, maker} x (ground-truth tuple with every prediction tuple over per-loss alphabets, a shape, or a history of evaluations/differentiations with changing batches); value, gradient of the prediction, untouched operands compared; non-trivial = a value compared; states = distinct values and gradients",
     EX + ". The derivative is not compared on kinks. Two known findings on gradient scaling are matched exactly (right value times the stated factor).", ["cross entropy with labels: one hot entry per row, at least two classes, at least two dimensions", "the gradient of the ground truth is outside the property"])
prop("C19", vt("phase.cc", 0, 8), "explicit-state exploration of every history of training/inference evaluations and differentiations up to a depth, with the random source scripted so that every dropout mask and every shift is enumerated, against a model of the running statistics",
     "one case = a history prefix over {train with all dropped / all kept / mixed mask, infer, differentiate} x batch sizes for dropout, over {train, differentiate, infer, train a sibling} x batch sizes for normalisation (5 configurations), 64 scripts of shifts for sliding, or two inputs through one functor or two (every interleaving of 5, thorough 6, steps over train, infer, differentiate, sum of both); non-trivial = outputs or gradients compared; states = distinct outputs",
     EX + ". The engine type std::mt19937 is replaced (by a macro before inclusion) by a scripted engine; the standard distributions run unchanged on its answers. The dropout rate is additionally measured on one fixed 16384-element run.", ["normalisation is differentiated in the learning phase only; channels of zero variance are not differentiated"])
prop("C20", [dict(src="layers.cc", config="asan", flags=["-DGROUP=%d" % g], shards=8) for g in (1, 2, 3, 4)], "exhaustive bounded exploration of the implementation (all layer option combinations, all chains of layers up to a depth) against reference functions with reverse-mode differentiation",
     "one case = a layer with its options x input shape x kind of input, run twice, with another batch size and other parameters, and trained by one step; a chain of up to 3 (thorough 4) layers built from an Input, or one layer object applied to two inputs (each with its own parameters; every interleaving of 4, thorough 5, evaluations and updates); parameters created (shape, initial value, trainable), value, gradients with regularisation compared; non-trivial = a comparison was made; states = distinct values and gradients",
     EX + ". Parameters are recognised by role (initial value and shape) and then given generic values.", ["a layer without bias may hold a zero parameter that is never trained", "chains with nearly constant normalised channels are not compared, kinks not differentiated"])
prop("C21", [dict(src="model.cc", config="asan", flags=["-DNET=%d" % g], shards=8) for g in (1, 2, 3)], "explicit-state exploration of every history of model calls (predict, train, evaluate, fit, freeze, thaw, save, load) up to a depth, replayed on the real compiled model and compared with a twin network driven by the primitive steps",
     "one case = network with loss and optimizer x the first two of 12 actions with every continuation (depth 3; thorough 4); or one fit with samples x batch size x epochs x split; or a composition of two models against its parts and against the network written out; every reported number, every prediction (also read again at the end) and every weight after every step compared; non-trivial = a comparison was made; states = distinct results",
     EX + ". Five networks (dense, bare, dropout, normalisation, convolution) with three optimizers and two losses.", ["samples that do not fill a batch are left out of fit and evaluate, as the library documents by its loop", "an average over no batch at all is not compared", "each model is applied to one expression at a time"])
prop("C22", [dict(src="parallel.cc", config="tsi", shards=8, case_timeout=20)] + [dict(src="parallel_ops.cc", config="tsi", flags=["-DGROUP=%d" % g], shards=4) for g in (1, 2, 3)], "stateless model checking of the real loops under a controlled scheduler (all interleavings of small loops, delay-bounded for larger ones), with happens-before conflict detection over every memory access (dynamic partial-order reduction: a conflict-free execution stands for all its interleavings)",
     "one case = index type x cores x range x threshold with every schedule in the bound (all schedules when workers*length <= 13; otherwise up to 3, 2 or 1 delays, thorough 4 to 2), every index begun and finished exactly once when the loop returns, no worker left, no conflicting access; or an operator, tensor operation, loss, optimizer, training-phase operator on tensors of more than 8 elements x 7 (thorough 13) core counts x 3 orders of execution, result equal to the definition or to the single-core result and no conflicting access; non-trivial = a result compared; states = distinct orders of (index, worker), or patterns of created workers",
     EX + ". std::thread start/join and hardware_concurrency are replaced at link time by fibers; the code is compiled with thread-sanitizer instrumentation and linked against our own runtime (harness/tsi_runtime.cpp).", ["functions given to the loops do not throw", "workers synchronise by start, join and atomics only (no mutex)"])
prop("C23", [dict(src="complex.cc", config="plain", flags=["-DGROUP=%d" % g], shards=2) for g in range(1, 9)], "exhaustive bounded exploration of the implementation (all programs of one complex operation, and a family of two and three, over all operand shapes and sign patterns) against complex arithmetic with numeric differentiation",
     "one case = part {real, imag, abs, norm, arg, product and sum of both parts} of a program over two complex operands and a real one (19 programs of one operation, 23 of more, with shared operands) x shapes x {generic, three sign patterns with variables, placeholders, constants}; value and gradients compared twice, values again with zeros; non-trivial = a comparison was made; states = distinct values and gradients",
     EX + ". Multiplication of complex expressions is matrix multiplication, as it is for the real expressions of the library.", ["no derivative is compared where the modulus is below 0.01 (abs and arg are not differentiable at zero)"])
prop("C24", [dict(src="codegen.cc", config="plain", flags=["-O0", "-DPART=%d" % g], shards=4, case_timeout=600) for g in range(4)] + [dict(src="dump.cc", config="plain", flags=["-O0", "-DGROUP=%d" % g], shards=1) for g in (1, 2, 3)] + [dict(src="dump.cc", config="plain", flags=["-O0", "-DGROUP=%d" % g], shards=2, thorough_only=True) for g in (4, 6)], "exhaustive bounded exploration of the implementation: every operator, activation, loss, layer and leaf has its generated code compiled against the library and run against the original expression; every expression graph up to a node bound (all sharing patterns) has its generated code interpreted and its dump parsed",
     "one case = a program (about 240: each public operator with its arguments, loss, layer, leaf kind, composition with shared operands) whose generated code is compiled, run and compared in shape, value and gradients; or a graph of up to 3 (thorough 4 more families) operators over variables, place holders, constants and values: unique ids, definitions before uses, one statement per node, value of the interpreted code, nodes, edges and labels of the dump; non-trivial = a comparison was made; states = distinct programs",
     EX + ". Generated programs are compiled with the installed g++ and the headers of the tree under check.", ["running statistics of normalisation are not part of the generated code; random operators are compared by shape", "tensor elements that are not finite are outside the text format", "shapes of unspecified place holders are not compared"])
prop("C25", [dict(src="random.cc", config="asan", flags=["-DVT=%s" % t], shards=4) for t in ("float", "double")], "stateless exploration of the real generators under a scripted random source: every sequence of answers over a grid of extreme and inner values, for every function, parameter and shape in bounds",
     "one case = function x parameters x shape with all sequences of answers of the source (or a sweep of seeds for reproducibility); shape, support, per-element value of the standard distribution, reproducibility compared; non-trivial = a tensor compared; states = distinct tensors",
     EX + ". The engine type std::mt19937 is replaced (by a macro before inclusion) by a scripted engine; the standard distributions run unchanged on its answers.")
prop("C26", [dict(src="util.cc", config="plain" if g == 3 else "asan", flags=["-DGROUP=%d" % g], shards=4) for g in (1, 2, 3, 4)], "exhaustive bounded exploration of the implementation: every length, stride, extent, literal over an alphabet, pattern over an alphabet against every name, tree pattern, and every history of container operations up to a depth, against direct definitions",
     "one case = a range, container, stride or view with its extents; a text over an alphabet up to a length; a pattern family with every name (or a tree pattern from three working directories); or a container history prefix with every continuation; non-trivial = a comparison made; states = distinct results",
     EX + ". The file patterns work on files the explorer creates and removes in its scratch directory.", ["ranges whose last step would leave the type are left out", "hidden entries are never listed by a pattern"])
prop("C27", [dict(src="dataset.cc", config="asan", shards=4)], "exhaustive bounded exploration of the implementation: all pairs of small record counts, every truncation point and absence of each file (crash-point enumeration), every label value, against the file format",
     "one case = a pair of record counts, a range of truncation points of one of the four files, a missing file, all 256 label values at a position; every pixel and label compared, damaged sets must be refused; non-trivial = a comparison made; states = distinct files",
     EX + ". Both readers (MNIST and Fashion-MNIST); files are generated in the explorer's scratch directory.", ["files with too many bytes are outside the property"])
prop("C28", [dict(src="image.cc", config="asan", shards=4)], "exhaustive bounded exploration of the implementation: every small size, channel count and format written and read back, every truncation point of a file, every pair of sizes for resizing",
     "one case = a format and size with all channel counts and 6 contents; a type and size of a scaled image; file names with several dots and dotted directories; all truncation points of a file; a size with every size to resize to; non-trivial = a comparison made; states = distinct images",
     EX + ". Sizes up to 6 (thorough 9).", ["transparency is not kept by the bitmap format", "images of two channels are refused by the library"])
(V/"units.json").write_text(json.dumps(U, indent=1) + "\n")
