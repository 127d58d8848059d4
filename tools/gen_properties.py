#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long texts stay editable)."""
import json
from pathlib import Path
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=None)))
T="include/tensor.tcc"; TH="include/tensor.hpp"; OP="include/operation.hpp"; AC="include/activation.hpp"; S="include/session.hpp"

p("C01","Tensor arithmetic with broadcasting is exact and never changes its operands",
 "For every pair of tensors whose shapes broadcast together (numpy rules; equal shapes for element-wise division), +, -, element-wise product and element-wise division, and every tensor/scalar combination of + - * /, negation and abs, give the element-wise result with the broadcast shape. No operand, and no other tensor sharing storage with an operand, changes, and the result shares storage with neither operand. The compound assignments change their left operand only.",
 ["inputs"],"all broadcastable shape pairs and values, operands aliased or not",
 "tests print sums of a few random tensors; nothing checks the operands afterwards, and no test enumerates broadcast patterns (the library's own tensor_add test fails at the pinned commit)",
 [T,TH],[("broadcast_shape/broadcast_tensor","include/tensor.tcc"),("add, minus, elementwise_product, elementwise_divide, operator overloads","include/tensor.tcc"),("compound assignment","include/tensor.hpp")],["tensor operators"])
p("C02","Matrix multiplication is exact for every shape and transposition, and pure",
 "For every pair of conforming matrices the product equals the textbook sum of products; a one-dimensional left factor acts as a row and a one-dimensional right factor as a column. Both factors are left unchanged, whatever they share storage with, and the low-level product honours each of its four transposition settings and overwrites whatever its output buffer held before.",
 ["inputs"],"all matrix sizes, transpose flags, 1-D/2-D operand combinations, prior contents of the output",
 "the gemm test compares a handful of sizes and does not exercise 1-D operands, aliasing or a dirty output buffer",
 [T,"include/backend/cblas.hpp"],[("gemm, gemm_cpu, multiply, operator *",T)],["gemm","multiply","operator *"])
p("C03","Copies of a tensor share data, deep copies do not, and live tensors never overlap",
 "After every sequence of creating, copying, deep-copying, writing, resizing, reshaping, re-initialising and destroying tensors, each tensor reads what a reference model of shared buffers predicts: plain copies see each other's writes, deep copies never do. Two tensors that are not copies of one another never occupy the same memory, however often memory is released and reused. A newly created tensor holds zeros or its stated initial value.",
 ["histories"],"all operation sequences over a few tensor variables, including memory reuse after release",
 "tests create tensors once; recycling of released blocks, resizing through an alias and destruction order need histories",
 [TH,"include/utils/cached_allocator.hpp","include/utils/vector.hpp","include/utils/buffered_allocator.hpp"],[("shared vector storage",TH),("block cache","include/utils/cached_allocator.hpp"),("storage resize/assignment","include/utils/vector.hpp")],["tensor members"])
p("C04","Rearranging tensors moves every element to the right place",
 "Reshape (including an inferred last dimension), squeeze, flip, repeat, repmat, concatenate along any axis and broadcasting to a larger shape yield exactly the source elements at the documented positions with the documented shape, for every shape and axis. Operations returning a new arrangement leave the values and the shape of their source unchanged.",
 ["inputs"],"all shapes of rank 1-4, axes and repeat counts",
 "the tests print one example of each; only one shape and mostly the last axis is ever exercised",
 [T,TH],[("reshape, squeeze, flip, repeat, repmat, concatenate, broadcast_tensor",T)],["free functions on tensors"])
p("C05","Tensor reductions and statistics agree with their definitions",
 "Sum, mean, variance, standard deviation, maximum and minimum over any axis (with or without keeping it) and over all elements, softmax, clip, norm, linspace, NaN/Inf detection and scalar access give the mathematically defined value and shape for every tensor, including all-negative and single-element ones. Except for clip, which is documented to update in place, the source is unchanged.",
 ["inputs"],"all shapes, axes, keep-dimension settings and value sign patterns",
 "no test checks the numbers; value-sign and axis combinations are not enumerated",
 [T],[("reduce and its users; max/min/sum/mean/softmax/clip/linspace",T)],["free functions on tensors"])
p("C06","A tensor written as text is read back with the same shape and values",
 "For every tensor, writing it to a stream or file and reading it back gives the same shape and the same values up to the stream's precision (up to the precision of the element type for files), for any number of tensors following each other in one stream. A file that holds fewer values than its shape calls for is rejected rather than padded.",
 ["inputs","crash_points"],"all shapes and value magnitudes, sequences of tensors in a stream, every file cut after fewer than all values",
 "the IO test compares one random tensor (and fails at the pinned commit)",
 [T],[("write_tensor/read_tensor/save_tensor/load_tensor",T)],["save_tensor","load_tensor"])
p("C07","Compression is lossless, and truncated compressed data is never accepted silently",
 "Decompressing the compressed form of any byte string gives back exactly that byte string, including the empty string, every byte value, and inputs long enough to change the code width or to restart the dictionary. A compressed stream that was cut short anywhere is reported as corrupted rather than accepted.",
 ["inputs","crash_points"],"all byte strings up to a length over small alphabets, structured long strings across each width change, every truncation point",
 "no test calls the compressor directly; save/restore runs touch a single long text",
 ["include/utils/lzw.hpp"],[("compress/decompress, code width and dictionary reset logic","include/utils/lzw.hpp")],["compress","decompress"])
p("C08","Saved model state is restored exactly",
 "Saving a session and later restoring it, in the same or another run of the same program, gives every variable the value and shape it had when it was saved, whatever happened to the variables in between and however often this is repeated. An interrupted save or a truncated file is never restored as if it were complete, nor is a file holding variables the program lacks, and saving leaves the variables themselves unchanged.",
 ["histories","crash_points"],"all short histories of save/modify/restore over several variables and files, every truncation of the saved file",
 "the save/restore test only runs it once and compares nothing",
 [S,"include/utils/lzw.hpp","include/model.hpp"],[("session save/restore through the text format and compressor",S)],["session::save","session::restore"])
p("C09","Every element-wise operator computes its mathematical function",
 "Evaluating each unary or binary element-wise operator and activation of the expression language gives, element by element, the documented mathematical function of its inputs, for every input shape, sign and magnitude inside its domain. The values held by its inputs are unchanged by the evaluation.",
 ["inputs"],"all operators x shapes x input values in their domain, variable and placeholder inputs",
 "operator tests only print; no reference values, one shape each",
 [OP,AC,"include/constant.hpp","include/value.hpp"],[("forward actions of the unary and binary operators",OP),("activation functions",AC)],["session::run"])
p("C10","Every element-wise operator propagates its true derivative",
 "For each differentiable element-wise operator and activation, at every input away from its kinks and for every upstream gradient, the gradient arriving at each input equals the upstream gradient multiplied by the derivative of the computed function, summed over broadcast dimensions. Propagation neither changes the upstream gradient seen by other consumers nor the forward values.",
 ["inputs"],"all operators x shapes x inputs x upstream gradients, broadcast combinations",
 "no test checks a gradient; training tests only show a loss going down",
 [OP,AC],[("backward actions of the operators",OP),("activation derivatives",AC)],["variable::gradient"])
p("C11","Structural operators rearrange and reduce correctly in both directions",
 "Reshape, flatten, expand/squeeze, transpose, flip, repeat, concatenate, matrix product, sum/mean/min/max reductions along any axis, argmax/argmin and identity/assign give the defined output for every input shape and parameter. The gradient each input receives is the exact adjoint (transposed Jacobian) of that output.",
 ["inputs"],"all small shapes, axes and operator parameters",
 "tests print one example; axis, rank and batch combinations are not enumerated and gradients never checked",
 [OP],[("structural operators' forward and backward actions",OP)],["session::run","variable::gradient"])
p("C12","Convolution, pooling, padding, cropping and upsampling match their definitions",
 "For every kernel size, stride, dilation, padding mode, spatial size, channel count and batch size in their domain, convolution, max/average pooling, zero padding, cropping and upsampling give the sliding-window values of their definitions, and propagate exactly the adjoint gradient to the image and to the kernel. No access leaves the image, whatever the relation of image size, kernel and stride.",
 ["inputs","configurations"],"all small spatial configurations",
 "tests use one or two configurations (square images, stride dividing the size) and print the result",
 [OP],[("img2col, conv2d, pooling, padding, cropping, up-sampling",OP)],["session::run","variable::gradient"])
p("C13","The shape an expression declares is the shape it produces",
 "For every operator, parameter setting and input shape, the output shape reported for an expression before evaluation is the shape of the tensor the evaluation produces (batch size aside when the input batch is unspecified). Layer constructors derive their parameter shapes from it, so chained expressions stay consistent.",
 ["inputs","configurations"],"all operators x shapes x parameters",
 "no test compares the declared with the produced shape",
 [OP,AC,"include/layer.hpp","include/place_holder.hpp"],[("output shape calculators",OP)],["expression shape()"])
p("C14","Any expression graph evaluates and differentiates like the mathematical expression",
 "For every expression built from the operators, including sub-expressions and variables used several times, the evaluated value equals the mathematical value and the gradient of every trainable variable equals the exact total derivative. Evaluating or differentiating one expression does not disturb the values or gradients of another.",
 ["programs"],"all expression graphs up to a node bound, with every sharing pattern",
 "tests build chains; shared nodes and gradients of shared nodes are never checked",
 [OP,"include/variable.hpp",S],[("unary/binary operator forward caching and backward traversal",OP),("gradient accumulation","include/variable.hpp")],["session::run","optimizers","variable::gradient"])
p("C15","Evaluating an expression again reflects the current inputs and nothing else",
 "However often an expression was evaluated or differentiated before, with whatever inputs and batch sizes, its next evaluation equals that of a freshly built expression with the current bindings and variable values. A sub-expression occurring several times is evaluated once per run, so all its occurrences agree. Two expressions made by the same operator - even by one functor applied twice, or one inside the other - do not influence each other. Binding a placeholder again replaces the old value.",
 ["histories"],"all histories of bind/evaluate/differentiate with varying inputs and batch sizes, per operator",
 "tests evaluate once or with constant batch size; stale buffers need changing batches",
 [OP,S,"include/place_holder.hpp"],[("per-session forward cache",S),("per-operator cached buffers",OP)],["session::bind","session::run"])
p("C16","Variables accumulate, reset and regularise gradients exactly once",
 "Within one step a trainable variable's gradient is the sum of all contributions plus its regularisation terms once; starting the next training evaluation or resetting clears it. A variable that is not trainable receives no gradient and is never changed by training. All copies of a variable see the same value, gradient and optimizer state, while distinct variables share none of it.",
 ["histories"],"all short histories over shared and distinct variables, with regularisers and trainable flags",
 "no test observes variable gradients",
 ["include/variable.hpp"],[("shared variable state, regulariser","include/variable.hpp")],["variable"])
p("C17","Optimizers follow their update rules over every sequence of steps",
 "For every optimizer, every choice of its hyper-parameters and every sequence of gradients, each trainable variable after each step equals the value its update rule gives for the whole history: SGD with (Nesterov) momentum, Adagrad, RMSprop, Adadelta, Adam with bias correction, and plain gradient descent, with the learning rate divided by the batch size and decayed by 1/(1+decay*step) per step. (As coded, Adam takes two plain gradient steps before its rule sets in, RMSprop starts its average at the first squared gradient, and gradient descent has no momentum.) The step consumes the gradients, leaves frozen variables alone, and neither other variables nor an optimizer training other variables influence it.",
 ["histories"],"all gradient sequences up to a length over a small alphabet x hyper-parameters x variables",
 "optimizer tests only print a training loss",
 ["include/optimizer.hpp"],[("optimizer step functions","include/optimizer.hpp")],["session::run(optimizer)"])
p("C18","Losses equal their definitions and drive training with their true gradient",
 "Each loss gives the documented value for every pair of prediction and ground truth, and the gradient of the prediction is the derivative of that value. The loss is independent of evaluation history and leaves prediction and ground truth unchanged.",
 ["inputs"],"all small batches of predictions and targets",
 "tests print a loss or train; no values or gradients are compared",
 ["include/loss.hpp",OP],[("loss functions","include/loss.hpp")],["loss expressions"])
p("C19","Training-only behaviour is confined to the training phase",
 "Outside the learning phase dropout and random sliding are the identity (also for gradients), and batch normalisation applies the running statistics gathered in training without changing them (before any training it is the identity). In the learning phase each dropout run zeroes every element independently at the stated rate and divides the others by one minus the rate, sliding moves each channel by a random shift within its bound, and normalisation gives the standardised batch and updates its running average and variance (from zero) by its momentum. All gradients are the true derivatives of the evaluation made. This holds for every interleaving of training and inference evaluations and every change of batch size.",
 ["histories"],"all interleavings of training/inference evaluations up to a depth, with varying batches, and all answers of the random source over a grid",
 "tests run one phase only",
 [OP,"include/config.hpp","include/layer.hpp"],[("learning phase flag","include/config.hpp"),("dropout, batch normalisation, sliding",OP)],["session::run"])
p("C20","Layers compute the standard layer functions from their parameters",
 "Each layer, in every configuration of its options, computes the standard function (dense: activation of x*w+b; convolution; normalisation; pooling; merging; activation layers) of its input and its own parameters, creates exactly the parameters its options call for with the shapes that function needs, and trains only those declared trainable, with the requested regularisation; a layer object applied to several inputs creates parameters for each of them.",
 ["configurations","inputs"],"all layer option combinations over small inputs",
 "layer tests print shapes of single configurations",
 ["include/layer.hpp"],[("layer constructors","include/layer.hpp")],["layer functions"])
p("C21","Model training and prediction process the data they are given",
 "Prediction returns for each sample what the network computes for it in inference mode and changes no weight; one training step on a batch equals one optimizer step on that batch's loss; fitting visits the training batches in order the stated number of epochs and reports the averages of the losses; evaluation returns the mean loss without changing weights.",
 ["histories","inputs"],"all small data sizes, batch sizes, epochs and call sequences",
 "the model tests only run fit once and compare nothing",
 ["include/model.hpp"],[("model, compiled_model","include/model.hpp")],["model","compiled_model"])
p("C22","Parallel loops run every index exactly once and are free of races",
 "For every range length, thread count and interleaving of the worker threads, a parallel loop calls its function exactly once for each index and returns only when all calls have finished. The tensor operations and operators that use such loops never let two workers touch the same element with a write, so their results do not depend on scheduling or on the number of cores.",
 ["schedules"],"all interleavings of the worker threads, all range lengths and core counts in bounds",
 "tests see one schedule on one machine",
 ["include/utils/parallel.hpp","include/utils/for_each.hpp"],[("parallel, for_each","include/utils/parallel.hpp")],["for_each","parallel"])
p("C23","Complex-valued expressions obey complex arithmetic",
 "Real part, imaginary part, modulus, conjugate, argument, and sums, differences and products of complex expressions with each other and with real expressions equal the complex-number definitions for all inputs, and their gradients are the true derivatives.",
 ["inputs"],"all operator/operand combinations over all sign patterns and shapes",
 "the complex tests fail or only print at the pinned commit",
 ["include/complex_operator.hpp"],[("complex operator overloads","include/complex_operator.hpp")],["complex operators"])
p("C24","Graph dumps and generated code describe exactly the expression",
 "For every expression, the generated code is valid C++ against the library, defines each name exactly once and before it is used, and rebuilds an expression with the same operators, arguments, operands, shape, value and gradients; the dumped graph contains each node once under a unique name, labelled with its kind, and exactly the operand edges of the expression.",
 ["programs"],"all expression graphs up to a node bound",
 "the dump test fails at the pinned commit and the serializer output is never interpreted",
 [OP,"include/utils/enable_serializer.hpp","include/utils/id.hpp","include/tensor.tcc","include/variable.hpp"],[("serialize","include/utils/enable_serializer.hpp"),("computation_graph",OP),("unique ids","include/utils/id.hpp")],["serialize","computation_graph"])
p("C25","Random tensors have the requested shape and follow their distribution",
 "For every answer the random source can give, uniform, truncated-normal and Glorot initialisers return a tensor of the requested shape with every value inside the documented bounds; every element takes its own answers of the source, so that the values are those of the standard distributions with the requested parameters (mean and deviation, real-valued rates); the same state of the random source gives the same tensor, and assigning the documented random_seed makes the following random tensors reproducible.",
 ["inputs","fault_sequences"],"all shapes and bounds, random-source answers enumerated at their extremes and on a grid",
 "tests print one random sample",
 [T],[("random, randn, truncated_normal, poisson, glorot_uniform",T)],["random tensor functions"])
p("C26","The utilities behave like their definitions: ranges, views, iterators, strings, formatted text, file patterns, small containers",
 "Integer ranges, enumeration, reversal, strided iteration and multi-dimensional views visit exactly their elements for every length, stride and extent, and writes through them reach exactly those elements; compile-time strings and floats, lexical casts and formatted text give the text or number of their definition; file-name patterns list exactly the matching entries that are not hidden, for relative, absolute and recursive patterns; the small containers and cached contexts keep what was stored under every history of copies, moves and resizes without losing memory; place holders are totally ordered by identity.",
 ["inputs","histories"],"all lengths, strides, extents, literals, patterns and container histories in bounds",
 "each utility has at most a single printed example",
 ["include/utils/range.hpp","include/utils/enumerate.hpp","include/utils/reverse.hpp","include/utils/stride_iterator.hpp","include/utils/view.hpp","include/utils/string.hpp","include/utils/float32.hpp","include/utils/lexical_cast.hpp","include/utils/fmt.hpp","include/utils/3rd_party/glob.hpp","include/utils/vector.hpp","include/utils/buffered_allocator.hpp","include/utils/cached_allocator.hpp","include/utils/context_cast.hpp","include/place_holder.hpp"],[("utility templates","include/utils")],["utilities"])
p("C27","Data set readers return the stored samples",
 "For every well-formed image/label file pair, the readers return one sample per record with the stored pixels and one-hot labels in order, whatever the number of records; a missing or truncated file is never presented as complete data.",
 ["inputs","crash_points"],"all small files and every truncation point",
 "the dataset tests print the shapes of the shipped files",
 ["include/dataset.hpp"],[("mnist/fashion-mnist loaders","include/dataset.hpp")],["dataset loaders"])
p("C28","Image files hold the image that was written",
 "An image of bytes written to a lossless format is read back with the same shape and pixels whatever its size and number of channels (gray images of the bitmap format come back as three equal channels), lossy formats keep flat images; floating-point images are scaled linearly to the range of a byte; a path without a known extension is written as png; a truncated png file is never read as another image. Resizing treats channels independently, keeps flat images flat and commutes with mirroring.",
 ["inputs","crash_points"],"all small sizes, channel counts and formats, all truncation points, all pairs of sizes for resizing",
 "the image tests read one picture and compare nothing",
 ["include/utils/imageio.hpp","include/utils/3rd_party/stb_image_write.h"],[("imread, imwrite, imresize","include/utils/imageio.hpp")],["image input and output"])
out=Path(__file__).resolve().parent.parent/"properties.jsonl"
out.write_text("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
