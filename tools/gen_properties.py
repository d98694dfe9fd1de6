#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text can be diffed sensibly)."""
import json, os
P=[]
def p(id,title,statement,over,q,why,files,mech,state=(),observe=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
I=["inputs"]; IP=["inputs","programs"]; IH=["inputs","histories"]
p("C01","Flat traversal visits every logical element once, in row-major order",
  "Walking over all elements of a non-empty array or view yields exactly the elements at every multi-index of its shape, each exactly once, in row-major order, and then ends. This holds for any memory layout: owned, reshaped, transposed, sliced, diagonal or broadcast views of up to 32 dimensions, and a traversal that walks several arrays together keeps them aligned on the same multi-index.",
  IP,"all shapes with positive axis lengths and at most 32 axes, and all strides reachable by composing view operations",
  "The tests walk about a dozen 1-D to 4-D layouts; the carry logic, the merging of axes and zero strides must be right for every shape/stride combination.",
  ["src/ndarray/iterator/flat_index_generator.rs","src/ndarray/iterator/collapse_contiguous.rs","src/ndarray/iterator/flat_iterator.rs","src/ndarray/iterator/buffer_iterator.rs","src/ndarray/iterator/multi_flat_index_generator.rs","src/ndarray/iterator/iterators.rs"],
  [("FlatIndexGenerator::from/next","src/ndarray/iterator/flat_index_generator.rs"),("collapse_to_uniform_stride","src/ndarray/iterator/collapse_contiguous.rs"),("MultiFlatIndexGenerator::from/next","src/ndarray/iterator/multi_flat_index_generator.rs")],
  [("indices/flat_index","odometer over the (merged) axes and the matching buffer offset","FlatIndexGenerator")],
  ["NdArray::flatiter","clone/flatten of non-contiguous views"])
p("C02","Reshape, transpose, squeeze and unsqueeze re-index the same data exactly",
  "A reshaped array has the requested shape and the same elements in the same row-major order; transposing two axes swaps exactly those axes (reversing both axes for a matrix transpose), and squeezing or unsqueezing only removes or inserts axes of length one. The result aliases the source's memory and never copies it. A request whose element count, axis or length-one requirement is wrong, or which a non-contiguous layout cannot represent without copying, is rejected with a panic rather than yielding a wrong view; a contiguous array can always be reshaped.",
  IP,"all source layouts, all target shapes, all (also negative) axes, consuming and borrowing forms, chained calls",
  "Tests try a few fixed reshapes/transposes; the property ranges over all shapes, strides and chains of views.",
  ["src/common/reshape.rs","src/ndarray/reshape.rs","src/util/axis.rs"],
  [("Reshape::{reshape,squeeze,unsqueeze,transpose,T,view}","src/common/reshape.rs"),("reshaped_view","src/ndarray/reshape.rs"),("as_absolute","src/util/axis.rs")],
  [("shape/stride","geometry of the view","NdArray")],["shape(), stride(), indexing and iteration of the result"])
p("C03","Slices and diagonals select exactly the requested elements, inside the array",
  "Slicing an array by any mix of indices and ranges, or along one axis, gives a view whose element at each position is the source element at the corresponding index, with collapsed axes removed and omitted trailing axes kept whole; diagonal and offset-diagonal views over any two distinct axes select exactly the elements with equal (offset) indices and remaining axes in order. A (non-empty) view never reaches outside its source: an out-of-range index or range bound panics.",
  IP,"all shapes, layouts, index/range combinations, axes and offsets",
  "Tests cover a few slices with in-range bounds; nothing exercises bounds rejection or nested views of views systematically.",
  ["src/ndarray/slice.rs","src/util/index.rs","src/linalg/matrix_ops.rs"],
  [("slice, slice_along","src/ndarray/slice.rs"),("Indexer impls","src/util/index.rs"),("offset_diagonal_along","src/linalg/matrix_ops.rs")],
  [("ptr offset + shape + stride","window of the source buffer","NdArray")],["contents of the slice/diagonal"])
p("C04","Multi-index access reads and writes exactly the addressed element",
  "Indexing an array or view with one in-range index per axis reads the element at that multi-index, and writing through an index changes that element and no other. If any single index is out of range for its axis, or the number of indices differs from the number of axes, the access panics and nothing is read or written.",
  IP,"all layouts and all index tuples, including tuples whose flat offset happens to fall inside the buffer",
  "Tests index in-range on contiguous arrays; the per-axis bound and views with arbitrary strides are not sampled.",
  ["src/ndarray/index_impl.rs"],[("Index/IndexMut","src/ndarray/index_impl.rs")],[],["a[[i, j, ..]]","a[[i, j, ..]] = v"])
p("C05","Broadcasting follows the NumPy rule and repeats the right elements",
  "Two shapes combine exactly when, right-aligned, every pair of axis lengths is equal or has a one, giving the longer length on each axis; broadcasting an array to a shape succeeds exactly when the shape is compatible and has at least as many axes. The element of a broadcast view at a multi-index is the source element obtained by dropping the added leading axes and using index 0 on repeated axes; incompatible shapes panic. The broadcast view shares the source's data and is read-only: in-place arithmetic, filling or writing an element through it panics.",
  I,"all pairs of shapes, all layouts of the source",
  "Tests sample a handful of compatible pairs and a few incompatible ones.",
  ["src/ndarray/broadcast.rs","src/util/functions.rs","src/autograd/util.rs"],
  [("broadcast_shapes, broadcast_shape, broadcast_stride","src/ndarray/broadcast.rs"),("pad","src/util/functions.rs"),("get_broadcasted_axes","src/ndarray/broadcast.rs")],[],["broadcast_to(..)","shape and values of a op b"])
p("C06","Elementwise operators compute the scalar operator at every position",
  "For every supported element type, the result of a binary operator between two arrays (or an array and a scalar), and of negation, has the broadcast shape and, at every position, equals the scalar operator applied to the operands' elements at that position. This holds for every combination of operand memory layouts and sizes, and the operands are left unchanged.",
  I,"operators + - * / % & | << >> and unary -, all element types that support them, all pairs of broadcast-compatible layouts and lengths",
  "The kernels are chosen from about a dozen stride-specialised paths; tests hit only some pairs of layouts and small sizes.",
  ["src/ops/binary_ops.rs","src/ops/binary_op_add.rs","src/ops/binary_op_sub.rs","src/ops/binary_op_mul.rs","src/ops/binary_op_div.rs","src/ndarray/binary_ops.rs","src/ops/unary_ops.rs","src/ndarray/unary_ops.rs"],
  [("define_binary_op_trait! kernels and dispatch","src/ops/binary_ops.rs"),("implement_binary_ops!","src/ndarray/binary_ops.rs")],[],["values of a op b, a op s, -a"])
p("C07","In-place operators update the target view elementwise and nothing else",
  "After `a op= b` (b a scalar, or an array broadcastable to a's shape that does not share memory with a) every element of a equals the scalar operator applied to its old value and the matching element of b, whatever a's memory layout is. Elements of the underlying buffer that do not belong to a, and b itself, are unchanged; a read-only target or an incompatible b panics without any change.",
  IH,"all layouts of the target (owned, transposed, sliced, strided) and of the operand, all operators",
  "Tests only use freshly created contiguous targets.",
  ["src/ndarray/assign_ops.rs","src/ops/binary_ops.rs"],
  [("define_binary_iop!","src/ndarray/assign_ops.rs"),("BinaryOp* kernels","src/ops/binary_ops.rs")],[],["contents of target and of its source array after op="])
p("C08","Whole-array reductions equal the mathematical fold over all elements",
  "Sum, product, minimum, maximum, smallest and largest magnitude, and mean of a non-empty array equal the corresponding fold over exactly its logical elements, up to floating-point rounding of the accumulation order, for data without NaN whose magnitudes the element type can represent. The answer depends only on the shape and the elements, never on the memory layout, so a view and its copy reduce to the same value.",
  I,"all layouts and sizes, all element types",
  "Contiguous, uniformly strided and general layouts use different code; tests check a few of each and few element values (e.g. infinities, all-negative data).",
  ["src/ops/reduce_sum.rs","src/ops/reduce_product.rs","src/ops/reduce_min.rs","src/ops/reduce_max.rs","src/ops/reduce_min_magnitude.rs","src/ops/reduce_max_magnitude.rs","src/ndarray/reduce.rs"],
  [("ReduceSum/Product/Min/Max/.. kernels","src/ops/"),("NdArray::sum, ..","src/ndarray/reduce.rs")],[],["scalar result of sum(), product(), min(), ..."])
p("C09","Axis reductions fold exactly the requested axes",
  "Reducing along a set of (where accepted, possibly negative) axes gives an array whose shape is the source shape without those axes in order, and whose element at each remaining multi-index is the fold over all source elements agreeing with it on the kept axes. Duplicate or out-of-range axes panic; reducing over every axis agrees with the whole-array reduction and the source is unchanged.",
  I,"all layouts, all subsets of axes, all reductions and element types",
  "Tests cover few shapes and axis subsets of contiguous arrays.",
  ["src/ndarray/reduce.rs","src/util/axis.rs"],[("reduced_shape_and_stride, reduce_along","src/ndarray/reduce.rs")],[],["shape and contents of sum_along(..), mean_along(..), ..."])
p("C10","Dot, matrix and batched products equal the sum-of-products definition",
  "The dot product, matrix-vector, matrix-matrix and batched matrix products, and (offset) traces equal the defining sums of products of the operands' elements, with the textbook result shape, for every size and memory layout of the operands. Operands whose dimensions do not match are rejected with a panic and operands are unchanged.",
  I,"all sizes (including length-one axes) and layouts of the operands (transposed, sliced, broadcast), all numeric element types",
  "Tests compare a few small matrices, mostly contiguous.",
  ["src/linalg/matrix_ops.rs","src/linalg/einsum.rs","src/linalg/specialized_einsum.rs","src/linalg/sum_of_products.rs","src/ops/dot_product.rs"],
  [("matmul, bmm, dot, trace","src/linalg/matrix_ops.rs"),("sum-of-products kernels","src/linalg/sum_of_products.rs")],[],["result of dot/matmul/bmm/trace"])
p("C11","Einsum computes the Einstein summation named by its subscripts",
  "For explicit subscripts of letters (repeated labels, permuted outputs, reductions, one string per operand, any number of operands up to the limit of 15) einsum returns an array whose axes are the output labels in order and whose entries are the sum, over all labels missing from the output, of the products of the operands' elements. Inconsistent label sizes, a wrong number of labels for an operand or of strings for the operands, or output labels that are repeated or absent from the inputs panic.",
  I,"all subscript strings without ellipsis, all consistent shapes, all operand layouts",
  "There are specialised loops for 1/2/3 operands, 2/3 labels and particular stride patterns; tests sample individual subscripts.",
  ["src/linalg/einsum.rs","src/linalg/specialized_einsum.rs","src/linalg/sum_of_products.rs","src/ndarray/iterator/multi_flat_index_generator.rs"],
  [("parse_*_subscripts, prepare_einsum, einsum","src/linalg/einsum.rs"),("einsum_* loops","src/linalg/specialized_einsum.rs"),("get_sum_of_products_function","src/linalg/sum_of_products.rs")],[],["result of einsum(..), einsum_view(..)"])
p("C12","Arrays built from nested data or a fill value have exactly that content",
  "An array built from nested slices, arrays or vectors has one axis per nesting level with that level's length, and reading it back at a multi-index gives the corresponding nested element; filled, zero, one and scalar constructors give exactly the requested shape with every element equal to the value. Ragged nested input, at any depth, is rejected with a panic.",
  I,"all nesting depths, lengths and element types, mixed Vec/array nesting",
  "Tests construct a few literals; raggedness is only tried at the outermost level.",
  ["src/common/constructors.rs","src/ndarray/constructors.rs","src/util/flatten.rs","src/util/homogenous.rs","src/util/shape.rs","src/util/nested.rs"],
  [("Constructors::new/full/..","src/common/constructors.rs"),("stride_from_shape","src/ndarray/constructors.rs"),("Flatten, Shape, Homogenous","src/util/")],[],["shape and contents of NdArray::new(..), Tensor::new(..)"])
p("C13","Copies and conversions hold the same elements and share no memory",
  "Cloning, flattening, converting the element type, and extracting the data as a vector or slice yield exactly the logical elements in row-major order (converted element by element where the type changes), with the source's shape where it is kept. The copies are independent: later writes to either side are not visible through the other.",
  IP,"all layouts, shapes and element types",
  "Contiguous and non-contiguous copies use different block-copy code; tests copy few layouts.",
  ["src/ndarray/clone.rs","src/ndarray/reshape.rs","src/ndarray/astype.rs","src/ndarray/methods.rs"],
  [("clone_data_contiguous / clone_data_non_contiguous","src/ndarray/clone.rs"),("astype","src/ndarray/astype.rs")],[],["clone(), flatten(), astype(), into_data_vector(), data_slice()"])
p("C14","Fill sets every element of the view and nothing outside it",
  "After filling or zeroing an array or view, every one of its elements equals the value. No element of the underlying buffer outside the view changes, whatever the view's layout.",
  IP,"all writable layouts: owned, sliced, strided, transposed, diagonal views",
  "Tests fill contiguous arrays and a couple of slices.",
  ["src/ops/fill.rs","src/ndarray/fill.rs"],[("Fill::fill*","src/ops/fill.rs")],[],["contents of the view and of its source after fill/zero"])
p("C15","Iterating sub-arrays along axes yields each sub-array once, in order",
  "Iterating over an array along an axis, over its first axis, or over any list of distinct axes yields exactly one sub-array for each combination of indices of those axes, in row-major order of the selected axes taken in the array's axis order, and each sub-array contains exactly the source elements at that combination with the remaining axes in order. Invalid or duplicate axes panic.",
  I,"all layouts, all axis lists",
  "Tests iterate contiguous arrays over one or two axes.",
  ["src/ndarray/iterator/tensor_iterator.rs","src/ndarray/iterator/util.rs","src/ndarray/iterator/iterators.rs"],
  [("NdIterator::from/next","src/ndarray/iterator/tensor_iterator.rs"),("split_by_indices","src/ndarray/iterator/util.rs")],[],["iter(), iter_along(..), nditer(..)"])
p("C16","Backpropagated gradients are the exact vector-Jacobian products",
  "For any expression built from the differentiable tensor operations, back-propagating a cotangent stores in every leaf that requires gradients the vector-Jacobian product of that expression at the current values, with the leaf's own shape. This includes broadcast operands (gradients summed over repeated axes), operands used several times (contributions added), views, and every layout of the incoming gradient.",
  ["inputs","programs","histories"],"all expression graphs over + - * / negation, scalar operands, dot, matrix, batched products, reshape, transpose, squeeze/unsqueeze; all shapes, values and cotangents",
  "Tests check individual small expressions; composition with broadcasting, reuse and views is unbounded.",
  ["src/autograd/","src/tensor/ops.rs","src/tensor/matrix_ops.rs","src/tensor/reshape.rs","src/tensor/autograd.rs"],
  [("*Backwards::backward","src/autograd/*.rs"),("reduce_gradient","src/autograd/util.rs"),("AccumulateGrad","src/autograd/accumulate_grad.rs")],[],["Tensor::backward, backward_with, gradient"])
p("C17","Gradient tracking flags, accumulation, zeroing and detaching behave as stated",
  "A result requires gradients exactly when one of its operands does, and only leaves store a gradient of their own: zeros before the first backward pass and after a reset, and the sum of all passes since then otherwise. Detached tensors and operands that do not require gradients never receive or propagate one, and back-propagating never changes any tensor's value.",
  ["histories","programs"],"all sequences of building expressions, backward, zero_gradient, detach and toggling requires_grad",
  "Tests follow a few fixed sequences.",
  ["src/tensor/autograd.rs","src/tensor/ops.rs","src/tensor/methods.rs","src/autograd/accumulate_grad.rs","src/autograd/gradient_function.rs","src/autograd/none_backwards.rs"],
  [("set_requires_grad, zero_gradient, detach","src/tensor/autograd.rs"),("AccumulateGrad, GradientFuncTrait","src/autograd/")],[],["requires_grad(), is_leaf(), gradient()"])
p("C18","Every buffer is freed exactly once, with its allocation's layout, after last use",
  "Each allocated element buffer has exactly one owning array at any time: views never free it, consuming view operations move ownership to the result, and dropping the owner frees the buffer exactly once with the size it was allocated with. Every array covers only memory inside its buffer.",
  ["histories","programs"],"all programs that create, view, consume, convert and drop arrays in any order",
  "Double frees, leaks and mis-sized deallocations are silent in tests and depend on the sequence of operations.",
  ["src/ndarray/constructors.rs","src/ndarray/reshape.rs","src/ndarray/slice.rs","src/ndarray/methods.rs","src/ndarray/astype.rs"],
  [("Drop for NdArray","src/ndarray/constructors.rs"),("reshaped_view (consuming and borrowing)","src/ndarray/reshape.rs"),("into_data_vector","src/ndarray/methods.rs")],
  [("Owned flag, len, capacity","who frees the allocation and with which layout","NdArray")],["allocator calls"])
p("C19","Layout queries tell the truth about memory layout",
  "An array reports itself contiguous only if its logical elements, in row-major order, occupy consecutive memory; it reports a uniform stride s only if consecutive logical elements are s apart, and every row-major array reports contiguous and view-ness is reported exactly for arrays that do not own their data. Number of axes, element count, shape and stride queries agree with each other for every array and view.",
  IP,"all arrays and views reachable by composing operations",
  "Every fast path trusts these answers; tests check them on few layouts and on no broadcast view.",
  ["src/ndarray/slice.rs","src/ndarray/iterator/collapse_contiguous.rs","src/common/methods.rs","src/ndarray/methods.rs","src/ndarray/flags.rs"],
  [("update_flags_with_contiguity","src/ndarray/slice.rs"),("has_uniform_stride","src/ndarray/iterator/collapse_contiguous.rs"),("StridedMemory","src/common/methods.rs")],
  [("Contiguous, UniformStride, Owned flags","layout facts","NdArrayFlags")],["is_contiguous(), is_uniformly_strided(), has_uniform_stride(), is_view(), size(), ndims(), len()"])
p("C20","Evenly spaced ranges have the requested number and values of elements",
  "A stepped range contains exactly the values start + i*step that lie before the stop, in order; the inclusive linear space has exactly the requested number of points from start to stop, the exclusive one exactly the requested number starting at start with spacing (stop - start) / count. This holds for every numeric element type and every range with start before stop whose values, length and count it represents exactly (64-bit integers: below 2^53), up to floating-point rounding of each value.",
  I,"all start, stop, step and count values for every numeric element type",
  "Tests use a handful of small ranges; lengths come from rounded floating-point arithmetic.",
  ["src/common/constructors.rs","src/util/dtype.rs"],[("arange, arange_with_step, linspace, linspace_exclusive","src/common/constructors.rs")],[],["shape and contents of arange(..), linspace(..)"])
p("C21","Array equality is shape equality plus elementwise equality",
  "Two arrays or tensors compare equal exactly when their shapes are equal and their elements are equal at every multi-index, whatever their memory layouts. Comparison never reads outside either array.",
  I,"all pairs of layouts and shapes, all element types",
  "Tests mostly compare contiguous arrays that are meant to be equal.",
  ["src/ndarray/equals.rs","src/tensor/equals.rs"],[("PartialEq","src/ndarray/equals.rs")],[],["a == b"])
p("C22","Random constructors produce the requested shape within the requested range",
  "Random constructors return arrays of exactly the requested shape; uniform values lie in the requested half-open range, and random integers lie in [low, high) with every integer of the range possible. This holds for every shape, range and element type.",
  I,"all shapes and ranges, all states of the random generator",
  "Tests draw a few samples; boundary values occur with tiny probability.",
  ["src/common/random.rs"],[("rand, uniform, randint, randn","src/common/random.rs")],[],["shape and values of rand(..), uniform(..), randint(..)"])
p("C23","Views cannot outlive the array whose memory they share",
  "No program accepted by the compiler can use a view after the array owning its memory has been dropped.",
  ["programs"],"all safe programs",
  "It is a statement about which programs the type system rejects; tests only run accepted ones (three trybuild cases exist).",
  ["src/ndarray.rs","src/ndarray/reshape.rs","src/ndarray/iterator/flat_iterator.rs"],[("lifetime parameter of NdArray","src/ndarray.rs")],[],["compile errors"])
p("C24","Hardware-accelerated kernels agree with the portable kernels",
  "On every platform feature set (Apple Accelerate, NEON, OpenBLAS) the accelerated implementations of elementwise operators, reductions and products give the same results as the portable implementation, up to floating-point rounding.",
  ["configurations","inputs"],"all cfg combinations and inputs",
  "The test machine compiles only one configuration.",
  ["src/acceleration/","src/ops/simd_binary_ops.rs","src/ops/simd_reduce_ops.rs"],[("cfg-gated kernels","src/ops/simd_*.rs")],[],["results on Apple / aarch64 hosts"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
