"""what MANIFEST.json says about each property whose contracts are discharged"""
T = "contracts on the extracted functions, discharged by Verus/Z3; failing inputs searched in the real code by a differential oracle"
NOTES = {
    "C02": dict(technique=T, note="reshape, squeeze, unsqueeze, transpose, T, view and reshaped_view of arrays under contract for every layout; Tensor forwarding bounded only"),
    "C03": dict(technique=T, note="slice, slice_along, every Indexer and the diagonal family under contract for every layout, rank and index mix; empty selections excluded"),
    "C04": dict(technique=T, note="Index/IndexMut and offset_of_index under contract: in-range indices give exactly the element's address, anything else panics; the dereference is the caller's"),
    "C01": dict(technique=T, note="the flat index generator and the pointer and value iterators under contract for every layout up to 32 axes, and the multi-array generator einsum drives"),
    "C05": dict(technique=T, note="broadcast_to, broadcast_shape(s), broadcast_stride and get_broadcasted_axes under contract for every shape and layout; in-place operators, fill and zero proved to panic on read-only arrays"),
    "C13": dict(technique=T, note="clone, flatten, astype, value and data_slice under contract over a memory model with heap blocks: same elements, own buffer; into_data_vector hands over the array's own buffer; tensors bounded only"),
    "C06": dict(technique=T, note="all kernels of the binary-operator macro for one abstract operator (the macro leaves the operator abstract), the array-array, array-scalar and owned variants, and negation, under contract for every layout; Tensor forwarding bounded only"),
    "C07": dict(technique=T, note="array and scalar in-place operators and the strided write-back under contract for every layout; a writable target's elements are assumed to have distinct addresses"),
    "C08": dict(technique=T, note="sum, product, min, max, both magnitude extrema and mean, their strided and flat kernels and identities under contract for every layout, as folds over an abstract element type; totally ordered elements (no NaN), commutative sum and product"),
    "C09": dict(technique=T, note="reduced_shape_and_stride, reduce_along and all seven axis reductions under contract for every layout and axis list, as folds over an abstract element type"),
    "C12": dict(technique=T, note="new, full, zeros, ones, scalar and the recursive shape, flatten and check_homogenous of nested vectors and arrays under contract for every nesting and length; Tensor construction bounded only"),
    "C20": dict(technique=T, note="evenly_spaced, arange, arange_with_step, linspace and linspace_exclusive under contract with elements read as real numbers (rounding not modelled); rounding and integer types bounded only"),
    "C22": dict(technique=T, note="rand, randn, uniform and randint under contract with elements read as real numbers, over a trusted contract of rand's Uniform (each draw lies in the half-open range and every value of it is possible)"),
    "C15": dict(technique=T, note="split_by_indices, the sub-array iterator's construction and step, iter, iter_along and nditer under contract for every layout, axis list and position up to 32 axes"),
    "C18": dict(technique=T, note="Drop, into_data_vector, lifetime_cast, construction from a buffer, consuming and borrowing views, slices, diagonals and broadcasts under contract over a heap of allocated blocks: the owner frees its block once with the allocated capacity, views own nothing, consuming operations hand the block on; whole programs (histories) and Tensor handles bounded only"),
    "C14": dict(technique=T, note="fill kernels, fill and zero under contract for every layout; writable layouts are assumed to have positive strides"),
    "C21": dict(technique=T, note="the array PartialEq implementations under contract for every layout; Tensor comparison bounded only"),
    "C19": dict(technique=T, note="size/flag/stride queries, flag computation and stride_from_shape under contract; flags of reshapes, slices, diagonals, broadcasts and freshly built arrays proved"),
    "C10": dict(technique=T, note="dot, matmul (every rank), bmm, matrix_vector_product and the trace family equal their sum-of-products definition for every shape and layout, over an abstract commutative ring; the einsum machinery they use is under contract down to the kernels"),
    "C11": dict(technique=T, note="einsum: the result is the sum the subscripts denote for every operand count, shape and layout, and it panics exactly on subscripts that denote none (subscript text without ellipsis), down through parsing, operand preparation, index generation, loops and kernels; einsum_view returns the view the subscripts denote, None exactly when a label is summed, and panics exactly on subscripts that denote nothing"),
}
