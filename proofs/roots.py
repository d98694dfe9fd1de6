"""property -> the functions whose contracts state it (their callees are added automatically)"""
RESHAPES = ["arr::view", "arr::reshape", "arr::squeeze", "arr::unsqueeze", "arr::transpose", "arr::T", "arr::reshaped_view"]
INDEXERS = ["slice::indexed_length", "slice::index_of_first_element", "slice::collapse_dimension"]
SLICES = ["slice::slice", "slice::slice_along"]
DIAGS = ["slice::offset_diagonal_along", "slice::diagonal_along", "slice::offset_diagonal", "slice::diagonal"]
ROOTS = {
    "C02": RESHAPES,
    "C03": SLICES + DIAGS + INDEXERS,
    "C04": ["slice::index_d", "slice::index_mut_d", "slice::index_1", "slice::index_mut_1"],
    "C01": ["mfig::*", "iter::from", "iter::from_reshaped_view", "iter::next", "iter::flatiter", "iter::flatiter_ptr"],
    "C05": ["assign::nd_vop_assign", "assign::nd_vop_assign_s", "fill::fill", "bcast::broadcast_to", "bcast::broadcast_shape", "bcast::broadcast_stride", "bcast::broadcast_shapes", "bcast::get_broadcasted_axes"],
    "C13": ["heap::clone", "heap::flatten", "heap::astype", "heap::value", "heap::data_slice", "own::into_data_vector"],
    "C06": ["ops::nd_vop", "ops::nd_vop_oo", "ops::nd_vop_or", "ops::nd_vop_ro", "ops::nd_vop_scalar", "ops::nd_vop_scalar_o", "ops::nd_neg", "ops::nd_neg_o"],
    "C07": ["assign::nd_vop_assign", "assign::nd_vop_assign_o", "assign::nd_vop_assign_s"],
    "C08": ["red::nd_sum", "red::nd_product", "red::nd_min", "red::nd_max", "red::nd_min_magnitude", "red::nd_max_magnitude", "red::nd_mean", "red::min_magnitude_identity_f32", "red::min_magnitude_identity_f64"],
    "C09": ["redax::sum_along", "redax::product_along", "redax::min_along", "redax::max_along", "redax::min_magnitude_along", "redax::max_magnitude_along", "redax::mean_along", "redax::reduced_shape_and_stride"],
    "C12": ["nest::nd_new", "red::nd_full", "red::nd_scalar", "nest::nd_zeros", "nest::nd_ones"] + ['nest::shape_vec', 'nest::homog_vec', 'nest::flatten_vec', 'nest::shape1_vec', 'nest::homog1_vec', 'nest::flatten1_vec', 'nest::shape_arr', 'nest::homog_arr', 'nest::flatten_arr', 'nest::shape1_arr', 'nest::homog1_arr', 'nest::flatten1_arr'],
    "C20": ["rng::evenly_spaced", "rng::arange_with_step", "rng::arange", "rng::linspace", "rng::linspace_exclusive"],
    "C22": ["rnd::rand", "rnd::randn", "rnd::nd_uniform", "rnd::randint"],
    "C15": ["nditer::nd_iter", "nditer::iter_along", "nditer::nditer", "nditer::nditer_from", "nditer::nditer_next", "nditer::split_by_indices"],
    "C18": ["own::vx_drop", "own::into_data_vector", "own::lifetime_cast", "heap::vx_fcob", "heap::clone", "heap::flatten", "heap::astype", "bcast::broadcast_to", "red::nd_full", "red::nd_scalar", "nest::nd_new", "slice::reshaped_view_with_offset"] + RESHAPES + SLICES + DIAGS,
    "C10": ["dotm::dot", "dotm::matrix_vector_product", "dotm::trace", "dotm::offset_trace", "dotm::trace_along", "dotm::offset_trace_along", "einl::try_specialized_einsum_loop", "einl::unspecialized_einsum_loop", "sop::*", "mat::*", "matm::matrix_matrix_product", "matm::batch_matrix_matrix_product", "matm::matmul", "matm::bmm"],
    "C11": ["eview::einsum_view", "eview::try_reshape_for_einsum", "einsum::einsum", "einsum::einsum_into_ptr", "eprep::prepare_einsum", "esub::*", "einl::try_specialized_einsum_loop", "einl::unspecialized_einsum_loop", "sop::*", "mat::*", "eloop::*", "mfig::*"],
    "C14": ["fill::fill", "fill::zero"],
    "C21": ["fill::nd_eq", "fill::nd_eq_or", "fill::nd_eq_ro"],
    "C19": ["arr::ndims", "arr::len", "arr::size", "arr::is_contiguous", "arr::is_view", "arr::is_uniformly_strided", "arr::has_uniform_stride", "arr::update_flags_with_contiguity", "geom::stride_from_shape", "bcast::broadcast_to", "heap::vx_fcob"] + RESHAPES + SLICES + DIAGS,
}
ASSUMPTIONS = [
    "arithmetic overflow panics (overflow checks on, as in the dev and test profiles) and is proved absent under the contracts' preconditions",
    "arrays are non-empty and small enough to exist: element count and largest element offset below isize::MAX",
    "pointer arithmetic is integer addition on element addresses; forming (not dereferencing) an address outside the buffer is not modelled",
    "elements are values of one abstract Copy type with arbitrary deterministic operators",
    "the portable kernels (no Apple vDSP, NEON or BLAS), as compiled here",
]
EXTRA = {}
