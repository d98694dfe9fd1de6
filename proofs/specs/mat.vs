//@use core geom mem arr slice bcast iter heap kern ops red redax sop
use vstd::arithmetic::mul::*;

// ===================================================================== choice of the kernel
/// unsafe fn(..) values: one constant per kernel
pub enum SopFn { k010, k011, k100, k101, k110, k111, out0, generic }
pub open spec fn sop_ok(f: SopFn, ss: Seq<usize>) -> bool {
    match f {
        SopFn::k010 => ss =~= seq![0usize, 1, 0], SopFn::k011 => ss =~= seq![0usize, 1, 1], SopFn::k100 => ss =~= seq![1usize, 0, 0], SopFn::k101 => ss =~= seq![1usize, 0, 1],
        SopFn::k110 => ss =~= seq![1usize, 1, 0], SopFn::k111 => ss =~= seq![1usize, 1, 1], SopFn::out0 => ss.len() > 0 && ss[ss.len() - 1] == 0, SopFn::generic => true,
    }
}
impl SopFn {
    pub fn call<const N: usize>(&self, ptrs: &[Ptr; N], strides: &[usize; N], count: usize, mem: &mut Mem)
        requires sop_ok(*self, strides@), kin(*old(mem), adr(ptrs@), strides@, count as int),
        ensures kout(*old(mem), *final(mem), adr(ptrs@), strides@, 0, count as int),
    {
        match self {
            SopFn::k010 => { assert(strides@.len() == 3); SumOfProductsType::sum_of_products_in_strides_0_1_out_stride_0(ptrs, strides, count, mem) }
            SopFn::k011 => { assert(strides@.len() == 3); SumOfProductsType::sum_of_products_in_strides_0_1_out_stride_1(ptrs, strides, count, mem) }
            SopFn::k100 => { assert(strides@.len() == 3); SumOfProductsType::sum_of_products_in_strides_1_0_out_stride_0(ptrs, strides, count, mem) }
            SopFn::k101 => { assert(strides@.len() == 3); SumOfProductsType::sum_of_products_in_strides_1_0_out_stride_1(ptrs, strides, count, mem) }
            SopFn::k110 => { assert(strides@.len() == 3); SumOfProductsType::sum_of_products_in_strides_1_1_out_stride_0(ptrs, strides, count, mem) }
            SopFn::k111 => { assert(strides@.len() == 3); SumOfProductsType::sum_of_products_in_strides_1_1_out_stride_1(ptrs, strides, count, mem) }
            SopFn::out0 => SumOfProductsType::sum_of_products_out_stride_0(ptrs, strides, count, mem),
            SopFn::generic => SumOfProductsType::sum_of_products_generic(ptrs, strides, count, mem),
        }
    }
}
pub enum SopFnN { nnn0, out0, generic }
pub open spec fn sop_ok_n(f: SopFnN, ss: Seq<usize>) -> bool {
    match f { SopFnN::nnn0 => ss.len() == 4 && ss[3] == 0, SopFnN::out0 => ss.len() > 0 && ss[ss.len() - 1] == 0, SopFnN::generic => true }
}
impl SopFnN {
    pub fn call(&self, ptrs: &[Ptr], strides: &[usize], count: usize, mem: &mut Mem)
        requires sop_ok_n(*self, strides@), kin(*old(mem), adr(ptrs@), strides@, count as int),
        ensures kout(*old(mem), *final(mem), adr(ptrs@), strides@, 0, count as int),
    {
        match self {
            SopFnN::nnn0 => SumOfProductsType::sum_of_products_in_strides_n_n_n_out_stride_0(ptrs, strides, count, mem),
            SopFnN::out0 => SumOfProductsType::sum_of_products_out_stride_0_(ptrs, strides, count, mem),
            SopFnN::generic => SumOfProductsType::sum_of_products_generic_(ptrs, strides, count, mem),
        }
    }
}
//@fn src/linalg/sum_of_products.rs :: - :: get_sum_of_products_function
//@sig pub fn get_sum_of_products_function<const N: usize>(strides: &[usize; N]) -> (r: SopFn)
//@call =SumOfProductsType::sum_of_products_in_strides_0_1_out_stride_0 => SopFn::k010
//@call =SumOfProductsType::sum_of_products_in_strides_0_1_out_stride_1 => SopFn::k011
//@call =SumOfProductsType::sum_of_products_in_strides_1_0_out_stride_0 => SopFn::k100
//@call =SumOfProductsType::sum_of_products_in_strides_1_0_out_stride_1 => SopFn::k101
//@call =SumOfProductsType::sum_of_products_in_strides_1_1_out_stride_0 => SopFn::k110
//@call =SumOfProductsType::sum_of_products_in_strides_1_1_out_stride_1 => SopFn::k111
//@call =SumOfProductsType::sum_of_products_out_stride_0 => SopFn::out0
//@call =SumOfProductsType::sum_of_products_generic => SopFn::generic
//@requires N > 0
//@ensures sop_ok(r, strides@)
//@end
//@fn src/linalg/sum_of_products.rs :: - :: get_sum_of_products_function_generic_nops
//@sig pub fn get_sum_of_products_function_generic_nops(strides: &[usize]) -> (r: SopFnN)
//@call =SumOfProductsType::sum_of_products_in_strides_n_n_n_out_stride_0 => SopFnN::nnn0
//@call =SumOfProductsType::sum_of_products_out_stride_0_ => SopFnN::out0
//@call =SumOfProductsType::sum_of_products_generic_ => SopFnN::generic
//@requires strides@.len() > 0
//@ensures sop_ok_n(r, strides@)
//@end
