//@use core geom mem arr slice bcast iter heap kern ops red redax sop mat eloop mfig
use vstd::arithmetic::mul::*;
use vstd::arithmetic::div_mod::*;

// ===================================================================== iterating over all axes of a sum of products
pub open spec fn obs(ops: Seq<&NdArray>, dst: Ptr) -> Seq<int> { Seq::new(ops.len() + 1, |i: int| if i < ops.len() { ops[i].ptr.a() } else { dst.a() }) }
pub open spec fn ist(sm: Seq<[usize; MAX_ARGS]>, n: int) -> Seq<usize> { sm[0]@.subrange(0, n) }
pub open spec fn oost(sm: Seq<[usize; MAX_ARGS]>, nd: int, n: int) -> Seq<Seq<usize>> { Seq::new(n as nat, |i: int| col(sm.subrange(1, nd), i)) }
pub open spec fn lin_(m: Mem, ops: Seq<&NdArray>, sm: Seq<[usize; MAX_ARGS]>, nd: int, sh: Seq<usize>, dst: Ptr) -> bool {
    1 <= nd <= MAX_DIMS && sh.len() == nd && sm.len() == MAX_DIMS && 1 <= ops.len() < MAX_ARGS && ein(m, obs(ops, dst), ist(sm, (ops.len() + 1) as int), sh[0] as int, sh.subrange(1, nd), oost(sm, nd, (ops.len() + 1) as int))
}
pub open spec fn lout(m0: Mem, m1: Mem, ops: Seq<&NdArray>, sm: Seq<[usize; MAX_ARGS]>, nd: int, sh: Seq<usize>, dst: Ptr) -> bool {
    eout(m0, m1, obs(ops, dst), ist(sm, (ops.len() + 1) as int), sh[0] as int, sh.subrange(1, nd), oost(sm, nd, (ops.len() + 1) as int))
}
pub proof fn lemma_oost1(sm: Seq<[usize; MAX_ARGS]>, n: int)
    requires sm.len() == MAX_DIMS, 2 <= n <= 3,
    ensures oost(sm, 2, n) == ost1(sm[1]@.subrange(0, n)),
{ assert forall|i: int| 0 <= i < n implies #[trigger] oost(sm, 2, n)[i] == ost1(sm[1]@.subrange(0, n))[i] by { assert(col(sm.subrange(1, 2), i) =~= seq![sm[1]@[i]]); } assert(oost(sm, 2, n) =~= ost1(sm[1]@.subrange(0, n))); }
pub proof fn lemma_oost2(sm: Seq<[usize; MAX_ARGS]>, n: int)
    requires sm.len() == MAX_DIMS, 2 <= n <= 3,
    ensures oost(sm, 3, n) == ost2(sm[1]@.subrange(0, n), sm[2]@.subrange(0, n)),
{ assert forall|i: int| 0 <= i < n implies #[trigger] oost(sm, 3, n)[i] == ost2(sm[1]@.subrange(0, n), sm[2]@.subrange(0, n))[i] by { assert(col(sm.subrange(1, 3), i) =~= seq![sm[1]@[i], sm[2]@[i]]); } assert(oost(sm, 3, n) =~= ost2(sm[1]@.subrange(0, n), sm[2]@.subrange(0, n))); }
#[verifier::external_body]
pub fn vx_null() -> (r: Ptr) { unimplemented!() }
/// first_n_elements!(a, n) as an array of the length the context asks for
pub trait VxFirst { spec fn fseq(&self) -> Seq<usize>; fn first<const N: usize>(&self, n: usize) -> (r: [usize; N]) requires n == N <= self.fseq().len(), ensures r@ == self.fseq().subrange(0, N as int); }
pub fn vx_first_slice<const N: usize>(a: &[usize]) -> (r: [usize; N])
    requires N <= a@.len(),
    ensures r@ == a@.subrange(0, N as int),
{ let mut r = [0usize; N]; vx_copy_into(&mut r, 0, N, vx_slice(a, 0, N)); assert(r@ =~= a@.subrange(0, N as int)); r }
impl<const K: usize> VxFirst for [usize; K] {
    open spec fn fseq(&self) -> Seq<usize> { self@ }
    fn first<const N: usize>(&self, n: usize) -> (r: [usize; N]) { vx_first_slice::<N>(self.vx_sl()) }
}
impl VxFirst for &[usize] {
    open spec fn fseq(&self) -> Seq<usize> { self@ }
    fn first<const N: usize>(&self, n: usize) -> (r: [usize; N]) { vx_first_slice::<N>(*self) }
}
pub fn vx_first_n<S: VxFirst, const N: usize>(a: S, n: usize) -> (r: [usize; N])
    requires n == N <= a.fseq().len(),
    ensures r@ == a.fseq().subrange(0, N as int),
{ a.first::<N>(n) }
//@fn src/linalg/specialized_einsum.rs :: - :: unspecialized_einsum_loop
//@sig pub fn unspecialized_einsum_loop(operands: &[&NdArray], strides0: &[[usize; MAX_ARGS]; MAX_DIMS], iter_ndims: usize, iter_shape: &[usize], dst: Ptr, mem: &mut Mem)
//@sigof unspecialized_einsum_loop:m
//@call null_mut => vx_null
//@call sum_of_products => sum_of_products.call +mem
//@requires lin_(*old(mem), operands@, strides0@, iter_ndims as int, iter_shape@, dst)
//@ensures lout(*old(mem), *final(mem), operands@, strides0@, iter_ndims as int, iter_shape@, dst)
//@start
    let ghost m0 = *mem; let ghost n = operands@.len() as int; let ghost nd = iter_ndims as int; let ghost bs = obs(operands@, dst); let ghost s0 = ist(strides0@, n + 1); let ghost n0 = iter_shape@[0] as int; let ghost osh = iter_shape@.subrange(1, nd); let ghost ost = oost(strides0@, nd, n + 1); let ghost o = ident(); let ghost rows = strides0@.subrange(1, nd);
    proof {
        lemma_epart0(m0, bs, s0, n0, osh, ost, o); lemma_pz_prod(osh); assert(iter_shape@.subrange(1, iter_shape@.len() as int) == osh);
        assert(strides0@.subrange(0, nd).subrange(1, nd) =~= rows); assert(strides0@.subrange(0, nd)[0] == strides0@[0]);
        assert forall|i: int| 0 <= i < n + 1 implies span(osh, #[trigger] col(rows, i)) <= isize::MAX by { assert(ost[i] == col(rows, i)); }
    }
//@loop 0
    invariant base_ptrs@[n] == dst, forall|i: int| 0 <= i < vxc0 ==> #[trigger] base_ptrs@[i] == operands@[i].ptr,
//@loop 1 before
    let ghost st0 = indices_iter;
    proof { assert forall|i: int| 0 <= i < n + 1 implies #[trigger] st0.st(i) == ost[i] by { assert(st0.st(i) == col(rows, i)); } }
//@loop 1
    invariant ein(m0, bs, s0, n0, osh, ost), epart(m0, *mem, bs, s0, n0, osh, ost, o, vxc1 as int), prod(osh) == vxe1, sop_ok_n(sum_of_products, s0), inner_stride@ == s0,
        indices_iter.ok(), indices_iter.same(&st0), vxc1 < vxe1 ==> indices_iter.pos() == vxc1, ptrs@.len() == n + 1, st0.sh() == osh, st0.nops == n + 1, st0.ndims == osh.len(), forall|i: int| 0 <= i < n + 1 ==> #[trigger] st0.st(i) == ost[i],
        forall|i: int| 0 <= i < n ==> #[trigger] base_ptrs@[i] == operands@[i].ptr, base_ptrs@[n] == dst,
//@loop 1 start
    let ghost t = vxc1 - 1; let ghost m1 = *mem;
    proof {
        lemma_ein_kin(m0, m1, bs, s0, n0, osh, ost, t);
        assert forall|i: int| 0 <= i < n + 1 implies #[trigger] indices_iter.flat_indices@[i] == off(osh, ost[i], t) by { assert(indices_iter.st(i) =~= st0.st(i)); lemma_off_lin(osh, ost[i], indices_iter.ix()); }
    }
//@loop 2
    invariant ptrs@.len() == n + 1, forall|i: int| 0 <= i < vxc2 ==> (#[trigger] ptrs@[i]).a() == bs[i] + off(osh, ost[i], t),
//@loop 2 start
    proof { let i = (vxc2 - 1) as int; assert(indices_iter.flat_indices@[i] == off(osh, ost[i], t)); if i < n { assert(base_ptrs@[i] == operands@[i].ptr); } }
//@loop 2 after
    proof { assert(adr(ptrs@) =~= pst(bs, osh, ost, t)); }
//@loop 1 end
    proof { lemma_epart_step(m0, m1, *mem, bs, s0, n0, osh, ost, o, t); }
//@loop 1 after
    proof { lemma_epart_done(m0, *mem, bs, s0, n0, osh, ost, o); }
//@end
//@fn src/linalg/specialized_einsum.rs :: - :: try_specialized_einsum_loop
//@sig pub fn try_specialized_einsum_loop(operands: &[&NdArray], strides: &[[usize; MAX_ARGS]; MAX_DIMS], iter_ndims: usize, iter_shape: &[usize], dst: Ptr, mem: &mut Mem) -> (r: bool)
//@sigof try_specialized_einsum_loop:m
//@call first_n_elements! => &vx_first_n
//@requires lin_(*old(mem), operands@, strides@, iter_ndims as int, iter_shape@, dst)
//@ensures r ==> lout(*old(mem), *final(mem), operands@, strides@, iter_ndims as int, iter_shape@, dst), !r ==> *final(mem) == *old(mem)
//@start
    let ghost n = operands@.len() as int; let ghost nd = iter_ndims as int;
    proof {
        let osh = iter_shape@.subrange(1, nd);
        if n == 1 {
            assert(obs(operands@, dst) =~= seq![operands@[0].ptr.a(), dst.a()]);
            if nd == 2 { assert(osh =~= seq![iter_shape@[1]]); lemma_oost1(strides@, 2); }
            if nd == 3 { assert(osh =~= seq![iter_shape@[1], iter_shape@[2]]); lemma_oost2(strides@, 2); }
        }
        if n == 2 {
            assert(obs(operands@, dst) =~= seq![operands@[0].ptr.a(), operands@[1].ptr.a(), dst.a()]);
            if nd == 2 { assert(osh =~= seq![iter_shape@[1]]); lemma_oost1(strides@, 3); }
            if nd == 3 { assert(osh =~= seq![iter_shape@[1], iter_shape@[2]]); lemma_oost2(strides@, 3); }
        }
    }
//@end
