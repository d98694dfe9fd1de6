//@use core geom mem arr slice bcast iter heap kern ops red redax sop mat eloop
use vstd::arithmetic::mul::*;
use vstd::arithmetic::div_mod::*;

// ===================================================================== products of vectors and matrices
pub open spec fn ix1(k: int) -> Seq<int> { seq![k] }
pub open spec fn ix2(i: int, k: int) -> Seq<int> { seq![i, k] }
/// term k of the dot product of two vectors
pub open spec fn vdot(a: NdArray, b: NdArray, m: Mem) -> spec_fn(int) -> E { |k: int| mul_e(m.m()[a.at_ix(ix1(k))], m.m()[b.at_ix(ix1(k))]) }
/// term k of row i of a matrix times a vector
pub open spec fn mdot(a: NdArray, b: NdArray, m: Mem, i: int) -> spec_fn(int) -> E { |k: int| mul_e(m.m()[a.at_ix(ix2(i, k))], m.m()[b.at_ix(ix1(k))]) }
pub proof fn lemma_at1(a: NdArray, k: int)
    requires a.wf(), a.sh().len() == 1, 0 <= k < a.sh()[0],
    ensures a.at_ix(ix1(k)) == a.ptr.a() + k * a.st()[0], a.ad(k) == a.at_ix(ix1(k)), 0 <= k < prod(a.sh()), 0 <= k * a.st()[0] <= (a.sh()[0] - 1) * a.st()[0] <= isize::MAX, a.st().len() == 1,
{
    lemma_wfl(a.sh(), a.st()); lemma_off1(a.sh(), a.st(), k); lemma_span_step(a.sh()[0] as int, a.st()[0] as int, k);
    reveal_with_fuel(dotp, 2); assert(ix1(k).last() == k);
}
pub proof fn lemma_at2(a: NdArray, i: int, k: int)
    requires a.wf(), a.sh().len() == 2, 0 <= i < a.sh()[0], 0 <= k < a.sh()[1],
    ensures a.at_ix(ix2(i, k)) == a.ptr.a() + i * a.st()[0] + k * a.st()[1], a.ad(i * a.sh()[1] + k) == a.at_ix(ix2(i, k)), 0 <= i * a.sh()[1] + k < prod(a.sh()), a.st().len() == 2,
        0 <= k * a.st()[1] <= (a.sh()[1] - 1) * a.st()[1] <= isize::MAX, 0 <= i * a.st()[0] <= isize::MAX,
{
    lemma_wfl(a.sh(), a.st()); lemma_off2(a.sh(), a.st(), i, k); lemma_prod2(a.sh());
    lemma_span_step(a.sh()[1] as int, a.st()[1] as int, k); lemma_off2(a.sh(), a.st(), 0, a.sh()[1] - 1); assert(0 * a.st()[0] == 0);
    reveal_with_fuel(dotp, 3); assert(ix2(i, k).last() == k); assert(ix2(i, k).drop_last().last() == i);
    let (x, y, n) = (i, k, a.sh()[1] as int);
    assert(x * n + y < a.sh()[0] * n) by (nonlinear_arith) requires x + 1 <= a.sh()[0], y < n, n > 0;
    assert(x * n >= 0) by (nonlinear_arith) requires x >= 0, n > 0;
}
/// one dot product into the new cell d
pub proof fn lemma_kdot_in(m0: Mem, m: Mem, ps: Seq<int>, ss: Seq<usize>, n: int)
    requires ps.len() == 3, ss.len() == 3, ss[2] == 0, n > 0, forall|x: int| m0.m().contains_key(x) ==> #[trigger] m.m().contains_key(x), m.m().contains_key(ps[2]), !m0.m().contains_key(ps[2]),
        forall|k: int| 0 <= k < n ==> m0.m().contains_key(#[trigger] cell(ps, ss, 0, k)), forall|k: int| 0 <= k < n ==> m0.m().contains_key(#[trigger] cell(ps, ss, 1, k)),
        (n - 1) * ss[0] <= isize::MAX, (n - 1) * ss[1] <= isize::MAX,
    ensures kin(m, ps, ss, n),
{
    assert forall|k: int| 0 <= k < n implies #[trigger] cell(ps, ss, 2, k) == ps[2] by { assert(k * 0 == 0); }
    assert((n - 1) * 0 == 0);
    assert forall|i: int, k: int| 0 <= i < ps.len() && 0 <= k < n implies m.m().contains_key(#[trigger] cell(ps, ss, i, k)) by { if i == 0 { assert(m0.m().contains_key(cell(ps, ss, 0, k))); } else if i == 1 { assert(m0.m().contains_key(cell(ps, ss, 1, k))); } }
    assert forall|i: int, k: int, j: int| 0 <= i < ps.len() - 1 && 0 <= k < n && 0 <= j < n implies #[trigger] cell(ps, ss, i, k) != #[trigger] cell(ps, ss, ps.len() - 1, j) by { if i == 0 { assert(m0.m().contains_key(cell(ps, ss, 0, k))); } else { assert(m0.m().contains_key(cell(ps, ss, 1, k))); } }
    assert forall|i: int| 0 <= i < ss.len() implies (n - 1) * #[trigger] ss[i] <= isize::MAX by { if i == 2 { } else if i == 1 { } else { assert(i == 0); } }
}
pub proof fn lemma_kdot_out(m1: Mem, m2: Mem, ps: Seq<int>, ss: Seq<usize>, n: int, g: spec_fn(int) -> E)
    requires ps.len() == 3, ss.len() == 3, ss[2] == 0, n > 0, kin(m1, ps, ss, n), kout(m1, m2, ps, ss, 0, n), forall|k: int| 0 <= k < n ==> #[trigger] g(k) == mul_e(m1.m()[cell(ps, ss, 0, k)], m1.m()[cell(ps, ss, 1, k)]),
    ensures m2.m().dom() == m1.m().dom(), m2.blocks() == m1.blocks(), forall|x: int| x != ps[2] && m1.m().contains_key(x) ==> #[trigger] m2.m()[x] == m1.m()[x], m2.m()[ps[2]] == add_e(m1.m()[ps[2]], rs(g, 0, n)),
{
    assert forall|k: int| 0 <= k < n implies #[trigger] cell(ps, ss, 2, k) == ps[2] by { assert(k * 0 == 0); }
    assert forall|x: int| x != ps[2] && m1.m().contains_key(x) implies #[trigger] m2.m()[x] == m1.m()[x] by {
        lemma_rs_zero(kv(m1, ps, ss, x), 0, n); ax_add_zero(m1.m()[x]);
    }
    let d = ps[2]; let h = kv(m1, ps, ss, d);
    assert(m1.m().contains_key(cell(ps, ss, 2, 0)));
    assert forall|k: int| 0 <= k < n implies #[trigger] h(k) == g(k) by { lemma_pv2(m1, ps, ss, k); lemma_cell_unit(ps, ss, 2, k); assert(cell(ps, ss, 2, k) == d); }
    lemma_rs_ext(h, g, 0, n);
}
impl NdArray {
//@fn src/linalg/matrix_ops.rs :: impl NdArray :: dot
//@sig pub fn dot(&self, other: &NdArray, mem: &mut Mem) -> (r: NdArray)
//@sigof dot:mp
//@call .as_ref => !id
//@call NdArray::scalar => nd_scalar
//@call T::default => E::default_value
//@call SumOfProductsType::sum_of_products_in_strides_n_n_out_stride_0 => SumOfProductsType::sum_of_products_in_strides_n_n_out_stride_0 +mem
//@requires self.wf(), other.wf(), self.readable(*old(mem)), other.readable(*old(mem))
//@panics self.sh().len() != 1 || other.sh().len() != 1 || self.sh()[0] != other.sh()[0]
//@ensures is_scalar(r, rs(vdot(*self, *other, *old(mem)), 0, self.sh()[0] as int), *old(mem), *final(mem))
//@start
    let ghost m0 = *mem; let ghost n = self.sh()[0] as int; let ghost g = vdot(*self, *other, m0); let ghost bad = self.sh().len() != 1 || other.sh().len() != 1 || self.sh()[0] != other.sh()[0];
    proof { lemma_wfl(self.sh(), self.st()); lemma_wfl(other.sh(), other.st()); ax_dflt(); lemma_prod_nonneg(self.sh()); }
//@after nd_scalar
    let ghost m1 = *mem; let ghost ps = seq![self.ptr.a(), other.ptr.a(), result.ptr.a()]; let ghost ss = seq![self.st()[0], other.st()[0], 0];
    proof {
        assert(prod(Seq::<usize>::empty()) == 1);
        assert(!m0.m().contains_key(result.ptr.a())) by { assert(result.ad(0) == result.ptr.a()); }
        assert forall|k: int| 0 <= k < n implies m0.m().contains_key(#[trigger] cell(ps, ss, 0, k)) by { lemma_at1(*self, k); }
        assert forall|k: int| 0 <= k < n implies m0.m().contains_key(#[trigger] cell(ps, ss, 1, k)) by { lemma_at1(*other, k); }
        lemma_at1(*self, 0); lemma_at1(*other, 0);
        lemma_kdot_in(m0, m1, ps, ss, n);
    }
//@before SumOfProductsType::sum_of_products_in_strides_n_n_out_stride_0
    proof { assert(adr([self.ptr, other.ptr, result.ptr]@) =~= ps); assert([self.st()[0], other.st()[0], 0usize]@ =~= ss); }
//@ret
    proof {
        assert forall|k: int| 0 <= k < n implies #[trigger] g(k) == mul_e(m1.m()[cell(ps, ss, 0, k)], m1.m()[cell(ps, ss, 1, k)]) by { lemma_at1(*self, k); lemma_at1(*other, k); }
        lemma_kdot_out(m1, *mem, ps, ss, n, g); ax_add_zero(rs(g, 0, n)); ax_add_comm(rs(g, 0, n), E::zero_());
    }
//@end
//@fn src/linalg/matrix_ops.rs :: trait MatrixOps :: matrix_vector_product
//@sig pub fn matrix_vector_product(matrix: &NdArray, vector: &NdArray, mem: &mut Mem) -> (r: NdArray)
//@sigof matrix_vector_product:m
//@flag elem_vec
//@call Self::default => E::default_value
//@call Self::sum_of_products_in_strides_n_n_out_stride_0 => SumOfProductsType::sum_of_products_in_strides_n_n_out_stride_0 +mem
//@call !overrides => MatrixOps/matrix_vector_product
//@requires matrix.wf(), vector.wf(), matrix.readable(*old(mem)), vector.readable(*old(mem)), matrix.sh().len() == 2, vector.sh().len() == 1, matrix.sh()[1] == vector.sh()[0]
//@ensures is_new(r, seq![matrix.sh()[0]], *old(mem), *final(mem)), forall|i: int| 0 <= i < matrix.sh()[0] ==> #[trigger] final(mem).m()[r.ad(i)] == rs(mdot(*matrix, *vector, *old(mem), i), 0, vector.sh()[0] as int)
//@start
    let ghost m0 = *mem; let ghost (nr, n) = (matrix.sh()[0] as int, matrix.sh()[1] as int);
    proof { lemma_wfl(matrix.sh(), matrix.st()); lemma_wfl(vector.sh(), vector.st()); ax_dflt(); lemma_prod_nonneg(matrix.sh()); lemma_prod2(matrix.sh()); assert(matrix.sh()[0] > 0); assert(matrix.sh()[1] > 0); assert(nr <= nr * n) by (nonlinear_arith) requires nr > 0, n > 0; lemma_prod1(); }
//@loop 0 before
    let ghost m1 = *mem; let ghost q = result.ptr.a(); let ghost ss = seq![matrix.st()[1], vector.st()[0], 0usize];
//@loop 0
    invariant matrix_row.a() == matrix.ptr.a() + vxc0 * matrix.st()[0], dst.a() == q + vxc0, mem.m().dom() == m1.m().dom(), mem.blocks() == m1.blocks(), nr == rows, n == cols, strides@ == ss,
        forall|x: int| !(q <= x < q + nr) && m1.m().contains_key(x) ==> #[trigger] mem.m()[x] == m1.m()[x],
        forall|i: int| 0 <= i < vxc0 ==> #[trigger] mem.m()[q + i] == rs(mdot(*matrix, *vector, m0, i), 0, n),
        forall|i: int| vxc0 <= i < nr ==> #[trigger] mem.m()[q + i] == E::zero_(),
//@loop 0 start
    let ghost i = vxc0 - 1; let ghost m2 = *mem; let ghost ps = seq![matrix_row.a(), vector.ptr.a(), dst.a()]; let ghost g = mdot(*matrix, *vector, m0, i);
    proof {
        assert(m1.m().contains_key(q + i)); assert(m1.m().dom().contains(q + i));
        assert forall|x: int| m0.m().contains_key(x) implies #[trigger] m2.m().contains_key(x) by { assert(m1.m().contains_key(x)); assert(m1.m().dom().contains(x)); }
        assert forall|k: int| 0 <= k < n implies m0.m().contains_key(#[trigger] cell(ps, ss, 0, k)) by { lemma_at2(*matrix, i, k); }
        assert forall|k: int| 0 <= k < n implies m0.m().contains_key(#[trigger] cell(ps, ss, 1, k)) by { lemma_at1(*vector, k); }
        lemma_at2(*matrix, i, 0); lemma_at1(*vector, 0);
        lemma_kdot_in(m0, m2, ps, ss, n);
        assert(i * matrix.st()[0] + matrix.st()[0] == (i + 1) * matrix.st()[0]) by (nonlinear_arith);
        assert forall|k: int| 0 <= k < n implies #[trigger] g(k) == mul_e(m2.m()[cell(ps, ss, 0, k)], m2.m()[cell(ps, ss, 1, k)]) by {
            lemma_at2(*matrix, i, k); lemma_at1(*vector, k);
            let (x, y) = (cell(ps, ss, 0, k), cell(ps, ss, 1, k));
            assert(m0.m().contains_key(x)); assert(m0.m().contains_key(y));
            assert(m1.m()[x] == m0.m()[x]); assert(m1.m()[y] == m0.m()[y]);
            assert(!(q <= x < q + nr)) by { if q <= x < q + nr { assert(!m0.m().contains_key(x)); } }
            assert(!(q <= y < q + nr)) by { if q <= y < q + nr { assert(!m0.m().contains_key(y)); } }
        }
    }
//@before SumOfProductsType::sum_of_products_in_strides_n_n_out_stride_0
    proof { assert(adr([matrix_row, vector.ptr, dst]@) =~= ps); }
//@loop 0 end
    proof {
        lemma_kdot_out(m2, *mem, ps, ss, n, g); ax_add_zero(rs(g, 0, n)); ax_add_comm(rs(g, 0, n), E::zero_());
        assert(m2.m()[q + i] == E::zero_());
        assert forall|j: int| 0 <= j < vxc0 implies #[trigger] mem.m()[q + j] == rs(mdot(*matrix, *vector, m0, j), 0, n) by { if j < i { assert(m2.m()[q + j] == rs(mdot(*matrix, *vector, m0, j), 0, n)); assert(m1.m().contains_key(q + j)); assert(m1.m().dom().contains(q + j)); } }
        assert forall|j: int| vxc0 <= j < nr implies #[trigger] mem.m()[q + j] == E::zero_() by { assert(m2.m()[q + j] == E::zero_()); assert(m1.m().contains_key(q + j)); assert(m1.m().dom().contains(q + j)); }
    }
//@ret
    proof {
        assert(vx_ret.sh() =~= seq![matrix.sh()[0]]);
        assert forall|x: int| q <= x < q + vx_ret.capacity implies !(#[trigger] m0.m().contains_key(x)) && mem.m().contains_key(x) by { assert(m1.m().contains_key(x)); assert(m1.m().dom().contains(x)); }
        assert forall|x: int| #[trigger] m0.m().contains_key(x) implies mem.m().contains_key(x) by { assert(m1.m().contains_key(x)); assert(m1.m().dom().contains(x)); }
        assert forall|x: int| m0.m().contains_key(x) implies #[trigger] mem.m()[x] == m0.m()[x] by { assert(m1.m()[x] == m0.m()[x]); assert(m1.m().contains_key(x)); }
        assert forall|i: int| 0 <= i < matrix.sh()[0] implies #[trigger] mem.m()[vx_ret.ad(i)] == rs(mdot(*matrix, *vector, m0, i), 0, n) by { assert(vx_ret.ad(i) == q + i); assert(mem.m()[q + i] == rs(mdot(*matrix, *vector, m0, i), 0, n)); }
    }
//@end
}
/// r: the sum of the diagonal (axes i and j, offset o) of a at every index of the other axes
pub open spec fn is_trace(r: NdArray, a: NdArray, i: int, j: int, o: int, m0: Mem, m1: Mem) -> bool {
    exists|d: NdArray| is_diag(d, a, i, j, o) && #[trigger] is_reduced(r, d, axes_mask(seq![-1isize], d.sh().len() as int), f_sum(), E::zero_(), m0, m1)
}
pub proof fn lemma_rm2_two(sh: Seq<usize>, i: int, j: int)
    requires i != j,
    ensures rm2(sh, i, j).len() == sh.len() - (if 0 <= i < sh.len() { 1int } else { 0 }) - (if 0 <= j < sh.len() { 1int } else { 0 }),
    decreases sh.len(),
{ if sh.len() > 0 { lemma_rm2_two(sh.drop_last(), i, j); } }
pub proof fn lemma_diag_readable(d: NdArray, a: NdArray, i: int, j: int, o: int, m: Mem)
    requires is_diag(d, a, i, j, o), a.wf(), a.readable(m),
    ensures d.readable(m),
{
    assert forall|k: int| 0 <= k < prod(d.sh()) implies m.m().contains_key(#[trigger] d.ad(k)) by {
        lemma_wfl(d.sh(), d.st()); lemma_wfl(a.sh(), a.st());
        let jx = unlin(d.sh(), k); lemma_unlin(d.sh(), k); lemma_off_lin(d.sh(), d.st(), jx);
        let ix = dsrc(a.sh().len(), i, j, o, jx);
        assert(inb(a.sh(), ix)); lemma_off_lin(a.sh(), a.st(), ix);
        assert(m.m().contains_key(a.ad(lin(a.sh(), ix))));
    }
}
impl NdArray {
    pub fn sum_along_last(&self, axis: isize, mem: &mut Mem) -> (r: NdArray)
        requires self.wf(), self.readable(*old(mem)), 1 <= self.sh().len() <= MAX_DIMS, axis == -1,
        ensures is_reduced(r, *self, axes_mask(seq![-1isize], self.sh().len() as int), f_sum(), E::zero_(), *old(mem), *final(mem)),
    { let a = [axis]; proof { assert(a@ =~= seq![-1isize]); } self.sum_along(&a, mem, Ghost(false)) }
//@fn src/linalg/matrix_ops.rs :: impl NdArray :: offset_trace_along
//@sig pub fn offset_trace_along(&self, offset: isize, axis1: isize, axis2: isize, mem: &mut Mem) -> (r: NdArray)
//@sigof offset_trace_along:mp
//@call .sum_along => sum_along_last +mem
//@requires self.wf(), self.readable(*old(mem)), self.sh().len() <= MAX_DIMS, offset > isize::MIN, forall|i: int| 0 <= i < self.st().len() ==> self.st()[i] <= isize::MAX
//@panics !diag_ok(self.sh(), axis1 as int, axis2 as int, offset as int)
//@ensures is_trace(r, *self, axis_abs(axis1 as int, self.sh().len() as int), axis_abs(axis2 as int, self.sh().len() as int), offset as int, *old(mem), *final(mem))
//@before sum_along_last
    proof { lemma_rm2_two(self.sh(), axis_abs(axis1 as int, self.sh().len() as int), axis_abs(axis2 as int, self.sh().len() as int)); lemma_diag_readable(diagonal, *self, axis_abs(axis1 as int, self.sh().len() as int), axis_abs(axis2 as int, self.sh().len() as int), offset as int, *mem); }
//@end
//@fn src/linalg/matrix_ops.rs :: impl NdArray :: trace_along
//@sig pub fn trace_along(&self, axis1: isize, axis2: isize, mem: &mut Mem) -> (r: NdArray)
//@sigof trace_along:mp
//@requires self.wf(), self.readable(*old(mem)), self.sh().len() <= MAX_DIMS, forall|i: int| 0 <= i < self.st().len() ==> self.st()[i] <= isize::MAX
//@panics !diag_ok(self.sh(), axis1 as int, axis2 as int, 0)
//@ensures is_trace(r, *self, axis_abs(axis1 as int, self.sh().len() as int), axis_abs(axis2 as int, self.sh().len() as int), 0, *old(mem), *final(mem))
//@end
//@fn src/linalg/matrix_ops.rs :: impl NdArray :: offset_trace
//@sig pub fn offset_trace(&self, offset: isize, mem: &mut Mem) -> (r: NdArray)
//@sigof offset_trace:mp
//@requires self.wf(), self.readable(*old(mem)), self.sh().len() <= MAX_DIMS, offset > isize::MIN, forall|i: int| 0 <= i < self.st().len() ==> self.st()[i] <= isize::MAX
//@panics !diag_ok(self.sh(), 0, 1, offset as int)
//@ensures is_trace(r, *self, 0, 1, offset as int, *old(mem), *final(mem))
//@end
//@fn src/linalg/matrix_ops.rs :: impl NdArray :: trace
//@sig pub fn trace(&self, mem: &mut Mem) -> (r: NdArray)
//@sigof trace:mp
//@requires self.wf(), self.readable(*old(mem)), self.sh().len() <= MAX_DIMS, forall|i: int| 0 <= i < self.st().len() ==> self.st()[i] <= isize::MAX
//@panics !diag_ok(self.sh(), 0, 1, 0)
//@ensures is_trace(r, *self, 0, 1, 0, *old(mem), *final(mem))
//@end
}
