//@use core geom mem arr iter bcast heap kern
use vstd::arithmetic::mul::*;
use vstd::arithmetic::div_mod::*;

// ===================================================================== elementwise operators on arrays
/// the elements of an array are where its own addresses say
pub proof fn lemma_lad_ad(a: NdArray)
    ensures forall|k: int| 0 <= k < prod(a.sh()) ==> #[trigger] lad(a.ptr.a(), a.sh(), a.st())[k] == a.ad(k), lad(a.ptr.a(), a.sh(), a.st()).len() == prod(a.sh()),
{ lemma_prod_nonneg(a.sh()); }
pub proof fn lemma_reads(a: NdArray, m: Mem)
    requires a.readable(m),
    ensures reads(m, lad(a.ptr.a(), a.sh(), a.st())),
{ let l = lad(a.ptr.a(), a.sh(), a.st()); lemma_lad_ad(a); assert forall|k: int| 0 <= k < l.len() implies m.m().contains_key(#[trigger] l[k]) by { assert(m.m().contains_key(a.ad(k))); } }
/// fresh memory is not read through an older array
pub proof fn lemma_nohaz_fresh(l: Seq<int>, a: Mem, b: Mem, p: int, c: int, n: int)
    requires reads(a, l), fresh(a, b, p, c), n <= c, l.len() == n, grew(a, b),
    ensures nohaz(l, p), reads(b, l),
{
    assert forall|j: int| 0 <= j < l.len() implies !(p <= #[trigger] l[j] < p + j) by { assert(a.m().contains_key(l[j])); }
    assert forall|j: int| 0 <= j < l.len() implies b.m().contains_key(#[trigger] l[j]) by { assert(a.m().contains_key(l[j])); }
}
/// the element of a broadcast of a at flat position k of shape `to`, and its address
pub proof fn lemma_bread(a: NdArray, m: Mem, to: Seq<usize>)
    requires a.wf(), a.readable(m), bc_ok(a.sh(), to), 0 < prod(to) <= isize::MAX,
    ensures wfl(to, bc_st(a.sh(), a.st(), to.len() as int)), reads(m, lad(a.ptr.a(), to, bc_st(a.sh(), a.st(), to.len() as int))), lad(a.ptr.a(), to, bc_st(a.sh(), a.st(), to.len() as int)).len() == prod(to),
        forall|jx: Seq<int>| inb(to, jx) ==> 0 <= #[trigger] lin(to, jx) < prod(to) && lad(a.ptr.a(), to, bc_st(a.sh(), a.st(), to.len() as int))[lin(to, jx)] == a.at_ix(bsrc(a.sh(), jx)),
{
    let st = bc_st(a.sh(), a.st(), to.len() as int);
    let l = lad(a.ptr.a(), to, st);
    lemma_bc(a.sh(), a.st(), to);
    lemma_wfl(a.sh(), a.st());
    lemma_pz_prod(to);
    assert forall|jx: Seq<int>| inb(to, jx) implies 0 <= #[trigger] lin(to, jx) < prod(to) && l[lin(to, jx)] == a.at_ix(bsrc(a.sh(), jx)) by { lemma_off_lin(to, st, jx); }
    assert forall|k: int| 0 <= k < l.len() implies m.m().contains_key(#[trigger] l[k]) by {
        lemma_unlin(to, k);
        let jx = unlin(to, k);
        assert(l[lin(to, jx)] == a.at_ix(bsrc(a.sh(), jx)));
        let u = bsrc(a.sh(), jx);
        lemma_off_lin(a.sh(), a.st(), u);
        assert(m.m().contains_key(a.ad(lin(a.sh(), u))));
    }
}
/// r = a op b
pub open spec fn is_bin(r: NdArray, a: NdArray, b: NdArray, m0: Mem, m1: Mem) -> bool {
    is_new(r, bc2(a.sh(), b.sh()), m0, m1)
    && forall|jx: Seq<int>| inb(r.sh(), jx) ==> #[trigger] m1.m()[r.at_ix(jx)] == op2(m0.m()[a.at_ix(bsrc(a.sh(), jx))], m0.m()[b.at_ix(bsrc(b.sh(), jx))])
}
/// r = a op x
pub open spec fn is_scal(r: NdArray, a: NdArray, x: E, m0: Mem, m1: Mem) -> bool {
    is_new(r, a.sh(), m0, m1) && forall|k: int| 0 <= k < prod(a.sh()) ==> #[trigger] m1.m()[r.ad(k)] == op2(m0.m()[a.ad(k)], x)
}
/// two arrays that can be combined, with a result that can exist
pub open spec fn bin_args(a: NdArray, b: NdArray, m: Mem) -> bool {
    a.wf() && b.wf() && a.readable(m) && b.readable(m) && (bc2_ok(a.sh(), b.sh()) ==> 0 < prod(bc2(a.sh(), b.sh())) <= isize::MAX) && a.sh().len() <= MAX_DIMS && b.sh().len() <= MAX_DIMS
}
/// memory after a fresh buffer is written
pub proof fn lemma_fresh_frame(m0: Mem, m1: Mem, m2: Mem, p: int, c: int, n: int)
    requires grew(m0, m1), fresh(m0, m1, p, c), 0 <= n <= c, frame(m1, m2, p, n),
    ensures grew(m0, m2), fresh(m0, m2, p, c),
{
    assert forall|x: int| #[trigger] m0.m().contains_key(x) implies m2.m().contains_key(x) by { assert(m1.m().contains_key(x)); }
    assert forall|x: int| m0.m().contains_key(x) implies #[trigger] m2.m()[x] == m0.m()[x] by { assert(m1.m().contains_key(x)); assert(m1.m()[x] == m0.m()[x]); }
    assert forall|x: int| p <= x < p + c implies !(#[trigger] m0.m().contains_key(x)) && m2.m().contains_key(x) by { assert(!m0.m().contains_key(x)); assert(m1.m().contains_key(x)); }
}

//@fn src/ndarray/binary_ops.rs :: macro implement_binary_ops with binary_op=Xop,binary_op_trait=BinOp,operator=^,method=vop / impl Xop<&NdArray<T>> for &NdArray<T> :: vop
//@sig pub fn nd_vop(self_: &NdArray, rhs: &NdArray, mem: &mut Mem) -> (r: NdArray)
//@flag elem_vec
//@call T::default => E::default_value
//@requires bin_args(*self_, *rhs, *old(mem))
//@panics !bc2_ok(self_.sh(), rhs.sh())
//@ensures is_bin(r, *self_, *rhs, *old(mem), *final(mem)), bc2_ok(self_.sh(), rhs.sh())
//@start
    let ghost m0 = *mem; let ghost to = bc2(self_.sh(), rhs.sh());
    proof { if bc2_ok(self_.sh(), rhs.sh()) { lemma_bc2(self_.sh(), rhs.sh()); lemma_pz_prod(to); lemma_bread(*self_, m0, to); lemma_bread(*rhs, m0, to); } }
//@before BinOp::vop
    let ghost m1 = *mem; let ghost q = data.ptr.a(); let ghost n = prod(to);
    let ghost l = lad(self_.ptr.a(), to, lhs_stride@); let ghost r = lad(rhs.ptr.a(), to, rhs_stride@);
    proof { lemma_nohaz_fresh(l, m0, m1, q, data.cap as int, n); lemma_nohaz_fresh(r, m0, m1, q, data.cap as int, n); }
//@ret
    proof {
        lemma_fresh_frame(m0, m1, *mem, q, vx_ret.capacity as int, n);
        assert forall|jx: Seq<int>| inb(to, jx) implies #[trigger] mem.m()[vx_ret.at_ix(jx)] == op2(m0.m()[self_.at_ix(bsrc(self_.sh(), jx))], m0.m()[rhs.at_ix(bsrc(rhs.sh(), jx))]) by {
            let k = lin(to, jx);
            lemma_off_lin(to, vx_ret.st(), jx);
            assert(vx_ret.ad(k) == q + k);
            assert(mem.m()[q + k] == op2(m1.m()[l[k]], m1.m()[r[k]]));
            assert(m0.m().contains_key(l[k])); assert(m0.m().contains_key(r[k]));
        }
    }
//@end
//@fn src/ndarray/binary_ops.rs :: macro implement_binary_ops with binary_op=Xop,binary_op_trait=BinOp,operator=^,method=vop / impl Xop<T> for &NdArray<T> :: vop
//@sig pub fn nd_vop_scalar(self_: &NdArray, rhs: E, mem: &mut Mem) -> (r: NdArray)
//@flag elem_vec
//@call T::default => E::default_value
//@requires self_.wf(), self_.readable(*old(mem)), self_.sh().len() <= MAX_DIMS
//@ensures is_scal(r, *self_, rhs, *old(mem), *final(mem))
//@start
    let ghost m0 = *mem; let ghost n = prod(self_.sh());
    proof { lemma_wfl(self_.sh(), self_.st()); lemma_reads(*self_, m0); lemma_lad_ad(*self_); }
//@before BinOp::vop_scalar
    let ghost m1 = *mem; let ghost q = data.ptr.a(); let ghost l = lad(self_.ptr.a(), self_.sh(), self_.st());
    proof { lemma_nohaz_fresh(l, m0, m1, q, data.cap as int, n); }
//@ret
    proof {
        lemma_fresh_frame(m0, m1, *mem, q, vx_ret.capacity as int, n);
        assert forall|k: int| 0 <= k < n implies #[trigger] mem.m()[vx_ret.ad(k)] == op2(m0.m()[self_.ad(k)], rhs) by {
            assert(vx_ret.ad(k) == q + k); assert(l[k] == self_.ad(k));
            assert(mem.m()[q + k] == op2(m1.m()[l[k]], rhs));
            assert(m0.m().contains_key(l[k]));
        }
    }
//@end
//@fn src/ndarray/binary_ops.rs :: macro implement_binary_ops with binary_op=Xop,binary_op_trait=BinOp,operator=^,method=vop / impl Xop<NdArray<T>> for NdArray<T> :: vop
//@sig pub fn nd_vop_oo(self_: NdArray, rhs: NdArray, mem: &mut Mem) -> (r: NdArray)
//@call op^ => &nd_vop
//@requires bin_args(self_, rhs, *old(mem))
//@panics !bc2_ok(self_.sh(), rhs.sh())
//@ensures is_bin(r, self_, rhs, *old(mem), *final(mem)), bc2_ok(self_.sh(), rhs.sh())
//@end
//@fn src/ndarray/binary_ops.rs :: macro implement_binary_ops with binary_op=Xop,binary_op_trait=BinOp,operator=^,method=vop / impl Xop<&NdArray<T>> for NdArray<T> :: vop
//@sig pub fn nd_vop_or(self_: NdArray, rhs: &NdArray, mem: &mut Mem) -> (r: NdArray)
//@call op^ => &nd_vop
//@requires bin_args(self_, *rhs, *old(mem))
//@panics !bc2_ok(self_.sh(), rhs.sh())
//@ensures is_bin(r, self_, *rhs, *old(mem), *final(mem)), bc2_ok(self_.sh(), rhs.sh())
//@end
//@fn src/ndarray/binary_ops.rs :: macro implement_binary_ops with binary_op=Xop,binary_op_trait=BinOp,operator=^,method=vop / impl Xop<NdArray<T>> for &NdArray<T> :: vop
//@sig pub fn nd_vop_ro(self_: &NdArray, rhs: NdArray, mem: &mut Mem) -> (r: NdArray)
//@call op^ => &nd_vop
//@requires bin_args(*self_, rhs, *old(mem))
//@panics !bc2_ok(self_.sh(), rhs.sh())
//@ensures is_bin(r, *self_, rhs, *old(mem), *final(mem)), bc2_ok(self_.sh(), rhs.sh())
//@end
//@fn src/ndarray/binary_ops.rs :: macro implement_binary_ops with binary_op=Xop,binary_op_trait=BinOp,operator=^,method=vop / impl Xop<T> for NdArray<T> :: vop
//@sig pub fn nd_vop_scalar_o(self_: NdArray, rhs: E, mem: &mut Mem) -> (r: NdArray)
//@call op^ => &nd_vop_scalar
//@requires self_.wf(), self_.readable(*old(mem)), self_.sh().len() <= MAX_DIMS
//@ensures is_scal(r, self_, rhs, *old(mem), *final(mem))
//@end

// ===================================================================== negation
pub uninterp spec fn neg1(a: E) -> E;
#[verifier::external_body]
pub fn vx_neg(a: E) -> (r: E) ensures r == neg1(a), { unimplemented!() }
pub open spec fn un_pre(m: Mem, l: Seq<int>, d: int, n: int) -> bool { l.len() == n && reads(m, l) && writes(m, d, n) && nohaz(l, d) }
pub open spec fn un_done(m0: Mem, m1: Mem, l: Seq<int>, d: int, n: int) -> bool { frame(m0, m1, d, n) && forall|k: int| 0 <= k < n ==> #[trigger] m1.m()[d + k] == neg1(m0.m()[l[k]]) }
pub struct UnaryOps { }
impl UnaryOps {
//@fn src/ops/unary_ops.rs :: trait UnaryOps :: neg_stride_n
//@sig pub fn neg_stride_n(operand0: Ptr, stride: usize, dst0: Ptr, count0: usize, mem: &mut Mem)
//@flag elem_neg
//@requires un_pre(*old(mem), uad(operand0.a(), stride as int, count0 as int), dst0.a(), count0 as int)
//@ensures un_done(*old(mem), *final(mem), uad(operand0.a(), stride as int, count0 as int), dst0.a(), count0 as int)
//@start
    let ghost m0 = *mem; let ghost n = count0 as int; let ghost d = dst0.a(); let ghost (p, s) = (operand0.a(), stride as int); let ghost l = uad(p, s, n);
//@loop 0
    invariant mem.blocks() == m0.blocks(), mem.m().dom() == m0.m().dom(), un_pre(m0, l, d, n), count <= n, dst.a() == d + (n - count),
        forall|x: int| !(d <= x < d + (n - count)) ==> #[trigger] mem.m()[x] == m0.m()[x],
        forall|k: int| 0 <= k < n - count ==> #[trigger] mem.m()[d + k] == neg1(m0.m()[l[k]]),
        operand.a() == p + (n - count) * s, s == stride,
    decreases count,
//@loop 0 start
    let ghost i = n - count; let ghost m2 = *mem;
    proof {
        assert(m0.m().contains_key(l[i])); assert(m0.m().dom().contains(l[i])); assert(m0.m().contains_key(d + i)); assert(m0.m().dom().contains(d + i));
        assert(operand.a() == l[i]); assert((i + 1) * s == i * s + s) by (nonlinear_arith);
    }
//@loop 0 end
    proof { assert forall|k: int| 0 <= k < n - count implies #[trigger] mem.m()[d + k] == neg1(m0.m()[l[k]]) by { if k < i { assert(m2.m()[d + k] == neg1(m0.m()[l[k]])); } } }
//@end
//@fn src/ops/unary_ops.rs :: trait UnaryOps :: neg_stride_0
//@sig pub fn neg_stride_0(operand: Ptr, dst: Ptr, count: usize, mem: &mut Mem)
//@requires un_pre(*old(mem), uad(operand.a(), 0, count as int), dst.a(), count as int)
//@ensures un_done(*old(mem), *final(mem), uad(operand.a(), 0, count as int), dst.a(), count as int)
//@end
//@fn src/ops/unary_ops.rs :: trait UnaryOps :: neg_stride_1
//@sig pub fn neg_stride_1(operand: Ptr, dst: Ptr, count: usize, mem: &mut Mem)
//@requires un_pre(*old(mem), uad(operand.a(), 1, count as int), dst.a(), count as int)
//@ensures un_done(*old(mem), *final(mem), uad(operand.a(), 1, count as int), dst.a(), count as int)
//@end
//@fn src/ops/unary_ops.rs :: trait UnaryOps :: neg_unspecialized
//@sig pub fn neg_unspecialized(operand: Ptr, shape: &[usize], stride: &[usize], dst0: Ptr, mem: &mut Mem)
//@flag elem_neg
//@requires fits(shape@, stride@), shape@.len() <= MAX_DIMS, un_pre(*old(mem), lad(operand.a(), shape@, stride@), dst0.a(), prod(shape@))
//@ensures un_done(*old(mem), *final(mem), lad(operand.a(), shape@, stride@), dst0.a(), prod(shape@))
//@start
    let ghost m0 = *mem; let ghost n = prod(shape@); let ghost d = dst0.a(); let ghost p = operand.a(); let ghost l = lad(p, shape@, stride@);
    proof { lemma_prod_nonneg(shape@); }
//@loop 0 before
    let ghost g0 = vxg0a;
//@loop 0
    invariant mem.blocks() == m0.blocks(), mem.m().dom() == m0.m().dom(), un_pre(m0, l, d, n), dst.a() == d + (vxg0a.pos()),
        forall|x: int| !(d <= x < d + (vxg0a.pos())) ==> #[trigger] mem.m()[x] == m0.m()[x],
        forall|k: int| 0 <= k < vxg0a.pos() ==> #[trigger] mem.m()[d + k] == neg1(m0.m()[l[k]]),
        vxg0a.ok(), vxg0a.same(&g0), vxg0a.cnt() == n,
    decreases n - vxg0a.pos(),
//@loop 0 start
    let ghost i = vxg0a.pos() - 1; let ghost m2 = *mem;
    proof {
        assert(m0.m().contains_key(l[i])); assert(m0.m().dom().contains(l[i])); assert(m0.m().contains_key(d + i)); assert(m0.m().dom().contains(d + i));
        assert(g0.at(i) == off(shape@, stride@, i)); assert(p + index == l[i]);
    }
//@loop 0 end
    proof { assert forall|k: int| 0 <= k < vxg0a.pos() implies #[trigger] mem.m()[d + k] == neg1(m0.m()[l[k]]) by { if k < i { assert(m2.m()[d + k] == neg1(m0.m()[l[k]])); } } }
//@end
//@fn src/ops/unary_ops.rs :: trait UnaryOps :: neg
//@sig pub fn neg(operand: Ptr, shape0: &[usize], stride0: &[usize], dst: Ptr, mem: &mut Mem)
//@flag elem_neg
//@requires wfl(shape0@, stride0@), shape0@.len() <= MAX_DIMS, un_pre(*old(mem), lad(operand.a(), shape0@, stride0@), dst.a(), prod(shape0@))
//@ensures un_done(*old(mem), *final(mem), lad(operand.a(), shape0@, stride0@), dst.a(), prod(shape0@))
//@start
    let ghost l = lad(operand.a(), shape0@, stride0@);
    proof {
        lemma_wfl(shape0@, stride0@);
        if shape0@.len() == 0 { lemma_prod_empty(shape0@, stride0@); assert(l[0] == operand.a()); assert(old(mem).m().contains_key(l[0])); }
    }
//@after collapse_to_uniform_stride
    proof {
        lemma_lad_same(operand.a(), shape@, stride@, shape0@, stride0@);
        if shape@.len() == 1 { lemma_lad1(operand.a(), shape@, stride@); }
    }
//@end
}
//@fn src/ndarray/unary_ops.rs :: impl Neg for &NdArray<T> :: neg
//@sig pub fn nd_neg(self_: &NdArray, mem: &mut Mem) -> (r: NdArray)
//@flag elem_vec
//@call T::default => E::default_value
//@requires self_.wf(), self_.readable(*old(mem)), self_.sh().len() <= MAX_DIMS
//@ensures is_neg(r, *self_, *old(mem), *final(mem))
//@start
    let ghost m0 = *mem; let ghost n = prod(self_.sh());
    proof { lemma_wfl(self_.sh(), self_.st()); lemma_reads(*self_, m0); lemma_lad_ad(*self_); }
//@before UnaryOps::neg
    let ghost m1 = *mem; let ghost q = data.ptr.a(); let ghost l = lad(self_.ptr.a(), self_.sh(), self_.st());
    proof { lemma_nohaz_fresh(l, m0, m1, q, data.cap as int, n); }
//@ret
    proof {
        lemma_fresh_frame(m0, m1, *mem, q, vx_ret.capacity as int, n);
        assert forall|k: int| 0 <= k < n implies #[trigger] mem.m()[vx_ret.ad(k)] == neg1(m0.m()[self_.ad(k)]) by {
            assert(vx_ret.ad(k) == q + k); assert(l[k] == self_.ad(k));
            assert(mem.m()[q + k] == neg1(m1.m()[l[k]]));
            assert(m0.m().contains_key(l[k]));
        }
    }
//@end
//@fn src/ndarray/unary_ops.rs :: impl Neg for NdArray<T> :: neg
//@sig pub fn nd_neg_o(self_: NdArray, mem: &mut Mem) -> (r: NdArray)
//@call op-1 => &nd_neg
//@requires self_.wf(), self_.readable(*old(mem)), self_.sh().len() <= MAX_DIMS
//@ensures is_neg(r, self_, *old(mem), *final(mem))
//@end
pub open spec fn is_neg(r: NdArray, a: NdArray, m0: Mem, m1: Mem) -> bool {
    is_new(r, a.sh(), m0, m1) && forall|k: int| 0 <= k < prod(a.sh()) ==> #[trigger] m1.m()[r.ad(k)] == neg1(m0.m()[a.ad(k)])
}
