//@use core geom mem arr iter bcast heap
use vstd::arithmetic::mul::*;
use vstd::arithmetic::div_mod::*;

// ===================================================================== elementwise kernels: an arbitrary binary operator
pub uninterp spec fn op2(a: E, b: E) -> E;
#[verifier::external_body]
pub fn vx_op2(a: E, b: E) -> (r: E) ensures r == op2(a, b), { unimplemented!() }
/// n addresses from p on, s apart
pub open spec fn uad(p: int, s: int, n: int) -> Seq<int> { Seq::new(n as nat, |k: int| p + k * s) }
/// the addresses of the elements of a layout, in row-major order
pub open spec fn lad(p: int, sh: Seq<usize>, st: Seq<usize>) -> Seq<int> { Seq::new(prod(sh) as nat, |k: int| p + off(sh, st, k)) }
pub open spec fn reads(m: Mem, l: Seq<int>) -> bool { forall|k: int| 0 <= k < l.len() ==> m.m().contains_key(#[trigger] l[k]) }
pub open spec fn writes(m: Mem, d: int, n: int) -> bool { forall|x: int| d <= x < d + n ==> #[trigger] m.m().contains_key(x) }
/// writing d, d + 1, .. in step with reading l[0], l[1], .. never overwrites an element before it is read
pub open spec fn nohaz(l: Seq<int>, d: int) -> bool { forall|j: int| 0 <= j < l.len() ==> !(d <= #[trigger] l[j] < d + j) }
/// nothing but the n cells from d on changes
pub open spec fn frame(m0: Mem, m1: Mem, d: int, n: int) -> bool {
    m1.blocks() == m0.blocks() && (forall|x: int| #[trigger] m0.m().contains_key(x) ==> m1.m().contains_key(x))
    && (forall|x: int| m0.m().contains_key(x) && !(d <= x < d + n) ==> #[trigger] m1.m()[x] == m0.m()[x])
}
pub open spec fn bin_pre(m: Mem, l: Seq<int>, r: Seq<int>, d: int, n: int) -> bool {
    l.len() == n && r.len() == n && reads(m, l) && reads(m, r) && writes(m, d, n) && nohaz(l, d) && nohaz(r, d)
}
pub open spec fn bin_done(m0: Mem, m1: Mem, l: Seq<int>, r: Seq<int>, d: int, n: int) -> bool {
    frame(m0, m1, d, n) && forall|k: int| 0 <= k < n ==> #[trigger] m1.m()[d + k] == op2(m0.m()[l[k]], m0.m()[r[k]])
}
/// one axis
pub proof fn lemma_lad1(p: int, sh: Seq<usize>, st: Seq<usize>)
    requires sh.len() == 1, st.len() == 1,
    ensures lad(p, sh, st) =~= uad(p, st[0] as int, sh[0] as int), prod(sh) == sh[0],
{
    lemma_prod1();
    assert forall|k: int| 0 <= k < sh[0] implies #[trigger] off(sh, st, k) == k * st[0] by {
        lemma_small_mod(k as nat, sh[0] as nat); lemma_basic_div(k, sh[0] as int);
        assert(sh.drop_last().len() == 0);
        assert(off(sh.drop_last(), st.drop_last(), k / (sh.last() as int)) == 0);
    }
}
pub proof fn lemma_lad_same(p: int, s1: Seq<usize>, t1: Seq<usize>, s2: Seq<usize>, t2: Seq<usize>)
    requires same_off(s1, t1, s2, t2), prod(s1) == prod(s2),
    ensures lad(p, s1, t1) =~= lad(p, s2, t2),
{ lemma_prod_nonneg(s1); assert forall|k: int| 0 <= k < prod(s1) implies #[trigger] lad(p, s1, t1)[k] == lad(p, s2, t2)[k] by { assert(off(s1, t1, k) == off(s2, t2, k)); } }

pub struct BinOp { }
impl BinOp {
//@fn src/ops/binary_ops.rs :: macro define_binary_op_trait with trait_name=BinOp,required_trait=BitXor,name=vop,operator=^ / trait BinOp :: vop_stride_n_n
//@sig pub fn vop_stride_n_n(lhs0: Ptr, lhs_stride: usize, rhs0: Ptr, rhs_stride: usize, dst0: Ptr, count0: usize, mem: &mut Mem)
//@call op^ => vx_op2
//@call !overrides => BinaryOp/vop
//@requires bin_pre(*old(mem), uad(lhs0.a(), lhs_stride as int, count0 as int), uad(rhs0.a(), rhs_stride as int, count0 as int), dst0.a(), count0 as int)
//@ensures bin_done(*old(mem), *final(mem), uad(lhs0.a(), lhs_stride as int, count0 as int), uad(rhs0.a(), rhs_stride as int, count0 as int), dst0.a(), count0 as int)
//@start
    let ghost m0 = *mem; let ghost n = count0 as int; let ghost d = dst0.a(); let ghost (p, q, s, t) = (lhs0.a(), rhs0.a(), lhs_stride as int, rhs_stride as int);
    let ghost l = uad(p, s, n); let ghost r = uad(q, t, n);
//@loop 0
    invariant mem.blocks() == m0.blocks(), mem.m().dom() == m0.m().dom(), bin_pre(m0, l, r, d, n), count <= n, dst.a() == d + (n - count),
        forall|x: int| !(d <= x < d + (n - count)) ==> #[trigger] mem.m()[x] == m0.m()[x],
        forall|k: int| 0 <= k < n - count ==> #[trigger] mem.m()[d + k] == op2(m0.m()[l[k]], m0.m()[r[k]]),
        lhs.a() == p + (n - count) * s, rhs.a() == q + (n - count) * t, s == lhs_stride, t == rhs_stride,
    decreases count,
//@loop 0 start
    let ghost i = n - count; let ghost m2 = *mem;
    proof {
        assert(m0.m().contains_key(l[i]) && m0.m().contains_key(r[i])); assert(m0.m().dom().contains(l[i]) && m0.m().dom().contains(r[i]));
        assert(m0.m().contains_key(d + i)); assert(m0.m().dom().contains(d + i));
        assert(lhs.a() == l[i]); assert(rhs.a() == r[i]); assert((i + 1) * s == i * s + s) by (nonlinear_arith);assert((i + 1) * t == i * t + t) by (nonlinear_arith);
    }
//@loop 0 end
    proof {
        assert forall|k: int| 0 <= k < n - count implies #[trigger] mem.m()[d + k] == op2(m0.m()[l[k]], m0.m()[r[k]]) by { if k < i { assert(m2.m()[d + k] == op2(m0.m()[l[k]], m0.m()[r[k]])); } }
    }
//@end
//@fn src/ops/binary_ops.rs :: macro define_binary_op_trait with trait_name=BinOp,required_trait=BitXor,name=vop,operator=^ / trait BinOp :: vop_nonunif_n
//@sig pub fn vop_nonunif_n(lhs: Ptr, lhs_shape: &[usize], lhs_stride: &[usize], rhs0: Ptr, rhs_stride: usize, dst0: Ptr, count0: usize, mem: &mut Mem)
//@call op^ => vx_op2
//@call !overrides => BinaryOp/vop
//@requires fits(lhs_shape@, lhs_stride@), lhs_shape@.len() <= MAX_DIMS, bin_pre(*old(mem), lad(lhs.a(), lhs_shape@, lhs_stride@), uad(rhs0.a(), rhs_stride as int, count0 as int), dst0.a(), count0 as int)
//@ensures bin_done(*old(mem), *final(mem), lad(lhs.a(), lhs_shape@, lhs_stride@), uad(rhs0.a(), rhs_stride as int, count0 as int), dst0.a(), count0 as int)
//@start
    let ghost m0 = *mem; let ghost n = count0 as int; let ghost d = dst0.a(); let ghost (p, q, t) = (lhs.a(), rhs0.a(), rhs_stride as int);
    let ghost l = lad(p, lhs_shape@, lhs_stride@); let ghost r = uad(q, t, n);
    proof { lemma_prod_nonneg(lhs_shape@); }
//@loop 0 before
    let ghost g0 = lhs_indices;
//@loop 0
    invariant mem.blocks() == m0.blocks(), mem.m().dom() == m0.m().dom(), bin_pre(m0, l, r, d, n), count <= n, dst.a() == d + (n - count),
        forall|x: int| !(d <= x < d + (n - count)) ==> #[trigger] mem.m()[x] == m0.m()[x],
        forall|k: int| 0 <= k < n - count ==> #[trigger] mem.m()[d + k] == op2(m0.m()[l[k]], m0.m()[r[k]]),
        lhs_indices.ok(), lhs_indices.same(&g0), lhs_indices.cnt() == n, lhs_indices.pos() == n - count, rhs.a() == q + (n - count) * t, t == rhs_stride,
    decreases count,
//@loop 0 start
    let ghost i = n - count; let ghost m2 = *mem;
    proof {
        assert(m0.m().contains_key(l[i]) && m0.m().contains_key(r[i])); assert(m0.m().dom().contains(l[i]) && m0.m().dom().contains(r[i]));
        assert(m0.m().contains_key(d + i)); assert(m0.m().dom().contains(d + i));
        assert(g0.at(i) == off(lhs_shape@, lhs_stride@, i)); assert(lhs_indices.at(i) == g0.at(i)); assert(p + g0.at(i) == l[i]); assert(rhs.a() == r[i]); assert((i + 1) * t == i * t + t) by (nonlinear_arith);
    }
//@loop 0 end
    proof {
        assert forall|k: int| 0 <= k < n - count implies #[trigger] mem.m()[d + k] == op2(m0.m()[l[k]], m0.m()[r[k]]) by { if k < i { assert(m2.m()[d + k] == op2(m0.m()[l[k]], m0.m()[r[k]])); } }
    }
//@end
//@fn src/ops/binary_ops.rs :: macro define_binary_op_trait with trait_name=BinOp,required_trait=BitXor,name=vop,operator=^ / trait BinOp :: vop_n_nonunif
//@sig pub fn vop_n_nonunif(lhs0: Ptr, lhs_stride: usize, rhs: Ptr, rhs_shape: &[usize], rhs_stride: &[usize], dst0: Ptr, count0: usize, mem: &mut Mem)
//@call op^ => vx_op2
//@call !overrides => BinaryOp/vop
//@requires fits(rhs_shape@, rhs_stride@), rhs_shape@.len() <= MAX_DIMS, bin_pre(*old(mem), uad(lhs0.a(), lhs_stride as int, count0 as int), lad(rhs.a(), rhs_shape@, rhs_stride@), dst0.a(), count0 as int)
//@ensures bin_done(*old(mem), *final(mem), uad(lhs0.a(), lhs_stride as int, count0 as int), lad(rhs.a(), rhs_shape@, rhs_stride@), dst0.a(), count0 as int)
//@start
    let ghost m0 = *mem; let ghost n = count0 as int; let ghost d = dst0.a(); let ghost (p, q, s) = (lhs0.a(), rhs.a(), lhs_stride as int);
    let ghost l = uad(p, s, n); let ghost r = lad(q, rhs_shape@, rhs_stride@);
    proof { lemma_prod_nonneg(rhs_shape@); }
//@loop 0 before
    let ghost g0 = rhs_indices;
//@loop 0
    invariant mem.blocks() == m0.blocks(), mem.m().dom() == m0.m().dom(), bin_pre(m0, l, r, d, n), count <= n, dst.a() == d + (n - count),
        forall|x: int| !(d <= x < d + (n - count)) ==> #[trigger] mem.m()[x] == m0.m()[x],
        forall|k: int| 0 <= k < n - count ==> #[trigger] mem.m()[d + k] == op2(m0.m()[l[k]], m0.m()[r[k]]),
        rhs_indices.ok(), rhs_indices.same(&g0), rhs_indices.cnt() == n, rhs_indices.pos() == n - count, lhs.a() == p + (n - count) * s, s == lhs_stride,
    decreases count,
//@loop 0 start
    let ghost i = n - count; let ghost m2 = *mem;
    proof {
        assert(m0.m().contains_key(l[i]) && m0.m().contains_key(r[i])); assert(m0.m().dom().contains(l[i]) && m0.m().dom().contains(r[i]));
        assert(m0.m().contains_key(d + i)); assert(m0.m().dom().contains(d + i));
        assert(g0.at(i) == off(rhs_shape@, rhs_stride@, i)); assert(rhs_indices.at(i) == g0.at(i)); assert(q + g0.at(i) == r[i]); assert(lhs.a() == l[i]); assert((i + 1) * s == i * s + s) by (nonlinear_arith);
    }
//@loop 0 end
    proof {
        assert forall|k: int| 0 <= k < n - count implies #[trigger] mem.m()[d + k] == op2(m0.m()[l[k]], m0.m()[r[k]]) by { if k < i { assert(m2.m()[d + k] == op2(m0.m()[l[k]], m0.m()[r[k]])); } }
    }
//@end
//@fn src/ops/binary_ops.rs :: macro define_binary_op_trait with trait_name=BinOp,required_trait=BitXor,name=vop,operator=^ / trait BinOp :: vop_unspecialized
//@sig pub fn vop_unspecialized(lhs: Ptr, lhs_shape: &[usize], lhs_stride: &[usize], rhs: Ptr, rhs_shape: &[usize], rhs_stride: &[usize], dst0: Ptr, mem: &mut Mem)
//@call op^ => vx_op2
//@call !overrides => BinaryOp/vop
//@requires fits(lhs_shape@, lhs_stride@), lhs_shape@.len() <= MAX_DIMS, fits(rhs_shape@, rhs_stride@), rhs_shape@.len() <= MAX_DIMS, prod(lhs_shape@) == prod(rhs_shape@),
    bin_pre(*old(mem), lad(lhs.a(), lhs_shape@, lhs_stride@), lad(rhs.a(), rhs_shape@, rhs_stride@), dst0.a(), prod(lhs_shape@))
//@ensures bin_done(*old(mem), *final(mem), lad(lhs.a(), lhs_shape@, lhs_stride@), lad(rhs.a(), rhs_shape@, rhs_stride@), dst0.a(), prod(lhs_shape@))
//@start
    let ghost m0 = *mem; let ghost n = prod(lhs_shape@); let ghost d = dst0.a(); let ghost (p, q) = (lhs.a(), rhs.a());
    let ghost l = lad(p, lhs_shape@, lhs_stride@); let ghost r = lad(q, rhs_shape@, rhs_stride@);
    proof { lemma_prod_nonneg(lhs_shape@); }
//@loop 0 before
    let ghost g0 = vxg0a; let ghost h0 = vxg0b;
//@loop 0
    invariant mem.blocks() == m0.blocks(), mem.m().dom() == m0.m().dom(), bin_pre(m0, l, r, d, n), dst.a() == d + (vxg0a.pos()),
        forall|x: int| !(d <= x < d + (vxg0a.pos())) ==> #[trigger] mem.m()[x] == m0.m()[x],
        forall|k: int| 0 <= k < vxg0a.pos() ==> #[trigger] mem.m()[d + k] == op2(m0.m()[l[k]], m0.m()[r[k]]),
        vxg0a.ok(), vxg0a.same(&g0), vxg0a.cnt() == n, vxg0b.ok(), vxg0b.same(&h0), vxg0b.cnt() == n, vxg0b.pos() == vxg0a.pos(),
    decreases n - vxg0a.pos(),
//@loop 0 start
    let ghost i = vxg0a.pos() - 1; let ghost m2 = *mem;
    proof {
        assert(m0.m().contains_key(l[i]) && m0.m().contains_key(r[i])); assert(m0.m().dom().contains(l[i]) && m0.m().dom().contains(r[i]));
        assert(m0.m().contains_key(d + i)); assert(m0.m().dom().contains(d + i));
        assert(g0.at(i) == off(lhs_shape@, lhs_stride@, i)); assert(h0.at(i) == off(rhs_shape@, rhs_stride@, i)); assert(p + lhs_index == l[i]); assert(q + rhs_index == r[i]);
    }
//@loop 0 end
    proof {
        assert forall|k: int| 0 <= k < vxg0a.pos() implies #[trigger] mem.m()[d + k] == op2(m0.m()[l[k]], m0.m()[r[k]]) by { if k < i { assert(m2.m()[d + k] == op2(m0.m()[l[k]], m0.m()[r[k]])); } }
    }
//@end
//@fn src/ops/binary_ops.rs :: macro define_binary_op_trait with trait_name=BinOp,required_trait=BitXor,name=vop,operator=^ / trait BinOp :: vop_stride_0_1
//@sig pub fn vop_stride_0_1(lhs: Ptr, rhs: Ptr, dst: Ptr, count: usize, mem: &mut Mem)
//@call !overrides => BinaryOp/vop
//@requires bin_pre(*old(mem), uad(lhs.a(), 0, count as int), uad(rhs.a(), 1, count as int), dst.a(), count as int)
//@ensures bin_done(*old(mem), *final(mem), uad(lhs.a(), 0, count as int), uad(rhs.a(), 1, count as int), dst.a(), count as int)
//@end
//@fn src/ops/binary_ops.rs :: macro define_binary_op_trait with trait_name=BinOp,required_trait=BitXor,name=vop,operator=^ / trait BinOp :: vop_stride_1_0
//@sig pub fn vop_stride_1_0(lhs: Ptr, rhs: Ptr, dst: Ptr, count: usize, mem: &mut Mem)
//@call !overrides => BinaryOp/vop
//@requires bin_pre(*old(mem), uad(lhs.a(), 1, count as int), uad(rhs.a(), 0, count as int), dst.a(), count as int)
//@ensures bin_done(*old(mem), *final(mem), uad(lhs.a(), 1, count as int), uad(rhs.a(), 0, count as int), dst.a(), count as int)
//@end
//@fn src/ops/binary_ops.rs :: macro define_binary_op_trait with trait_name=BinOp,required_trait=BitXor,name=vop,operator=^ / trait BinOp :: vop_stride_n_0
//@sig pub fn vop_stride_n_0(lhs: Ptr, lhs_stride: usize, rhs: Ptr, dst: Ptr, count: usize, mem: &mut Mem)
//@call !overrides => BinaryOp/vop
//@requires bin_pre(*old(mem), uad(lhs.a(), lhs_stride as int, count as int), uad(rhs.a(), 0, count as int), dst.a(), count as int)
//@ensures bin_done(*old(mem), *final(mem), uad(lhs.a(), lhs_stride as int, count as int), uad(rhs.a(), 0, count as int), dst.a(), count as int)
//@end
//@fn src/ops/binary_ops.rs :: macro define_binary_op_trait with trait_name=BinOp,required_trait=BitXor,name=vop,operator=^ / trait BinOp :: vop_stride_0_n
//@sig pub fn vop_stride_0_n(lhs: Ptr, rhs: Ptr, rhs_stride: usize, dst: Ptr, count: usize, mem: &mut Mem)
//@call !overrides => BinaryOp/vop
//@requires bin_pre(*old(mem), uad(lhs.a(), 0, count as int), uad(rhs.a(), rhs_stride as int, count as int), dst.a(), count as int)
//@ensures bin_done(*old(mem), *final(mem), uad(lhs.a(), 0, count as int), uad(rhs.a(), rhs_stride as int, count as int), dst.a(), count as int)
//@end
//@fn src/ops/binary_ops.rs :: macro define_binary_op_trait with trait_name=BinOp,required_trait=BitXor,name=vop,operator=^ / trait BinOp :: vop_stride_1_1
//@sig pub fn vop_stride_1_1(lhs: Ptr, rhs: Ptr, dst: Ptr, count: usize, mem: &mut Mem)
//@call !overrides => BinaryOp/vop
//@requires bin_pre(*old(mem), uad(lhs.a(), 1, count as int), uad(rhs.a(), 1, count as int), dst.a(), count as int)
//@ensures bin_done(*old(mem), *final(mem), uad(lhs.a(), 1, count as int), uad(rhs.a(), 1, count as int), dst.a(), count as int)
//@end
//@fn src/ops/binary_ops.rs :: macro define_binary_op_trait with trait_name=BinOp,required_trait=BitXor,name=vop,operator=^ / trait BinOp :: vop_stride_n_1
//@sig pub fn vop_stride_n_1(lhs: Ptr, lhs_stride: usize, rhs: Ptr, dst: Ptr, count: usize, mem: &mut Mem)
//@call !overrides => BinaryOp/vop
//@requires bin_pre(*old(mem), uad(lhs.a(), lhs_stride as int, count as int), uad(rhs.a(), 1, count as int), dst.a(), count as int)
//@ensures bin_done(*old(mem), *final(mem), uad(lhs.a(), lhs_stride as int, count as int), uad(rhs.a(), 1, count as int), dst.a(), count as int)
//@end
//@fn src/ops/binary_ops.rs :: macro define_binary_op_trait with trait_name=BinOp,required_trait=BitXor,name=vop,operator=^ / trait BinOp :: vop_stride_1_n
//@sig pub fn vop_stride_1_n(lhs: Ptr, rhs: Ptr, rhs_stride: usize, dst: Ptr, count: usize, mem: &mut Mem)
//@call !overrides => BinaryOp/vop
//@requires bin_pre(*old(mem), uad(lhs.a(), 1, count as int), uad(rhs.a(), rhs_stride as int, count as int), dst.a(), count as int)
//@ensures bin_done(*old(mem), *final(mem), uad(lhs.a(), 1, count as int), uad(rhs.a(), rhs_stride as int, count as int), dst.a(), count as int)
//@end
//@fn src/ops/binary_ops.rs :: macro define_binary_op_trait with trait_name=BinOp,required_trait=BitXor,name=vop,operator=^ / trait BinOp :: vop_nonunif_0
//@sig pub fn vop_nonunif_0(lhs: Ptr, lhs_shape: &[usize], lhs_stride: &[usize], rhs: Ptr, dst: Ptr, count: usize, mem: &mut Mem)
//@call !overrides => BinaryOp/vop
//@requires fits(lhs_shape@, lhs_stride@), lhs_shape@.len() <= MAX_DIMS, bin_pre(*old(mem), lad(lhs.a(), lhs_shape@, lhs_stride@), uad(rhs.a(), 0, count as int), dst.a(), count as int)
//@ensures bin_done(*old(mem), *final(mem), lad(lhs.a(), lhs_shape@, lhs_stride@), uad(rhs.a(), 0, count as int), dst.a(), count as int)
//@end
//@fn src/ops/binary_ops.rs :: macro define_binary_op_trait with trait_name=BinOp,required_trait=BitXor,name=vop,operator=^ / trait BinOp :: vop_0_nonunif
//@sig pub fn vop_0_nonunif(lhs: Ptr, rhs: Ptr, rhs_shape: &[usize], rhs_stride: &[usize], dst: Ptr, count: usize, mem: &mut Mem)
//@call !overrides => BinaryOp/vop
//@requires fits(rhs_shape@, rhs_stride@), rhs_shape@.len() <= MAX_DIMS, bin_pre(*old(mem), uad(lhs.a(), 0, count as int), lad(rhs.a(), rhs_shape@, rhs_stride@), dst.a(), count as int)
//@ensures bin_done(*old(mem), *final(mem), uad(lhs.a(), 0, count as int), lad(rhs.a(), rhs_shape@, rhs_stride@), dst.a(), count as int)
//@end
//@fn src/ops/binary_ops.rs :: macro define_binary_op_trait with trait_name=BinOp,required_trait=BitXor,name=vop,operator=^ / trait BinOp :: vop_nonunif_1
//@sig pub fn vop_nonunif_1(lhs: Ptr, lhs_shape: &[usize], lhs_stride: &[usize], rhs: Ptr, dst: Ptr, count: usize, mem: &mut Mem)
//@call !overrides => BinaryOp/vop
//@requires fits(lhs_shape@, lhs_stride@), lhs_shape@.len() <= MAX_DIMS, bin_pre(*old(mem), lad(lhs.a(), lhs_shape@, lhs_stride@), uad(rhs.a(), 1, count as int), dst.a(), count as int)
//@ensures bin_done(*old(mem), *final(mem), lad(lhs.a(), lhs_shape@, lhs_stride@), uad(rhs.a(), 1, count as int), dst.a(), count as int)
//@end
//@fn src/ops/binary_ops.rs :: macro define_binary_op_trait with trait_name=BinOp,required_trait=BitXor,name=vop,operator=^ / trait BinOp :: vop_1_nonunif
//@sig pub fn vop_1_nonunif(lhs: Ptr, rhs: Ptr, rhs_shape: &[usize], rhs_stride: &[usize], dst: Ptr, count: usize, mem: &mut Mem)
//@call !overrides => BinaryOp/vop
//@requires fits(rhs_shape@, rhs_stride@), rhs_shape@.len() <= MAX_DIMS, bin_pre(*old(mem), uad(lhs.a(), 1, count as int), lad(rhs.a(), rhs_shape@, rhs_stride@), dst.a(), count as int)
//@ensures bin_done(*old(mem), *final(mem), uad(lhs.a(), 1, count as int), lad(rhs.a(), rhs_shape@, rhs_stride@), dst.a(), count as int)
//@end
//@fn src/ops/binary_ops.rs :: macro define_binary_op_trait with trait_name=BinOp,required_trait=BitXor,name=vop,operator=^ / trait BinOp :: vop
//@sig pub fn vop(lhs: Ptr, lhs_stride0: &[usize], rhs: Ptr, rhs_stride0: &[usize], dst: Ptr, shape: &[usize], mem: &mut Mem)
//@call op^ => vx_op2
//@call !overrides => BinaryOp/vop
//@requires wfl(shape@, lhs_stride0@), wfl(shape@, rhs_stride0@), shape@.len() <= MAX_DIMS, bin_pre(*old(mem), lad(lhs.a(), shape@, lhs_stride0@), lad(rhs.a(), shape@, rhs_stride0@), dst.a(), prod(shape@))
//@ensures bin_done(*old(mem), *final(mem), lad(lhs.a(), shape@, lhs_stride0@), lad(rhs.a(), shape@, rhs_stride0@), dst.a(), prod(shape@))
//@start
    let ghost l = lad(lhs.a(), shape@, lhs_stride0@); let ghost r = lad(rhs.a(), shape@, rhs_stride0@);
    proof {
        lemma_wfl(shape@, lhs_stride0@); lemma_wfl(shape@, rhs_stride0@);
        if shape@.len() == 0 { lemma_prod_empty(shape@, lhs_stride0@); lemma_prod_empty(shape@, rhs_stride0@); assert(l[0] == lhs.a()); assert(r[0] == rhs.a()); assert(old(mem).m().contains_key(l[0]) && old(mem).m().contains_key(r[0])); }
    }
//@before rhs_shape.len
    proof {
        lemma_lad_same(lhs.a(), lhs_shape@, lhs_stride@, shape@, lhs_stride0@);
        lemma_lad_same(rhs.a(), rhs_shape@, rhs_stride@, shape@, rhs_stride0@);
        if lhs_shape@.len() == 1 { lemma_lad1(lhs.a(), lhs_shape@, lhs_stride@); }
        if rhs_shape@.len() == 1 { lemma_lad1(rhs.a(), rhs_shape@, rhs_stride@); }
    }
//@end
//@fn src/ops/binary_ops.rs :: macro define_binary_op_trait with trait_name=BinOp,required_trait=BitXor,name=vop,operator=^ / trait BinOp :: vop_scalar
//@sig pub fn vop_scalar(lhs: Ptr, lhs_shape0: &[usize], lhs_stride0: &[usize], rhs0: E, dst: Ptr, mem: &mut Mem)
//@call op^ => vx_op2
//@call !overrides => BinaryOp/vop
//@requires wfl(lhs_shape0@, lhs_stride0@), lhs_shape0@.len() <= MAX_DIMS, reads(*old(mem), lad(lhs.a(), lhs_shape0@, lhs_stride0@)), writes(*old(mem), dst.a(), prod(lhs_shape0@)), nohaz(lad(lhs.a(), lhs_shape0@, lhs_stride0@), dst.a())
//@ensures scal_done(*old(mem), *final(mem), lad(lhs.a(), lhs_shape0@, lhs_stride0@), rhs0, dst.a(), prod(lhs_shape0@))
//@start
    let ghost m0 = *mem; let ghost l = lad(lhs.a(), lhs_shape0@, lhs_stride0@); let ghost n = prod(lhs_shape0@); let ghost mut m1 = *mem; let ghost mut late = false; let ghost mut rp = 0int;
    proof {
        lemma_wfl(lhs_shape0@, lhs_stride0@);
        if lhs_shape0@.len() == 0 { lemma_prod_empty(lhs_shape0@, lhs_stride0@); assert(l[0] == lhs.a()); assert(m0.m().contains_key(l[0])); }
    }
//@before collapse_to_uniform_stride
    proof { m1 = *mem; late = true; rp = rhs.a(); }
//@before lhs_shape.len
    proof {
        lemma_lad_same(lhs.a(), lhs_shape@, lhs_stride@, lhs_shape0@, lhs_stride0@);
        if lhs_shape@.len() == 1 { lemma_lad1(lhs.a(), lhs_shape@, lhs_stride@); }
        let r = uad(rhs.a(), 0, n);
        assert forall|k: int| 0 <= k < n implies #[trigger] r[k] == rhs.a() by {}
        assert(bin_pre(m1, l, r, dst.a(), n)) by {
            assert forall|k: int| 0 <= k < n implies m1.m().contains_key(#[trigger] l[k]) by { assert(m0.m().contains_key(l[k])); }
            assert forall|j: int| 0 <= j < n implies !(dst.a() <= #[trigger] r[j] < dst.a() + j) by { if dst.a() <= r[j] < dst.a() + j { assert(m0.m().contains_key(r[j])); } }
        }
    }
//@returns
    proof { if late { lemma_scal(m0, m1, *mem, l, rp, rhs0, dst.a(), n); } }
//@end
}
pub open spec fn scal_done(m0: Mem, m1: Mem, l: Seq<int>, r: E, d: int, n: int) -> bool {
    frame(m0, m1, d, n) && forall|k: int| 0 <= k < n ==> #[trigger] m1.m()[d + k] == op2(m0.m()[l[k]], r)
}
pub proof fn lemma_scal(m0: Mem, m1: Mem, m2: Mem, l: Seq<int>, p: int, v: E, d: int, n: int)
    requires reads(m0, l), l.len() == n, n >= 0, writes(m0, d, n), !m0.m().contains_key(p), m1.m() == m0.m().insert(p, v), m1.blocks() == m0.blocks(), bin_done(m1, m2, l, uad(p, 0, n), d, n),
    ensures scal_done(m0, m2, l, v, d, n),
{
    assert forall|k: int| 0 <= k < n implies #[trigger] m2.m()[d + k] == op2(m0.m()[l[k]], v) by { assert(uad(p, 0, n)[k] == p); assert(m0.m().contains_key(l[k])); }
    assert forall|x: int| #[trigger] m0.m().contains_key(x) implies m2.m().contains_key(x) by { assert(m1.m().contains_key(x)); }
    assert forall|x: int| m0.m().contains_key(x) && !(d <= x < d + n) implies #[trigger] m2.m()[x] == m0.m()[x] by { assert(m1.m().contains_key(x)); assert(m2.m()[x] == m1.m()[x]); }
}
pub proof fn lemma_prod_empty(sh: Seq<usize>, st: Seq<usize>)
    requires sh.len() == 0,
    ensures prod(sh) == 1, off(sh, st, 0) == 0,
{}
