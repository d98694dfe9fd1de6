//@use core geom mem arr slice bcast iter heap kern ops red redax
use vstd::arithmetic::mul::*;

// ===================================================================== sums of products (elements as an exact commutative ring)
#[verifier::external_body]
pub proof fn ax_add_comm(a: E, b: E) ensures add_e(a, b) == add_e(b, a), { unimplemented!() }
#[verifier::external_body]
pub proof fn ax_add_assoc(a: E, b: E, c: E) ensures add_e(add_e(a, b), c) == add_e(a, add_e(b, c)), { unimplemented!() }
#[verifier::external_body]
pub proof fn ax_add_zero(a: E) ensures add_e(a, E::zero_()) == a, { unimplemented!() }
#[verifier::external_body]
pub proof fn ax_mul_comm(a: E, b: E) ensures mul_e(a, b) == mul_e(b, a), { unimplemented!() }
#[verifier::external_body]
pub proof fn ax_mul_one(a: E) ensures mul_e(E::one_(), a) == a, { unimplemented!() }
#[verifier::external_body]
pub proof fn ax_mul_zero(a: E) ensures mul_e(a, E::zero_()) == E::zero_(), { unimplemented!() }
#[verifier::external_body]
pub proof fn ax_distr(a: E, b: E, c: E) ensures mul_e(a, add_e(b, c)) == add_e(mul_e(a, b), mul_e(a, c)), { unimplemented!() }
#[verifier::external_body]
pub proof fn ax_dflt() ensures E::dflt() == E::zero_(), { unimplemented!() }
/// T::mul_add (exact)
impl E {
    #[verifier::external_body]
    pub fn vx_mul_add(self, b: E, c: E) -> (r: E) ensures r == add_e(mul_e(self, b), c), { unimplemented!() }
}
/// g(lo) + .. + g(hi - 1)
pub open spec fn rs(g: spec_fn(int) -> E, lo: int, hi: int) -> E
    decreases hi - lo,
{ if hi <= lo { E::zero_() } else { add_e(rs(g, lo, hi - 1), g(hi - 1)) } }
pub proof fn lemma_rs_front(g: spec_fn(int) -> E, lo: int, hi: int)
    requires lo < hi,
    ensures rs(g, lo, hi) == add_e(g(lo), rs(g, lo + 1, hi)),
    decreases hi - lo,
{
    if hi == lo + 1 {
        assert(rs(g, lo, lo) == E::zero_()); assert(rs(g, lo + 1, hi) == E::zero_());
        ax_add_comm(E::zero_(), g(lo));
    } else {
        lemma_rs_front(g, lo, hi - 1);
        ax_add_assoc(g(lo), rs(g, lo + 1, hi - 1), g(hi - 1));
    }
}
pub proof fn lemma_rs_ext(g: spec_fn(int) -> E, h: spec_fn(int) -> E, lo: int, hi: int)
    requires forall|k: int| lo <= k < hi ==> #[trigger] g(k) == h(k),
    ensures rs(g, lo, hi) == rs(h, lo, hi),
    decreases hi - lo,
{ if lo < hi { lemma_rs_ext(g, h, lo, hi - 1); } }
pub proof fn lemma_rs_zero(g: spec_fn(int) -> E, lo: int, hi: int)
    requires forall|k: int| lo <= k < hi ==> #[trigger] g(k) == E::zero_(),
    ensures rs(g, lo, hi) == E::zero_(),
    decreases hi - lo,
{ if lo < hi { lemma_rs_zero(g, lo, hi - 1); ax_add_zero(E::zero_()); } }
/// only term j of the sum is not zero
pub proof fn lemma_rs_single(g: spec_fn(int) -> E, lo: int, hi: int, j: int)
    requires lo <= j < hi, forall|k: int| lo <= k < hi && k != j ==> #[trigger] g(k) == E::zero_(),
    ensures rs(g, lo, hi) == g(j),
    decreases hi - lo,
{
    if j == hi - 1 { lemma_rs_zero(g, lo, hi - 1); ax_add_comm(E::zero_(), g(j)); ax_add_zero(g(j)); }
    else { lemma_rs_single(g, lo, hi - 1, j); ax_add_zero(g(j)); }
}
pub proof fn lemma_rs_add(g: spec_fn(int) -> E, h: spec_fn(int) -> E, f: spec_fn(int) -> E, lo: int, hi: int)
    requires forall|k: int| lo <= k < hi ==> #[trigger] f(k) == add_e(g(k), h(k)),
    ensures rs(f, lo, hi) == add_e(rs(g, lo, hi), rs(h, lo, hi)),
    decreases hi - lo,
{
    if lo < hi {
        lemma_rs_add(g, h, f, lo, hi - 1);
        let (a, b, c, d) = (rs(g, lo, hi - 1), rs(h, lo, hi - 1), g(hi - 1), h(hi - 1));
        lemma_add4(a, b, c, d);
    } else { ax_add_zero(E::zero_()); }
}
pub proof fn lemma_add4(a: E, b: E, c: E, d: E)
    ensures add_e(add_e(a, b), add_e(c, d)) == add_e(add_e(a, c), add_e(b, d)),
{
    ax_add_assoc(a, b, add_e(c, d)); ax_add_assoc(b, c, d); ax_add_comm(b, c); ax_add_assoc(c, b, d); ax_add_assoc(a, c, add_e(b, d));
}
/// the order of two nested sums does not matter
pub proof fn lemma_fubini(g: spec_fn(int, int) -> E, n: int, m: int)
    requires n >= 0, m >= 0,
    ensures rs(|i: int| rs(|j: int| g(i, j), 0, m), 0, n) == rs(|j: int| rs(|i: int| g(i, j), 0, n), 0, m),
    decreases n,
{
    let row = |i: int| rs(|j: int| g(i, j), 0, m);
    let col = |j: int| rs(|i: int| g(i, j), 0, n);
    if n == 0 {
        assert forall|j: int| 0 <= j < m implies #[trigger] col(j) == E::zero_() by {}
        lemma_rs_zero(col, 0, m);
    } else {
        lemma_fubini(g, n - 1, m);
        let col1 = |j: int| rs(|i: int| g(i, j), 0, n - 1);
        let last = |j: int| g(n - 1, j);
        assert forall|j: int| 0 <= j < m implies #[trigger] col(j) == add_e(col1(j), last(j)) by {}
        lemma_rs_add(col1, last, col, 0, m);
        assert(rs(row, 0, n) == add_e(rs(row, 0, n - 1), row(n - 1)));
        assert(row(n - 1) == rs(|j: int| g(n - 1, j), 0, m));
    }
}
/// the addresses of pointers
pub open spec fn adr(ps: Seq<Ptr>) -> Seq<int> { Seq::new(ps.len(), |i: int| ps[i].a()) }
/// element k of operand i
pub open spec fn cell(ps: Seq<int>, ss: Seq<usize>, i: int, k: int) -> int { ps[i] + k * ss[i] }
/// the cells of an operand at rest (stride 0) and of a contiguous one (stride 1)
pub proof fn lemma_cell_unit(ps: Seq<int>, ss: Seq<usize>, i: int, k: int)
    ensures ss[i] == 0 ==> cell(ps, ss, i, k) == ps[i], ss[i] == 1 ==> cell(ps, ss, i, k) == ps[i] + k,
{
    if ss[i] == 0 { assert(k * 0 == 0) by (nonlinear_arith); } else if ss[i] == 1 { assert(k * 1 == k) by (nonlinear_arith); }
}
/// the product of the first n operands' elements k
pub open spec fn pv(m: Mem, ps: Seq<int>, ss: Seq<usize>, n: int, k: int) -> E
    decreases n,
{ if n <= 0 { E::one_() } else { mul_e(pv(m, ps, ss, n - 1, k), m.m()[cell(ps, ss, n - 1, k)]) } }
/// what product k adds to address x: the last pointer is the output
pub open spec fn kv(m: Mem, ps: Seq<int>, ss: Seq<usize>, x: int) -> spec_fn(int) -> E {
    |k: int| if cell(ps, ss, ps.len() - 1, k) == x { pv(m, ps, ss, ps.len() - 1, k) } else { E::zero_() }
}
/// operands and outputs are in readable memory, and no operand is written
pub open spec fn kin(m: Mem, ps: Seq<int>, ss: Seq<usize>, n: int) -> bool {
    ps.len() == ss.len() && ps.len() > 0 && n > 0
    && (forall|i: int, k: int| 0 <= i < ps.len() && 0 <= k < n ==> m.m().contains_key(#[trigger] cell(ps, ss, i, k)))
    && (forall|i: int, k: int, j: int| 0 <= i < ps.len() - 1 && 0 <= k < n && 0 <= j < n ==> #[trigger] cell(ps, ss, i, k) != #[trigger] cell(ps, ss, ps.len() - 1, j))
    && (forall|i: int| 0 <= i < ss.len() ==> (n - 1) * #[trigger] ss[i] <= isize::MAX)
}
/// every cell x holds its old value plus the products that belong to it
pub open spec fn kout(m0: Mem, m1: Mem, ps: Seq<int>, ss: Seq<usize>, lo: int, hi: int) -> bool {
    m1.m().dom() == m0.m().dom() && m1.blocks() == m0.blocks() && forall|x: int| m0.m().contains_key(x) ==> #[trigger] m1.m()[x] == add_e(m0.m()[x], rs(kv(m0, ps, ss, x), lo, hi))
}
pub proof fn lemma_pv_same(m0: Mem, m1: Mem, ps: Seq<int>, ss: Seq<usize>, n: int, k: int)
    requires forall|i: int| 0 <= i < n ==> m1.m()[#[trigger] cell(ps, ss, i, k)] == m0.m()[cell(ps, ss, i, k)],
    ensures pv(m0, ps, ss, n, k) == pv(m1, ps, ss, n, k),
    decreases n,
{ if n > 0 { lemma_pv_same(m0, m1, ps, ss, n - 1, k); assert(m1.m()[cell(ps, ss, n - 1, k)] == m0.m()[cell(ps, ss, n - 1, k)]); } }
/// operands' elements are not changed by what has been added so far
pub proof fn lemma_kin_same(m0: Mem, m1: Mem, ps: Seq<int>, ss: Seq<usize>, n: int, lo: int, hi: int, i: int, k: int)
    requires kin(m0, ps, ss, n), kout(m0, m1, ps, ss, lo, hi), 0 <= lo <= hi <= n, 0 <= i < ps.len() - 1, 0 <= k < n,
    ensures m1.m()[cell(ps, ss, i, k)] == m0.m()[cell(ps, ss, i, k)],
{
    let x = cell(ps, ss, i, k); let g = kv(m0, ps, ss, x);
    assert forall|j: int| lo <= j < hi implies #[trigger] g(j) == E::zero_() by { assert(cell(ps, ss, ps.len() - 1, j) != x); }
    lemma_rs_zero(g, lo, hi); ax_add_zero(m0.m()[x]);
    assert(m0.m().contains_key(x));
}
pub proof fn lemma_kout_empty(m0: Mem, ps: Seq<int>, ss: Seq<usize>, lo: int)
    ensures kout(m0, m0, ps, ss, lo, lo),
{ assert forall|x: int| m0.m().contains_key(x) implies #[trigger] m0.m()[x] == add_e(m0.m()[x], rs(kv(m0, ps, ss, x), lo, lo)) by { ax_add_zero(m0.m()[x]); } }
/// product k is added, after those of k+1 .. hi
pub proof fn lemma_kout_down(m0: Mem, m1: Mem, m2: Mem, ps: Seq<int>, ss: Seq<usize>, k: int, hi: int)
    requires kout(m0, m1, ps, ss, k + 1, hi), k < hi, ps.len() > 0, m0.m().contains_key(cell(ps, ss, ps.len() - 1, k)), m2.blocks() == m1.blocks(),
        m2.m() == m1.m().insert(cell(ps, ss, ps.len() - 1, k), add_e(m1.m()[cell(ps, ss, ps.len() - 1, k)], pv(m0, ps, ss, ps.len() - 1, k))),
    ensures kout(m0, m2, ps, ss, k, hi),
{
    let d = cell(ps, ss, ps.len() - 1, k);
    assert(m1.m().dom().contains(d));
    assert(m2.m().dom() =~= m0.m().dom());
    assert forall|x: int| m0.m().contains_key(x) implies #[trigger] m2.m()[x] == add_e(m0.m()[x], rs(kv(m0, ps, ss, x), k, hi)) by {
        let g = kv(m0, ps, ss, x); let r = rs(g, k + 1, hi);
        lemma_rs_front(g, k, hi);
        assert(m1.m()[x] == add_e(m0.m()[x], r));
        ax_add_comm(g(k), r);
        if x == d { ax_add_assoc(m0.m()[x], r, g(k)); } else { ax_add_zero(r); }
    }
}
pub proof fn lemma_kout_up(m0: Mem, m1: Mem, m2: Mem, ps: Seq<int>, ss: Seq<usize>, lo: int, k: int)
    requires kout(m0, m1, ps, ss, lo, k), lo <= k, ps.len() > 0, m0.m().contains_key(cell(ps, ss, ps.len() - 1, k)), m2.blocks() == m1.blocks(),
        m2.m() == m1.m().insert(cell(ps, ss, ps.len() - 1, k), add_e(m1.m()[cell(ps, ss, ps.len() - 1, k)], pv(m0, ps, ss, ps.len() - 1, k))),
    ensures kout(m0, m2, ps, ss, lo, k + 1),
{
    let d = cell(ps, ss, ps.len() - 1, k);
    assert(m1.m().dom().contains(d));
    assert(m2.m().dom() =~= m0.m().dom());
    assert forall|x: int| m0.m().contains_key(x) implies #[trigger] m2.m()[x] == add_e(m0.m()[x], rs(kv(m0, ps, ss, x), lo, k + 1)) by {
        let g = kv(m0, ps, ss, x); let r = rs(g, lo, k);
        assert(m1.m()[x] == add_e(m0.m()[x], r));
        assert(rs(g, lo, k + 1) == add_e(r, g(k)));
        if x == d { ax_add_assoc(m0.m()[x], r, g(k)); } else { ax_add_zero(r); }
    }
}
/// all products go to the one cell d: their sum is added at once
pub open spec fn pvs(m: Mem, ps: Seq<int>, ss: Seq<usize>) -> spec_fn(int) -> E { |k: int| pv(m, ps, ss, ps.len() - 1, k) }
pub proof fn lemma_kout_sum(m0: Mem, m2: Mem, ps: Seq<int>, ss: Seq<usize>, n: int)
    requires kin(m0, ps, ss, n), ss[ps.len() - 1] == 0, m2.blocks() == m0.blocks(),
        m2.m() == m0.m().insert(ps[ps.len() - 1], add_e(m0.m()[ps[ps.len() - 1]], rs(pvs(m0, ps, ss), 0, n))),
    ensures kout(m0, m2, ps, ss, 0, n),
{
    let d = ps[ps.len() - 1];
    assert(cell(ps, ss, ps.len() - 1, 0) == d);
    assert(m2.m().dom() =~= m0.m().dom());
    assert forall|x: int| m0.m().contains_key(x) implies #[trigger] m2.m()[x] == add_e(m0.m()[x], rs(kv(m0, ps, ss, x), 0, n)) by {
        let g = kv(m0, ps, ss, x);
        assert forall|k: int| 0 <= k < n implies #[trigger] cell(ps, ss, ps.len() - 1, k) == d by { assert(k * 0 == 0); }
        if x == d { lemma_rs_ext(g, pvs(m0, ps, ss), 0, n); }
        else { lemma_rs_zero(g, 0, n); ax_add_zero(m0.m()[x]); }
    }
}
pub proof fn lemma_k_bounds(m: Mem, ps: Seq<int>, ss: Seq<usize>, n: int, i: int, k: int)
    requires kin(m, ps, ss, n), 0 <= i < ps.len(), 0 <= k < n,
    ensures 0 <= k * ss[i] <= isize::MAX, m.m().contains_key(cell(ps, ss, i, k)),
{ let s = ss[i] as int; assert(0 <= k * s <= (n - 1) * s) by (nonlinear_arith) requires 0 <= k <= n - 1, s >= 0; }
pub proof fn lemma_pv2(m: Mem, ps: Seq<int>, ss: Seq<usize>, k: int)
    ensures pv(m, ps, ss, 2, k) == mul_e(m.m()[cell(ps, ss, 0, k)], m.m()[cell(ps, ss, 1, k)]), pv(m, ps, ss, 1, k) == m.m()[cell(ps, ss, 0, k)],
{
    reveal_with_fuel(pv, 4);
    ax_mul_one(m.m()[cell(ps, ss, 0, k)]);
}

pub struct DotProduct { }
impl DotProduct {
//@fn src/ops/dot_product.rs :: trait DotProduct :: dot_product
//@sig pub fn dot_product(src00: Ptr, src10: Ptr, dst: Ptr, count: usize, mem: &mut Mem)
//@sigof dot_product:m
//@call op+ => vx_add
//@call op* => vx_mul
//@call Self::zero => E::zero_value
//@call !overrides => DotProduct/dot_product
//@requires kin(*old(mem), seq![src00.a(), src10.a(), dst.a()], seq![1usize, 1, 0], count as int)
//@ensures kout(*old(mem), *final(mem), seq![src00.a(), src10.a(), dst.a()], seq![1usize, 1, 0], 0, count as int)
//@start
    let ghost m0 = *mem; let ghost (ps, ss) = (seq![src00.a(), src10.a(), dst.a()], seq![1usize, 1, 0]); let ghost g = pvs(m0, ps, ss);
//@loop 0
    invariant *mem == m0, src0.a() == src00.a() + vxc0, src1.a() == src10.a() + vxc0, sum == rs(g, 0, vxc0 as int), kin(m0, ps, ss, count as int), g == pvs(m0, ps, ss), ps == seq![src00.a(), src10.a(), dst.a()], ss == seq![1usize, 1, 0],
//@loop 0 start
    proof { let i = vxc0 - 1; lemma_pv2(m0, ps, ss, i); lemma_k_bounds(m0, ps, ss, count as int, 0, i); lemma_k_bounds(m0, ps, ss, count as int, 1, i); lemma_cell_unit(ps, ss, 0, i); lemma_cell_unit(ps, ss, 1, i); lemma_cell_unit(ps, ss, 0, i); assert(cell(ps, ss, 0, i) == src0.a()); lemma_cell_unit(ps, ss, 1, i); assert(cell(ps, ss, 1, i) == src1.a()); }
//@loop 0 after
    proof { lemma_k_bounds(m0, ps, ss, count as int, 2, 0); lemma_cell_unit(ps, ss, 2, 0); assert(cell(ps, ss, 2, 0) == dst.a()); }
//@ret
    proof { lemma_kout_sum(m0, *mem, ps, ss, count as int); }
//@end
//@fn src/ops/dot_product.rs :: trait DotProduct :: strided_dot_product
//@sig pub fn strided_dot_product(src00: Ptr, stride0: usize, src10: Ptr, stride1: usize, dst: Ptr, count: usize, mem: &mut Mem)
//@sigof strided_dot_product:m
//@call op+ => vx_add
//@call op* => vx_mul
//@call Self::zero => E::zero_value
//@call !overrides => DotProduct/strided_dot_product
//@requires kin(*old(mem), seq![src00.a(), src10.a(), dst.a()], seq![stride0, stride1, 0], count as int)
//@ensures kout(*old(mem), *final(mem), seq![src00.a(), src10.a(), dst.a()], seq![stride0, stride1, 0], 0, count as int)
//@start
    let ghost m0 = *mem; let ghost (ps, ss) = (seq![src00.a(), src10.a(), dst.a()], seq![stride0, stride1, 0]); let ghost g = pvs(m0, ps, ss);
//@loop 0
    invariant *mem == m0, src0.a() == src00.a() + vxc0 * stride0, src1.a() == src10.a() + vxc0 * stride1, sum == rs(g, 0, vxc0 as int), kin(m0, ps, ss, count as int), g == pvs(m0, ps, ss), ps == seq![src00.a(), src10.a(), dst.a()], ss == seq![stride0, stride1, 0],
//@loop 0 start
    proof {
        let i = vxc0 - 1; lemma_pv2(m0, ps, ss, i); lemma_k_bounds(m0, ps, ss, count as int, 0, i); lemma_k_bounds(m0, ps, ss, count as int, 1, i); lemma_cell_unit(ps, ss, 0, i); lemma_cell_unit(ps, ss, 1, i); lemma_cell_unit(ps, ss, 0, i); assert(cell(ps, ss, 0, i) == src0.a()); lemma_cell_unit(ps, ss, 1, i); assert(cell(ps, ss, 1, i) == src1.a());
        assert((i + 1) * stride0 == i * stride0 + stride0) by (nonlinear_arith); assert((i + 1) * stride1 == i * stride1 + stride1) by (nonlinear_arith);
    }
//@loop 0 after
    proof { lemma_k_bounds(m0, ps, ss, count as int, 2, 0); lemma_cell_unit(ps, ss, 2, 0); assert(cell(ps, ss, 2, 0) == dst.a()); }
//@ret
    proof { lemma_kout_sum(m0, *mem, ps, ss, count as int); }
//@end
}

pub proof fn lemma_pv_swap(m: Mem, ps: Seq<int>, qs: Seq<int>, ss: Seq<usize>, ts: Seq<usize>, k: int)
    requires ps.len() == 3, qs.len() == 3, ps[0] == qs[1], ps[1] == qs[0], ss[0] == ts[1], ss[1] == ts[0],
    ensures pv(m, ps, ss, 2, k) == pv(m, qs, ts, 2, k),
{ lemma_pv2(m, ps, ss, k); lemma_pv2(m, qs, ts, k); ax_mul_comm(m.m()[cell(ps, ss, 0, k)], m.m()[cell(ps, ss, 1, k)]); }
/// the two operands of a product may be exchanged
pub proof fn lemma_swap(m0: Mem, ps: Seq<int>, qs: Seq<int>, ss: Seq<usize>, ts: Seq<usize>, n: int)
    requires ps.len() == 3, qs.len() == 3, ss.len() == 3, ts.len() == 3, ps[0] == qs[1], ps[1] == qs[0], ss[0] == ts[1], ss[1] == ts[0], ps[2] == qs[2], ss[2] == ts[2], kin(m0, ps, ss, n),
    ensures kin(m0, qs, ts, n), forall|m1: Mem| #[trigger] kout(m0, m1, qs, ts, 0, n) ==> kout(m0, m1, ps, ss, 0, n),
{
    let o = |i: int| if i == 0 { 1int } else if i == 1 { 0 } else { i };
    assert forall|i: int, k: int| 0 <= i < qs.len() && 0 <= k < n implies m0.m().contains_key(#[trigger] cell(qs, ts, i, k)) by { assert(cell(qs, ts, i, k) == cell(ps, ss, o(i), k)); }
    assert forall|i: int, k: int, j: int| 0 <= i < qs.len() - 1 && 0 <= k < n && 0 <= j < n implies #[trigger] cell(qs, ts, i, k) != #[trigger] cell(qs, ts, qs.len() - 1, j) by { assert(cell(qs, ts, i, k) == cell(ps, ss, o(i), k)); lemma_cell_unit(qs, ts, 2, j); assert(cell(qs, ts, 2, j) == cell(ps, ss, 2, j)); }
    assert forall|i: int| 0 <= i < ts.len() implies (n - 1) * #[trigger] ts[i] <= isize::MAX by { assert(ts[i] == ss[o(i)]); }
    assert forall|m1: Mem| #[trigger] kout(m0, m1, qs, ts, 0, n) implies kout(m0, m1, ps, ss, 0, n) by {
        assert forall|x: int| m0.m().contains_key(x) implies #[trigger] m1.m()[x] == add_e(m0.m()[x], rs(kv(m0, ps, ss, x), 0, n)) by {
            let (g, h) = (kv(m0, ps, ss, x), kv(m0, qs, ts, x));
            assert forall|k: int| 0 <= k < n implies #[trigger] g(k) == h(k) by { lemma_pv_swap(m0, ps, qs, ss, ts, k); lemma_cell_unit(ps, ss, 2, k); assert(cell(ps, ss, 2, k) == cell(qs, ts, 2, k)); }
            lemma_rs_ext(g, h, 0, n);
        }
    }
}
/// a common factor
pub proof fn lemma_rs_scale(a: E, g: spec_fn(int) -> E, h: spec_fn(int) -> E, lo: int, hi: int)
    requires forall|k: int| lo <= k < hi ==> #[trigger] h(k) == mul_e(a, g(k)),
    ensures rs(h, lo, hi) == mul_e(a, rs(g, lo, hi)),
    decreases hi - lo,
{ if lo < hi { lemma_rs_scale(a, g, h, lo, hi - 1); ax_distr(a, rs(g, lo, hi - 1), g(hi - 1)); } else { ax_mul_zero(a); } }
pub trait VxSwap { spec fn sq(&self) -> Seq<Ptr>; fn vx_swap(&mut self, i: usize, j: usize)
    requires i < old(self).sq().len(), j < old(self).sq().len(),
    ensures final(self).sq() == old(self).sq().update(i as int, old(self).sq()[j as int]).update(j as int, old(self).sq()[i as int]); }
impl<const N: usize> VxSwap for [Ptr; N] {
    open spec fn sq(&self) -> Seq<Ptr> { self@ }
    fn vx_swap(&mut self, i: usize, j: usize) { let (a, b) = (self[i], self[j]); self[i] = b; self[j] = a; }
}

pub struct SumOfProductsType { }
impl SumOfProductsType {
//@fn src/linalg/sum_of_products.rs :: trait SumOfProductsType :: sum_of_products_generic_
//@sig pub fn sum_of_products_generic_(ptrs0: &[Ptr], strides: &[usize], count: usize, mem: &mut Mem)
//@sigof sum_of_products_generic_:m
//@flag elem_chain
//@call op+ => vx_add
//@call !overrides => SumOfProductsType/sum_of_products_generic_
//@requires kin(*old(mem), adr(ptrs0@), strides@, count as int)
//@ensures kout(*old(mem), *final(mem), adr(ptrs0@), strides@, 0, count as int)
//@start
    let ghost m0 = *mem; let ghost (ps, ss) = (adr(ptrs0@), strides@); let ghost n = count as int; let ghost d = ptrs0@[ptrs0@.len() - 1];
    proof { lemma_kout_empty(m0, ps, ss, n); }
//@loop 0
    invariant k <= count, n == count, kin(m0, ps, ss, n), kout(m0, *mem, ps, ss, k as int, n), ps == adr(ptrs0@), ss == strides@, nops == ps.len(), dst == d, d.a() == ps[ps.len() - 1], ptrs@ == ptrs0@.subrange(0, nops - 1),
    decreases k,
//@loop 0 start
    proof { lemma_k_bounds(m0, ps, ss, n, nops - 1, k - 1); }
    let ghost m1 = *mem;
//@loop 1
    invariant vxa1 == pv(m0, ps, ss, vxc1 as int, k as int), vxe1 == nops - 1, *mem == m1,
//@loop 1 start
    proof { lemma_k_bounds(m0, ps, ss, n, vxi1 as int, k as int); lemma_kin_same(m0, m1, ps, ss, n, k + 1, n, vxi1 as int, k as int); assert(m1.m().dom().contains(cell(ps, ss, vxi1 as int, k as int))); }
//@loop 1 after
    proof { lemma_k_bounds(m0, ps, ss, n, nops - 1, k as int); assert(m1.m().dom().contains(cell(ps, ss, nops - 1, k as int))); }
//@loop 0 end
    proof { lemma_kout_down(m0, m1, *mem, ps, ss, k as int, n); }
//@end
//@fn src/linalg/sum_of_products.rs :: trait SumOfProductsType :: sum_of_products_out_stride_0_
//@sig pub fn sum_of_products_out_stride_0_(ptrs0: &[Ptr], strides: &[usize], count: usize, mem: &mut Mem)
//@sigof sum_of_products_out_stride_0_:m
//@flag elem_chain
//@call op+ => vx_add
//@call Self::default => E::default_value
//@call !overrides => SumOfProductsType/sum_of_products_out_stride_0_
//@requires kin(*old(mem), adr(ptrs0@), strides@, count as int), strides@[strides@.len() - 1] == 0
//@ensures kout(*old(mem), *final(mem), adr(ptrs0@), strides@, 0, count as int)
//@start
    let ghost m0 = *mem; let ghost (ps, ss) = (adr(ptrs0@), strides@); let ghost n = count as int; let ghost d = ptrs0@[ptrs0@.len() - 1]; let ghost g = pvs(m0, ps, ss);
    proof { ax_dflt(); }
//@loop 0
    invariant k <= count, n == count, kin(m0, ps, ss, n), *mem == m0, ps == adr(ptrs0@), ss == strides@, nops == ps.len() - 1, dst == d, d.a() == ps[ps.len() - 1], ptrs@ == ptrs0@.subrange(0, nops as int), g == pvs(m0, ps, ss), sum == rs(g, k as int, n),
    decreases k,
//@loop 1
    invariant vxa1 == pv(m0, ps, ss, vxc1 as int, k as int), vxe1 == nops, *mem == m0,
//@loop 1 start
    proof { lemma_k_bounds(m0, ps, ss, n, vxi1 as int, k as int); }
//@loop 0 end
    proof { lemma_rs_front(g, k as int, n); ax_add_comm(g(k as int), rs(g, k + 1, n)); }
//@loop 0 after
    proof { lemma_k_bounds(m0, ps, ss, n, nops as int, 0); assert(cell(ps, ss, nops as int, 0) == d.a()); }
//@ret
    proof { lemma_kout_sum(m0, *mem, ps, ss, n); }
//@end
//@fn src/linalg/sum_of_products.rs :: trait SumOfProductsType :: sum_of_products_muladd
//@sig pub fn sum_of_products_muladd<const N: usize>(ptrs: &[Ptr; N], strides: &[usize; N], count: usize, mem: &mut Mem)
//@sigof sum_of_products_muladd:m
//@call .mul_add => vx_mul_add
//@call !overrides => SumOfProductsType/sum_of_products_muladd
//@requires N == 3, kin(*old(mem), adr(ptrs@), seq![0usize, 1, 1], count as int)
//@ensures kout(*old(mem), *final(mem), adr(ptrs@), seq![0usize, 1, 1], 0, count as int)
//@start
    let ghost m0 = *mem; let ghost (ps, ss) = (adr(ptrs@), seq![0usize, 1, 1]); let ghost n = count as int;
    proof { lemma_kout_empty(m0, ps, ss, 0); lemma_k_bounds(m0, ps, ss, n, 0, 0); lemma_cell_unit(ps, ss, 0, 0); assert(cell(ps, ss, 0, 0) == ps[0]); }
//@loop 0
    invariant n == count, ps == adr(ptrs@), ps.len() == 3, ss == seq![0usize, 1, 1], kin(m0, ps, ss, n), kout(m0, *mem, ps, ss, 0, vxc0 as int), dst.a() == ps[2] + vxc0, data.a() == ps[1] + vxc0, scalar == m0.m()[ps[0]],
//@loop 0 start
    let ghost i = vxc0 - 1; let ghost m1 = *mem;
    proof {
        lemma_k_bounds(m0, ps, ss, n, 1, i); lemma_k_bounds(m0, ps, ss, n, 2, i); lemma_kin_same(m0, m1, ps, ss, n, 0, i, 1, i); lemma_pv2(m0, ps, ss, i);
        lemma_cell_unit(ps, ss, 0, i); lemma_cell_unit(ps, ss, 1, i); lemma_cell_unit(ps, ss, 2, i);
        lemma_cell_unit(ps, ss, 0, i); assert(cell(ps, ss, 0, i) == ps[0]); lemma_cell_unit(ps, ss, 1, i); assert(cell(ps, ss, 1, i) == data.a()); lemma_cell_unit(ps, ss, 2, i); assert(cell(ps, ss, 2, i) == dst.a());
        assert(m0.m().contains_key(cell(ps, ss, 1, i))); assert(m0.m().contains_key(cell(ps, ss, 2, i)));
        assert(m1.m().dom().contains(data.a())); assert(m1.m().dom().contains(dst.a()));
        ax_add_comm(mul_e(scalar, m1.m()[data.a()]), m1.m()[dst.a()]);
    }
//@loop 0 end
    proof { lemma_kout_up(m0, m1, *mem, ps, ss, 0, i); }
//@end
//@fn src/linalg/sum_of_products.rs :: trait SumOfProductsType :: sum_of_scaled_array
//@sig pub fn sum_of_scaled_array<const N: usize>(ptrs: &[Ptr; N], strides: &[usize; N], count: usize, mem: &mut Mem)
//@sigof sum_of_scaled_array:m
//@call .mul_add => vx_mul_add
//@call op+ => vx_add
//@call Self::zero => E::zero_value
//@call !overrides => SumOfProductsType/sum_of_scaled_array
//@requires N == 3, kin(*old(mem), adr(ptrs@), seq![0usize, 1, 0], count as int)
//@ensures kout(*old(mem), *final(mem), adr(ptrs@), seq![0usize, 1, 0], 0, count as int)
//@start
    let ghost m0 = *mem; let ghost (ps, ss) = (adr(ptrs@), seq![0usize, 1, 0]); let ghost n = count as int;
    let ghost g = |k: int| m0.m()[ps[1] + k];
    proof { lemma_k_bounds(m0, ps, ss, n, 0, 0); lemma_cell_unit(ps, ss, 0, 0); assert(cell(ps, ss, 0, 0) == ps[0]); lemma_k_bounds(m0, ps, ss, n, 2, 0); lemma_cell_unit(ps, ss, 2, 0); assert(cell(ps, ss, 2, 0) == ps[2]); }
//@loop 0
    invariant n == count, ps == adr(ptrs@), ps.len() == 3, ss == seq![0usize, 1, 0], kin(m0, ps, ss, n), *mem == m0, data.a() == ps[1], sum == rs(g, 0, vxc0 as int), forall|k: int| #[trigger] g(k) == m0.m()[ps[1] + k],
//@loop 0 start
    proof { lemma_k_bounds(m0, ps, ss, n, 1, i as int); lemma_cell_unit(ps, ss, 1, i as int); assert(cell(ps, ss, 1, i as int) == ps[1] + i); assert(g(i as int) == m0.m()[ps[1] + i]); }
//@loop 0 after
    proof {
        let h = pvs(m0, ps, ss);
        assert forall|k: int| 0 <= k < n implies #[trigger] h(k) == mul_e(scalar, g(k)) by { lemma_pv2(m0, ps, ss, k); lemma_cell_unit(ps, ss, 0, k); assert(cell(ps, ss, 0, k) == ps[0]); lemma_cell_unit(ps, ss, 1, k); assert(cell(ps, ss, 1, k) == ps[1] + k); }
        lemma_rs_scale(scalar, g, h, 0, n);
        ax_add_comm(mul_e(scalar, sum), m0.m()[dst.a()]);
    }
//@ret
    proof { lemma_kout_sum(m0, *mem, ps, ss, n); }
//@end
//@fn src/linalg/sum_of_products.rs :: trait SumOfProductsType :: sum_of_products_in_strides_1_1_out_stride_1
//@sig pub fn sum_of_products_in_strides_1_1_out_stride_1<const N: usize>(ptrs: &[Ptr; N], strides: &[usize; N], count: usize, mem: &mut Mem)
//@sigof sum_of_products_in_strides_1_1_out_stride_1:m
//@call op+ => vx_add
//@call op* => vx_mul
//@call !overrides => SumOfProductsType/sum_of_products_in_strides_1_1_out_stride_1
//@requires N == 3, kin(*old(mem), adr(ptrs@), strides@, count as int), strides@ =~= seq![1usize, 1, 1]
//@ensures kout(*old(mem), *final(mem), adr(ptrs@), strides@, 0, count as int)
//@start
    let ghost m0 = *mem; let ghost (ps, ss) = (adr(ptrs@), strides@); let ghost n = count as int;
    proof { lemma_kout_empty(m0, ps, ss, 0); }
//@loop 0
    invariant n == count, ps == adr(ptrs@), ps.len() == 3, ss == strides@, ss =~= seq![1usize, 1, 1], kin(m0, ps, ss, n), kout(m0, *mem, ps, ss, 0, vxc0 as int), dst.a() == ps[2] + vxc0, data1.a() == ps[1] + vxc0, data0.a() == ps[0] + vxc0,
//@loop 0 start
    let ghost i = vxc0 - 1; let ghost m1 = *mem;
    proof {
        lemma_k_bounds(m0, ps, ss, n, 0, i); lemma_k_bounds(m0, ps, ss, n, 1, i); lemma_k_bounds(m0, ps, ss, n, 2, i); lemma_kin_same(m0, m1, ps, ss, n, 0, i, 1, i); lemma_kin_same(m0, m1, ps, ss, n, 0, i, 0, i); lemma_pv2(m0, ps, ss, i);
        lemma_cell_unit(ps, ss, 0, i); lemma_cell_unit(ps, ss, 1, i); lemma_cell_unit(ps, ss, 2, i);
        lemma_cell_unit(ps, ss, 0, i); assert(cell(ps, ss, 0, i) == data0.a()); lemma_cell_unit(ps, ss, 1, i); assert(cell(ps, ss, 1, i) == data1.a()); lemma_cell_unit(ps, ss, 2, i); assert(cell(ps, ss, 2, i) == dst.a());
        assert(m0.m().contains_key(cell(ps, ss, 0, i))); assert(m0.m().contains_key(cell(ps, ss, 1, i))); assert(m0.m().contains_key(cell(ps, ss, 2, i)));
        assert(m1.m().dom().contains(data0.a())); assert(m1.m().dom().contains(data1.a())); assert(m1.m().dom().contains(dst.a()));
    }
//@loop 0 end
    proof { lemma_kout_up(m0, m1, *mem, ps, ss, 0, i); }
//@end
//@fn src/linalg/sum_of_products.rs :: trait SumOfProductsType :: sum_of_products_generic
//@sig pub fn sum_of_products_generic<const N: usize>(ptrs: &[Ptr; N], strides: &[usize; N], count: usize, mem: &mut Mem)
//@sigof sum_of_products_generic:m
//@call !overrides => SumOfProductsType/sum_of_products_generic
//@requires kin(*old(mem), adr(ptrs@), strides@, count as int)
//@ensures kout(*old(mem), *final(mem), adr(ptrs@), strides@, 0, count as int)
//@end
//@fn src/linalg/sum_of_products.rs :: trait SumOfProductsType :: sum_of_products_in_strides_n_n_n_out_stride_0
//@sig pub fn sum_of_products_in_strides_n_n_n_out_stride_0(ptrs: &[Ptr], strides: &[usize], count: usize, mem: &mut Mem)
//@sigof sum_of_products_in_strides_n_n_n_out_stride_0:m
//@call !overrides => SumOfProductsType/sum_of_products_in_strides_n_n_n_out_stride_0
//@requires kin(*old(mem), adr(ptrs@), strides@, count as int), ptrs@.len() == 4, strides@[3] == 0
//@ensures kout(*old(mem), *final(mem), adr(ptrs@), strides@, 0, count as int)
//@end
//@fn src/linalg/sum_of_products.rs :: trait SumOfProductsType :: sum_of_products_in_strides_n_n_out_stride_0
//@sig pub fn sum_of_products_in_strides_n_n_out_stride_0(ptrs: &[Ptr], strides: &[usize], count: usize, mem: &mut Mem)
//@sigof sum_of_products_in_strides_n_n_out_stride_0:m
//@call Self::strided_dot_product => DotProduct::strided_dot_product +mem
//@call !overrides => SumOfProductsType/sum_of_products_in_strides_n_n_out_stride_0
//@requires kin(*old(mem), adr(ptrs@), strides@, count as int), ptrs@.len() == 3, strides@[2] == 0
//@ensures kout(*old(mem), *final(mem), adr(ptrs@), strides@, 0, count as int)
//@start
    proof { assert(seq![ptrs@[0].a(), ptrs@[1].a(), ptrs@[2].a()] =~= adr(ptrs@)); assert(seq![strides@[0], strides@[1], 0usize] =~= strides@); }
//@end
//@fn src/linalg/sum_of_products.rs :: trait SumOfProductsType :: sum_of_products_out_stride_0
//@sig pub fn sum_of_products_out_stride_0<const N: usize>(ptrs: &[Ptr; N], strides: &[usize; N], count: usize, mem: &mut Mem)
//@sigof sum_of_products_out_stride_0:m
//@call !overrides => SumOfProductsType/sum_of_products_out_stride_0
//@requires kin(*old(mem), adr(ptrs@), strides@, count as int), strides@[N - 1] == 0
//@ensures kout(*old(mem), *final(mem), adr(ptrs@), strides@, 0, count as int)
//@end
//@fn src/linalg/sum_of_products.rs :: trait SumOfProductsType :: sum_of_products_in_strides_0_1_out_stride_0
//@sig pub fn sum_of_products_in_strides_0_1_out_stride_0<const N: usize>(ptrs: &[Ptr; N], strides: &[usize; N], count: usize, mem: &mut Mem)
//@sigof sum_of_products_in_strides_0_1_out_stride_0:m
//@call .swap => vx_swap
//@call Self::dot_product => DotProduct::dot_product +mem
//@call !overrides => SumOfProductsType/sum_of_products_in_strides_0_1_out_stride_0
//@requires N == 3, kin(*old(mem), adr(ptrs@), strides@, count as int), strides@ =~= seq![0usize, 1, 0]
//@ensures kout(*old(mem), *final(mem), adr(ptrs@), strides@, 0, count as int)
//@start
    proof { assert(strides@ == seq![0usize, 1, 0]); }
//@end
//@fn src/linalg/sum_of_products.rs :: trait SumOfProductsType :: sum_of_products_in_strides_0_1_out_stride_1
//@sig pub fn sum_of_products_in_strides_0_1_out_stride_1<const N: usize>(ptrs: &[Ptr; N], strides: &[usize; N], count: usize, mem: &mut Mem)
//@sigof sum_of_products_in_strides_0_1_out_stride_1:m
//@call .swap => vx_swap
//@call Self::dot_product => DotProduct::dot_product +mem
//@call !overrides => SumOfProductsType/sum_of_products_in_strides_0_1_out_stride_1
//@requires N == 3, kin(*old(mem), adr(ptrs@), strides@, count as int), strides@ =~= seq![0usize, 1, 1]
//@ensures kout(*old(mem), *final(mem), adr(ptrs@), strides@, 0, count as int)
//@start
    proof { assert(strides@ == seq![0usize, 1, 1]); }
//@end
//@fn src/linalg/sum_of_products.rs :: trait SumOfProductsType :: sum_of_products_in_strides_1_0_out_stride_0
//@sig pub fn sum_of_products_in_strides_1_0_out_stride_0<const N: usize>(ptrs0: &[Ptr; N], strides: &[usize; N], count: usize, mem: &mut Mem)
//@sigof sum_of_products_in_strides_1_0_out_stride_0:m
//@call .swap => vx_swap
//@call Self::dot_product => DotProduct::dot_product +mem
//@call !overrides => SumOfProductsType/sum_of_products_in_strides_1_0_out_stride_0
//@requires N == 3, kin(*old(mem), adr(ptrs0@), strides@, count as int), strides@ =~= seq![1usize, 0, 0]
//@ensures kout(*old(mem), *final(mem), adr(ptrs0@), strides@, 0, count as int)
//@start
    proof { let qs = adr(ptrs0@.update(0, ptrs0@[1]).update(1, ptrs0@[0])); lemma_swap(*mem, adr(ptrs0@), qs, strides@, seq![0usize, 1, 0], count as int); }
//@end
//@fn src/linalg/sum_of_products.rs :: trait SumOfProductsType :: sum_of_products_in_strides_1_0_out_stride_1
//@sig pub fn sum_of_products_in_strides_1_0_out_stride_1<const N: usize>(ptrs0: &[Ptr; N], strides: &[usize; N], count: usize, mem: &mut Mem)
//@sigof sum_of_products_in_strides_1_0_out_stride_1:m
//@call .swap => vx_swap
//@call Self::dot_product => DotProduct::dot_product +mem
//@call !overrides => SumOfProductsType/sum_of_products_in_strides_1_0_out_stride_1
//@requires N == 3, kin(*old(mem), adr(ptrs0@), strides@, count as int), strides@ =~= seq![1usize, 0, 1]
//@ensures kout(*old(mem), *final(mem), adr(ptrs0@), strides@, 0, count as int)
//@start
    proof { let qs = adr(ptrs0@.update(0, ptrs0@[1]).update(1, ptrs0@[0])); lemma_swap(*mem, adr(ptrs0@), qs, strides@, seq![0usize, 1, 1], count as int); }
//@end
//@fn src/linalg/sum_of_products.rs :: trait SumOfProductsType :: sum_of_products_in_strides_1_1_out_stride_0
//@sig pub fn sum_of_products_in_strides_1_1_out_stride_0<const N: usize>(ptrs: &[Ptr; N], strides: &[usize; N], count: usize, mem: &mut Mem)
//@sigof sum_of_products_in_strides_1_1_out_stride_0:m
//@call .swap => vx_swap
//@call Self::dot_product => DotProduct::dot_product +mem
//@call !overrides => SumOfProductsType/sum_of_products_in_strides_1_1_out_stride_0
//@requires N == 3, kin(*old(mem), adr(ptrs@), strides@, count as int), strides@ =~= seq![1usize, 1, 0]
//@ensures kout(*old(mem), *final(mem), adr(ptrs@), strides@, 0, count as int)
//@start
    proof { assert(strides@ == seq![1usize, 1, 0]); assert(seq![ptrs@[0].a(), ptrs@[1].a(), ptrs@[2].a()] =~= adr(ptrs@)); }
//@end
}
