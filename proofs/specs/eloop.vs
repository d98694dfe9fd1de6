//@use core geom mem arr slice bcast iter heap kern ops red redax sop mat
use vstd::arithmetic::mul::*;
use vstd::arithmetic::div_mod::*;

// ===================================================================== sums over the points of an iteration space
/// the strides of operand i along the axes
pub open spec fn col<const N: usize>(sm: Seq<[usize; N]>, i: int) -> Seq<usize> { Seq::new(sm.len(), |d: int| sm[d]@[i]) }
/// where the pointers stand at the t-th point of the outer axes
pub open spec fn pst(bs: Seq<int>, osh: Seq<usize>, ost: Seq<Seq<usize>>, t: int) -> Seq<int> { Seq::new(bs.len(), |i: int| bs[i] + off(osh, ost[i], t)) }
pub open spec fn ecell(bs: Seq<int>, s0: Seq<usize>, osh: Seq<usize>, ost: Seq<Seq<usize>>, i: int, t: int, k: int) -> int { cell(pst(bs, osh, ost, t), s0, i, k) }
/// the iteration space: n0 steps of the inner axis (strides s0) at each point of the outer axes osh (strides ost[i] of operand i)
pub open spec fn ein(m: Mem, bs: Seq<int>, s0: Seq<usize>, n0: int, osh: Seq<usize>, ost: Seq<Seq<usize>>) -> bool {
    bs.len() == s0.len() && ost.len() == bs.len() && bs.len() > 0 && n0 > 0 && 0 < prod(osh) <= isize::MAX
    && (forall|i: int| 0 <= i < ost.len() ==> (#[trigger] ost[i]).len() == osh.len() && span(osh, ost[i]) <= isize::MAX)
    && (forall|i: int, t: int, k: int| 0 <= i < bs.len() && 0 <= t < prod(osh) && 0 <= k < n0 ==> m.m().contains_key(#[trigger] ecell(bs, s0, osh, ost, i, t, k)))
    && (forall|i: int, t: int, k: int, u: int, j: int| 0 <= i < bs.len() - 1 && 0 <= t < prod(osh) && 0 <= k < n0 && 0 <= u < prod(osh) && 0 <= j < n0 ==> #[trigger] ecell(bs, s0, osh, ost, i, t, k) != #[trigger] ecell(bs, s0, osh, ost, bs.len() - 1, u, j))
    && (forall|i: int| 0 <= i < s0.len() ==> (n0 - 1) * #[trigger] s0[i] <= isize::MAX)
}
/// what the products of outer point t add to address x
pub open spec fn eg(m: Mem, bs: Seq<int>, s0: Seq<usize>, n0: int, osh: Seq<usize>, ost: Seq<Seq<usize>>, x: int) -> spec_fn(int) -> E {
    |t: int| rs(kv(m, pst(bs, osh, ost, t), s0, x), 0, n0)
}
/// every cell x holds its old value plus the products of the first n points (taken in the order o) that belong to it
pub open spec fn epart(m0: Mem, m1: Mem, bs: Seq<int>, s0: Seq<usize>, n0: int, osh: Seq<usize>, ost: Seq<Seq<usize>>, o: spec_fn(int) -> int, n: int) -> bool {
    m1.m().dom() == m0.m().dom() && m1.blocks() == m0.blocks() && forall|x: int| m0.m().contains_key(x) ==> #[trigger] m1.m()[x] == add_e(m0.m()[x], rs(|u: int| eg(m0, bs, s0, n0, osh, ost, x)(o(u)), 0, n))
}
pub open spec fn eout(m0: Mem, m1: Mem, bs: Seq<int>, s0: Seq<usize>, n0: int, osh: Seq<usize>, ost: Seq<Seq<usize>>) -> bool {
    m1.m().dom() == m0.m().dom() && m1.blocks() == m0.blocks() && forall|x: int| m0.m().contains_key(x) ==> #[trigger] m1.m()[x] == add_e(m0.m()[x], rs(eg(m0, bs, s0, n0, osh, ost, x), 0, prod(osh)))
}
pub proof fn lemma_ein_kin(m0: Mem, m1: Mem, bs: Seq<int>, s0: Seq<usize>, n0: int, osh: Seq<usize>, ost: Seq<Seq<usize>>, t: int)
    requires ein(m0, bs, s0, n0, osh, ost), 0 <= t < prod(osh), m1.m().dom() == m0.m().dom(),
    ensures kin(m1, pst(bs, osh, ost, t), s0, n0),
{
    let ps = pst(bs, osh, ost, t);
    assert forall|i: int, k: int| 0 <= i < ps.len() && 0 <= k < n0 implies m1.m().contains_key(#[trigger] cell(ps, s0, i, k)) by { assert(m0.m().contains_key(ecell(bs, s0, osh, ost, i, t, k))); assert(m0.m().dom().contains(cell(ps, s0, i, k))); }
    assert forall|i: int, k: int, j: int| 0 <= i < ps.len() - 1 && 0 <= k < n0 && 0 <= j < n0 implies #[trigger] cell(ps, s0, i, k) != #[trigger] cell(ps, s0, ps.len() - 1, j) by { assert(ecell(bs, s0, osh, ost, i, t, k) != ecell(bs, s0, osh, ost, bs.len() - 1, t, j)); }
}
/// operands keep their elements while products are added
pub proof fn lemma_epart_same(m0: Mem, m1: Mem, bs: Seq<int>, s0: Seq<usize>, n0: int, osh: Seq<usize>, ost: Seq<Seq<usize>>, o: spec_fn(int) -> int, n: int, i: int, t: int, k: int)
    requires ein(m0, bs, s0, n0, osh, ost), epart(m0, m1, bs, s0, n0, osh, ost, o, n), 0 <= i < bs.len() - 1, 0 <= t < prod(osh), 0 <= k < n0, forall|u: int| 0 <= u < n ==> 0 <= #[trigger] o(u) < prod(osh),
    ensures m1.m()[ecell(bs, s0, osh, ost, i, t, k)] == m0.m()[ecell(bs, s0, osh, ost, i, t, k)],
{
    let x = ecell(bs, s0, osh, ost, i, t, k);
    let f = |u: int| eg(m0, bs, s0, n0, osh, ost, x)(o(u));
    assert forall|u: int| 0 <= u < n implies #[trigger] f(u) == E::zero_() by {
        let ps = pst(bs, osh, ost, o(u)); let g = kv(m0, ps, s0, x);
        assert forall|j: int| 0 <= j < n0 implies #[trigger] g(j) == E::zero_() by { assert(ecell(bs, s0, osh, ost, bs.len() - 1, o(u), j) != x); }
        lemma_rs_zero(g, 0, n0);
    }
    lemma_rs_zero(f, 0, n);
    ax_add_zero(m0.m()[x]);
    assert(m0.m().contains_key(x));
}
pub proof fn lemma_epart0(m0: Mem, bs: Seq<int>, s0: Seq<usize>, n0: int, osh: Seq<usize>, ost: Seq<Seq<usize>>, o: spec_fn(int) -> int)
    ensures epart(m0, m0, bs, s0, n0, osh, ost, o, 0),
{ assert forall|x: int| m0.m().contains_key(x) implies #[trigger] m0.m()[x] == add_e(m0.m()[x], rs(|u: int| eg(m0, bs, s0, n0, osh, ost, x)(o(u)), 0, 0)) by { ax_add_zero(m0.m()[x]); } }
/// one more outer point
pub proof fn lemma_epart_step(m0: Mem, m1: Mem, m2: Mem, bs: Seq<int>, s0: Seq<usize>, n0: int, osh: Seq<usize>, ost: Seq<Seq<usize>>, o: spec_fn(int) -> int, n: int)
    requires ein(m0, bs, s0, n0, osh, ost), epart(m0, m1, bs, s0, n0, osh, ost, o, n), kout(m1, m2, pst(bs, osh, ost, o(n)), s0, 0, n0), n >= 0,
        forall|u: int| 0 <= u <= n ==> 0 <= #[trigger] o(u) < prod(osh),
    ensures epart(m0, m2, bs, s0, n0, osh, ost, o, n + 1),
{
    let t = o(n); let ps = pst(bs, osh, ost, t);
    assert forall|x: int| m0.m().contains_key(x) implies #[trigger] m2.m()[x] == add_e(m0.m()[x], rs(|u: int| eg(m0, bs, s0, n0, osh, ost, x)(o(u)), 0, n + 1)) by {
        let f = |u: int| eg(m0, bs, s0, n0, osh, ost, x)(o(u));
        assert(m0.m().dom().contains(x)); assert(m1.m().contains_key(x));
        let (g, h) = (kv(m1, ps, s0, x), kv(m0, ps, s0, x));
        assert forall|k: int| 0 <= k < n0 implies #[trigger] g(k) == h(k) by {
            assert forall|i: int| 0 <= i < bs.len() - 1 implies m1.m()[#[trigger] cell(ps, s0, i, k)] == m0.m()[cell(ps, s0, i, k)] by { lemma_epart_same(m0, m1, bs, s0, n0, osh, ost, o, n, i, t, k); }
            lemma_pv_same(m0, m1, ps, s0, bs.len() - 1, k);
        }
        lemma_rs_ext(g, h, 0, n0);
        assert(f(n) == rs(h, 0, n0));
        assert(rs(f, 0, n + 1) == add_e(rs(f, 0, n), f(n)));
        ax_add_assoc(m0.m()[x], rs(f, 0, n), f(n));
    }
}
pub proof fn lemma_epart_done(m0: Mem, m1: Mem, bs: Seq<int>, s0: Seq<usize>, n0: int, osh: Seq<usize>, ost: Seq<Seq<usize>>, o: spec_fn(int) -> int)
    requires epart(m0, m1, bs, s0, n0, osh, ost, o, prod(osh)), forall|u: int| #[trigger] o(u) == u,
    ensures eout(m0, m1, bs, s0, n0, osh, ost),
{
    assert forall|x: int| m0.m().contains_key(x) implies #[trigger] m1.m()[x] == add_e(m0.m()[x], rs(eg(m0, bs, s0, n0, osh, ost, x), 0, prod(osh))) by {
        lemma_rs_ext(|u: int| eg(m0, bs, s0, n0, osh, ost, x)(o(u)), eg(m0, bs, s0, n0, osh, ost, x), 0, prod(osh));
    }
}
pub proof fn lemma_rs_split(g: spec_fn(int) -> E, h: spec_fn(int) -> E, a: int, b: int)
    requires a >= 0, b >= 0, forall|j: int| 0 <= j < b ==> #[trigger] h(j) == g(a + j),
    ensures rs(g, 0, a + b) == add_e(rs(g, 0, a), rs(h, 0, b)),
    decreases b,
{
    if b == 0 { ax_add_zero(rs(g, 0, a)); }
    else { lemma_rs_split(g, h, a, b - 1); assert(h(b - 1) == g(a + (b - 1))); ax_add_assoc(rs(g, 0, a), rs(h, 0, b - 1), h(b - 1)); }
}
/// a sum over n * m terms, m at a time
pub proof fn lemma_rs_flat(g: spec_fn(int) -> E, n: int, m: int)
    requires n >= 0, m >= 0,
    ensures rs(g, 0, n * m) == rs(|i: int| rs(|j: int| g(i * m + j), 0, m), 0, n),
    decreases n,
{
    let r = |i: int| rs(|j: int| g(i * m + j), 0, m);
    if n == 0 { assert(0 * m == 0); }
    else {
        lemma_rs_flat(g, n - 1, m);
        let h = |j: int| g((n - 1) * m + j);
        assert(n * m == (n - 1) * m + m) by (nonlinear_arith);
        assert((n - 1) * m >= 0) by (nonlinear_arith) requires n >= 1, m >= 0;
        lemma_rs_split(g, h, (n - 1) * m, m);
        assert(r(n - 1) == rs(h, 0, m));
    }
}
/// the points of two axes, the first one running fastest
pub open spec fn order2(n1: int, n2: int) -> spec_fn(int) -> int { |u: int| (u % n1) * n2 + u / n1 }
pub proof fn lemma_order2(n1: int, n2: int, i: int, j: int)
    requires 0 <= i < n2, 0 <= j < n1,
    ensures order2(n1, n2)(i * n1 + j) == j * n2 + i, 0 <= j * n2 + i < n1 * n2, 0 <= i * n1 + j < n2 * n1,
{
    lemma_fundamental_div_mod_converse(i * n1 + j, n1, i, j);
    assert(j * n2 + i < n1 * n2) by (nonlinear_arith) requires i < n2, j + 1 <= n1, n2 > 0;
    assert(i * n1 + j < n2 * n1) by (nonlinear_arith) requires j < n1, i + 1 <= n2, n1 > 0;
    assert(j * n2 >= 0) by (nonlinear_arith) requires j >= 0, n2 >= 0; assert(i * n1 >= 0) by (nonlinear_arith) requires i >= 0, n1 >= 0;
}
pub proof fn lemma_order2_range(n1: int, n2: int, u: int)
    requires 0 <= u < n2 * n1, n1 > 0, n2 > 0,
    ensures 0 <= #[trigger] order2(n1, n2)(u) < n1 * n2,
{
    lemma_fundamental_div_mod(u, n1); lemma_mod_bound(u, n1);
    assert(0 <= u / n1 < n2) by (nonlinear_arith) requires u == n1 * (u / n1) + u % n1, 0 <= u % n1 < n1, 0 <= u < n2 * n1, n1 > 0;
    lemma_order2(n1, n2, u / n1, u % n1);
    assert((u / n1) * n1 == n1 * (u / n1)) by (nonlinear_arith);
}
pub proof fn lemma_rs_order2(g: spec_fn(int) -> E, n1: int, n2: int)
    requires n1 > 0, n2 > 0,
    ensures rs(|u: int| g(order2(n1, n2)(u)), 0, n2 * n1) == rs(g, 0, n1 * n2),
{
    let o = order2(n1, n2); let f = |u: int| g(o(u));
    lemma_rs_flat(f, n2, n1); lemma_rs_flat(g, n1, n2);
    let q = |j: int, i: int| g(j * n2 + i);
    lemma_fubini(q, n1, n2);
    let a = |i: int| rs(|j: int| f(i * n1 + j), 0, n1);
    let b = |i: int| rs(|j: int| q(j, i), 0, n1);
    assert forall|i: int| 0 <= i < n2 implies #[trigger] a(i) == b(i) by {
        let (f1, f2) = (|j: int| f(i * n1 + j), |j: int| q(j, i));
        assert forall|j: int| 0 <= j < n1 implies #[trigger] f1(j) == f2(j) by { lemma_order2(n1, n2, i, j); }
        lemma_rs_ext(f1, f2, 0, n1);
    }
    lemma_rs_ext(a, b, 0, n2);
    let c = |j: int| rs(|i: int| g(j * n2 + i), 0, n2);
    let d = |j: int| rs(|i: int| q(j, i), 0, n2);
    assert forall|j: int| 0 <= j < n1 implies #[trigger] c(j) == d(j) by { lemma_rs_ext(|i: int| g(j * n2 + i), |i: int| q(j, i), 0, n2); }
    lemma_rs_ext(c, d, 0, n1);
}
pub proof fn lemma_epart_order2(m0: Mem, m1: Mem, bs: Seq<int>, s0: Seq<usize>, n0: int, osh: Seq<usize>, ost: Seq<Seq<usize>>)
    requires osh.len() == 2, osh[0] > 0, osh[1] > 0, epart(m0, m1, bs, s0, n0, osh, ost, order2(osh[0] as int, osh[1] as int), osh[1] * osh[0]),
    ensures eout(m0, m1, bs, s0, n0, osh, ost),
{
    lemma_prod2(osh);
    assert forall|x: int| m0.m().contains_key(x) implies #[trigger] m1.m()[x] == add_e(m0.m()[x], rs(eg(m0, bs, s0, n0, osh, ost, x), 0, prod(osh))) by { lemma_rs_order2(eg(m0, bs, s0, n0, osh, ost, x), osh[0] as int, osh[1] as int); }
}
pub proof fn lemma_prod2(sh: Seq<usize>)
    requires sh.len() == 2,
    ensures prod(sh) == sh[0] * sh[1],
{ reveal_with_fuel(prod, 4); assert(sh.drop_last().last() == sh[0]); assert(1 * sh[0] == sh[0]); }
pub proof fn lemma_off1(sh: Seq<usize>, st: Seq<usize>, t: int)
    requires sh.len() == 1, st.len() == 1, 0 <= t < sh[0],
    ensures off(sh, st, t) == t * st[0], prod(sh) == sh[0], span(sh, st) == (sh[0] - 1) * st[0],
{ reveal_with_fuel(off, 3); reveal_with_fuel(prod, 3); reveal_with_fuel(span, 3); lemma_small_mod(t as nat, sh[0] as nat); assert(1 * sh[0] == sh[0]); }
pub proof fn lemma_off2(sh: Seq<usize>, st: Seq<usize>, j: int, i: int)
    requires sh.len() == 2, st.len() == 2, 0 <= j < sh[0], 0 <= i < sh[1],
    ensures off(sh, st, j * sh[1] + i) == j * st[0] + i * st[1], 0 <= i * st[1], 0 <= j * st[0], j * st[0] + i * st[1] <= span(sh, st),
{
    let n = sh[1] as int;
    lemma_fundamental_div_mod_converse(j * n + i, n, j, i);
    lemma_off1(sh.drop_last(), st.drop_last(), j);
    assert(span(sh, st) == (sh[0] - 1) * st[0] + (sh[1] - 1) * st[1]) by { reveal_with_fuel(span, 3); }
    let (a, b) = (st[0] as int, st[1] as int);
    assert(0 <= j * a <= (sh[0] - 1) * a) by (nonlinear_arith) requires 0 <= j <= sh[0] - 1, a >= 0;
    assert(0 <= i * b <= (sh[1] - 1) * b) by (nonlinear_arith) requires 0 <= i <= sh[1] - 1, b >= 0;
}
pub open spec fn ost1(a: Seq<usize>) -> Seq<Seq<usize>> { Seq::new(a.len(), |i: int| seq![a[i]]) }
pub open spec fn ost2(a: Seq<usize>, b: Seq<usize>) -> Seq<Seq<usize>> { Seq::new(a.len(), |i: int| seq![a[i], b[i]]) }
pub open spec fn ident() -> spec_fn(int) -> int { |u: int| u }
pub proof fn lemma_span_step(n: int, s: int, t: int)
    requires 0 <= t < n, s >= 0,
    ensures 0 <= t * s <= (n - 1) * s,
{ assert(0 <= t * s <= (n - 1) * s) by (nonlinear_arith) requires 0 <= t <= n - 1, s >= 0; }
//@fn src/linalg/specialized_einsum.rs :: - :: einsum_1operand_2labels
//@sig pub fn einsum_1operand_2labels(operand: &NdArray, strides_dim0: &[usize; 2], strides_dim1: &[usize; 2], iter_shape: &[usize; 2], dst0: Ptr, mem: &mut Mem)
//@sigof einsum_1operand_2labels:m
//@call sum_of_products => sum_of_products.call +mem
//@requires ein(*old(mem), seq![operand.ptr.a(), dst0.a()], strides_dim0@, iter_shape@[0] as int, seq![iter_shape@[1]], ost1(strides_dim1@))
//@ensures eout(*old(mem), *final(mem), seq![operand.ptr.a(), dst0.a()], strides_dim0@, iter_shape@[0] as int, seq![iter_shape@[1]], ost1(strides_dim1@))
//@start
    let ghost m0 = *mem; let ghost bs = seq![operand.ptr.a(), dst0.a()]; let ghost (s0, n0) = (strides_dim0@, iter_shape@[0] as int); let ghost osh = seq![iter_shape@[1]]; let ghost ost = ost1(strides_dim1@); let ghost o = ident();
    proof { lemma_epart0(m0, bs, s0, n0, osh, ost, o); lemma_prod_nonneg(osh); assert(osh[0] > 0); lemma_off1(osh, ost[0], 0); }
//@loop 0
    invariant ein(m0, bs, s0, n0, osh, ost), epart(m0, *mem, bs, s0, n0, osh, ost, o, vxc0 as int), prod(osh) == iter_shape@[1], n0 == iter_shape@[0], sop_ok(sum_of_products, s0),
//@loop 0 start
    let ghost t = vxc0 - 1; let ghost m1 = *mem;
    proof {
        assert(ost[0] == seq![strides_dim1@[0]]); lemma_off1(osh, ost[0], t); lemma_span_step(iter_shape@[1] as int, strides_dim1@[0] as int, t);
        assert(ost[1] == seq![strides_dim1@[1]]); lemma_off1(osh, ost[1], t); lemma_span_step(iter_shape@[1] as int, strides_dim1@[1] as int, t);
        lemma_ein_kin(m0, m1, bs, s0, n0, osh, ost, t);
    }
//@before sum_of_products.call
    proof { assert(adr([src, dst]@) =~= pst(bs, osh, ost, t)); }
//@loop 0 end
    proof { lemma_epart_step(m0, m1, *mem, bs, s0, n0, osh, ost, o, t); }
//@loop 0 after
    proof { lemma_epart_done(m0, *mem, bs, s0, n0, osh, ost, o); }
//@end
//@fn src/linalg/specialized_einsum.rs :: - :: einsum_1operand_3labels
//@sig pub fn einsum_1operand_3labels(operand: &NdArray, strides_dim0: &[usize; 2], strides_dim1: &[usize; 2], strides_dim2: &[usize; 2], iter_shape: &[usize; 3], dst0: Ptr, mem: &mut Mem)
//@sigof einsum_1operand_3labels:m
//@call sum_of_products => sum_of_products.call +mem
//@requires ein(*old(mem), seq![operand.ptr.a(), dst0.a()], strides_dim0@, iter_shape@[0] as int, seq![iter_shape@[1], iter_shape@[2]], ost2(strides_dim1@, strides_dim2@))
//@ensures eout(*old(mem), *final(mem), seq![operand.ptr.a(), dst0.a()], strides_dim0@, iter_shape@[0] as int, seq![iter_shape@[1], iter_shape@[2]], ost2(strides_dim1@, strides_dim2@))
//@start
    let ghost m0 = *mem; let ghost bs = seq![operand.ptr.a(), dst0.a()]; let ghost (s0, n0) = (strides_dim0@, iter_shape@[0] as int); let ghost osh = seq![iter_shape@[1], iter_shape@[2]]; let ghost ost = ost2(strides_dim1@, strides_dim2@);
    let ghost (n1, n2) = (iter_shape@[1] as int, iter_shape@[2] as int); let ghost o = order2(n1, n2);
    proof { lemma_epart0(m0, bs, s0, n0, osh, ost, o); lemma_prod_nonneg(osh); assert(osh[0] > 0); assert(osh[1] > 0); lemma_prod2(osh); assert forall|u: int| 0 <= u < n2 * n1 implies 0 <= #[trigger] o(u) < prod(osh) by { lemma_order2_range(n1, n2, u); } }
//@loop 0
    invariant ein(m0, bs, s0, n0, osh, ost), epart(m0, *mem, bs, s0, n0, osh, ost, o, vxc0 * n1),
//@loop 0 start
    proof { assert(0 * n1 == 0); assert((vxc0 - 1) * n1 + n1 == vxc0 * n1) by (nonlinear_arith); }
//@loop 1
    invariant i == vxc0 - 1, ein(m0, bs, s0, n0, osh, ost), epart(m0, *mem, bs, s0, n0, osh, ost, o, i * n1 + vxc1),
//@loop 1 start
    let ghost u = i * n1 + j; let ghost m1 = *mem;
    proof {
        lemma_order2(n1, n2, i as int, j as int); assert(osh[1] == n2);
        assert(ost[0] == seq![strides_dim1@[0], strides_dim2@[0]]); lemma_off2(osh, ost[0], j as int, i as int);
        assert(ost[1] == seq![strides_dim1@[1], strides_dim2@[1]]); lemma_off2(osh, ost[1], j as int, i as int);
        lemma_ein_kin(m0, m1, bs, s0, n0, osh, ost, o(u));
        assert forall|w: int| 0 <= w <= u implies 0 <= #[trigger] o(w) < prod(osh) by { lemma_order2_range(n1, n2, w); }
    }
//@before sum_of_products.call
    proof { assert(adr([src, dst]@) =~= pst(bs, osh, ost, o(u))); }
//@loop 1 end
    proof { lemma_epart_step(m0, m1, *mem, bs, s0, n0, osh, ost, o, u); }
//@loop 0 after
    proof { lemma_epart_order2(m0, *mem, bs, s0, n0, osh, ost); }
//@end
//@fn src/linalg/specialized_einsum.rs :: - :: einsum_2operands_2labels
//@sig pub fn einsum_2operands_2labels(operand1: &NdArray, operand2: &NdArray, strides_dim0: &[usize; 3], strides_dim1: &[usize; 3], iter_shape: &[usize; 2], dst0: Ptr, mem: &mut Mem)
//@sigof einsum_2operands_2labels:m
//@call sum_of_products => sum_of_products.call +mem
//@requires ein(*old(mem), seq![operand1.ptr.a(), operand2.ptr.a(), dst0.a()], strides_dim0@, iter_shape@[0] as int, seq![iter_shape@[1]], ost1(strides_dim1@))
//@ensures eout(*old(mem), *final(mem), seq![operand1.ptr.a(), operand2.ptr.a(), dst0.a()], strides_dim0@, iter_shape@[0] as int, seq![iter_shape@[1]], ost1(strides_dim1@))
//@start
    let ghost m0 = *mem; let ghost bs = seq![operand1.ptr.a(), operand2.ptr.a(), dst0.a()]; let ghost (s0, n0) = (strides_dim0@, iter_shape@[0] as int); let ghost osh = seq![iter_shape@[1]]; let ghost ost = ost1(strides_dim1@); let ghost o = ident();
    proof { lemma_epart0(m0, bs, s0, n0, osh, ost, o); lemma_prod_nonneg(osh); assert(osh[0] > 0); lemma_off1(osh, ost[0], 0); }
//@loop 0
    invariant ein(m0, bs, s0, n0, osh, ost), epart(m0, *mem, bs, s0, n0, osh, ost, o, vxc0 as int), prod(osh) == iter_shape@[1], n0 == iter_shape@[0], sop_ok(sum_of_products, s0),
//@loop 0 start
    let ghost t = vxc0 - 1; let ghost m1 = *mem;
    proof {
        assert(ost[0] == seq![strides_dim1@[0]]); lemma_off1(osh, ost[0], t); lemma_span_step(iter_shape@[1] as int, strides_dim1@[0] as int, t);
        assert(ost[1] == seq![strides_dim1@[1]]); lemma_off1(osh, ost[1], t); lemma_span_step(iter_shape@[1] as int, strides_dim1@[1] as int, t);
        assert(ost[2] == seq![strides_dim1@[2]]); lemma_off1(osh, ost[2], t); lemma_span_step(iter_shape@[1] as int, strides_dim1@[2] as int, t);
        lemma_ein_kin(m0, m1, bs, s0, n0, osh, ost, t);
    }
//@before sum_of_products.call
    proof { assert(adr([ptr1, ptr2, dst]@) =~= pst(bs, osh, ost, t)); }
//@loop 0 end
    proof { lemma_epart_step(m0, m1, *mem, bs, s0, n0, osh, ost, o, t); }
//@loop 0 after
    proof { lemma_epart_done(m0, *mem, bs, s0, n0, osh, ost, o); }
//@end
//@fn src/linalg/specialized_einsum.rs :: - :: einsum_2operands_3labels
//@sig pub fn einsum_2operands_3labels(operand1: &NdArray, operand2: &NdArray, strides_dim0: &[usize; 3], strides_dim1: &[usize; 3], strides_dim2: &[usize; 3], iter_shape: &[usize; 3], dst0: Ptr, mem: &mut Mem)
//@sigof einsum_2operands_3labels:m
//@call sum_of_products => sum_of_products.call +mem
//@requires ein(*old(mem), seq![operand1.ptr.a(), operand2.ptr.a(), dst0.a()], strides_dim0@, iter_shape@[0] as int, seq![iter_shape@[1], iter_shape@[2]], ost2(strides_dim1@, strides_dim2@))
//@ensures eout(*old(mem), *final(mem), seq![operand1.ptr.a(), operand2.ptr.a(), dst0.a()], strides_dim0@, iter_shape@[0] as int, seq![iter_shape@[1], iter_shape@[2]], ost2(strides_dim1@, strides_dim2@))
//@start
    let ghost m0 = *mem; let ghost bs = seq![operand1.ptr.a(), operand2.ptr.a(), dst0.a()]; let ghost (s0, n0) = (strides_dim0@, iter_shape@[0] as int); let ghost osh = seq![iter_shape@[1], iter_shape@[2]]; let ghost ost = ost2(strides_dim1@, strides_dim2@);
    let ghost (n1, n2) = (iter_shape@[1] as int, iter_shape@[2] as int); let ghost o = order2(n1, n2);
    proof { lemma_epart0(m0, bs, s0, n0, osh, ost, o); lemma_prod_nonneg(osh); assert(osh[0] > 0); assert(osh[1] > 0); lemma_prod2(osh); assert forall|u: int| 0 <= u < n2 * n1 implies 0 <= #[trigger] o(u) < prod(osh) by { lemma_order2_range(n1, n2, u); } }
//@loop 0
    invariant ein(m0, bs, s0, n0, osh, ost), epart(m0, *mem, bs, s0, n0, osh, ost, o, vxc0 * n1),
//@loop 0 start
    proof { assert(0 * n1 == 0); assert((vxc0 - 1) * n1 + n1 == vxc0 * n1) by (nonlinear_arith); }
//@loop 1
    invariant i == vxc0 - 1, ein(m0, bs, s0, n0, osh, ost), epart(m0, *mem, bs, s0, n0, osh, ost, o, i * n1 + vxc1),
//@loop 1 start
    let ghost u = i * n1 + j; let ghost m1 = *mem;
    proof {
        lemma_order2(n1, n2, i as int, j as int); assert(osh[1] == n2);
        assert(ost[0] == seq![strides_dim1@[0], strides_dim2@[0]]); lemma_off2(osh, ost[0], j as int, i as int);
        assert(ost[1] == seq![strides_dim1@[1], strides_dim2@[1]]); lemma_off2(osh, ost[1], j as int, i as int);
        assert(ost[2] == seq![strides_dim1@[2], strides_dim2@[2]]); lemma_off2(osh, ost[2], j as int, i as int);
        lemma_ein_kin(m0, m1, bs, s0, n0, osh, ost, o(u));
        assert forall|w: int| 0 <= w <= u implies 0 <= #[trigger] o(w) < prod(osh) by { lemma_order2_range(n1, n2, w); }
    }
//@before sum_of_products.call
    proof { assert(adr([ptr1, ptr2, dst]@) =~= pst(bs, osh, ost, o(u))); }
//@loop 1 end
    proof { lemma_epart_step(m0, m1, *mem, bs, s0, n0, osh, ost, o, u); }
//@loop 0 after
    proof { lemma_epart_order2(m0, *mem, bs, s0, n0, osh, ost); }
//@end
