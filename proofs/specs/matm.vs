//@use core geom mem arr slice bcast iter heap kern ops fill red redax nest nditer sop mat eloop mfig einl dotm esub eprep einsum
use vstd::arithmetic::mul::*;
use vstd::arithmetic::div_mod::*;

// ===================================================================== matrix products are the einsum ij,jk->ik
pub open spec fn word2(s: Seq<u8>, a: int, b: int) -> bool { s.len() == 2 && s[0] == a && s[1] == b }
/// the operands l and r with the subscripts ij,jk->ik (i = 105, j = 106, k = 107)
pub open spec fn ijjk(ops: Seq<&NdArray>, ws: Seq<&[u8]>, out: Seq<u8>, l: NdArray, r: NdArray) -> bool {
    ops.len() == 2 && *ops[0] == l && *ops[1] == r && ws.len() == 2 && word2(ws[0]@, 105, 106) && word2(ws[1]@, 106, 107) && word2(out, 105, 107)
}
pub open spec fn stfit(a: NdArray) -> bool { forall|i: int| 0 <= i < a.st().len() ==> #[trigger] a.st()[i] <= isize::MAX }
pub open spec fn mmshapes(l: NdArray, r: NdArray) -> bool { l.wf() && r.wf() && l.sh().len() == 2 && r.sh().len() == 2 && stfit(l) && stfit(r) && l.sh()[0] * l.sh()[1] * r.sh()[1] <= isize::MAX && l.sh()[0] * r.sh()[0] * r.sh()[1] <= isize::MAX }
pub open spec fn apart1(a: NdArray, d: int, n: int) -> bool { forall|k: int| 0 <= k < prod(a.sh()) ==> !(d <= #[trigger] a.ad(k) < d + n) }
/// m1: m0 with the product of l and r in the cells from d on
pub open spec fn mm_done(l: NdArray, r: NdArray, d: int, m0: Mem, m1: Mem) -> bool {
    exists|ops: Seq<&NdArray>, ws: Seq<&[u8]>, out: Seq<u8>, osh: Seq<usize>| ijjk(ops, ws, out, l, r) && osh == seq![l.sh()[0], r.sh()[1]] && #[trigger] into_done(ops, ws, out, d, osh, m0, m1)
}
pub proof fn lemma_mm_pres(ops: Seq<&NdArray>, ws: Seq<&[u8]>, out: Seq<u8>, l: NdArray, r: NdArray, c: int)
    requires ijjk(ops, ws, out, l, r), l.sh().len() == 2, r.sh().len() == 2,
    ensures pres(ws, ops, 2, c) <==> (105 <= c <= 107),
{
    assert(wl(ws, 0, 0) == 105 && wl(ws, 0, 1) == 106 && wl(ws, 1, 1) == 107);
    assert(onax(ops, 2, 0, 0) && onax(ops, 2, 0, 1) && onax(ops, 2, 1, 1));
}
pub proof fn lemma_mm_nx(ops: Seq<&NdArray>, ws: Seq<&[u8]>, out: Seq<u8>, l: NdArray, r: NdArray, c: int)
    requires ijjk(ops, ws, out, l, r), l.sh().len() == 2, r.sh().len() == 2,
    ensures nx(ws, ops, out, c) <= (if c > 106 { 1int } else { 0 }),
    decreases c,
{ if c > 0 { lemma_mm_nx(ops, ws, out, l, r, c - 1); lemma_mm_pres(ops, ws, out, l, r, c - 1); assert(out[0] as int == 105 && out[1] as int == 107); } }
pub proof fn lemma_mm_ext(ops: Seq<&NdArray>, ws: Seq<&[u8]>, out: Seq<u8>, l: NdArray, r: NdArray, b: int, e: usize)
    requires ijjk(ops, ws, out, l, r), mmshapes(l, r), lab_at(ops, ws, b, e),
    ensures b == 0 && e == 1 || b == 105 && e == l.sh()[0] || b == 106 && (e == l.sh()[1] || e == r.sh()[0]) || b == 107 && e == r.sh()[1],
{ if !(b == 0 && e == 1) { let (i, a) = choose|i: int, a: int| onax(ops, ops.len() as int, i, a) && #[trigger] wl(ws, i, a) == b && ext(ops, i, a) == e; if i == 0 { assert(a == 0 || a == 1); } else { assert(i == 1); assert(a == 0 || a == 1); } } }
pub open spec fn jmax(l: NdArray, r: NdArray) -> int { if l.sh()[1] < r.sh()[0] { r.sh()[0] as int } else { l.sh()[1] as int } }
pub open spec fn fac(ls: Seq<int>, b: int, e: int) -> int { if inl(ls, b) { e } else { 1 } }
pub proof fn lemma_mm_small(ops: Seq<&NdArray>, ws: Seq<&[u8]>, out: Seq<u8>, l: NdArray, r: NdArray, ls: Seq<int>, ish: Seq<usize>)
    requires ijjk(ops, ws, out, l, r), mmshapes(l, r), labelled(ops, ws, ls, ish), l.sh()[0] > 0, l.sh()[1] > 0, r.sh()[1] > 0, r.sh()[0] > 0,
    ensures prod(ish) <= fac(ls, 105, l.sh()[0] as int) * fac(ls, 106, jmax(l, r)) * fac(ls, 107, r.sh()[1] as int),
    decreases ls.len(),
{
    let (x, y, z) = (l.sh()[0] as int, jmax(l, r), r.sh()[1] as int);
    if ls.len() > 0 {
        let n = ls.len() - 1; let (p, q) = (ls.drop_last(), ish.drop_last());
        assert(labelled(ops, ws, p, q)) by { assert forall|d: int| 0 <= d < p.len() implies #[trigger] lab_at(ops, ws, p[d], q[d]) by { assert(lab_at(ops, ws, ls[d], ish[d])); } assert forall|d: int, e: int| 0 <= d < e < p.len() implies #[trigger] p[d] != #[trigger] p[e] by { assert(ls[d] != ls[e]); } }
        lemma_mm_small(ops, ws, out, l, r, p, q); let (b, e) = (ls[n], ish[n] as int);
        assert(lab_at(ops, ws, ls[n], ish[n])); lemma_mm_ext(ops, ws, out, l, r, b, ish[n]);
        assert(!inl(p, b)) by { if inl(p, b) { let d = choose|d: int| 0 <= d < p.len() && #[trigger] p[d] == b; assert(ls[d] != ls[n]); } }
        assert(inl(ls, b));
        assert forall|c: int| c != b implies inl(ls, c) == inl(p, c) by { if inl(ls, c) { let d = choose|d: int| 0 <= d < ls.len() && #[trigger] ls[d] == c; assert(p[d] == c); } if inl(p, c) { let d = choose|d: int| 0 <= d < p.len() && #[trigger] p[d] == c; assert(ls[d] == c); } }
        let (f, g, h) = (fac(p, 105, x), fac(p, 106, y), fac(p, 107, z));
        assert(prod(q) * e <= f * g * h * e) by (nonlinear_arith) requires prod(q) <= f * g * h, e >= 0;
        assert(1 * g * h * e == e * g * h && f * 1 * h * e == f * e * h && f * g * 1 * e == f * g * e && f * g * h * 1 == f * g * h) by (nonlinear_arith);
        if b == 106 { assert(f * e * h <= f * y * h) by (nonlinear_arith) requires e <= y, f >= 0, h >= 0; }
    } else { assert(!inl(ls, 105) && !inl(ls, 106) && !inl(ls, 107)); }
}
pub proof fn lemma_mm_subs(ops: Seq<&NdArray>, ws: Seq<&[u8]>, out: Seq<u8>, l: NdArray, r: NdArray)
    requires ijjk(ops, ws, out, l, r), mmshapes(l, r),
    ensures eready(ops, ws, out), subs_ok(ops, ws, out) <==> l.sh()[1] == r.sh()[0], forall|osh: Seq<usize>| oshape(ops, ws, out, osh) ==> osh == seq![l.sh()[0], r.sh()[1]], prod(seq![l.sh()[0], r.sh()[1]]) == l.sh()[0] * r.sh()[1],
{
    let (x, y, z) = (l.sh()[0] as int, jmax(l, r), r.sh()[1] as int); let osh0 = seq![l.sh()[0], r.sh()[1]];
    lemma_wfl(l.sh(), l.st()); lemma_wfl(r.sh(), r.st()); lemma_prod_nonneg(l.sh()); lemma_prod_nonneg(r.sh());
    assert(l.sh()[0] > 0 && l.sh()[1] > 0 && r.sh()[1] > 0 && r.sh()[0] > 0);
    if l.sh()[1] == r.sh()[0] { assert(consistent(ws, ops, 2)) by { assert forall|i: int, a: int, j: int, b: int| onax(ops, 2, i, a) && onax(ops, 2, j, b) && #[trigger] wl(ws, i, a) == #[trigger] wl(ws, j, b) implies ext(ops, i, a) == ext(ops, j, b) by { assert(0 <= i <= 1 && 0 <= j <= 1 && 0 <= a <= 1 && 0 <= b <= 1); } } }
    else { assert(onax(ops, 2, 0, 1) && onax(ops, 2, 1, 0) && wl(ws, 0, 1) == wl(ws, 1, 0) && ext(ops, 0, 1) != ext(ops, 1, 0)); assert(!consistent(ws, ops, 2)); }
    assert(words_ok(ws, ops, 2)) by { assert forall|i: int| 0 <= i < 2 implies word_ok(#[trigger] ws[i]@, ops[i].sh().len() as int) by { assert(i == 0 || i == 1); } }
    assert(outs_ok(ws, ops, out)) by { lemma_mm_pres(ops, ws, out, l, r, 105); lemma_mm_pres(ops, ws, out, l, r, 107); }
    lemma_mm_nx(ops, ws, out, l, r, 128);
    assert(lbound(ops, ws)) by { assert forall|i: int, b: int| 0 <= i < 2 && 0 < b implies #[trigger] lsum(ws[i]@, ops[i].st(), ops[i].sh().len() as int, b) <= isize::MAX by { reveal_with_fuel(lsum, 3); assert(i == 0 || i == 1); assert(ops[i].st()[0] <= isize::MAX && ops[i].st()[1] <= isize::MAX); } }
    assert(small(ops, ws)) by {
        assert forall|ls: Seq<int>, ish: Seq<usize>| #[trigger] labelled(ops, ws, ls, ish) implies prod(ish) <= isize::MAX by {
            lemma_mm_small(ops, ws, out, l, r, ls, ish); let (f, g, h) = (fac(ls, 105, x), fac(ls, 106, y), fac(ls, 107, z));
            assert(f * g * h <= x * y * z) by (nonlinear_arith) requires 1 <= f <= x, 1 <= g <= y, 1 <= h <= z;
        }
    }
    assert forall|osh: Seq<usize>| #[trigger] oshape(ops, ws, out, osh) implies osh == osh0 by {
        assert(lab_at(ops, ws, out[0] as int, osh[0]) && lab_at(ops, ws, out[1] as int, osh[1])); lemma_mm_ext(ops, ws, out, l, r, 105, osh[0]); lemma_mm_ext(ops, ws, out, l, r, 107, osh[1]); assert(osh =~= osh0);
    }
    lemma_prod2(osh0);
}
pub proof fn lemma_mm_ready(ops: Seq<&NdArray>, ws: Seq<&[u8]>, out: Seq<u8>, l: NdArray, r: NdArray, rst: Seq<usize>, d: int, m: Mem)
    requires ijjk(ops, ws, out, l, r), mmshapes(l, r), rowmajor(seq![l.sh()[0], r.sh()[1]], rst), l.readable(m), r.readable(m), apart1(l, d, l.sh()[0] * r.sh()[1]), apart1(r, d, l.sh()[0] * r.sh()[1]), writes(m, d, l.sh()[0] * r.sh()[1]),
    ensures rall(ops, m), into_ok(ops, ws, out, rst, d, m),
{
    lemma_mm_subs(ops, ws, out, l, r); let n = l.sh()[0] * r.sh()[1];
    assert(apart(ops, d, n)) by { assert forall|i: int, k: int| 0 <= i < ops.len() && 0 <= k < prod(ops[i].sh()) implies !(d <= #[trigger] ops[i].ad(k) < d + n) by { assert(i == 0 || i == 1); } }
}
//@fn src/linalg/matrix_ops.rs :: trait MatrixOps :: matrix_matrix_product
//@sig pub fn matrix_matrix_product(lhs: &NdArray, rhs: &NdArray, result_stride: &[usize], result: Ptr, mem: &mut Mem)
//@sigof matrix_matrix_product:mp
//@flag slice_args
//@call !overrides => MatrixOps/matrix_matrix_product
//@requires mmshapes(*lhs, *rhs), lhs.readable(*old(mem)), rhs.readable(*old(mem)), rowmajor(seq![lhs.sh()[0], rhs.sh()[1]], result_stride@), writes(*old(mem), result.a(), lhs.sh()[0] * rhs.sh()[1]), apart1(*lhs, result.a(), lhs.sh()[0] * rhs.sh()[1]), apart1(*rhs, result.a(), lhs.sh()[0] * rhs.sh()[1])
//@panics lhs.sh()[1] != rhs.sh()[0]
//@ensures mm_done(*lhs, *rhs, result.a(), *old(mem), *final(mem))
//@hide
    eready subs_ok into_ok into_done
//@start
    let ghost m0 = *mem;
    proof {
        assert forall|ops: Seq<&NdArray>, ws: Seq<&[u8]>, out: Seq<u8>| ijjk(ops, ws, out, *lhs, *rhs) implies #[trigger] eready(ops, ws, out) by { lemma_mm_subs(ops, ws, out, *lhs, *rhs); }
        assert forall|ops: Seq<&NdArray>, ws: Seq<&[u8]>, out: Seq<u8>| ijjk(ops, ws, out, *lhs, *rhs) implies (#[trigger] subs_ok(ops, ws, out)) == (lhs.sh()[1] == rhs.sh()[0]) by { lemma_mm_subs(ops, ws, out, *lhs, *rhs); }
        assert forall|ops: Seq<&NdArray>, ws: Seq<&[u8]>, out: Seq<u8>| ijjk(ops, ws, out, *lhs, *rhs) implies (#[trigger] into_ok(ops, ws, out, result_stride@, result.a(), m0)) && rall(ops, m0) by { lemma_mm_ready(ops, ws, out, *lhs, *rhs, result_stride@, result.a(), m0); }
        assert forall|ops: Seq<&NdArray>, ws: Seq<&[u8]>, out: Seq<u8>, osh: Seq<usize>, m1: Mem| ijjk(ops, ws, out, *lhs, *rhs) && #[trigger] into_done(ops, ws, out, result.a(), osh, m0, m1) implies osh == seq![lhs.sh()[0], rhs.sh()[1]] by {
            reveal(into_done); lemma_mm_subs(ops, ws, out, *lhs, *rhs);
        }
    }
//@end
/// the cells from d on hold the product of l and r
pub open spec fn is_mm(l: NdArray, r: NdArray, d: int, m0: Mem, m1: Mem) -> bool {
    exists|ops: Seq<&NdArray>, ws: Seq<&[u8]>, out: Seq<u8>, osh: Seq<usize>| ijjk(ops, ws, out, l, r) && osh == seq![l.sh()[0], r.sh()[1]] && #[trigger] is_esum(d, osh, ops, ws, out, m0, m1)
}
pub open spec fn same1(a: NdArray, m0: Mem, m1: Mem) -> bool { forall|k: int| 0 <= k < prod(a.sh()) ==> m1.m()[#[trigger] a.ad(k)] == m0.m()[a.ad(k)] }
pub proof fn lemma_mm_done(l: NdArray, r: NdArray, d: int, m0: Mem, m1: Mem)
    requires mm_done(l, r, d, m0, m1), mmshapes(l, r),
    ensures is_mm(l, r, d, m0, m1), m1.blocks() == m0.blocks(), m1.m().dom() == m0.m().dom(), forall|x: int| m0.m().contains_key(x) && !(d <= x < d + l.sh()[0] * r.sh()[1]) ==> #[trigger] m1.m()[x] == m0.m()[x],
{
    let (ops, ws, out, osh) = choose|ops: Seq<&NdArray>, ws: Seq<&[u8]>, out: Seq<u8>, osh: Seq<usize>| ijjk(ops, ws, out, l, r) && osh == seq![l.sh()[0], r.sh()[1]] && #[trigger] into_done(ops, ws, out, d, osh, m0, m1);
    lemma_mm_subs(ops, ws, out, l, r);
}
pub proof fn lemma_is_mm_on(l: NdArray, r: NdArray, d: int, a: Mem, b: Mem, m1: Mem, m2: Mem)
    requires is_mm(l, r, d, a, m1), mmshapes(l, r), l.sh()[1] == r.sh()[0], same1(l, a, b), same1(r, a, b), forall|x: int| d <= x < d + l.sh()[0] * r.sh()[1] ==> #[trigger] m2.m()[x] == m1.m()[x],
    ensures is_mm(l, r, d, b, m2),
{
    let (ops, ws, out, osh) = choose|ops: Seq<&NdArray>, ws: Seq<&[u8]>, out: Seq<u8>, osh: Seq<usize>| ijjk(ops, ws, out, l, r) && osh == seq![l.sh()[0], r.sh()[1]] && #[trigger] is_esum(d, osh, ops, ws, out, a, m1);
    lemma_mm_subs(ops, ws, out, l, r);
    assert(same_on(ops, a, b)) by { assert forall|i: int, k: int| 0 <= i < ops.len() && 0 <= k < prod(ops[i].sh()) implies b.m()[#[trigger] ops[i].ad(k)] == a.m()[ops[i].ad(k)] by { assert(i == 0 || i == 1); } }
    lemma_is_esum_on(d, osh, ops, ws, out, a, b, m1, m2);
}
// ===================================================================== batches
pub open spec fn bshapes(l: NdArray, r: NdArray) -> bool { l.wf() && r.wf() && l.sh().len() == 3 && r.sh().len() == 3 && l.sh()[0] == r.sh()[0] && stfit(l) && stfit(r) && l.sh()[1] * l.sh()[2] * r.sh()[2] <= isize::MAX && l.sh()[1] * r.sh()[1] * r.sh()[2] <= isize::MAX }
/// s: the b-th matrix of a
pub open spec fn sub0(a: NdArray, b: int, s: NdArray) -> bool { s.wf() && s.sh() == a.sh().remove(0) && s.st() == a.st().remove(0) && s.ptr.a() == a.ptr.a() + b * a.st()[0] }
/// the cells from d on hold the product of the b-th matrices
pub open spec fn is_bmm(l: NdArray, r: NdArray, b: int, d: int, m0: Mem, m1: Mem) -> bool { exists|x: NdArray, y: NdArray| sub0(l, b, x) && sub0(r, b, y) && #[trigger] is_mm(x, y, d, m0, m1) }
pub proof fn lemma_sub0(a: NdArray, b: int, s: NdArray, k: int)
    requires a.wf(), a.sh().len() == 3, sub0(a, b, s), 0 <= b < a.sh()[0], 0 <= k < prod(s.sh()),
    ensures 0 <= b * prod(s.sh()) + k < prod(a.sh()), s.ad(k) == a.ad(b * prod(s.sh()) + k),
{ assert(a.sh().remove(0) =~= a.sh().drop_first()); assert(a.st().remove(0) =~= a.st().drop_first()); lemma_off_first(a.sh(), a.st(), b, k); }
pub proof fn lemma_sub0_in(a: NdArray, b: int, s: NdArray, m0: Mem, m: Mem, d: int, n: int, e: int, c: int)
    requires a.wf(), a.sh().len() == 3, sub0(a, b, s), 0 <= b < a.sh()[0], a.readable(m0), apart1(a, d, n), stfit(a), d <= e, e + c <= d + n, m.m().dom() == m0.m().dom(), forall|x: int| m0.m().contains_key(x) && !(d <= x < d + n) ==> #[trigger] m.m()[x] == m0.m()[x],
    ensures s.readable(m), apart1(s, e, c), stfit(s), s.sh().len() == 2, s.sh()[0] == a.sh()[1], s.sh()[1] == a.sh()[2], same1(s, m0, m),
{
    assert forall|k: int| 0 <= k < prod(s.sh()) implies m.m().contains_key(#[trigger] s.ad(k)) && !(d <= s.ad(k) < d + n) && m.m()[s.ad(k)] == m0.m()[s.ad(k)] by { lemma_sub0(a, b, s, k); let j = b * prod(s.sh()) + k; assert(m0.m().contains_key(a.ad(j))); assert(m0.m().dom().contains(a.ad(j))); assert(!(d <= a.ad(j) < d + n)); }
    assert forall|k: int| 0 <= k < prod(s.sh()) implies !(e <= #[trigger] s.ad(k) < e + c) by { assert(!(d <= s.ad(k) < d + n)); }
    assert forall|i: int| 0 <= i < s.st().len() implies #[trigger] s.st()[i] <= isize::MAX by { assert(s.st()[i] == a.st()[i + 1]); }
}
pub proof fn lemma_dotp_z(st: Seq<usize>, ix: Seq<int>)
    requires st.len() == ix.len(), forall|i: int| 0 <= i < ix.len() ==> #[trigger] ix[i] == 0,
    ensures dotp(st, ix) == 0,
    decreases st.len(),
{ if st.len() > 0 { lemma_dotp_z(st.drop_last(), ix.drop_last()); assert(0 * st.last() == 0); assert(ix.last() == 0); } }
pub open spec fn bsize(l: NdArray, r: NdArray) -> int { l.sh()[1] * r.sh()[2] }
/// m1: m0 with the products of the matrices in the cells from d on
pub open spec fn bmm_part(l: NdArray, r: NdArray, d: int, c: int, m0: Mem, m1: Mem) -> bool {
    m1.blocks() == m0.blocks() && m1.m().dom() == m0.m().dom() && (forall|b: int| 0 <= b < c ==> #[trigger] is_bmm(l, r, b, d + b * bsize(l, r), m0, m1))
    && forall|x: int| m0.m().contains_key(x) && !(d <= x < d + c * bsize(l, r)) ==> #[trigger] m1.m()[x] == m0.m()[x]
}
pub proof fn lemma_bmm_step(l: NdArray, r: NdArray, x: NdArray, y: NdArray, d: int, c: int, m0: Mem, m1: Mem, m2: Mem)
    requires bshapes(l, r), l.sh()[2] == r.sh()[1], bmm_part(l, r, d, c, m0, m1), 0 <= c < l.sh()[0], sub0(l, c, x), sub0(r, c, y), mm_done(x, y, d + c * bsize(l, r), m1, m2), mmshapes(x, y), l.readable(m0), r.readable(m0), apart1(l, d, l.sh()[0] * bsize(l, r)), apart1(r, d, l.sh()[0] * bsize(l, r)), bsize(l, r) >= 0, writes(m0, d, l.sh()[0] * bsize(l, r)),
    ensures bmm_part(l, r, d, c + 1, m0, m2),
{
    let n = bsize(l, r); let t = l.sh()[0] as int; let e = d + c * n;
    assert(x.sh()[0] == l.sh()[1] && x.sh()[1] == l.sh()[2] && y.sh()[1] == r.sh()[2] && y.sh()[0] == r.sh()[1]);
    lemma_mm_done(x, y, e, m1, m2);
    assert(c * n + n == (c + 1) * n && (c + 1) * n <= t * n && c * n >= 0) by (nonlinear_arith) requires n >= 0, 0 <= c < t;
    assert forall|z: int| m0.m().contains_key(z) && !(d <= z < d + (c + 1) * n) implies #[trigger] m2.m()[z] == m0.m()[z] by { assert(m0.m().dom().contains(z)); assert(m1.m()[z] == m0.m()[z]); }
    assert forall|b: int| 0 <= b < c + 1 implies #[trigger] is_bmm(l, r, b, d + b * n, m0, m2) by {
        if b < c {
            assert(is_bmm(l, r, b, d + b * n, m0, m1));
            let (p, q) = choose|p: NdArray, q: NdArray| sub0(l, b, p) && sub0(r, b, q) && #[trigger] is_mm(p, q, d + b * n, m0, m1);
            assert(b * n + n <= c * n && b * n >= 0) by (nonlinear_arith) requires n >= 0, 0 <= b < c;
            lemma_sub0_in(l, b, p, m0, m1, d, t * n, d + b * n, n); lemma_sub0_in(r, b, q, m0, m1, d, t * n, d + b * n, n);
            assert forall|z: int| d + b * n <= z < d + b * n + p.sh()[0] * q.sh()[1] implies #[trigger] m2.m()[z] == m1.m()[z] by { assert(m0.m().contains_key(z)); assert(m0.m().dom().contains(z)); }
            lemma_is_mm_on(p, q, d + b * n, m0, m0, m1, m2);
        } else {
            lemma_sub0_in(l, c, x, m0, m1, d, t * n, e, n); lemma_sub0_in(r, c, y, m0, m1, d, t * n, e, n);
            lemma_is_mm_on(x, y, e, m1, m0, m2, m2);
        }
    }
}
//@fn src/linalg/matrix_ops.rs :: trait MatrixOps :: batch_matrix_matrix_product
//@sig pub fn batch_matrix_matrix_product(lhs: &NdArray, rhs: &NdArray, result_stride: &[usize], result0: Ptr, mem: &mut Mem)
//@sigof batch_matrix_matrix_product:mp
//@call !overrides => MatrixOps/batch_matrix_matrix_product
//@call Self::matrix_matrix_product => matrix_matrix_product +mem
//@call Axis => Axis
//@requires bshapes(*lhs, *rhs), lhs.readable(*old(mem)), rhs.readable(*old(mem)), rowmajor(seq![lhs.sh()[0], lhs.sh()[1], rhs.sh()[2]], result_stride@), writes(*old(mem), result0.a(), lhs.sh()[0] * bsize(*lhs, *rhs)), apart1(*lhs, result0.a(), lhs.sh()[0] * bsize(*lhs, *rhs)), apart1(*rhs, result0.a(), lhs.sh()[0] * bsize(*lhs, *rhs))
//@panics lhs.sh()[2] != rhs.sh()[1]
//@ensures bmm_part(*lhs, *rhs, result0.a(), lhs.sh()[0] as int, *old(mem), *final(mem))
//@start
    let ghost m0 = *mem; let ghost d = result0.a(); let ghost n = bsize(*lhs, *rhs); let ghost t = lhs.sh()[0] as int; let ghost rst1 = result_stride@.subrange(1, 3);
    proof {
        lemma_wfl(lhs.sh(), lhs.st()); lemma_wfl(rhs.sh(), rhs.st()); lemma_prod_nonneg(lhs.sh()); lemma_prod_nonneg(rhs.sh()); assert(lhs.sh()[0] > 0 && lhs.sh()[1] > 0 && rhs.sh()[2] > 0);
        assert(n >= 0) by (nonlinear_arith) requires n == lhs.sh()[1] * rhs.sh()[2];
        let e = 2int; let osh = seq![lhs.sh()[0], lhs.sh()[1], rhs.sh()[2]]; assert(result_stride@[e - 1] == osh[e] * result_stride@[e]); let e1 = 1int; assert(result_stride@[e1 - 1] == osh[e1] * result_stride@[e1]);
        assert(result_stride@[2] == 1); assert(result_stride@[0] == n) by (nonlinear_arith) requires result_stride@[0] == lhs.sh()[1] * result_stride@[1], result_stride@[1] == rhs.sh()[2] * result_stride@[2], result_stride@[2] == 1, n == lhs.sh()[1] * rhs.sh()[2];
        assert(rowmajor(seq![lhs.sh()[1], rhs.sh()[2]], rst1));
        assert(0 * n == 0);
    }
//@loop 0 before
    proof {
        let z = seq![0int, 0int]; assert(inb(lhs_slice.sh(), z) && inb(rhs_slice.sh(), z)); let w = along_src(0usize, 0, z); assert(w =~= seq![0int, 0, 0]);
        lemma_dotp_z(lhs.st(), w); lemma_dotp_z(rhs.st(), w); lemma_dotp_z(lhs_slice.st(), z); lemma_dotp_z(rhs_slice.st(), z);
        assert(0 * lhs.st()[0] == 0 && 0 * rhs.st()[0] == 0);
    }
//@loop 0
    invariant bmm_part(*lhs, *rhs, d, vxc0 as int, m0, *mem), sub0(*lhs, vxc0 as int, lhs_slice), sub0(*rhs, vxc0 as int, rhs_slice), result.a() == d + vxc0 * n, vxc0 > 0 ==> lhs.sh()[2] == rhs.sh()[1], vxe0 == t,
//@loop 0 start
    let ghost c = vxc0 - 1; let ghost m1 = *mem; let ghost (x, y) = (lhs_slice, rhs_slice);
    proof {
        assert(c * n + n == (c + 1) * n && (c + 1) * n <= t * n && c * n >= 0) by (nonlinear_arith) requires n >= 0, 0 <= c < t;
        assert forall|z: int| m0.m().contains_key(z) && !(d <= z < d + t * n) implies #[trigger] m1.m()[z] == m0.m()[z] by { }
        lemma_sub0_in(*lhs, c, x, m0, m1, d, t * n, d + c * n, n); lemma_sub0_in(*rhs, c, y, m0, m1, d, t * n, d + c * n, n);
        assert(writes(m1, d + c * n, n)) by { assert forall|z: int| d + c * n <= z < d + c * n + n implies #[trigger] m1.m().contains_key(z) by { assert(m0.m().contains_key(z)); assert(m0.m().dom().contains(z)); } }
        assert(lhs.st()[0] <= isize::MAX && rhs.st()[0] <= isize::MAX);
        assert(c * lhs.st()[0] + lhs.st()[0] == (c + 1) * lhs.st()[0] && c * rhs.st()[0] + rhs.st()[0] == (c + 1) * rhs.st()[0]) by (nonlinear_arith);
        assert(mmshapes(x, y));
    }
//@loop 0 end
    proof { lemma_bmm_step(*lhs, *rhs, x, y, d, c, m0, m1, *mem); }
//@end
pub proof fn lemma_new_kept(r: NdArray, sh: Seq<usize>, n: int, m0: Mem, m1: Mem, m2: Mem)
    requires is_new(r, sh, m0, m1), n == prod(sh), m2.blocks() == m1.blocks(), m2.m().dom() == m1.m().dom(), forall|x: int| m1.m().contains_key(x) && !(r.ptr.a() <= x < r.ptr.a() + n) ==> #[trigger] m2.m()[x] == m1.m()[x],
    ensures is_new(r, sh, m0, m2),
{
    assert forall|x: int| #[trigger] m0.m().contains_key(x) implies m2.m().contains_key(x) by { assert(m1.m().contains_key(x)); assert(m1.m().dom().contains(x)); }
    assert forall|x: int| m0.m().contains_key(x) implies #[trigger] m2.m()[x] == m0.m()[x] by { assert(m1.m().contains_key(x)); if r.ptr.a() <= x < r.ptr.a() + n { assert(!m0.m().contains_key(x)); } assert(m1.m()[x] == m0.m()[x]); }
    assert forall|x: int| r.ptr.a() <= x < r.ptr.a() + r.capacity implies !(#[trigger] m0.m().contains_key(x)) && m2.m().contains_key(x) by { assert(!m0.m().contains_key(x)); assert(m1.m().contains_key(x)); assert(m1.m().dom().contains(x)); }
}
/// a new array lies apart from one that was there before
pub proof fn lemma_new_apart(r: NdArray, sh: Seq<usize>, n: int, a: NdArray, m0: Mem, m1: Mem)
    requires is_new(r, sh, m0, m1), n == prod(sh), a.readable(m0),
    ensures apart1(a, r.ptr.a(), n), a.readable(m1), same1(a, m0, m1), writes(m1, r.ptr.a(), n),
{
    assert forall|k: int| 0 <= k < prod(a.sh()) implies !(r.ptr.a() <= #[trigger] a.ad(k) < r.ptr.a() + n) && m1.m().contains_key(a.ad(k)) && m1.m()[a.ad(k)] == m0.m()[a.ad(k)] by { assert(m0.m().contains_key(a.ad(k))); }
    assert forall|x: int| r.ptr.a() <= x < r.ptr.a() + n implies #[trigger] m1.m().contains_key(x) by { assert(!m0.m().contains_key(x)); }
}
pub proof fn lemma_mm_size(x: int, y: int, z: int)
    requires x > 0, y > 0, z > 0,
    ensures 0 < x * z <= x * y * z,
{ assert(0 < x * z) by (nonlinear_arith) requires x > 0, z > 0; assert(x * z <= x * y * z) by (nonlinear_arith) requires x > 0, y > 0, z > 0; }
pub proof fn lemma_prod3(sh: Seq<usize>)
    requires sh.len() == 3,
    ensures prod(sh) == sh[0] * (sh[1] * sh[2]),
{ lemma_prod_first(sh); lemma_prod2(sh.drop_first()); }
pub fn nd_zeros_of<S: VxSl<usize>>(shape: S, mem: &mut Mem, Ghost(vx_allow): Ghost<bool>) -> (r: NdArray)
    requires pz(shape.vx_seq()) <= isize::MAX, prod(shape.vx_seq()) == 0 ==> vx_allow,
    ensures is_full(r, shape.vx_seq(), E::of_bool(false), *old(mem), *final(mem)), prod(shape.vx_seq()) != 0,
{ nd_zeros(shape.vx_sl(), mem, Ghost(vx_allow)) }
//@sigof nd_zeros_of:mp
pub open spec fn mm_ok(l: NdArray, r: NdArray) -> bool { (l.sh().len() == 1 && r.sh().len() == 1 && l.sh()[0] == r.sh()[0]) || (l.sh().len() == 2 && (r.sh().len() == 1 || r.sh().len() == 2) && l.sh()[1] == r.sh()[0]) }
impl NdArray {
//@fn src/linalg/matrix_ops.rs :: impl NdArray :: bmm
//@sig pub fn bmm(&self, other: &NdArray, mem: &mut Mem) -> (r: NdArray)
//@call .as_ref => !id
//@call NdArray::zeros => nd_zeros_of +mem
//@call MatrixOps::batch_matrix_matrix_product => batch_matrix_matrix_product +mem
//@requires self.wf(), other.wf(), self.readable(*old(mem)), other.readable(*old(mem)), stfit(*self), stfit(*other), self.sh().len() == 3 && other.sh().len() == 3 ==> self.sh()[1] * self.sh()[2] * other.sh()[2] <= isize::MAX && self.sh()[1] * other.sh()[1] * other.sh()[2] <= isize::MAX && self.sh()[0] * self.sh()[1] * other.sh()[2] <= isize::MAX
//@panics self.sh().len() != 3 || other.sh().len() != 3 || self.sh()[0] != other.sh()[0] || self.sh()[2] != other.sh()[1]
//@ensures is_new(r, seq![self.sh()[0], self.sh()[1], other.sh()[2]], *old(mem), *final(mem)), forall|b: int| 0 <= b < self.sh()[0] ==> #[trigger] is_bmm(*self, *other, b, r.ptr.a() + b * bsize(*self, *other), *old(mem), *final(mem))
//@start
    let ghost m0 = *mem; let ghost bad = vx_p; let ghost osh = seq![self.sh()[0], self.sh()[1], other.sh()[2]]; let ghost n = self.sh()[0] * bsize(*self, *other);
    proof {
        lemma_wfl(self.sh(), self.st()); lemma_wfl(other.sh(), other.st()); lemma_prod_nonneg(self.sh()); lemma_prod_nonneg(other.sh());
        if self.sh().len() == 3 && other.sh().len() == 3 {
            let (t, x, z) = (self.sh()[0] as int, self.sh()[1] as int, other.sh()[2] as int); assert(t > 0 && x > 0 && z > 0);
            assert(0 < t * (x * z) && t * (x * z) == t * x * z) by (nonlinear_arith) requires t > 0, x > 0, z > 0; lemma_prod3(osh); lemma_pz_prod(osh);
            assert forall|s: Seq<usize>| s.len() == 3 && s[0] == osh[0] && s[1] == osh[1] && s[2] == osh[2] implies #[trigger] pz(s) <= isize::MAX && s == osh by { assert(s =~= osh); }
        }
    }
//@after nd_zeros_of
    let ghost m1 = *mem;
    proof { assert(result.sh() =~= osh); lemma_new_apart(result, osh, n, *self, m0, m1); lemma_new_apart(result, osh, n, *other, m0, m1); }
//@ret
    proof {
        let m2 = *mem; lemma_new_kept(result, osh, n, m0, m1, m2);
        assert forall|b: int| 0 <= b < self.sh()[0] implies #[trigger] is_bmm(*self, *other, b, result.ptr.a() + b * bsize(*self, *other), m0, m2) by {
            let d = result.ptr.a(); let e = d + b * bsize(*self, *other); assert(is_bmm(*self, *other, b, e, m1, m2));
            let (p, q) = choose|p: NdArray, q: NdArray| sub0(*self, b, p) && sub0(*other, b, q) && #[trigger] is_mm(p, q, e, m1, m2);
            assert(same1(p, m1, m0)) by { assert forall|k: int| 0 <= k < prod(p.sh()) implies m0.m()[#[trigger] p.ad(k)] == m1.m()[p.ad(k)] by { lemma_sub0(*self, b, p, k); let j = b * prod(p.sh()) + k; assert(m1.m()[self.ad(j)] == m0.m()[self.ad(j)]); } }
            assert(same1(q, m1, m0)) by { assert forall|k: int| 0 <= k < prod(q.sh()) implies m0.m()[#[trigger] q.ad(k)] == m1.m()[q.ad(k)] by { lemma_sub0(*other, b, q, k); let j = b * prod(q.sh()) + k; assert(m1.m()[other.ad(j)] == m0.m()[other.ad(j)]); } }
            assert(stfit(p)) by { assert forall|i: int| 0 <= i < p.st().len() implies #[trigger] p.st()[i] <= isize::MAX by { assert(p.st()[i] == self.st()[i + 1]); } }
            assert(stfit(q)) by { assert forall|i: int| 0 <= i < q.st().len() implies #[trigger] q.st()[i] <= isize::MAX by { assert(q.st()[i] == other.st()[i + 1]); } }
            lemma_is_mm_on(p, q, e, m1, m0, m2, m2);
        }
    }
//@end
//@fn src/linalg/matrix_ops.rs :: impl NdArray :: matmul
//@sig pub fn matmul(&self, other: &NdArray, mem: &mut Mem) -> (r: NdArray)
//@call .as_ref => !id
//@call NdArray::zeros => nd_zeros_of +mem
//@call MatrixOps::matrix_matrix_product => matrix_matrix_product +mem
//@call MatrixOps::matrix_vector_product => NdArray::matrix_vector_product +mem
//@requires self.wf(), other.wf(), self.readable(*old(mem)), other.readable(*old(mem)), stfit(*self), stfit(*other), self.sh().len() == 2 && other.sh().len() == 2 ==> self.sh()[0] * self.sh()[1] * other.sh()[1] <= isize::MAX
//@panics !mm_ok(*self, *other)
//@ensures self.sh().len() == 1 ==> is_scalar(r, rs(vdot(*self, *other, *old(mem)), 0, self.sh()[0] as int), *old(mem), *final(mem)),
    self.sh().len() == 2 && other.sh().len() == 1 ==> is_new(r, seq![self.sh()[0]], *old(mem), *final(mem)) && forall|i: int| 0 <= i < self.sh()[0] ==> #[trigger] final(mem).m()[r.ad(i)] == rs(mdot(*self, *other, *old(mem), i), 0, other.sh()[0] as int),
    self.sh().len() == 2 && other.sh().len() == 2 ==> is_new(r, seq![self.sh()[0], other.sh()[1]], *old(mem), *final(mem)) && is_mm(*self, *other, r.ptr.a(), *old(mem), *final(mem))
//@start
    let ghost m0 = *mem; let ghost osh = seq![self.sh()[0], other.sh()[1]]; let ghost n = self.sh()[0] * other.sh()[1];
    proof {
        lemma_wfl(self.sh(), self.st()); lemma_wfl(other.sh(), other.st()); lemma_prod_nonneg(self.sh()); lemma_prod_nonneg(other.sh());
        if self.sh().len() == 2 && other.sh().len() == 2 {
            assert(self.sh()[0] > 0 && self.sh()[1] > 0 && other.sh()[1] > 0); lemma_mm_size(self.sh()[0] as int, self.sh()[1] as int, other.sh()[1] as int); lemma_prod2(osh); lemma_pz_prod(osh);
            assert forall|s: Seq<usize>| s.len() == 2 && s[0] == osh[0] && s[1] == osh[1] implies #[trigger] pz(s) <= isize::MAX && s == osh by { assert(s =~= osh); }
        }
    }
//@after nd_zeros_of
    let ghost m1 = *mem;
    proof { assert(result.sh() =~= osh); lemma_new_apart(result, osh, n, *self, m0, m1); lemma_new_apart(result, osh, n, *other, m0, m1); }
//@after matrix_matrix_product
    proof { lemma_mm_done(*self, *other, result.ptr.a(), m1, *mem); lemma_new_kept(result, osh, n, m0, m1, *mem); lemma_is_mm_on(*self, *other, result.ptr.a(), m1, m0, *mem, *mem); }
//@end
}
