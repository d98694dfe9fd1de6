//@use core geom mem arr slice bcast iter heap kern ops assign fill red
use vstd::arithmetic::mul::*;
use vstd::arithmetic::div_mod::*;

// ===================================================================== removing axes
/// extents (indices) of the axes that are kept
pub open spec fn rsh(mask: Seq<bool>, sh: Seq<usize>) -> Seq<usize>
    decreases mask.len(),
{ if mask.len() == 0 { Seq::empty() } else if mask[0] { rsh(mask.drop_first(), sh.drop_first()) } else { seq![sh[0]] + rsh(mask.drop_first(), sh.drop_first()) } }
pub open spec fn kept(mask: Seq<bool>, ix: Seq<int>) -> Seq<int>
    decreases mask.len(),
{ if mask.len() == 0 { Seq::empty() } else if mask[0] { kept(mask.drop_first(), ix.drop_first()) } else { seq![ix[0]] + kept(mask.drop_first(), ix.drop_first()) } }
/// strides that walk the reduced array in step with the full one
pub open spec fn rst(mask: Seq<bool>, sh: Seq<usize>) -> Seq<usize>
    decreases mask.len(),
{ if mask.len() == 0 { Seq::empty() } else { seq![if mask[0] { 0usize } else { prod(rsh(mask.drop_first(), sh.drop_first())) as usize }] + rst(mask.drop_first(), sh.drop_first()) } }
pub open spec fn axes_bad(axes: Seq<isize>, n: int) -> bool {
    (exists|i: int| 0 <= i < axes.len() && !axis_ok(#[trigger] axes[i] as int, n))
    || (exists|i: int, j: int| 0 <= i < j < axes.len() && axis_abs(#[trigger] axes[i] as int, n) == axis_abs(#[trigger] axes[j] as int, n))
    || axes.len() > n
}
pub open spec fn axes_mask(axes: Seq<isize>, n: int) -> Seq<bool> { Seq::new(n as nat, |k: int| exists|i: int| 0 <= i < axes.len() && axis_abs(#[trigger] axes[i] as int, n) == k) }

pub proof fn lemma_rlen(mask: Seq<bool>, sh: Seq<usize>)
    requires mask.len() == sh.len(),
    ensures rst(mask, sh).len() == sh.len(), rsh(mask, sh).len() <= sh.len(), 0 <= prod(rsh(mask, sh)), prod(sh) > 0 ==> 0 < prod(rsh(mask, sh)) <= prod(sh),
    decreases mask.len(),
{
    lemma_prod_nonneg(rsh(mask, sh));
    if mask.len() > 0 {
        let (m, s) = (mask.drop_first(), sh.drop_first());
        lemma_rlen(m, s); lemma_prod_first(sh); lemma_prod_nonneg(s);
        let (a, q, w) = (sh[0] as int, prod(s), prod(rsh(m, s)));
        if prod(sh) > 0 { assert(a > 0 && q > 0) by (nonlinear_arith) requires a * q > 0, a >= 0, q >= 0; }
        if mask[0] { if prod(sh) > 0 { assert(q <= a * q) by (nonlinear_arith) requires a > 0, q > 0; } }
        else {
            let r = rsh(mask, sh);
            assert(r.drop_first() =~= rsh(m, s));
            lemma_prod_first(r);
            if prod(sh) > 0 { assert(0 < a * w <= a * q) by (nonlinear_arith) requires a > 0, 0 < w <= q; }
        }
    } else { assert(rsh(mask, sh) =~= Seq::<usize>::empty()); assert(prod(Seq::<usize>::empty()) == 1); assert(sh =~= Seq::<usize>::empty()); }
}
pub proof fn lemma_dotp_first(st: Seq<usize>, ix: Seq<int>)
    requires st.len() == ix.len(), st.len() > 0,
    ensures dotp(st, ix) == ix[0] * st[0] + dotp(st.drop_first(), ix.drop_first()),
    decreases st.len(),
{
    if st.len() > 1 {
        lemma_dotp_first(st.drop_last(), ix.drop_last());
        assert(st.drop_first().drop_last() =~= st.drop_last().drop_first()); assert(ix.drop_first().drop_last() =~= ix.drop_last().drop_first());
    } else { assert(dotp(st.drop_last(), ix.drop_last()) == 0); assert(dotp(st.drop_first(), ix.drop_first()) == 0); }
}
pub proof fn lemma_lin_first(sh: Seq<usize>, ix: Seq<int>)
    requires sh.len() == ix.len(), sh.len() > 0,
    ensures lin(sh, ix) == ix[0] * prod(sh.drop_first()) + lin(sh.drop_first(), ix.drop_first()),
    decreases sh.len(),
{
    if sh.len() > 1 {
        lemma_lin_first(sh.drop_last(), ix.drop_last());
        assert(sh.drop_first().drop_last() =~= sh.drop_last().drop_first()); assert(ix.drop_first().drop_last() =~= ix.drop_last().drop_first());
        let (a, q, l, n) = (ix[0], prod(sh.drop_last().drop_first()), lin(sh.drop_last().drop_first(), ix.drop_last().drop_first()), sh.last() as int);
        assert((a * q + l) * n == a * (q * n) + l * n) by (nonlinear_arith);
    } else {
        assert(lin(sh.drop_last(), ix.drop_last()) == 0); assert(0 * sh.last() == 0); assert(lin(sh.drop_first(), ix.drop_first()) == 0);
        assert(prod(sh.drop_first()) == 1); assert(ix[0] * 1 == ix[0]);
    }
}
/// an index of the full array is sent to the position of its kept part
pub proof fn lemma_kept(mask: Seq<bool>, sh: Seq<usize>, ix: Seq<int>)
    requires mask.len() == sh.len(), inb(sh, ix), 0 < prod(sh) <= usize::MAX,
    ensures inb(rsh(mask, sh), kept(mask, ix)), dotp(rst(mask, sh), ix) == lin(rsh(mask, sh), kept(mask, ix)),
    decreases mask.len(),
{
    lemma_rlen(mask, sh);
    if mask.len() > 0 {
        let (m, s, x) = (mask.drop_first(), sh.drop_first(), ix.drop_first());
        assert(inb(s, x)) by { assert forall|i: int| 0 <= i < s.len() implies 0 <= #[trigger] x[i] < s[i] by { assert(x[i] == ix[i + 1]); assert(0 <= ix[i + 1] < sh[i + 1]); } }
        lemma_prod_first(sh); lemma_prod_nonneg(s);
        let (a, q) = (sh[0] as int, prod(s));
        assert(a > 0 && q > 0 && q <= a * q) by (nonlinear_arith) requires a * q > 0, a >= 0, q >= 0;
        lemma_kept(m, s, x);
        lemma_rlen(m, s);
        let t = rst(mask, sh);
        assert(t.drop_first() =~= rst(m, s));
        lemma_dotp_first(t, ix);
        if mask[0] { assert(ix[0] * 0 == 0); }
        else {
            let (r, k) = (rsh(mask, sh), kept(mask, ix));
            assert(r.drop_first() =~= rsh(m, s)); assert(k.drop_first() =~= kept(m, x));
            lemma_lin_first(r, k);
            assert(0 <= ix[0] < sh[0]);
            assert forall|i: int| 0 <= i < r.len() implies 0 <= #[trigger] k[i] < r[i] by { if i > 0 { assert(k[i] == kept(m, x)[i - 1]); assert(r[i] == rsh(m, s)[i - 1]); } }
        }
    }
}
pub proof fn lemma_lin_inj(sh: Seq<usize>, a: Seq<int>, b: Seq<int>)
    requires inb(sh, a), inb(sh, b), lin(sh, a) == lin(sh, b),
    ensures a =~= b,
    decreases sh.len(),
{
    if sh.len() > 0 {
        let (d, x, y) = (sh.drop_last(), a.drop_last(), b.drop_last());
        assert(inb(d, x)) by { assert forall|i: int| 0 <= i < d.len() implies 0 <= #[trigger] x[i] < d[i] by { assert(x[i] == a[i]); } }
        assert(inb(d, y)) by { assert forall|i: int| 0 <= i < d.len() implies 0 <= #[trigger] y[i] < d[i] by { assert(y[i] == b[i]); } }
        let n = sh.last() as int;
        assert(0 <= a[a.len() - 1] < sh[sh.len() - 1]); assert(0 <= b[b.len() - 1] < sh[sh.len() - 1]);
        lemma_fundamental_div_mod_converse(lin(sh, a), n, lin(d, x), a.last());
        lemma_fundamental_div_mod_converse(lin(sh, b), n, lin(d, y), b.last());
        lemma_lin_inj(d, x, y);
        assert forall|i: int| 0 <= i < sh.len() implies a[i] == b[i] by { if i < d.len() { assert(a[i] == x[i]); assert(b[i] == y[i]); } }
    }
}
/// the walk over the reduced array as a layout
pub proof fn lemma_rst_fits(mask: Seq<bool>, sh: Seq<usize>)
    requires mask.len() == sh.len(), 0 < prod(sh) <= isize::MAX,
    ensures rst(mask, sh).len() == sh.len(), fits1(sh, rst(mask, sh)), span(sh, rst(mask, sh)) == prod(rsh(mask, sh)) - 1, pz(sh) <= usize::MAX,
    decreases mask.len(),
{
    lemma_rlen(mask, sh); lemma_pz_prod(sh);
    if mask.len() > 0 {
        let (m, s) = (mask.drop_first(), sh.drop_first());
        lemma_prod_first(sh); lemma_prod_nonneg(s); lemma_rlen(m, s);
        let (a, q) = (sh[0] as int, prod(s));
        assert(a > 0 && q > 0 && q <= a * q) by (nonlinear_arith) requires a * q > 0, a >= 0, q >= 0;
        lemma_rst_fits(m, s);
        let t = rst(mask, sh);
        assert(t.drop_first() =~= rst(m, s));
        lemma_span_first(sh, t);
        let w = prod(rsh(m, s));
        if mask[0] { assert((a - 1) * 0 == 0); assert(a * 0 == 0); }
        else {
            let r = rsh(mask, sh);
            assert(r.drop_first() =~= rsh(m, s));
            lemma_prod_first(r);
            assert((a - 1) * w + w - 1 == a * w - 1) by (nonlinear_arith);
            assert(a * w <= a * q) by (nonlinear_arith) requires a > 0, 0 < w <= q;
        }
        assert forall|i: int| 0 <= i < sh.len() implies #[trigger] sh[i] * t[i] <= usize::MAX by { if i > 0 { assert(s[i - 1] * rst(m, s)[i - 1] <= usize::MAX); assert(t[i] == rst(m, s)[i - 1]); } else { assert(sh[0] * t[0] == a * t[0]); } }
    } else { assert(rsh(mask, sh) =~= Seq::<usize>::empty()); assert(prod(Seq::<usize>::empty()) == 1); }
}
pub proof fn lemma_suffix_pos(sh: Seq<usize>, c: int)
    requires 0 <= c <= sh.len(), prod(sh) > 0,
    ensures 0 < prod(sh.subrange(c, sh.len() as int)) <= prod(sh),
    decreases c,
{
    let n = sh.len() as int;
    if c == 0 { assert(sh.subrange(0, n) =~= sh); }
    else {
        lemma_suffix_pos(sh, c - 1);
        let s = sh.subrange(c - 1, n);
        assert(s.drop_first() =~= sh.subrange(c, n));
        lemma_prod_first(s); lemma_prod_nonneg(s.drop_first());
        let (a, q) = (s[0] as int, prod(s.drop_first()));
        assert(q > 0 && q <= a * q) by (nonlinear_arith) requires a * q > 0, a >= 0, q >= 0;
    }
}

//@fn src/ndarray/reduce.rs :: - :: reduced_shape_and_stride
//@sig pub fn reduced_shape_and_stride(axes: &[isize], shape: &[usize]) -> (r: (Vec<usize>, Vec<usize>))
//@flag index
//@flag arith
//@requires 0 < prod(shape@) <= isize::MAX, shape@.len() <= MAX_DIMS
//@panics axes_bad(axes@, shape@.len() as int)
//@ensures r.0@ == rsh(axes_mask(axes@, shape@.len() as int), shape@), r.1@ == rst(axes_mask(axes@, shape@.len() as int), shape@)
//@start
    let ghost n = shape@.len() as int; let ghost sh = shape@; let ghost mask = axes_mask(axes@, n);
//@loop 0
    invariant vxe0 == axes@.len(), n == shape@.len(), ndims == n, axis_mask@.len() == n, n <= MAX_DIMS, vx_p == axes_bad(axes@, n),
        forall|i: int| 0 <= i < vxc0 ==> axis_ok(#[trigger] axes@[i] as int, n),
        forall|i: int, j: int| 0 <= i < j < vxc0 ==> axis_abs(#[trigger] axes@[i] as int, n) != axis_abs(#[trigger] axes@[j] as int, n),
        forall|k: int| 0 <= k < n ==> #[trigger] axis_mask@[k] == (exists|i: int| 0 <= i < vxc0 && axis_abs(#[trigger] axes@[i] as int, n) == k),
//@loop 0 start
    let ghost b = vxc0 - 1; let ghost am = axis_mask@;
    proof {
        let k = axis_abs(axes@[b] as int, n);
        if 0 <= k < n && am[k] { let i = choose|i: int| 0 <= i < b && axis_abs(#[trigger] axes@[i] as int, n) == k; assert(axes_bad(axes@, n)); }
        if !axis_ok(axes@[b] as int, n) { assert(axes_bad(axes@, n)); }
    }
//@loop 0 end
    proof {
        let k0 = axis_abs(axes@[b] as int, n);
        assert(!am[k0]);
        assert forall|i: int, j: int| 0 <= i < j < vxc0 implies axis_abs(#[trigger] axes@[i] as int, n) != axis_abs(#[trigger] axes@[j] as int, n) by { if j == b && axis_abs(axes@[i] as int, n) == k0 { assert(am[k0]); } }
        assert forall|k: int| 0 <= k < n implies #[trigger] axis_mask@[k] == (exists|i: int| 0 <= i < vxc0 && axis_abs(#[trigger] axes@[i] as int, n) == k) by {
            if k == k0 { assert(axis_abs(axes@[b] as int, n) == k); }
            else if am[k] { let i = choose|i: int| 0 <= i < b && axis_abs(#[trigger] axes@[i] as int, n) == k; assert(0 <= i < vxc0 && axis_abs(axes@[i] as int, n) == k); }
        }
    }
//@loop 1 before
    proof {
        assert(axis_mask@ =~= mask);
        assert(mask.subrange(n, n) =~= Seq::<bool>::empty()); assert(sh.subrange(n, n) =~= Seq::<usize>::empty());
        assert(rsh(mask.subrange(n, n), sh.subrange(n, n)) =~= Seq::<usize>::empty());
    }
//@loop 1
    invariant n == shape@.len(), ndims == n, axis_mask@ == mask, mask.len() == n, sh == shape@, 0 <= vxc1 <= n, 0 < prod(sh) <= isize::MAX,
        new_shape@ == rsh(mask.subrange(vxc1 as int, n), sh.subrange(vxc1 as int, n)), new_stride@ == rst(mask.subrange(vxc1 as int, n), sh.subrange(vxc1 as int, n)),
        stride == prod(new_shape@),
//@loop 1 start
    let ghost c = vxc1 as int; let ghost (ms, ss) = (mask.subrange(c, n), sh.subrange(c, n)); let ghost (ns, nt) = (new_shape@, new_stride@);
    proof {
        assert(ms.drop_first() =~= mask.subrange(c + 1, n)); assert(ss.drop_first() =~= sh.subrange(c + 1, n));
        lemma_suffix_pos(sh, c);
        lemma_rlen(ms, ss); lemma_rlen(ms.drop_first(), ss.drop_first());
        if !mask[c] { let r = rsh(ms, ss); assert(r.drop_first() =~= ns); lemma_prod_first(r); assert(shape@[c] == r[0]); assert(stride * shape@[c] == shape@[c] * stride) by (nonlinear_arith); }
    }
//@loop 1 end
    proof {
        assert(new_stride@ =~= rst(ms, ss));
        assert(new_shape@ =~= rsh(ms, ss));
    }
//@ret
    proof { assert(mask.subrange(0, n) =~= mask); assert(sh.subrange(0, n) =~= sh); }
//@end

// ===================================================================== folding along axes
/// the fold over the elements of a (the first n in row-major order) whose kept index is jx
pub open spec fn sfold(f: spec_fn(E, E) -> E, m: Mem, a: NdArray, mask: Seq<bool>, jx: Seq<int>, n: int, init: E) -> E
    decreases n,
{ if n <= 0 { init } else { let acc = sfold(f, m, a, mask, jx, n - 1, init); if kept(mask, unlin(a.sh(), n - 1)) =~= jx { f(m.m()[a.ad(n - 1)], acc) } else { acc } } }
/// the same by position in the result
pub open spec fn ofold(f: spec_fn(E, E) -> E, m: Mem, a: NdArray, t: Seq<usize>, o: int, n: int, init: E) -> E
    decreases n,
{ if n <= 0 { init } else { let acc = ofold(f, m, a, t, o, n - 1, init); if off(a.sh(), t, n - 1) == o { f(m.m()[a.ad(n - 1)], acc) } else { acc } } }
pub proof fn lemma_ofold(f: spec_fn(E, E) -> E, m: Mem, a: NdArray, mask: Seq<bool>, jx: Seq<int>, n: int, init: E)
    requires mask.len() == a.sh().len(), 0 < prod(a.sh()) <= isize::MAX, inb(rsh(mask, a.sh()), jx), 0 <= n <= prod(a.sh()),
    ensures sfold(f, m, a, mask, jx, n, init) == ofold(f, m, a, rst(mask, a.sh()), lin(rsh(mask, a.sh()), jx), n, init),
    decreases n,
{
    if n > 0 {
        lemma_ofold(f, m, a, mask, jx, n - 1, init);
        let ix = unlin(a.sh(), n - 1);
        lemma_unlin(a.sh(), n - 1); lemma_kept(mask, a.sh(), ix); lemma_rlen(mask, a.sh());
        lemma_off_lin(a.sh(), rst(mask, a.sh()), ix);
        if lin(rsh(mask, a.sh()), kept(mask, ix)) == lin(rsh(mask, a.sh()), jx) { lemma_lin_inj(rsh(mask, a.sh()), kept(mask, ix), jx); }
    }
}
/// r: the fold along the axes in the mask
pub open spec fn is_reduced(r: NdArray, a: NdArray, mask: Seq<bool>, f: spec_fn(E, E) -> E, init: E, m0: Mem, m1: Mem) -> bool {
    is_new(r, rsh(mask, a.sh()), m0, m1) && forall|jx: Seq<int>| inb(r.sh(), jx) ==> #[trigger] m1.m()[r.at_ix(jx)] == sfold(f, m0, a, mask, jx, prod(a.sh()), init)
}
impl NdArray {
//@fn src/ndarray/reduce.rs :: impl NdArray :: reduce_along
//@sig pub fn reduce_along<F: Fn(E, E) -> E>(&self, func: F, axes: &[isize], default: E, Ghost(f): Ghost<spec_fn(E, E) -> E>, mem: &mut Mem) -> (r: NdArray)
//@flag elem_vec
//@requires self.wf(), self.readable(*old(mem)), self.sh().len() <= MAX_DIMS, forall|a: E, b: E| #[trigger] func.requires((a, b)), forall|a: E, b: E, c: E| #[trigger] func.ensures((a, b), c) ==> c == f(a, b)
//@panics axes_bad(axes@, self.sh().len() as int)
//@ensures is_reduced(r, *self, axes_mask(axes@, self.sh().len() as int), f, default, *old(mem), *final(mem))
//@start
    let ghost m0 = *mem; let ghost sh = self.sh(); let ghost mask = axes_mask(axes@, sh.len() as int); let ghost t = rst(mask, sh); let ghost n = prod(sh); let ghost os = rsh(mask, sh); let ghost sz = prod(os);
    proof { lemma_wfl(sh, self.st()); lemma_rst_fits(mask, sh); lemma_rlen(mask, sh); lemma_pz_prod(os); lemma_pz_prod(sh); }
//@loop 0 before
    let ghost g0 = vxg0a; let ghost h0 = dst_indices; let ghost m1 = *mem; let ghost q = output.ptr.a();
//@loop 0
    invariant vxg0a.ok(), vxg0a.same(&g0), vxg0a.cnt() == n, dst_indices.ok(), dst_indices.same(&h0), dst_indices.cnt() == n, dst_indices.pos() == vxg0a.pos(),
        m1.blocks() == mem.blocks(), m1.m().dom() == mem.m().dom(), dst.a() == q,
        forall|x: int| !(q <= x < q + sz) ==> #[trigger] mem.m()[x] == m1.m()[x],
        forall|o: int| 0 <= o < sz ==> #[trigger] mem.m()[q + o] == ofold(f, m0, *self, t, o, vxg0a.pos(), default),
    decreases n - vxg0a.pos(),
//@loop 0 fetch
    proof {
        let b = vxg0a.pos();
        if b < n {
            assert(g0.at(b) == self.ad(b)); assert(vxg0a.at(b) == g0.at(b)); let x = self.ad(b);
            assert(m0.m().contains_key(x)); assert(m1.m().contains_key(x)); assert(m1.m().dom().contains(x)); assert(mem.m().contains_key(x));
            assert(!(q <= x < q + sz)) by { if q <= x < q + sz { assert(!m0.m().contains_key(x)); } }
            assert(mem.m()[x] == m0.m()[x]);
        }
    }
//@loop 0 start
    let ghost b = vxg0a.pos() - 1; let ghost m2 = *mem; let ghost o = off(sh, t, b);
    proof {
        assert(el == m0.m()[self.ad(b)]);
        lemma_off_bounds(sh, t, b);
        assert(h0.at(b) == o); assert(dst_indices.at(b) == h0.at(b));
        assert(m1.m().contains_key(q + o)); assert(m1.m().dom().contains(q + o));
    }
//@loop 0 end
    proof { assert forall|p: int| 0 <= p < sz implies #[trigger] mem.m()[q + p] == ofold(f, m0, *self, t, p, b + 1, default) by { assert(m2.m()[q + p] == ofold(f, m0, *self, t, p, b, default)); } }
//@ret
    proof {
        assert forall|x: int| #[trigger] m0.m().contains_key(x) implies mem.m().contains_key(x) by { assert(m1.m().contains_key(x)); assert(m1.m().dom().contains(x)); }
        assert forall|x: int| m0.m().contains_key(x) implies #[trigger] mem.m()[x] == m0.m()[x] by { assert(m1.m()[x] == m0.m()[x]); assert(m0.m().contains_key(x)); }
        assert forall|x: int| q <= x < q + vx_ret.capacity implies !(#[trigger] m0.m().contains_key(x)) && mem.m().contains_key(x) by { assert(m1.m().contains_key(x)); assert(m1.m().dom().contains(x)); }
        assert forall|jx: Seq<int>| inb(os, jx) implies #[trigger] mem.m()[vx_ret.at_ix(jx)] == sfold(f, m0, *self, mask, jx, n, default) by {
            lemma_off_lin(os, vx_ret.st(), jx); let o = lin(os, jx); assert(vx_ret.ad(o) == q + o); lemma_ofold(f, m0, *self, mask, jx, n, default);
        }
    }
//@end
}
impl NdArray {
//@fn src/ndarray/reduce.rs :: impl NdArray :: sum_along
//@sig pub fn sum_along(&self, axes: &[isize], mem: &mut Mem) -> (r: NdArray)
//@call T::zero => E::zero_value
//@call .reduce_along => reduce_along +Ghost(f_sum())
//@call op+ => vx_add
//@requires self.wf(), self.readable(*old(mem)), self.sh().len() <= MAX_DIMS
//@panics axes_bad(axes@, self.sh().len() as int)
//@ensures is_reduced(r, *self, axes_mask(axes@, self.sh().len() as int), f_sum(), E::zero_(), *old(mem), *final(mem))
//@closure 0
    -> (r: E) ensures r == add_e(vxb, vxa)
//@end
}
impl NdArray {
//@fn src/ndarray/reduce.rs :: impl NdArray :: product_along
//@sig pub fn product_along(&self, axes: &[isize], mem: &mut Mem) -> (r: NdArray)
//@call T::one => E::one_value
//@call .reduce_along => reduce_along +Ghost(f_product())
//@call op* => vx_mul
//@requires self.wf(), self.readable(*old(mem)), self.sh().len() <= MAX_DIMS
//@panics axes_bad(axes@, self.sh().len() as int)
//@ensures is_reduced(r, *self, axes_mask(axes@, self.sh().len() as int), f_product(), E::one_(), *old(mem), *final(mem))
//@closure 0
    -> (r: E) ensures r == mul_e(vxb, vxa)
//@end
}
impl NdArray {
//@fn src/ndarray/reduce.rs :: impl NdArray :: min_along
//@sig pub fn min_along(&self, axes: &[isize], mem: &mut Mem) -> (r: NdArray)
//@call T::min_identity => min_identity
//@call .reduce_along => reduce_along +Ghost(f_min())
//@requires self.wf(), self.readable(*old(mem)), self.sh().len() <= MAX_DIMS
//@panics axes_bad(axes@, self.sh().len() as int)
//@ensures is_reduced(r, *self, axes_mask(axes@, self.sh().len() as int), f_min(), E::greatest(), *old(mem), *final(mem))
//@end
}
impl NdArray {
//@fn src/ndarray/reduce.rs :: impl NdArray :: max_along
//@sig pub fn max_along(&self, axes: &[isize], mem: &mut Mem) -> (r: NdArray)
//@call T::max_identity => max_identity
//@call .reduce_along => reduce_along +Ghost(f_max())
//@requires self.wf(), self.readable(*old(mem)), self.sh().len() <= MAX_DIMS
//@panics axes_bad(axes@, self.sh().len() as int)
//@ensures is_reduced(r, *self, axes_mask(axes@, self.sh().len() as int), f_max(), E::least(), *old(mem), *final(mem))
//@end
}
impl NdArray {
//@fn src/ndarray/reduce.rs :: impl NdArray :: min_magnitude_along
//@sig pub fn min_magnitude_along(&self, axes: &[isize], mem: &mut Mem) -> (r: NdArray)
//@call T::min_magnitude_identity => min_magnitude_identity
//@call .reduce_along => reduce_along +Ghost(f_min_magnitude())
//@requires self.wf(), self.readable(*old(mem)), self.sh().len() <= MAX_DIMS
//@panics axes_bad(axes@, self.sh().len() as int)
//@ensures is_reduced(r, *self, axes_mask(axes@, self.sh().len() as int), f_min_magnitude(), E::greatest(), *old(mem), *final(mem))
//@end
}
impl NdArray {
//@fn src/ndarray/reduce.rs :: impl NdArray :: max_magnitude_along
//@sig pub fn max_magnitude_along(&self, axes: &[isize], mem: &mut Mem) -> (r: NdArray)
//@call T::zero => E::zero_value
//@call .reduce_along => reduce_along +Ghost(f_max_magnitude())
//@requires self.wf(), self.readable(*old(mem)), self.sh().len() <= MAX_DIMS
//@panics axes_bad(axes@, self.sh().len() as int)
//@ensures is_reduced(r, *self, axes_mask(axes@, self.sh().len() as int), f_max_magnitude(), E::zero_(), *old(mem), *final(mem))
//@end
}

// ===================================================================== mean along axes
/// number of elements folded into each element of the result
pub open spec fn mprod(mask: Seq<bool>, sh: Seq<usize>) -> int
    decreases mask.len(),
{ if mask.len() == 0 { 1 } else { (if mask[0] { sh[0] as int } else { 1int }) * mprod(mask.drop_first(), sh.drop_first()) } }
pub proof fn lemma_mprod(mask: Seq<bool>, sh: Seq<usize>)
    requires mask.len() == sh.len(), prod(sh) > 0,
    ensures 0 < mprod(mask, sh) <= prod(sh), (forall|i: int| 0 <= i < mask.len() ==> !mask[i]) ==> mprod(mask, sh) == 1,
    decreases mask.len(),
{
    if mask.len() > 0 {
        let (m, s) = (mask.drop_first(), sh.drop_first());
        lemma_prod_first(sh); lemma_prod_nonneg(s);
        let (a, q) = (sh[0] as int, prod(s));
        assert(a > 0 && q > 0) by (nonlinear_arith) requires a * q > 0, a >= 0, q >= 0;
        lemma_mprod(m, s);
        let w = mprod(m, s);
        assert(0 < a * w <= a * q) by (nonlinear_arith) requires a > 0, 0 < w <= q;
        assert(q <= a * q) by (nonlinear_arith) requires a > 0, q > 0;
    } else { assert(sh =~= Seq::<usize>::empty()); assert(prod(Seq::<usize>::empty()) == 1); }
}
pub proof fn lemma_mprod_set(mask: Seq<bool>, sh: Seq<usize>, k: int)
    requires mask.len() == sh.len(), 0 <= k < mask.len(), !mask[k],
    ensures mprod(mask.update(k, true), sh) == mprod(mask, sh) * sh[k],
    decreases mask.len(),
{
    let (m, s) = (mask.drop_first(), sh.drop_first());
    let u = mask.update(k, true);
    if k == 0 { assert(u.drop_first() =~= m); let (a, w) = (sh[0] as int, mprod(m, s)); assert(a * w == (1 * w) * a) by (nonlinear_arith); }
    else {
        assert(u.drop_first() =~= m.update(k - 1, true));
        lemma_mprod_set(m, s, k - 1);
        let (z, w, a) = (if mask[0] { sh[0] as int } else { 1int }, mprod(m, s), sh[k] as int);
        assert(z * (w * a) == (z * w) * a) by (nonlinear_arith);
    }
}
pub open spec fn axes_neg(axes: Seq<isize>) -> bool { exists|i: int| 0 <= i < axes.len() && #[trigger] axes[i] < 0 }
/// elements of a new array by index and by position
pub broadcast proof fn lemma_new_at(r: NdArray, sh: Seq<usize>, a: Mem, b: Mem, jx: Seq<int>)
    requires #[trigger] is_new(r, sh, a, b), #[trigger] inb(sh, jx),
    ensures r.ad(lin(sh, jx)) == r.at_ix(jx), 0 <= lin(sh, jx) < prod(sh),
{
    lemma_wfl(r.sh(), r.st()); lemma_off_lin(r.sh(), r.st(), jx);
}
pub broadcast proof fn lemma_new_readable(r: NdArray, sh: Seq<usize>, a: Mem, b: Mem)
    requires #[trigger] is_new(r, sh, a, b),
    ensures r.readable(b),
{
    assert forall|k: int| 0 <= k < prod(r.sh()) implies b.m().contains_key(#[trigger] r.ad(k)) by { assert(r.ad(k) == r.ptr.a() + k); assert(!a.m().contains_key(r.ptr.a() + k)); }
}
impl NdArray {
//@fn src/ndarray/reduce.rs :: impl NdArray :: mean_along
//@sig pub fn mean_along(&self, axes0: &[isize], mem: &mut Mem) -> (r: NdArray)
//@flag index
//@flag arith
//@call NumCast::from => E::from_usize
//@call op/ => &nd_vop_scalar_o
//@requires self.wf(), self.readable(*old(mem)), self.sh().len() <= MAX_DIMS
//@panics axes_bad(axes0@, self.sh().len() as int) || axes_neg(axes0@) || E::of_usize(mprod(axes_mask(axes0@, self.sh().len() as int), self.sh()) as usize).is_none()
//@ensures is_new(r, rsh(axes_mask(axes0@, self.sh().len() as int), self.sh()), *old(mem), *final(mem)),
    forall|jx: Seq<int>| inb(r.sh(), jx) ==> #[trigger] final(mem).m()[r.at_ix(jx)] == op2(sfold(f_sum(), *old(mem), *self, axes_mask(axes0@, self.sh().len() as int), jx, prod(self.sh()), E::zero_()), E::of_usize(mprod(axes_mask(axes0@, self.sh().len() as int), self.sh()) as usize).unwrap())
//@start
    broadcast use lemma_new_trans; broadcast use lemma_new_at; broadcast use lemma_new_readable;
    let ghost m0 = *mem; let ghost nd = self.sh().len() as int; let ghost bad = axes_bad(axes0@, nd); let ghost sh = self.sh(); let ghost mask = axes_mask(axes0@, nd);
    proof { lemma_wfl(self.sh(), self.st()); lemma_mprod(axes_mask(axes0@.subrange(0, 0), nd), sh); lemma_mprod(mask, sh); lemma_rlen(mask, sh); }
//@loop 0
    invariant vxe0 == axes@.len(), axes@ == axes0@, nd == self.sh().len(), bad == axes_bad(axes0@, nd), bad || axes_neg(axes0@) ==> vx_p, sh == self.sh(), mask == axes_mask(axes0@, nd), 0 < prod(sh) <= isize::MAX, nd <= MAX_DIMS,
        !bad ==> n == mprod(axes_mask(axes0@.subrange(0, vxc0 as int), nd), sh), forall|i: int| 0 <= i < vxc0 ==> #[trigger] axes0@[i] >= 0,
//@loop 0 start
    let ghost b = vxc0 - 1;
    proof {
        if axis < 0 { assert(axes_neg(axes0@)); }
        if axis >= nd { assert(!axis_ok(axes0@[b] as int, nd)); }
        if !bad && axis >= 0 {
            let (u, v) = (axes0@.subrange(0, b), axes0@.subrange(0, b + 1));
            let (mu, mv) = (axes_mask(u, nd), axes_mask(v, nd));
            assert(axis_ok(axes0@[b] as int, nd));
            if mu[axis as int] { let i = choose|i: int| 0 <= i < u.len() && axis_abs(#[trigger] u[i] as int, nd) == axis; assert(axes0@[i] == u[i]); assert(axis_abs(axes0@[i] as int, nd) == axis_abs(axes0@[b] as int, nd)); assert(bad); }
            assert forall|k: int| 0 <= k < nd implies mv[k] == mu.update(axis as int, true)[k] by {
                if k == axis { assert(axis_abs(v[b] as int, nd) == k); }
                else if mu[k] { let i = choose|i: int| 0 <= i < u.len() && axis_abs(#[trigger] u[i] as int, nd) == k; assert(v[i] == u[i]); }
                else if mv[k] { let i = choose|i: int| 0 <= i < v.len() && axis_abs(#[trigger] v[i] as int, nd) == k; assert(v[b] == axis); if i < b { assert(u[i] == v[i]); assert(mu[k]); } }
            }
            assert(mv =~= mu.update(axis as int, true));
            lemma_mprod_set(mu, sh, axis as int);
            lemma_mprod(mv, sh);
        }
    }
//@loop 0 after
    proof { assert(axes0@.subrange(0, axes0@.len() as int) =~= axes0@); }
//@ret
    proof {
        assert(is_new(vx_ret, vx_ret.sh(), m0, *mem));
        assert forall|jx: Seq<int>| inb(vx_ret.sh(), jx) implies #[trigger] mem.m()[vx_ret.at_ix(jx)] == op2(sfold(f_sum(), m0, *self, mask, jx, prod(sh), E::zero_()), E::of_usize(mprod(mask, sh) as usize).unwrap()) by {
            lemma_off_lin(vx_ret.sh(), vx_ret.st(), jx);
            assert(vx_ret.ad(lin(vx_ret.sh(), jx)) == vx_ret.at_ix(jx));
        }
    }
//@end
}
