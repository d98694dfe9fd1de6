//@use core geom mem arr slice bcast iter heap kern ops assign
use vstd::arithmetic::mul::*;
use vstd::arithmetic::div_mod::*;

// ===================================================================== fill
/// the cells in l hold v, every other cell is unchanged
pub open spec fn filled(m0: Mem, m1: Mem, l: Seq<int>, v: E) -> bool {
    m1.blocks() == m0.blocks() && m1.m().dom() == m0.m().dom() && (forall|k: int| 0 <= k < l.len() ==> m1.m()[#[trigger] l[k]] == v) && (forall|x: int| !l.contains(x) ==> #[trigger] m1.m()[x] == m0.m()[x])
}
pub proof fn lemma_filled_ext(m0: Mem, m1: Mem, l: Seq<int>, r: Seq<int>, v: E)
    requires filled(m0, m1, l, v), l =~= r,
    ensures filled(m0, m1, r, v),
{}
/// position of an element counted along the first axis
pub proof fn lemma_off_first(sh: Seq<usize>, st: Seq<usize>, i: int, j: int)
    requires sh.len() == st.len(), sh.len() > 0, 0 <= i < sh[0], 0 <= j < prod(sh.drop_first()),
    ensures prod(sh) == sh[0] * prod(sh.drop_first()), 0 <= i * prod(sh.drop_first()) + j < prod(sh), off(sh, st, i * prod(sh.drop_first()) + j) == i * st[0] + off(sh.drop_first(), st.drop_first(), j),
    decreases sh.len(),
{
    let (ts, tt) = (sh.drop_first(), st.drop_first());
    lemma_prod_nonneg(ts);
    if sh.len() == 1 {
        lemma_prod1();
        assert(prod(ts) == 1);
        assert(i * 1 + j == i);
        lemma_small_mod(i as nat, sh[0] as nat); lemma_basic_div(i, sh[0] as int);
        assert(sh.drop_last().len() == 0);
        assert(off(sh.drop_last(), st.drop_last(), i / (sh.last() as int)) == 0);
        assert(off(ts, tt, j) == 0);
        assert(prod(sh) == sh[0] * 1);
    } else {
        let n = sh.last() as int;
        let (dl, dt) = (sh.drop_last(), st.drop_last());
        assert(ts.drop_last() =~= dl.drop_first()); assert(tt.drop_last() =~= dt.drop_first());
        assert(ts.last() == sh.last() && tt.last() == st.last());
        let q = prod(dl.drop_first());
        lemma_prod_nonneg(dl.drop_first());
        assert(prod(ts) == q * n);
        assert(n > 0 && q > 0) by (nonlinear_arith) requires q * n > 0, q >= 0, n >= 0;
        lemma_div_range(q, n, j);
        lemma_off_first(dl, dt, i, j / n);
        let k = i * (q * n) + j;
        assert(i * (q * n) == (i * q) * n) by (nonlinear_arith);
        lemma_fundamental_div_mod(j, n);
        lemma_mod_bound(j, n);
        assert(k == (i * q + j / n) * n + j % n) by (nonlinear_arith) requires k == (i * q) * n + j, j == n * (j / n) + j % n;
        lemma_fundamental_div_mod_converse(k, n, i * q + j / n, j % n);
        assert(prod(sh) == prod(dl) * n);
        assert(prod(sh) == sh[0] * (q * n)) by (nonlinear_arith) requires prod(sh) == prod(dl) * n, prod(dl) == sh[0] * q;
        assert(i * (q * n) + (q * n) <= sh[0] * (q * n)) by (nonlinear_arith) requires i + 1 <= sh[0], q * n > 0;
        assert(i * (q * n) >= 0) by (nonlinear_arith) requires i >= 0, q * n > 0;
    }
}
pub proof fn lemma_span_first(sh: Seq<usize>, st: Seq<usize>)
    requires sh.len() == st.len(), sh.len() > 0,
    ensures span(sh, st) == (sh[0] - 1) * st[0] + span(sh.drop_first(), st.drop_first()),
    decreases sh.len(),
{
    let (dl, dt) = (sh.drop_last(), st.drop_last());
    if sh.len() > 1 {
        lemma_span_first(dl, dt);
        assert(sh.drop_first().drop_last() =~= dl.drop_first()); assert(st.drop_first().drop_last() =~= dt.drop_first());
    } else { assert(dl.len() == 0); assert(span(dl, dt) == 0); assert(span(sh.drop_first(), st.drop_first()) == 0); }
}
/// the sub-layout behind the first axis
pub proof fn lemma_wfl_tail(sh: Seq<usize>, st: Seq<usize>)
    requires wfl(sh, st), sh.len() > 0,
    ensures wfl(sh.drop_first(), st.drop_first()), sh[0] > 0, prod(sh) == sh[0] * prod(sh.drop_first()), prod(sh.drop_first()) > 0,
{
    let ts = sh.drop_first();
    lemma_span_first(sh, st);
    lemma_prod_nonneg(ts);
    lemma_prod_first(sh);
    let (n, q) = (sh[0] as int, prod(ts));
    assert(n > 0 && q > 0 && q <= n * q) by (nonlinear_arith) requires n * q > 0, q >= 0, n >= 0;
    assert((n - 1) * st[0] >= 0) by (nonlinear_arith) requires n >= 1, st[0] >= 0;
    lemma_span_nonneg(ts, st.drop_first());
}
pub proof fn lemma_prod_first(sh: Seq<usize>)
    requires sh.len() > 0,
    ensures prod(sh) == sh[0] * prod(sh.drop_first()),
    decreases sh.len(),
{
    if sh.len() == 1 { lemma_prod1(); assert(prod(sh.drop_first()) == 1); assert(sh[0] * 1 == sh[0]); }
    else {
        let dl = sh.drop_last();
        lemma_prod_first(dl);
        assert(sh.drop_first().drop_last() =~= dl.drop_first());
        let (n, q, m) = (sh[0] as int, prod(dl.drop_first()), sh.last() as int);
        assert((n * q) * m == n * (q * m)) by (nonlinear_arith);
    }
}
/// in a dense layout the first axis spans everything
pub proof fn lemma_dense(sh: Seq<usize>, st: Seq<usize>)
    requires sh.len() == st.len(), sh.len() > 0, ustruct(sh, st), st.last() == 1, forall|i: int| 0 <= i < st.len() ==> #[trigger] st[i] > 0,
    ensures sh[0] * st[0] == prod(sh),
    decreases sh.len(),
{
    lemma_prod_first(sh);
    if sh.len() == 1 { lemma_prod1(); assert(sh[0] * 1 == sh[0]); }
    else {
        let (ts, tt) = (sh.drop_first(), st.drop_first());
        assert forall|i: int| 1 <= i < ts.len() implies #[trigger] ustep(ts, tt, i) by { assert(ustep(sh, st, i + 1)); assert(st[i] > 0); }
        assert forall|i: int| 0 <= i < tt.len() implies #[trigger] tt[i] > 0 by { assert(st[i + 1] > 0); }
        lemma_dense(ts, tt);
        assert(ustep(sh, st, 1)); assert(st[0] > 0);
        assert(st[0] == prod(ts));
    }
}
/// one more slab along the first axis
pub proof fn lemma_slab(sh: Seq<usize>, st: Seq<usize>, p: int, i: int)
    requires wfl(sh, st), sh.len() > 0, 0 <= i < sh[0],
    ensures ({
        let l = lad(p, sh, st); let r = lad(p + i * st[0], sh.drop_first(), st.drop_first()); let n = prod(sh.drop_first());
        r.len() == n && 0 <= i * n && i * n + n <= l.len() && i * n + n == (i + 1) * n && l.subrange(i * n, i * n + n) =~= r
    }),
{
    let l = lad(p, sh, st); let r = lad(p + i * st[0], sh.drop_first(), st.drop_first()); let n = prod(sh.drop_first());
    lemma_wfl_tail(sh, st);
    lemma_off_first(sh, st, i, 0); lemma_off_first(sh, st, i, n - 1);
    assert(i * n + n == (i + 1) * n) by (nonlinear_arith);
    assert forall|j: int| 0 <= j < n implies #[trigger] l.subrange(i * n, i * n + n)[j] == r[j] by { lemma_off_first(sh, st, i, j); }
}
pub proof fn lemma_fill_step(m0: Mem, m2: Mem, m3: Mem, l: Seq<int>, r: Seq<int>, a: int, v: E)
    requires filled(m2, m3, r, v), m2.blocks() == m0.blocks(), m2.m().dom() == m0.m().dom(), 0 <= a, a + r.len() <= l.len(), l.subrange(a, a + r.len()) =~= r,
        forall|k: int| 0 <= k < a ==> m2.m()[#[trigger] l[k]] == v, forall|x: int| !l.contains(x) ==> #[trigger] m2.m()[x] == m0.m()[x],
    ensures m3.blocks() == m0.blocks(), m3.m().dom() == m0.m().dom(),
        forall|k: int| 0 <= k < a + r.len() ==> m3.m()[#[trigger] l[k]] == v, forall|x: int| !l.contains(x) ==> #[trigger] m3.m()[x] == m0.m()[x],
{
    assert forall|k: int| 0 <= k < a + r.len() implies m3.m()[#[trigger] l[k]] == v by {
        if k >= a { assert(l[k] == l.subrange(a, a + r.len())[k - a]); assert(l[k] == r[k - a]); }
        else { assert(m2.m()[l[k]] == v); if r.contains(l[k]) { let j = choose|j: int| 0 <= j < r.len() && r[j] == l[k]; assert(m3.m()[r[j]] == v); } }
    }
    assert forall|x: int| !l.contains(x) implies #[trigger] m3.m()[x] == m0.m()[x] by {
        if r.contains(x) { let j = choose|j: int| 0 <= j < r.len() && r[j] == x; assert(l.subrange(a, a + r.len())[j] == l[a + j]); assert(l.contains(x)); }
    }
}
pub struct Fill { }
impl Fill {
//@fn src/ops/fill.rs :: trait Fill :: fill_uniform_stride
//@sig pub fn fill_uniform_stride(ptr0: Ptr, count: usize, stride: usize, value: E, mem: &mut Mem)
//@requires reads(*old(mem), uad(ptr0.a(), stride as int, count as int))
//@ensures filled(*old(mem), *final(mem), uad(ptr0.a(), stride as int, count as int), value)
//@start
    let ghost m0 = *mem; let ghost (p, s, n) = (ptr0.a(), stride as int, count as int); let ghost l = uad(p, s, n);
//@loop 0
    invariant mem.blocks() == m0.blocks(), mem.m().dom() == m0.m().dom(), ptr.a() == p + vxc0 * s, s == stride, vxc0 <= n, n == count,
        forall|k: int| 0 <= k < vxc0 ==> mem.m()[#[trigger] l[k]] == value, forall|x: int| !l.contains(x) ==> #[trigger] mem.m()[x] == m0.m()[x],
//@loop 0 start
    let ghost i = vxc0 - 1; let ghost m2 = *mem;
    proof { assert(ptr.a() == l[i]); assert(m0.m().contains_key(l[i])); assert(m0.m().dom().contains(l[i])); assert((i + 1) * s == i * s + s) by (nonlinear_arith); }
//@end
//@fn src/ops/fill.rs :: trait Fill :: fill_contiguous
//@sig pub fn fill_contiguous(ptr: Ptr, count: usize, value: E, mem: &mut Mem)
//@requires reads(*old(mem), uad(ptr.a(), 1, count as int))
//@ensures filled(*old(mem), *final(mem), uad(ptr.a(), 1, count as int), value)
//@end
//@fn src/ops/fill.rs :: trait Fill :: fill
//@call Self::fill => Self::fill_raw
//@sig pub fn fill_raw(ptr0: Ptr, shape: &[usize], stride0: &[usize], len: usize, value: E, mem: &mut Mem)
//@flag arith
//@requires wfl(shape@, stride0@), reads(*old(mem), lad(ptr0.a(), shape@, stride0@)), forall|i: int| 0 <= i < stride0@.len() ==> #[trigger] stride0@[i] > 0, stride0@.len() > 0 && stride0@.last() == 1 && ustruct(shape@, stride0@) ==> len == prod(shape@)
//@ensures filled(*old(mem), *final(mem), lad(ptr0.a(), shape@, stride0@), value)
//@decreases shape@.len()
//@start
    let ghost m0 = *mem; let ghost (p, sh, st) = (ptr0.a(), shape@, stride0@); let ghost l = lad(p, sh, st);
    proof { lemma_wfl(sh, st); }
    proof {
        lemma_pz_prod(sh);
        assert forall|s: int| #[trigger] uniform(sh, st, s) implies l == uad(p, s, prod(sh)) by { assert forall|k: int| 0 <= k < prod(sh) implies #[trigger] l[k] == uad(p, s, prod(sh))[k] by { assert(off(sh, st, k) == k * s); } assert(l =~= uad(p, s, prod(sh))); }
    }
//@loop 0 before
    let ghost (ts, tt) = (sh.drop_first(), st.drop_first()); let ghost n = prod(ts);
    proof { lemma_wfl_tail(sh, st); }
//@loop 0
    invariant mem.blocks() == m0.blocks(), mem.m().dom() == m0.m().dom(), ptr.a() == p + vxc0 * st[0], forall|k: int| 0 <= k < vxc0 * n ==> mem.m()[#[trigger] l[k]] == value, forall|x: int| !l.contains(x) ==> #[trigger] mem.m()[x] == m0.m()[x],
//@loop 0 start
    let ghost i = vxc0 - 1; let ghost m2 = *mem;
    proof {
        lemma_slab(sh, st, p, i);
        let r = lad(p + i * st[0], ts, tt);
        assert forall|k: int| 0 <= k < n implies mem.m().contains_key(#[trigger] r[k]) by { assert(r[k] == l.subrange(i * n, i * n + n)[k]); assert(m0.m().contains_key(l[i * n + k])); assert(m0.m().dom().contains(l[i * n + k])); }
        assert((i + 1) * st[0] == i * st[0] + st[0]) by (nonlinear_arith);
        assert(shape@.subrange(1, sh.len() as int) =~= ts); assert(stride@.subrange(1, sh.len() as int) =~= tt);
        assert forall|i: int| 0 <= i < tt.len() implies #[trigger] tt[i] > 0 by { assert(st[i + 1] > 0); }
        if tt.last() == 1 && ustruct(ts, tt) { lemma_dense(ts, tt); }
    }
//@loop 0 end
    proof { lemma_fill_step(m0, m2, *mem, l, lad(p + i * st[0], ts, tt), i * n, value); }
//@ret
    proof { assert(vxc0 * n == prod(sh)); }
//@end
}
pub proof fn lemma_dense_span(sh: Seq<usize>, st: Seq<usize>)
    requires sh.len() == st.len(), sh.len() > 0, prod(sh) > 0, ustruct(sh, st), st.last() == 1, forall|i: int| 0 <= i < st.len() ==> #[trigger] st[i] > 0,
    ensures span(sh, st) == prod(sh) - 1,
    decreases sh.len(),
{
    lemma_span_first(sh, st); lemma_prod_first(sh); lemma_dense(sh, st);
    let (ts, tt) = (sh.drop_first(), st.drop_first());
    if sh.len() == 1 { lemma_prod1(); assert(span(ts, tt) == 0); assert((sh[0] - 1) * 1 == sh[0] - 1); }
    else {
        assert forall|i: int| 1 <= i < ts.len() implies #[trigger] ustep(ts, tt, i) by { assert(ustep(sh, st, i + 1)); assert(st[i] > 0); }
        assert forall|i: int| 0 <= i < tt.len() implies #[trigger] tt[i] > 0 by { assert(st[i + 1] > 0); }
        lemma_prod_nonneg(ts);
        let (n, q) = (sh[0] as int, prod(ts));
        assert(q > 0) by (nonlinear_arith) requires n * q > 0, q >= 0, n >= 0;
        lemma_dense_span(ts, tt);
        lemma_dense(ts, tt);
        assert(ustep(sh, st, 1)); assert(st[0] > 0); assert(st[0] == q);
        assert((n - 1) * q + (q - 1) == n * q - 1) by (nonlinear_arith);
    }
}
/// every element of a is v, nothing else changed
pub open spec fn upd_fill(a: NdArray, v: E, m0: Mem, m1: Mem) -> bool { only(a, m0, m1) && forall|k: int| 0 <= k < prod(a.sh()) ==> #[trigger] m1.m()[a.ad(k)] == v }
pub proof fn lemma_fill_nd(a: NdArray, v: E, m0: Mem, m1: Mem)
    requires filled(m0, m1, lad(a.ptr.a(), a.sh(), a.st()), v),
    ensures upd_fill(a, v, m0, m1),
{
    let l = lad(a.ptr.a(), a.sh(), a.st());
    lemma_lad_ad(a);
    assert forall|k: int| 0 <= k < prod(a.sh()) implies #[trigger] m1.m()[a.ad(k)] == v by { assert(l[k] == a.ad(k)); }
    assert forall|x: int| m0.m().contains_key(x) && !a.covers(x) implies #[trigger] m1.m()[x] == m0.m()[x] by {
        if l.contains(x) { let k = choose|k: int| 0 <= k < l.len() && l[k] == x; assert(l[k] == a.ad(k)); assert(a.covers(x)); }
    }
    assert forall|x: int| #[trigger] m0.m().contains_key(x) implies m1.m().contains_key(x) by { assert(m0.m().dom().contains(x)); }
}
impl E {
    /// From<bool>
    pub uninterp spec fn of_bool(b: bool) -> E;
    #[verifier::external_body]
    pub fn from_bool(b: bool) -> (r: E) ensures r == E::of_bool(b), { unimplemented!() }
}
impl NdArray {
//@fn src/ndarray/fill.rs :: impl NdArray :: fill
//@sig pub fn fill(&self, value: E, mem: &mut Mem)
//@call Fill::fill => Fill::fill_raw
//@requires self.wf(), self.readable(*old(mem)), self.flags.writeable ==> self.posst()
//@panics !self.flags.writeable
//@ensures upd_fill(*self, value, *old(mem), *final(mem)), self.flags.writeable
//@start
    let ghost m0 = *mem;
    proof {
        lemma_reads(*self, m0);
        if self.flags.writeable && self.st().len() > 0 && self.st().last() == 1 && ustruct(self.sh(), self.st()) { lemma_dense_span(self.sh(), self.st()); }
    }
//@ret
    proof { lemma_fill_nd(*self, value, m0, *mem); }
//@end
//@fn src/ndarray/fill.rs :: impl NdArray :: zero
//@sig pub fn zero(&self, mem: &mut Mem)
//@call .into => @E::from_bool
//@requires self.wf(), self.readable(*old(mem)), self.flags.writeable ==> self.posst()
//@panics !self.flags.writeable
//@ensures upd_fill(*self, E::of_bool(false), *old(mem), *final(mem)), self.flags.writeable
//@end
}

// ===================================================================== equality
pub uninterp spec fn eqe(a: E, b: E) -> bool;
#[verifier::external_body]
pub fn vx_eqe(a: E, b: E) -> (r: bool) ensures r == eqe(a, b), { unimplemented!() }
pub open spec fn same_arr(a: NdArray, b: NdArray, m: Mem) -> bool { a.sh() == b.sh() && forall|k: int| 0 <= k < prod(a.sh()) ==> eqe(m.m()[#[trigger] a.ad(k)], m.m()[b.ad(k)]) }
//@fn src/ndarray/equals.rs :: impl PartialEq<NdArray<T>> for &NdArray<T> :: eq
//@sig pub fn nd_eq_ro(self_: &&NdArray, other: &NdArray, mem: &Mem) -> (r: bool)
//@call op== => vx_eqe
//@requires self_.wf(), self_.readable(*mem), other.wf(), other.readable(*mem), self_.sh().len() <= MAX_DIMS
//@ensures r == same_arr(**self_, *other, *mem)
//@start
    let ghost (x, y) = (**self_, *other); let ghost n = prod(x.sh());
//@loop 0 before
    let ghost g0 = vxg0a; let ghost h0 = vxg0b;
//@loop 0
    invariant_except_break vxa0,
    invariant x.sh() == y.sh(), vxg0a.ok(), vxg0a.same(&g0), vxg0a.cnt() == n, vxg0b.ok(), vxg0b.same(&h0), vxg0b.cnt() == n,
        vxa0 ==> vxg0a.pos() == vxg0b.pos() && forall|k: int| 0 <= k < vxg0a.pos() ==> eqe(mem.m()[#[trigger] x.ad(k)], mem.m()[y.ad(k)]), !vxa0 ==> !same_arr(x, y, *mem),
    ensures vxa0 ==> vxg0a.pos() == n,
    decreases n - vxg0a.pos(),
//@loop 0 fetch
    proof {
        let b = vxg0b.pos();
        if b < n { assert(g0.at(b) == x.ad(b)); assert(vxg0a.at(b) == g0.at(b)); assert(h0.at(b) == y.ad(b)); assert(vxg0b.at(b) == h0.at(b)); assert(mem.m().contains_key(x.ad(b)) && mem.m().contains_key(y.ad(b))); }
    }
//@loop 0 start
    proof { let k = vxg0a.pos() - 1; assert(a == mem.m()[x.ad(k)]); assert(b == mem.m()[y.ad(k)]); }
//@end
//@fn src/ndarray/equals.rs :: impl PartialEq<&NdArray<T>> for NdArray<T> :: eq
//@sig pub fn nd_eq_or(self_: &NdArray, other: &&NdArray, mem: &Mem) -> (r: bool)
//@call op== => vx_eqe
//@requires self_.wf(), self_.readable(*mem), other.wf(), other.readable(*mem), self_.sh().len() <= MAX_DIMS
//@ensures r == same_arr(*self_, **other, *mem)
//@start
    let ghost (x, y) = (*self_, **other); let ghost n = prod(x.sh());
//@loop 0 before
    let ghost g0 = vxg0a; let ghost h0 = vxg0b;
//@loop 0
    invariant_except_break vxa0,
    invariant x.sh() == y.sh(), vxg0a.ok(), vxg0a.same(&g0), vxg0a.cnt() == n, vxg0b.ok(), vxg0b.same(&h0), vxg0b.cnt() == n,
        vxa0 ==> vxg0a.pos() == vxg0b.pos() && forall|k: int| 0 <= k < vxg0a.pos() ==> eqe(mem.m()[#[trigger] x.ad(k)], mem.m()[y.ad(k)]), !vxa0 ==> !same_arr(x, y, *mem),
    ensures vxa0 ==> vxg0a.pos() == n,
    decreases n - vxg0a.pos(),
//@loop 0 fetch
    proof {
        let b = vxg0b.pos();
        if b < n { assert(g0.at(b) == x.ad(b)); assert(vxg0a.at(b) == g0.at(b)); assert(h0.at(b) == y.ad(b)); assert(vxg0b.at(b) == h0.at(b)); assert(mem.m().contains_key(x.ad(b)) && mem.m().contains_key(y.ad(b))); }
    }
//@loop 0 start
    proof { let k = vxg0a.pos() - 1; assert(a == mem.m()[x.ad(k)]); assert(b == mem.m()[y.ad(k)]); }
//@end
//@fn src/ndarray/equals.rs :: impl PartialEq<NdArray<T>> for NdArray<T> :: eq
//@sig pub fn nd_eq(self_: &NdArray, other: &NdArray, mem: &Mem) -> (r: bool)
//@call op== => &nd_eq_ro
//@requires self_.wf(), self_.readable(*mem), other.wf(), other.readable(*mem), self_.sh().len() <= MAX_DIMS
//@ensures r == same_arr(*self_, *other, *mem)
//@end
