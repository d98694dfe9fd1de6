//@use core geom mem arr iter
use vstd::arithmetic::mul::*;
use vstd::arithmetic::div_mod::*;

// ===================================================================== arrays and the memory behind them
impl NdArray {
    /// every element of the array is in readable memory
    pub open spec fn readable(&self, mem: Mem) -> bool { forall|k: int| 0 <= k < prod(self.sh()) ==> mem.m().contains_key(#[trigger] self.ad(k)) }
    /// the array is the owner of a live heap buffer allocated with exactly its capacity
    pub open spec fn owns(&self, mem: Mem) -> bool {
        self.flags.owned && self.len <= self.capacity && mem.blocks().contains_key(self.ptr.a()) && mem.blocks()[self.ptr.a()] == self.capacity
    }
}
/// r: a row-major array of the given shape that owns a buffer of its own, allocated between a and b
pub open spec fn is_new(r: NdArray, sh: Seq<usize>, a: Mem, b: Mem) -> bool {
    r.wf() && r.sh() == sh && r.flags.contiguous && r.flags.uniform && r.flags.writeable && r.flags.owned && r.len == prod(sh) && r.owns(b) && uniform(r.sh(), r.st(), 1) && rowmajor(r.sh(), r.st())
    && grew(a, b) && fresh(a, b, r.ptr.a(), r.capacity as int) && !a.blocks().contains_key(r.ptr.a())
    && forall|k: int| 0 <= k < prod(sh) ==> #[trigger] r.ad(k) == r.ptr.a() + k
}
/// a vector of n elements in a buffer of its own
pub open spec fn is_newv(r: VecE, n: int, a: Mem, b: Mem) -> bool {
    r.ok(b) && r.len == n && grew(a, b) && fresh(a, b, r.ptr.a(), r.cap as int) && !a.blocks().contains_key(r.ptr.a())
}
pub proof fn lemma_rowmajor(sh: Seq<usize>, st: Seq<usize>)
    requires rowmajor(sh, st), 0 < prod(sh) <= isize::MAX,
    ensures wfl(sh, st), uniform(sh, st, 1), span(sh, st) == prod(sh) - 1, ustruct(sh, st), uniform(sh, st, lasts(st)),
{
    lemma_chained_uniform(sh, st, 1);
    lemma_uniform_span(sh, st, 1);
    assert forall|i: int| 1 <= i < sh.len() implies #[trigger] ustep(sh, st, i) by { assert(st[i - 1] == sh[i] * st[i]); }
    if sh.len() == 0 { assert(prod(sh) == 1); assert(uniform(sh, st, 0)); }
}
pub proof fn lemma_contig(a: NdArray)
    requires a.wf(), a.flags.contiguous,
    ensures a.len == prod(a.sh()), span(a.sh(), a.st()) == prod(a.sh()) - 1, forall|k: int| 0 <= k < prod(a.sh()) ==> #[trigger] a.ad(k) == a.ptr.a() + k,
{
    lemma_wfl(a.sh(), a.st());
    lemma_uniform_span(a.sh(), a.st(), 1);
    assert forall|k: int| 0 <= k < prod(a.sh()) implies #[trigger] a.ad(k) == a.ptr.a() + k by { assert(off(a.sh(), a.st(), k) == k * 1); }
}

//@fn src/ndarray/constructors.rs :: impl Constructors for NdArray :: from_contiguous_owned_buffer
//@sig pub fn vx_fcob(shape: Vec<usize>, data: VecE) -> (r: NdArray)
//@type Self => NdArray
//@requires 0 < prod(shape@) <= isize::MAX, data.len == prod(shape@)
//@ensures r.wf(), r.sh() == shape@, r.flags.contiguous, r.flags.uniform, r.flags.writeable, r.flags.owned, !r.flags.user, !r.flags.grad, r.ptr == data.ptr, r.len == data.len, r.capacity == data.cap,
    uniform(r.sh(), r.st(), 1), rowmajor(r.sh(), r.st()), forall|k: int| 0 <= k < prod(shape@) ==> #[trigger] r.ad(k) == r.ptr.a() + k
//@start
    proof { lemma_pz_prod(shape@); }
//@ret
    proof { lemma_rowmajor(vx_ret.sh(), vx_ret.st()); assert(vx_ret.wf()); lemma_contig(vx_ret); }
//@end
//@call from_contiguous_owned_buffer => vx_fcob

/// cells copied one block at a time: block k of n cells comes from address s(k) on
pub proof fn lemma_block(k: int, n: int, x: int)
    requires n > 0, k >= 0, k * n <= x < (k + 1) * n,
    ensures x / n == k, x % n == x - k * n,
{ assert((k + 1) * n == k * n + n) by (nonlinear_arith); assert(x == k * n + (x - k * n)); lemma_fundamental_div_mod_converse(x, n, k, x - k * n); }
/// freshly allocated cells do not overlap readable ones
pub proof fn lemma_disjoint(a: Mem, b: Mem, p: int, c: int, n: int, s: int)
    requires fresh(a, b, p, c), n <= c, n > 0, forall|i: int| 0 <= i < n ==> a.m().contains_key(#[trigger] (s + i)),
    ensures s + n <= p || p + n <= s,
{
    if !(s + n <= p || p + n <= s) {
        let x = if s <= p { p } else { s };
        assert(a.m().contains_key(s + (x - s)));
    }
}
/// where element x of an array whose last axis (n) is contiguous is found
pub proof fn lemma_inner(sh: Seq<usize>, st: Seq<usize>, n: usize, t: usize, k: int, j: int)
    requires sh.len() == st.len(), 0 <= k < prod(sh), 0 <= j < n, t == 1 || n == 1,
    ensures 0 <= k * n + j < prod(sh.push(n)), off(sh.push(n), st.push(t), k * n + j) == off(sh, st, k) + j,
{
    let n_ = n as int;
    assert(k * n_ + j < (k + 1) * n_) by (nonlinear_arith) requires j < n_;
    lemma_block(k, n_, k * n_ + j);
    lemma_off_push(sh, st, n, t, k * n_ + j);
    assert(k * n_ + j < prod(sh) * n_) by (nonlinear_arith) requires k + 1 <= prod(sh), j < n_, n_ > 0;
    assert(k * n_ >= 0) by (nonlinear_arith) requires k >= 0, n_ > 0;
    if n == 1 { assert(j == 0); }
}


impl NdArray {
//@fn src/ndarray/clone.rs :: impl NdArray :: clone_data_contiguous
//@sig pub fn clone_data_contiguous(&self, mem: &mut Mem) -> (r: VecE)
//@flag elem_vec
//@requires self.wf(), self.readable(*old(mem)), self.flags.contiguous
//@ensures is_newv(r, prod(self.sh()), *old(mem), *final(mem)), forall|k: int| 0 <= k < prod(self.sh()) ==> final(mem).m()[r.ptr.a() + k] == #[trigger] old(mem).m()[self.ad(k)]
//@start
    let ghost m0 = *mem;
    proof {
        lemma_contig(*self);
        assert forall|i: int| 0 <= i < self.len implies m0.m().contains_key(#[trigger] (self.ptr.a() + i)) by { assert(self.ad(i) == self.ptr.a() + i); }
    }
//@before vx_copy
    proof { lemma_disjoint(m0, *mem, data.ptr.a(), data.cap as int, self.len as int, self.ptr.a()); }
//@ret
    proof {
        assert forall|k: int| 0 <= k < prod(self.sh()) implies mem.m()[vx_ret.ptr.a() + k] == #[trigger] m0.m()[self.ad(k)] by { assert(self.ad(k) == self.ptr.a() + k); }
    }
//@end
//@fn src/ndarray/clone.rs :: impl NdArray :: clone_data_non_contiguous
//@sig pub fn clone_data_non_contiguous(&self, mem: &mut Mem) -> (r: VecE)
//@flag elem_vec
//@requires self.wf(), self.readable(*old(mem)), self.sh().len() > 0, self.sh().len() <= MAX_DIMS
//@ensures is_newv(r, prod(self.sh()), *old(mem), *final(mem)), forall|k: int| 0 <= k < prod(self.sh()) ==> final(mem).m()[r.ptr.a() + k] == #[trigger] old(mem).m()[self.ad(k)]
//@start
    let ghost m0 = *mem; let ghost (sh0, st0) = (self.sh(), self.st()); let ghost p = self.ptr.a();
    proof { lemma_wfl(sh0, st0); }
//@before stride.len
    let ghost (c, d) = (shape@, stride@);
//@loop 0 pre
    let ghost m1 = *mem; let ghost q = data.ptr.a(); let ghost n = contiguous_stride as int; let ghost (sh1, st1) = (shape@, stride@);
    proof { lemma_nc(*self, c, d, sh1, st1, contiguous_stride); }
//@loop 0 before
    let ghost g0 = vxg0a;
//@loop 0
    invariant vxg0a.ok(), vxg0a.same(&g0), vxg0a.cnt() == prod(sh1),
        dst.a() == q + vxg0a.pos() * n, n == contiguous_stride, n > 0, prod(sh1) * n == prod(sh0), prod(sh1) > 0, src.a() == p, m1.blocks() == mem.blocks(), m1.m().dom() == mem.m().dom(),
        forall|x: int| !(q <= x < q + vxg0a.pos() * n) ==> #[trigger] mem.m()[x] == m1.m()[x],
        forall|k: int| 0 <= k < vxg0a.pos() * n ==> mem.m()[q + k] == #[trigger] m0.m()[p + off(sh0, st0, k)],
    decreases vxg0a.cnt() - vxg0a.pos(),
//@loop 0 start
    let ghost b = vxg0a.pos() - 1; let ghost m2 = *mem;
    proof {
        assert(g0.at(b) == off(sh1, st1, b)); assert(i == off(sh1, st1, b));
        lemma_inner_read(*self, m0, sh1, st1, n, b);
        assert(b * n + n <= prod(sh0)) by (nonlinear_arith) requires b + 1 <= prod(sh1), prod(sh1) * n == prod(sh0), n > 0;
        assert(b * n >= 0) by (nonlinear_arith) requires b >= 0, n > 0;
        assert((b + 1) * n == b * n + n) by (nonlinear_arith);
        lemma_disjoint(m0, m1, q + b * n, data.cap - b * n, n, p + i as int);
        assert forall|j: int| 0 <= j < n implies mem.m().contains_key(#[trigger] (p + i + j)) by { assert(m0.m().contains_key(p + i as int + j)); assert(m1.m().contains_key(p + i + j)); assert(m1.m().dom().contains(p + i + j)); }
        assert forall|j: int| 0 <= j < n implies mem.m().contains_key(#[trigger] (q + b * n + j)) by { assert(m1.m().contains_key(q + b * n + j)); assert(m1.m().dom().contains(q + b * n + j)); }
    }
//@loop 0 end
    proof {
        assert forall|k: int| 0 <= k < vxg0a.pos() * n implies mem.m()[q + k] == #[trigger] m0.m()[p + off(sh0, st0, k)] by {
            if k >= b * n {
                let j = k - b * n;
                assert(p + off(sh0, st0, b * n + j) == p + i + j);
                assert(m0.m().contains_key(p + i as int + j));
                assert(m1.m()[p + i + j] == m0.m()[p + i + j]);
                assert(!(q <= p + i + j < q + b * n)) by { if q <= p + i + j < q + b * n { assert(!m0.m().contains_key(p + i + j)); } }
            } else { assert(m2.m()[q + k] == m0.m()[p + off(sh0, st0, k)]); }
        }
    }
//@ret
    proof {
        assert(vxg0a.pos() * n == prod(sh0));
        assert forall|x: int| q <= x < q + vx_ret.cap implies #[trigger] mem.m().contains_key(x) by { assert(m1.m().contains_key(x)); assert(m1.m().dom().contains(x)); }
        assert forall|x: int| #[trigger] m0.m().contains_key(x) implies mem.m().contains_key(x) by { assert(m1.m().contains_key(x)); assert(m1.m().dom().contains(x)); }
        assert forall|x: int| m0.m().contains_key(x) implies #[trigger] mem.m()[x] == m0.m()[x] by { assert(m1.m()[x] == m0.m()[x]); assert(m0.m().contains_key(x)); }
        assert forall|k: int| 0 <= k < prod(sh0) implies mem.m()[vx_ret.ptr.a() + k] == #[trigger] m0.m()[self.ad(k)] by { assert(mem.m()[q + k] == m0.m()[p + off(sh0, st0, k)]); }
    }
//@end
}
/// what the block copy relies on: the collapsed layout without its contiguous innermost axis (n elements)
pub open spec fn blocked(a: NdArray, sh: Seq<usize>, st: Seq<usize>, n: int) -> bool {
    sh.len() == st.len() && n > 0 && prod(sh) > 0 && prod(sh) * n == prod(a.sh())
    && forall|b: int, j: int| 0 <= b < prod(sh) && 0 <= j < n ==> #[trigger] off(a.sh(), a.st(), b * n + j) == off(sh, st, b) + j
}
pub proof fn lemma_nc(a: NdArray, c: Seq<usize>, d: Seq<usize>, sh: Seq<usize>, st: Seq<usize>, n: usize)
    requires a.wf(), c.len() == d.len(), c.len() > 0, prod(c) == prod(a.sh()), same_off(c, d, a.sh(), a.st()), span(c, d) == span(a.sh(), a.st()), pz(c) <= pz(a.sh()), fits1(c, d),
        (d.last() == 1 && sh =~= c.drop_last() && st =~= d.drop_last() && n == c.last()) || (sh =~= c && st =~= d && n == 1),
    ensures blocked(a, sh, st, n as int), fits(sh, st),
{
    lemma_wfl(a.sh(), a.st());
    lemma_prod_nonneg(c);
    if sh =~= c && st =~= d && n == 1 {
        assert(prod(sh) * 1 == prod(sh));
        assert forall|b: int, j: int| 0 <= b < prod(sh) && 0 <= j < 1 implies #[trigger] off(a.sh(), a.st(), b * 1 + j) == off(sh, st, b) + j by { assert(b * 1 + j == b); }
    } else {
        assert(c =~= sh.push(n)); assert(d =~= st.push(1));
        lemma_prod_nonneg(sh);
        lemma_off_push(sh, st, n, 1, 0);
        assert(prod(sh) > 0) by (nonlinear_arith) requires prod(sh) * n > 0, n >= 0;
        assert(n > 0) by (nonlinear_arith) requires prod(sh) * n > 0, prod(sh) >= 0, n >= 0;
        lemma_prod_push(sh, n);
        assert(pz(sh) <= pz(sh) * n) by (nonlinear_arith) requires pz(sh) >= 0, n > 0;
        assert forall|b: int, j: int| 0 <= b < prod(sh) && 0 <= j < n implies #[trigger] off(a.sh(), a.st(), b * n + j) == off(sh, st, b) + j by { lemma_inner(sh, st, n, 1, b, j); }
        assert forall|i: int| 0 <= i < sh.len() implies #[trigger] sh[i] * st[i] <= usize::MAX by { assert(c[i] * d[i] <= usize::MAX); }
    }
}
pub proof fn lemma_inner_read(a: NdArray, m: Mem, sh: Seq<usize>, st: Seq<usize>, n: int, b: int)
    requires blocked(a, sh, st, n), a.readable(m), 0 <= b < prod(sh),
    ensures forall|j: int| 0 <= j < n ==> m.m().contains_key(#[trigger] (a.ptr.a() + off(sh, st, b) + j)),
        forall|j: int| 0 <= j < n ==> a.ptr.a() + off(a.sh(), a.st(), #[trigger] (b * n + j)) == a.ptr.a() + off(sh, st, b) + j,
{
    assert forall|j: int| 0 <= j < n implies m.m().contains_key(#[trigger] (a.ptr.a() + off(sh, st, b) + j)) by {
        assert(off(a.sh(), a.st(), b * n + j) == off(sh, st, b) + j);
        assert(0 <= b * n + j < prod(a.sh())) by (nonlinear_arith) requires 0 <= b, b + 1 <= prod(sh), 0 <= j < n, prod(sh) * n == prod(a.sh());
        assert(m.m().contains_key(a.ad(b * n + j)));
    }
    assert forall|j: int| 0 <= j < n implies a.ptr.a() + off(a.sh(), a.st(), #[trigger] (b * n + j)) == a.ptr.a() + off(sh, st, b) + j by { assert(off(a.sh(), a.st(), b * n + j) == off(sh, st, b) + j); }
}

// ===================================================================== copies
/// r holds the elements of a in a buffer of its own
pub open spec fn is_copy(r: NdArray, a: NdArray, sh: Seq<usize>, m0: Mem, m1: Mem) -> bool {
    is_new(r, sh, m0, m1) && forall|k: int| 0 <= k < prod(sh) ==> #[trigger] m1.m()[r.ad(k)] == m0.m()[a.ad(k)]
}
impl NdArray {
//@fn src/ndarray/clone.rs :: impl NdArray :: clone_data
//@sig pub fn clone_data(&self, mem: &mut Mem) -> (r: VecE)
//@requires self.wf(), self.readable(*old(mem)), self.sh().len() <= MAX_DIMS
//@ensures is_newv(r, prod(self.sh()), *old(mem), *final(mem)), forall|k: int| 0 <= k < prod(self.sh()) ==> final(mem).m()[r.ptr.a() + k] == #[trigger] old(mem).m()[self.ad(k)]
//@end
//@fn src/ndarray/clone.rs :: impl NdArray :: clone
//@sig pub fn clone(&self, mem: &mut Mem) -> (r: NdArray)
//@requires self.wf(), self.readable(*old(mem)), self.sh().len() <= MAX_DIMS
//@ensures is_copy(r, *self, self.sh(), *old(mem), *final(mem))
//@end
//@fn src/ndarray/reshape.rs :: impl NdArray :: flatten
//@sig pub fn flatten(&self, mem: &mut Mem) -> (r: NdArray)
//@requires self.wf(), self.readable(*old(mem)), self.sh().len() <= MAX_DIMS
//@ensures is_copy(r, *self, seq![prod(self.sh()) as usize], *old(mem), *final(mem))
//@start
    proof { lemma_wfl(self.sh(), self.st()); lemma_prod1(); }
//@ret
    proof { assert(vx_ret.sh() =~= seq![prod(self.sh()) as usize]); }
//@end
//@fn src/ndarray/methods.rs :: impl NdArray :: value
//@sig pub fn value(&self, mem: &Mem) -> (r: E)
//@requires self.wf(), self.readable(*mem)
//@panics prod(self.sh()) != 1
//@ensures r == mem.m()[self.ad(0)]
//@start
    proof { lemma_wfl(self.sh(), self.st()); lemma_off0(self.sh(), self.st()); assert(self.ad(0) == self.ptr.a()); }
//@end
//@fn src/ndarray/methods.rs :: impl NdArray :: data_slice
//@sig pub fn data_slice(&self, mem: &Mem) -> (r: SliceE)
//@call from_raw_parts => vx_raw_slice +mem
//@requires self.wf(), self.readable(*mem)
//@panics !self.flags.contiguous
//@ensures r.len == prod(self.sh()), forall|k: int| 0 <= k < prod(self.sh()) ==> #[trigger] self.ad(k) == r.ptr.a() + k
//@start
    proof { if self.flags.contiguous { lemma_contig(*self); assert forall|i: int| 0 <= i < self.len implies mem.m().contains_key(#[trigger] (self.ptr.a() + i)) by { assert(self.ad(i) == self.ptr.a() + i); } } }
//@end
//@fn src/ndarray/astype.rs :: impl NdArray :: astype
//@sig pub fn astype(&self, mem: &mut Mem) -> (r: NdArray)
//@flag elem_vec
//@call F::default => E::default_value
//@call NumCast::from => vx_cast
//@requires self.wf(), self.readable(*old(mem)), self.sh().len() <= MAX_DIMS
//@panics exists|k: int| 0 <= k < prod(self.sh()) && cast(#[trigger] old(mem).m()[self.ad(k)]).is_none()
//@ensures is_new(r, self.sh(), *old(mem), *final(mem)), forall|k: int| 0 <= k < prod(self.sh()) ==> #[trigger] final(mem).m()[r.ad(k)] == cast(old(mem).m()[self.ad(k)]).unwrap()
//@start
    let ghost m0 = *mem;
    proof { lemma_wfl(self.sh(), self.st()); }
//@loop 0 before
    let ghost g0 = vxg0a; let ghost m1 = *mem; let ghost q = data.ptr.a();
//@loop 0
    invariant vxg0a.ok(), vxg0a.same(&g0), vxg0a.cnt() == prod(self.sh()), vxn0 == vxg0a.pos(), m1.blocks() == mem.blocks(), m1.m().dom() == mem.m().dom(),
        forall|x: int| !(q <= x < q + vxn0) ==> #[trigger] mem.m()[x] == m1.m()[x],
        forall|k: int| 0 <= k < vxn0 ==> Some(#[trigger] mem.m()[q + k]) == cast(m0.m()[self.ad(k)]),
    decreases vxg0a.cnt() - vxg0a.pos(),
//@loop 0 fetch
    proof {
        let b = vxg0a.pos();
        if b < vxg0a.cnt() {
            assert(g0.at(b) == self.ad(b)); assert(vxg0a.at(b) == g0.at(b)); let x = self.ad(b);
            assert(m0.m().contains_key(x)); assert(m1.m().contains_key(x)); assert(m1.m().dom().contains(x)); assert(mem.m().contains_key(x));
            assert(!(q <= x < q + vxn0)) by { if q <= x < q + vxn0 { assert(!m0.m().contains_key(x)); } }
            assert(mem.m()[x] == m0.m()[x]);
        }
    }
//@loop 0 start
    let ghost b = vxn0 - 1; let ghost m2 = *mem;
    proof { assert(src == m0.m()[self.ad(b)]); assert(m1.m().contains_key(q + b)); assert(m1.m().dom().contains(q + b)); }
//@loop 0 end
    proof { assert forall|k: int| 0 <= k < vxn0 implies Some(#[trigger] mem.m()[q + k]) == cast(m0.m()[self.ad(k)]) by { if k < b { assert(Some(m2.m()[q + k]) == cast(m0.m()[self.ad(k)])); } } }
//@ret
    proof {
        assert forall|x: int| #[trigger] m0.m().contains_key(x) implies mem.m().contains_key(x) by { assert(m1.m().contains_key(x)); assert(m1.m().dom().contains(x)); }
        assert forall|x: int| m0.m().contains_key(x) implies #[trigger] mem.m()[x] == m0.m()[x] by { assert(m1.m()[x] == m0.m()[x]); assert(m0.m().contains_key(x)); }
        assert forall|x: int| q <= x < q + vx_ret.capacity implies !(#[trigger] m0.m().contains_key(x)) && mem.m().contains_key(x) by { assert(m1.m().contains_key(x)); assert(m1.m().dom().contains(x)); }
        assert forall|k: int| 0 <= k < prod(self.sh()) implies #[trigger] mem.m()[vx_ret.ad(k)] == cast(m0.m()[self.ad(k)]).unwrap() by { assert(Some(mem.m()[q + k]) == cast(m0.m()[self.ad(k)])); }
        assert forall|k: int| 0 <= k < prod(self.sh()) implies cast(#[trigger] m0.m()[self.ad(k)]).is_some() by { assert(Some(mem.m()[q + k]) == cast(m0.m()[self.ad(k)])); }
    }
//@end
}
pub proof fn lemma_prod1()
    ensures forall|s: Seq<usize>| s.len() == 1 ==> #[trigger] prod(s) == s[0],
{ assert forall|s: Seq<usize>| s.len() == 1 implies #[trigger] prod(s) == s[0] by { assert(s.drop_last() =~= Seq::<usize>::empty()); assert(prod(Seq::<usize>::empty()) == 1); } }
