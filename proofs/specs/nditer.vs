//@use core geom mem arr slice bcast iter heap kern ops assign fill red redax
use vstd::arithmetic::mul::*;

// ===================================================================== selecting axes
pub open spec fn ux_bad(axes: Seq<usize>, n: int) -> bool {
    (exists|i: int| 0 <= i < axes.len() && #[trigger] axes[i] >= n) || (exists|i: int, j: int| 0 <= i < j < axes.len() && #[trigger] axes[i] == #[trigger] axes[j]) || axes.len() > n
}
/// the axes that are selected
pub open spec fn ux_mask(axes: Seq<usize>, n: int) -> Seq<bool> { Seq::new(n as nat, |k: int| exists|i: int| 0 <= i < axes.len() && #[trigger] axes[i] == k) }
pub open spec fn notm(m: Seq<bool>) -> Seq<bool> { Seq::new(m.len(), |k: int| !m[k]) }
/// extents (or strides) of the selected axes, in the array's axis order
pub open spec fn sel(m: Seq<bool>, s: Seq<usize>) -> Seq<usize> { rsh(notm(m), s) }
/// the part of an index on the selected axes
pub open spec fn seli(m: Seq<bool>, ix: Seq<int>) -> Seq<int> { kept(notm(m), ix) }
pub proof fn lemma_rsh_push(m: Seq<bool>, s: Seq<usize>, b: bool, x: usize)
    requires m.len() == s.len(),
    ensures rsh(m.push(b), s.push(x)) =~= (if b { rsh(m, s) } else { rsh(m, s).push(x) }),
    decreases m.len(),
{
    let (mp, sp) = (m.push(b), s.push(x));
    if m.len() == 0 {
        assert(mp.drop_first() =~= Seq::<bool>::empty()); assert(rsh(mp.drop_first(), sp.drop_first()) =~= Seq::<usize>::empty()); assert(rsh(m, s) =~= Seq::<usize>::empty());
    } else {
        lemma_rsh_push(m.drop_first(), s.drop_first(), b, x);
        assert(mp.drop_first() =~= m.drop_first().push(b)); assert(sp.drop_first() =~= s.drop_first().push(x));
        assert(mp[0] == m[0]); assert(sp[0] == s[0]);
    }
}
pub proof fn lemma_rsh_len(m: Seq<bool>, sh: Seq<usize>, st: Seq<usize>)
    requires m.len() == sh.len(), sh.len() == st.len(),
    ensures rsh(m, sh).len() == rsh(m, st).len(),
    decreases m.len(),
{ if m.len() > 0 { lemma_rsh_len(m.drop_first(), sh.drop_first(), st.drop_first()); } }
pub proof fn lemma_sel_set(m: Seq<bool>, s: Seq<usize>, k: int)
    requires m.len() == s.len(), 0 <= k < m.len(), !m[k],
    ensures sel(m.update(k, true), s).len() == sel(m, s).len() + 1,
    decreases m.len(),
{
    let u = m.update(k, true);
    assert(notm(m).drop_first() =~= notm(m.drop_first()));
    if k == 0 { assert(notm(u).drop_first() =~= notm(m.drop_first())); }
    else { lemma_sel_set(m.drop_first(), s.drop_first(), k - 1); assert(notm(u).drop_first() =~= notm(m.drop_first().update(k - 1, true))); assert(notm(u)[0] == notm(m)[0]); }
}
/// distinct axes select as many axes
pub proof fn lemma_sel_count(axes: Seq<usize>, s: Seq<usize>)
    requires !ux_bad(axes, s.len() as int),
    ensures sel(ux_mask(axes, s.len() as int), s).len() == axes.len(),
    decreases axes.len(),
{
    let n = s.len() as int; let m = ux_mask(axes, n);
    if axes.len() == 0 { lemma_sel_none(m, s); }
    else {
        let d = axes.drop_last(); let w = ux_mask(d, n); let k = axes.last() as int; let l = d.len() as int;
        assert(axes[l] == k);
        assert forall|i: int| 0 <= i < d.len() implies #[trigger] d[i] < n by { assert(d[i] == axes[i]); }
        assert forall|i: int, j: int| 0 <= i < j < d.len() implies #[trigger] d[i] != #[trigger] d[j] by { assert(d[i] == axes[i]); assert(d[j] == axes[j]); }
        assert(!ux_bad(d, n));
        lemma_sel_count(d, s);
        if w[k] { let i = choose|i: int| 0 <= i < d.len() && #[trigger] d[i] == k; assert(axes[i] == axes[l]); }
        assert forall|j: int| 0 <= j < n implies m[j] == w.update(k, true)[j] by {
            if j == k { assert(axes[l] == j); }
            else if w[j] { let i = choose|i: int| 0 <= i < d.len() && #[trigger] d[i] == j; assert(axes[i] == d[i]); }
            else if m[j] { let i = choose|i: int| 0 <= i < axes.len() && #[trigger] axes[i] == j; assert(i < l); assert(d[i] == axes[i]); }
        }
        assert(m =~= w.update(k, true));
        lemma_sel_set(w, s, k);
    }
}
pub proof fn lemma_sel_none(m: Seq<bool>, s: Seq<usize>)
    requires m.len() == s.len(), forall|i: int| 0 <= i < m.len() ==> !m[i],
    ensures sel(m, s).len() == 0,
    decreases m.len(),
{
    if m.len() > 0 { assert(notm(m).drop_first() =~= notm(m.drop_first())); lemma_sel_none(m.drop_first(), s.drop_first()); }
}
pub broadcast proof fn lemma_one_ux(s: Seq<usize>, n: int)
    requires s.len() == 1,
    ensures #[trigger] ux_mask(s, n) == ux_mask(seq![s[0]], n), ux_bad(s, n) == (s[0] >= n),
{ assert(s =~= seq![s[0]]); if s[0] >= n { assert(ux_bad(s, n)); } }
pub broadcast proof fn lemma_one_bad(s: Seq<usize>, n: int)
    requires s.len() == 1,
    ensures #[trigger] ux_bad(s, n) == (s[0] >= n),
{ if s[0] >= n { } }
pub proof fn lemma_split_layout(m: Seq<bool>, sh: Seq<usize>, st: Seq<usize>)
    requires m.len() == sh.len(), sh.len() == st.len(), prod(sh) > 0,
    ensures rsh(m, sh).len() == rsh(m, st).len(), rsh(m, sh).len() <= sh.len(), 0 < prod(rsh(m, sh)) <= prod(sh), 0 <= span(rsh(m, sh), rsh(m, st)) <= span(sh, st),
    decreases m.len(),
{
    lemma_rlen(m, sh); lemma_rsh_len(m, sh, st); lemma_span_nonneg(rsh(m, sh), rsh(m, st)); lemma_span_nonneg(sh, st); lemma_prod_nonneg(sh);
    if m.len() > 0 {
        let (d, s, t) = (m.drop_first(), sh.drop_first(), st.drop_first());
        lemma_prod_first(sh); lemma_prod_nonneg(s); lemma_span_first(sh, st);
        let (a, q, z) = (sh[0] as int, prod(s), st[0] as int);
        assert(a > 0 && q > 0) by (nonlinear_arith) requires a * q > 0, a >= 0, q >= 0;
        assert((a - 1) * z >= 0) by (nonlinear_arith) requires a >= 1, z >= 0;
        lemma_split_layout(d, s, t);
        if !m[0] {
            let (r, u) = (rsh(m, sh), rsh(m, st));
            assert(r.drop_first() =~= rsh(d, s)); assert(u.drop_first() =~= rsh(d, t));
            lemma_span_first(r, u);
        }
    } else { assert(rsh(m, sh) =~= Seq::<usize>::empty()); assert(rsh(m, st) =~= Seq::<usize>::empty()); }
}
/// the offset of an element is the offset along the selected axes plus the offset along the others
pub proof fn lemma_split_dotp(m: Seq<bool>, st: Seq<usize>, ix: Seq<int>)
    requires m.len() == st.len(), st.len() == ix.len(),
    ensures rsh(m, st).len() == kept(m, ix).len(), sel(m, st).len() == seli(m, ix).len(), dotp(st, ix) == dotp(sel(m, st), seli(m, ix)) + dotp(rsh(m, st), kept(m, ix)),
    decreases m.len(),
{
    let n = notm(m);
    if m.len() > 0 {
        let (d, t, x) = (m.drop_first(), st.drop_first(), ix.drop_first());
        assert(n.drop_first() =~= notm(d));
        lemma_split_dotp(d, t, x);
        lemma_dotp_first(st, ix);
        if m[0] {
            let (r, k) = (rsh(n, st), kept(n, ix));
            assert(r.drop_first() =~= rsh(notm(d), t)); assert(k.drop_first() =~= kept(notm(d), x));
            lemma_dotp_first(r, k);
        } else {
            let (r, k) = (rsh(m, st), kept(m, ix));
            assert(r.drop_first() =~= rsh(d, t)); assert(k.drop_first() =~= kept(d, x));
            lemma_dotp_first(r, k);
        }
    } else {
        assert(rsh(m, st) =~= Seq::<usize>::empty()); assert(kept(m, ix) =~= Seq::<int>::empty());
        assert(rsh(n, st) =~= Seq::<usize>::empty()); assert(kept(n, ix) =~= Seq::<int>::empty());
        assert(dotp(st, ix) == 0); assert(dotp(rsh(m, st), kept(m, ix)) == 0); assert(dotp(rsh(n, st), kept(n, ix)) == 0);
    }
}
/// any index of the selected axes and any index of the others are those of exactly one index of the array
pub open spec fn merge(m: Seq<bool>, a: Seq<int>, b: Seq<int>) -> Seq<int>
    decreases m.len(),
{ if m.len() == 0 { Seq::empty() } else if m[0] { seq![a[0]] + merge(m.drop_first(), a.drop_first(), b) } else { seq![b[0]] + merge(m.drop_first(), a, b.drop_first()) } }
pub proof fn lemma_merge(m: Seq<bool>, sh: Seq<usize>, a: Seq<int>, b: Seq<int>)
    requires m.len() == sh.len(), inb(sel(m, sh), a), inb(rsh(m, sh), b),
    ensures inb(sh, merge(m, a, b)), seli(m, merge(m, a, b)) =~= a, kept(m, merge(m, a, b)) =~= b,
    decreases m.len(),
{
    let n = notm(m); let x = merge(m, a, b);
    if m.len() > 0 {
        let (d, s) = (m.drop_first(), sh.drop_first());
        assert(n.drop_first() =~= notm(d));
        if m[0] {
            let r = rsh(n, sh);
            assert(r.drop_first() =~= rsh(notm(d), s)); assert(0 <= a[0] < r[0]);
            assert(inb(sel(d, s), a.drop_first())) by { assert forall|i: int| 0 <= i < sel(d, s).len() implies 0 <= #[trigger] a.drop_first()[i] < sel(d, s)[i] by { assert(0 <= a[i + 1] < r[i + 1]); assert(r.drop_first()[i] == r[i + 1]); } }
            lemma_merge(d, s, a.drop_first(), b);
            assert(x.drop_first() =~= merge(d, a.drop_first(), b));
            assert(seq![a[0]] + a.drop_first() =~= a);
        } else {
            let r = rsh(m, sh);
            assert(r.drop_first() =~= rsh(d, s)); assert(0 <= b[0] < r[0]);
            assert(inb(rsh(d, s), b.drop_first())) by { assert forall|i: int| 0 <= i < rsh(d, s).len() implies 0 <= #[trigger] b.drop_first()[i] < rsh(d, s)[i] by { assert(0 <= b[i + 1] < r[i + 1]); assert(r.drop_first()[i] == r[i + 1]); } }
            lemma_merge(d, s, a, b.drop_first());
            assert(x.drop_first() =~= merge(d, a, b.drop_first()));
            assert(seq![b[0]] + b.drop_first() =~= b);
        }
        assert forall|i: int| 0 <= i < sh.len() implies 0 <= #[trigger] x[i] < sh[i] by { if i > 0 { assert(x.drop_first()[i - 1] == x[i]); assert(s[i - 1] == sh[i]); } }
    } else {
        assert(rsh(m, sh) =~= Seq::<usize>::empty()); assert(rsh(n, sh) =~= Seq::<usize>::empty()); assert(kept(m, x) =~= Seq::<int>::empty()); assert(kept(n, x) =~= Seq::<int>::empty());
        assert(x =~= Seq::<int>::empty());
    }
}
//@fn src/ndarray/iterator/util.rs :: - :: split_by_indices
//@sig pub fn split_by_indices(data: &[usize], indices: &[usize]) -> (r: (Vec<usize>, Vec<usize>))
//@flag index
//@flag arith
//@flag into_iter_params
//@panics ux_bad(indices@, data@.len() as int)
//@ensures r.0@ == sel(ux_mask(indices@, data@.len() as int), data@), r.1@ == rsh(ux_mask(indices@, data@.len() as int), data@)
//@start
    let ghost n = data@.len() as int; let ghost ax = indices@; let ghost mask = ux_mask(ax, n); let ghost bad = ux_bad(ax, n);
//@loop 0 before
    proof { assert(bitset@ =~= ux_mask(ax.subrange(0, 0), n)); }
//@loop 0
    invariant vxe0 == indices@.len(), indices@ == ax, n == data@.len(), bitset@.len() == n, bad == ux_bad(ax, n), vx_p == bad, bitset@ == ux_mask(ax.subrange(0, vxc0 as int), n),
        forall|i: int| 0 <= i < vxc0 ==> #[trigger] ax[i] < n, forall|i: int, j: int| 0 <= i < j < vxc0 ==> #[trigger] ax[i] != #[trigger] ax[j],
//@loop 0 start
    let ghost b = vxc0 - 1; let ghost bs0 = bitset@;
    proof {
        assert(index == ax[b]);
        let u = ax.subrange(0, b);
        if index < n && bs0[index as int] { let i = choose|i: int| 0 <= i < u.len() && #[trigger] u[i] == index; assert(ax[i] == u[i]); assert(bad); }
        if index < n && !bs0[index as int] { assert forall|i: int| 0 <= i < b implies #[trigger] ax[i] != ax[b] by { assert(u[i] == ax[i]); } }
    }
//@loop 0 end
    proof {
        let (u, v) = (ax.subrange(0, b), ax.subrange(0, b + 1));
        assert forall|k: int| 0 <= k < n implies bitset@[k] == ux_mask(v, n)[k] by {
            if k == index { assert(v[b] == k); }
            else if bs0[k] { let i = choose|i: int| 0 <= i < u.len() && #[trigger] u[i] == k; assert(v[i] == u[i]); }
            else if ux_mask(v, n)[k] { let i = choose|i: int| 0 <= i < v.len() && #[trigger] v[i] == k; assert(v[b] == index); assert(i < b); assert(u[i] == v[i]); }
        }
        assert(bitset@ =~= ux_mask(v, n));
    }
//@loop 0 after
    proof { assert(ax.subrange(0, ax.len() as int) =~= ax); assert(bitset@ == mask); assert(!bad); }
//@loop 1 before
    proof { assert(rsh(mask.subrange(0, 0), data@.subrange(0, 0)) =~= Seq::<usize>::empty()); assert(rsh(notm(mask).subrange(0, 0), data@.subrange(0, 0)) =~= Seq::<usize>::empty()); }
//@loop 1
    invariant vxe1 == n, n == data@.len(), bitset@ == mask, mask.len() == n, selected@ == rsh(notm(mask).subrange(0, vxc1 as int), data@.subrange(0, vxc1 as int)), remaining@ == rsh(mask.subrange(0, vxc1 as int), data@.subrange(0, vxc1 as int)),
//@loop 1 start
    proof {
        let b = vxc1 - 1;
        let (m, k, s) = (mask.subrange(0, b), notm(mask).subrange(0, b), data@.subrange(0, b));
        lemma_rsh_push(m, s, mask[b], data@[b]); lemma_rsh_push(k, s, !mask[b], data@[b]);
        assert(mask.subrange(0, b + 1) =~= m.push(mask[b])); assert(notm(mask).subrange(0, b + 1) =~= k.push(!mask[b])); assert(data@.subrange(0, b + 1) =~= s.push(data@[b]));
    }
//@loop 1 after
    proof { assert(mask.subrange(0, n) =~= mask); assert(notm(mask).subrange(0, n) =~= notm(mask)); assert(data@.subrange(0, n) =~= data@); }
//@end

// ===================================================================== sub-arrays one after the other
pub struct NdIterator { pub result: NdArray, pub shape: Vec<usize>, pub stride: Vec<usize>, pub indices: Vec<usize>, pub iterator_index: usize, pub size: usize }
impl NdArray {
//@fn src/ndarray/iterator/tensor_iterator.rs :: impl NdArray :: offset_ptr
//@sig pub fn offset_ptr(&mut self, offset: isize)
//@ensures final(self).ptr.a() == old(self).ptr.a() + offset, final(self).shape == old(self).shape, final(self).stride == old(self).stride, final(self).flags == old(self).flags, final(self).len == old(self).len, final(self).capacity == old(self).capacity
//@end
}
pub open spec fn ixv(s: Seq<usize>) -> Seq<int> { Seq::new(s.len(), |i: int| s[i] as int) }
impl NdIterator {
    pub open spec fn sh(&self) -> Seq<usize> { self.shape@ }
    pub open spec fn st(&self) -> Seq<usize> { self.stride@ }
    pub open spec fn ix(&self) -> Seq<int> { ixv(self.indices@) }
    pub open spec fn pos(&self) -> int { self.iterator_index as int }
    pub open spec fn cnt(&self) -> int { self.size as int }
    /// address of the first sub-array's first element
    pub open spec fn base(&self) -> int { self.result.ptr.a() - dotp(self.st(), self.ix()) }
    /// address of element j of the k-th sub-array
    pub open spec fn at(&self, k: int, j: int) -> int { self.base() + off(self.sh(), self.st(), k) + off(self.result.sh(), self.result.st(), j) }
    pub open spec fn ok(&self) -> bool {
        wfl(self.sh(), self.st()) && self.indices@.len() == self.sh().len() && self.result.wf() && !self.result.flags.owned && self.result.sh().len() <= MAX_DIMS && self.size == prod(self.sh()) && 0 <= self.pos() <= self.cnt()
        && inb(self.sh(), self.ix()) && (self.pos() < self.cnt() ==> lin(self.sh(), self.ix()) == self.pos())
    }
    pub open spec fn same(&self, o: &NdIterator) -> bool { self.sh() == o.sh() && self.st() == o.st() && self.size == o.size && self.base() == o.base() && self.result.sh() == o.result.sh() && self.result.st() == o.result.st() }
    /// every element of every sub-array is still there
    pub open spec fn readable(&self, mem: Mem) -> bool { forall|k: int, j: int| 0 <= k < self.cnt() && 0 <= j < prod(self.result.sh()) ==> mem.m().contains_key(#[trigger] self.at(k, j)) }
//@fn src/ndarray/iterator/tensor_iterator.rs :: impl NdIterator :: from
//@sig pub fn nditer_from(tensor: &NdArray, axes: &[usize]) -> (r: NdIterator)
//@type Self => NdIterator
//@call .clone => !id
//@requires tensor.wf(), tensor.sh().len() <= MAX_DIMS
//@panics ux_bad(axes@, tensor.sh().len() as int)
//@ensures r.ok(), r.pos() == 0, r.base() == tensor.ptr.a(), r.sh() == sel(ux_mask(axes@, tensor.sh().len() as int), tensor.sh()), r.st() == sel(ux_mask(axes@, tensor.sh().len() as int), tensor.st()),
    r.result.sh() == rsh(ux_mask(axes@, tensor.sh().len() as int), tensor.sh()), r.result.st() == rsh(ux_mask(axes@, tensor.sh().len() as int), tensor.st()),
    forall|mem: Mem| tensor.readable(mem) ==> #[trigger] r.readable(mem)
//@start
    let ghost m = ux_mask(axes@, tensor.sh().len() as int); let ghost (tsh, tst) = (tensor.sh(), tensor.st());
    proof { lemma_wfl(tsh, tst); lemma_split_layout(m, tsh, tst); lemma_split_layout(notm(m), tsh, tst); if !ux_bad(axes@, tsh.len() as int) { lemma_sel_count(axes@, tsh); } lemma_pz_prod(sel(m, tsh)); lemma_prod_nonneg(sel(m, tsh)); }
//@ret
    proof {
        assert(vx_ret.ix() =~= Seq::new(vx_ret.sh().len(), |i: int| 0int));
        lemma_dotp_zeros(vx_ret.st(), vx_ret.ix(), 0); lemma_lin0(vx_ret.sh(), vx_ret.ix());
        assert(dotp(vx_ret.st().subrange(0, 0), vx_ret.ix().subrange(0, 0)) == 0);
        assert forall|mem: Mem| tensor.readable(mem) implies #[trigger] vx_ret.readable(mem) by { lemma_nd_readable(*tensor, m, vx_ret, mem); }
    }
//@end
//@fn src/ndarray/iterator/tensor_iterator.rs :: impl Iterator for NdIterator :: next
//@sig pub fn nditer_next(&mut self, mem: &mut Mem) -> (r: Option<NdArray>)
//@flag arith
//@flag index
//@requires old(self).ok(), old(self).readable(*old(mem))
//@ensures final(self).ok(), final(self).same(old(self)), old(self).pos() == old(self).cnt() ==> r.is_none() && final(self).pos() == old(self).pos() && *final(mem) == *old(mem),
    old(self).pos() < old(self).cnt() ==> r.is_some() && final(self).pos() == old(self).pos() + 1 && is_new(r.unwrap(), old(self).result.sh(), *old(mem), *final(mem))
        && forall|j: int| 0 <= j < prod(old(self).result.sh()) ==> #[trigger] final(mem).m()[r.unwrap().ad(j)] == old(mem).m()[old(self).at(old(self).pos(), j)]
//@start
    let ghost (sh, st, ix) = (self.sh(), self.st(), self.ix()); let ghost n = self.sh().len() as int; let ghost p0 = self.pos(); let ghost s0 = *self; let ghost m0 = *mem; let ghost res = self.result; let ghost bs = self.base();
    proof {
        lemma_wfl(sh, st); lemma_wfl(res.sh(), res.st()); lemma_dotp_bounds(sh, st, ix);
        if p0 < self.cnt() {
            lemma_off_lin(sh, st, ix); assert(st.subrange(0, n) =~= st); assert(ix.subrange(0, n) =~= ix);
            assert forall|j: int| 0 <= j < prod(res.sh()) implies m0.m().contains_key(#[trigger] res.ad(j)) by { assert(s0.at(p0, j) == res.ad(j)); }
        }
    }
//@loop 0 before
    let ghost mut brk = false; let ghost m1 = *mem;
//@loop 0
    invariant_except_break !brk,
        self.sh() == sh, self.st() == st, self.size == prod(sh), self.iterator_index == p0 + 1, p0 < prod(sh), self.indices@.len() == n, *mem == m1,
        sh.len() == n, st.len() == n, inb(sh, ix), lin(sh, ix) == p0, prod(sh) > 0, wfl(sh, st), vxs0 == 0, vxe0 == n,
        self.result.sh() == res.sh(), self.result.st() == res.st(), self.result.flags == res.flags, self.result.len == res.len,
        forall|j: int| 0 <= j < vxc0 ==> #[trigger] self.indices@[j] == ix[j],
        forall|j: int| vxc0 <= j < n ==> #[trigger] ix[j] == sh[j] - 1,
        forall|j: int| vxc0 <= j < n ==> #[trigger] self.indices@[j] == 0,
        self.result.ptr.a() == bs + dotp(st.subrange(0, vxc0 as int), ix.subrange(0, vxc0 as int)),
//@loop 0 start
    proof {
        let m = vxc0 + 1;
        assert(0 <= ix[m - 1] < sh[m - 1]); assert(self.indices@[m - 1] == ix[m - 1]);
        lemma_dotp_take(sh, st, ix, m);
        lemma_span_ge(sh, st, m - 1);
        if ix[m - 1] + 1 < sh[m - 1] { lemma_dotp_step(sh, st, ix, m); lemma_carried(sh, ix, m); lemma_dotp_carried(st, ix, m); lemma_dotp_bounds(sh, st, carried(ix, m)); }
        else { lemma_fig_wrap(sh, st, ix, m); }
    }
//@break 0
    proof { brk = true; assert(self.ix() =~= carried(ix, i + 1)); }
//@loop 0 after
    proof {
        lemma_off_lin(sh, st, ix);
        if !brk {
            lemma_all_top(sh, ix);
            lemma_dotp_zeros(st, self.ix(), 0);
            assert(dotp(st.subrange(0, 0), self.ix().subrange(0, 0)) == 0); assert(dotp(st.subrange(0, 0), ix.subrange(0, 0)) == 0);
        }
        assert forall|j: int| 0 <= j < prod(res.sh()) implies #[trigger] res.ad(j) == s0.at(p0, j) by {}
    }
//@end
}
/// an iterator at its start over the sub-arrays of a for the selected axes
pub open spec fn nd_over(r: NdIterator, a: NdArray, m: Seq<bool>) -> bool {
    r.ok() && r.pos() == 0 && r.base() == a.ptr.a() && r.sh() == sel(m, a.sh()) && r.st() == sel(m, a.st()) && r.result.sh() == rsh(m, a.sh()) && r.result.st() == rsh(m, a.st())
    && forall|mem: Mem| a.readable(mem) ==> #[trigger] r.readable(mem)
}
pub proof fn lemma_nd_readable(a: NdArray, m: Seq<bool>, it: NdIterator, mem: Mem)
    requires a.wf(), a.readable(mem), m.len() == a.sh().len(), it.ok(), it.base() == a.ptr.a(), it.sh() == sel(m, a.sh()), it.st() == sel(m, a.st()), it.result.sh() == rsh(m, a.sh()), it.result.st() == rsh(m, a.st()),
    ensures it.readable(mem),
{
    assert forall|k: int, j: int| 0 <= k < it.cnt() && 0 <= j < prod(it.result.sh()) implies mem.m().contains_key(#[trigger] it.at(k, j)) by {
        let (p, q) = (unlin(it.sh(), k), unlin(it.result.sh(), j));
        lemma_unlin(it.sh(), k); lemma_unlin(it.result.sh(), j);
        lemma_nd_elem(a, m, it, p, q);
        let x = merge(m, p, q);
        lemma_off_lin(a.sh(), a.st(), x);
        assert(mem.m().contains_key(a.ad(lin(a.sh(), x))));
    }
}
/// element q of the sub-array at index p is the array's element at the index made of p and q
pub proof fn lemma_nd_elem(a: NdArray, m: Seq<bool>, it: NdIterator, p: Seq<int>, q: Seq<int>)
    requires a.wf(), m.len() == a.sh().len(), it.ok(), it.base() == a.ptr.a(), it.sh() == sel(m, a.sh()), it.st() == sel(m, a.st()), it.result.sh() == rsh(m, a.sh()), it.result.st() == rsh(m, a.st()),
        inb(it.sh(), p), inb(it.result.sh(), q),
    ensures inb(a.sh(), merge(m, p, q)), seli(m, merge(m, p, q)) == p, kept(m, merge(m, p, q)) == q, it.at(lin(it.sh(), p), lin(it.result.sh(), q)) == a.at_ix(merge(m, p, q)),
{
    let x = merge(m, p, q);
    lemma_merge(m, a.sh(), p, q);
    assert(seli(m, x) =~= p); assert(kept(m, x) =~= q);
    lemma_split_dotp(m, a.st(), x);
    lemma_off_lin(it.sh(), it.st(), p); lemma_off_lin(it.result.sh(), it.result.st(), q);
}
impl NdArray {
//@fn src/ndarray/iterator/iterators.rs :: impl NdArray :: iter
//@sig pub fn nd_iter(&self) -> (r: NdIterator)
//@call NdIterator::from => NdIterator::nditer_from
//@requires self.wf(), self.sh().len() <= MAX_DIMS
//@panics self.sh().len() == 0
//@ensures nd_over(r, *self, ux_mask(seq![0usize], self.sh().len() as int))
//@start
    broadcast use lemma_one_ux; broadcast use lemma_one_bad;
//@end
//@fn src/ndarray/iterator/iterators.rs :: impl NdArray :: iter_along
//@sig pub fn iter_along(&self, axis: isize) -> (r: NdIterator)
//@call NdIterator::from => NdIterator::nditer_from
//@requires self.wf(), self.sh().len() <= MAX_DIMS
//@panics !axis_ok(axis as int, self.sh().len() as int)
//@ensures nd_over(r, *self, ux_mask(seq![axis_abs(axis as int, self.sh().len() as int) as usize], self.sh().len() as int))
//@start
    broadcast use lemma_one_ux; broadcast use lemma_one_bad;
//@end
//@fn src/ndarray/iterator/iterators.rs :: impl NdArray :: nditer
//@sig pub fn nditer(&self, axes: &[usize]) -> (r: NdIterator)
//@call NdIterator::from => NdIterator::nditer_from
//@requires self.wf(), self.sh().len() <= MAX_DIMS
//@panics ux_bad(axes@, self.sh().len() as int)
//@ensures nd_over(r, *self, ux_mask(axes@, self.sh().len() as int))
//@end
}
