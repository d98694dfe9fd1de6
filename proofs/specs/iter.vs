//@use core geom mem arr
use vstd::arithmetic::mul::*;
use vstd::arithmetic::div_mod::*;

// ===================================================================== counting through a shape in row-major order
pub proof fn lemma_dotp_zeros(st: Seq<usize>, ix: Seq<int>, i: int)
    requires st.len() == ix.len(), 0 <= i <= st.len(), forall|j: int| i <= j < ix.len() ==> ix[j] == 0,
    ensures dotp(st, ix) == dotp(st.subrange(0, i), ix.subrange(0, i)),
    decreases st.len(),
{
    if i == st.len() { assert(st.subrange(0, i) =~= st); assert(ix.subrange(0, i) =~= ix); }
    else {
        let (d, x) = (st.drop_last(), ix.drop_last());
        assert forall|j: int| i <= j < x.len() implies x[j] == 0 by { assert(x[j] == ix[j]); }
        lemma_dotp_zeros(d, x, i);
        assert(d.subrange(0, i) =~= st.subrange(0, i)); assert(x.subrange(0, i) =~= ix.subrange(0, i));
        assert(ix.last() == 0); assert(0 * st.last() == 0);
    }
}
/// the index after ix: axis i - 1 advances, the axes from i on (all at their end) restart
pub open spec fn carried(ix: Seq<int>, i: int) -> Seq<int> { Seq::new(ix.len(), |j: int| if j < i - 1 { ix[j] } else if j == i - 1 { ix[j] + 1 } else { 0 }) }
pub proof fn lemma_carried(sh: Seq<usize>, ix: Seq<int>, i: int)
    requires inb(sh, ix), 1 <= i <= sh.len(), ix[i - 1] + 1 < sh[i - 1], forall|j: int| i <= j < sh.len() ==> #[trigger] ix[j] == sh[j] - 1,
    ensures inb(sh, carried(ix, i)), lin(sh, carried(ix, i)) == lin(sh, ix) + 1,
    decreases sh.len(),
{
    let c = carried(ix, i);
    assert(inb(sh, c)) by { assert forall|j: int| 0 <= j < sh.len() implies 0 <= #[trigger] c[j] < sh[j] by { assert(0 <= ix[j] < sh[j]); } }
    let (d, x) = (sh.drop_last(), ix.drop_last());
    if i == sh.len() { assert(c.drop_last() =~= x); }
    else {
        assert(inb(d, x)) by { assert forall|j: int| 0 <= j < d.len() implies 0 <= #[trigger] x[j] < d[j] by { assert(x[j] == ix[j]); assert(0 <= ix[j] < sh[j]); } }
        assert forall|j: int| i <= j < d.len() implies #[trigger] x[j] == d[j] - 1 by { assert(x[j] == ix[j]); }
        lemma_carried(d, x, i);
        assert(c.drop_last() =~= carried(x, i));
        let (p, n) = (lin(d, x), sh.last() as int);
        assert(ix[sh.len() - 1] == sh[sh.len() - 1] - 1);
        assert((p + 1) * n + 0 == p * n + (n - 1) + 1) by (nonlinear_arith);
    }
}
pub proof fn lemma_dotp_carried(st: Seq<usize>, ix: Seq<int>, i: int)
    requires st.len() == ix.len(), 1 <= i <= st.len(),
    ensures dotp(st, carried(ix, i)) == dotp(st.subrange(0, i), ix.subrange(0, i)) + st[i - 1],
{
    let c = carried(ix, i);
    lemma_dotp_zeros(st, c, i);
    assert(c.subrange(0, i).drop_last() =~= ix.subrange(0, i).drop_last());
    let (x, t) = (ix[i - 1], st[i - 1] as int);
    assert((x + 1) * t == x * t + t) by (nonlinear_arith);
}
pub proof fn lemma_all_top(sh: Seq<usize>, ix: Seq<int>)
    requires inb(sh, ix), forall|j: int| 0 <= j < sh.len() ==> #[trigger] ix[j] == sh[j] - 1,
    ensures lin(sh, ix) == prod(sh) - 1,
{ assert(ix =~= topix(sh)); lemma_prod_nonneg(sh); assert forall|i: int| 0 <= i < sh.len() implies sh[i] > 0 by { assert(0 <= ix[i] < sh[i]); } lemma_top_lin(sh); }
/// offset of a prefix of an index plus one more step stays within the span
pub proof fn lemma_dotp_step(sh: Seq<usize>, st: Seq<usize>, ix: Seq<int>, i: int)
    requires sh.len() == st.len(), inb(sh, ix), 1 <= i <= sh.len(), ix[i - 1] + 1 < sh[i - 1],
        forall|j: int| i <= j < sh.len() ==> #[trigger] ix[j] == sh[j] - 1,
    ensures 0 <= dotp(st.subrange(0, i), ix.subrange(0, i)) + st[i - 1] <= span(sh, st),
{ lemma_carried(sh, ix, i); lemma_dotp_carried(st, ix, i); lemma_dotp_bounds(sh, st, carried(ix, i)); }
pub proof fn lemma_dotp_take(sh: Seq<usize>, st: Seq<usize>, ix: Seq<int>, i: int)
    requires sh.len() == st.len(), inb(sh, ix), 1 <= i <= sh.len(), prod(sh) > 0,
    ensures dotp(st.subrange(0, i), ix.subrange(0, i)) == dotp(st.subrange(0, i - 1), ix.subrange(0, i - 1)) + ix[i - 1] * st[i - 1],
        dotp(st.subrange(0, i - 1), ix.subrange(0, i - 1)) >= 0, 0 <= (sh[i - 1] - 1) * st[i - 1] <= span(sh, st), 0 < sh[i - 1], 0 <= st[i - 1] * (sh[i - 1] - 1) <= span(sh, st),
        st[i - 1] * (sh[i - 1] - 1) == (sh[i - 1] - 1) * st[i - 1],
{
    lemma_take_push(st, i - 1);
    let j = i - 1;
    assert(ix.subrange(0, i).drop_last() =~= ix.subrange(0, j));
    let (a, b, x) = (sh.subrange(0, j), st.subrange(0, j), ix.subrange(0, j));
    assert(inb(a, x)) by { assert forall|l: int| 0 <= l < a.len() implies 0 <= #[trigger] x[l] < a[l] by { assert(x[l] == ix[l]); assert(0 <= ix[l] < sh[l]); } }
    lemma_dotp_bounds(a, b, x);
    lemma_span_ge(sh, st, j);
    lemma_mul_is_commutative(st[j] as int, sh[j] - 1);
}
pub proof fn lemma_fig_wrap(sh: Seq<usize>, st: Seq<usize>, ix: Seq<int>, i: int)
    requires sh.len() == st.len(), inb(sh, ix), 1 <= i <= sh.len(), prod(sh) > 0, ix[i - 1] == sh[i - 1] - 1,
    ensures dotp(st.subrange(0, i), ix.subrange(0, i)) - st[i - 1] * (sh[i - 1] - 1) == dotp(st.subrange(0, i - 1), ix.subrange(0, i - 1)),
        dotp(st.subrange(0, i), ix.subrange(0, i)) >= st[i - 1] * (sh[i - 1] - 1),
{ lemma_dotp_take(sh, st, ix, i); }

// ===================================================================== flat offsets of one array
pub struct FlatIndexGenerator { pub ndims: usize, pub shape: [usize; MAX_DIMS], pub stride: [usize; MAX_DIMS], pub size: usize, pub iterator_index: usize, pub indices: [usize; MAX_DIMS], pub flat_index: usize }
pub open spec fn ixs(s: Seq<usize>, n: int) -> Seq<int> { Seq::new(n as nat, |i: int| s[i] as int) }
impl FlatIndexGenerator {
    pub open spec fn sh(&self) -> Seq<usize> { self.shape@.subrange(0, self.ndims as int) }
    pub open spec fn st(&self) -> Seq<usize> { self.stride@.subrange(0, self.ndims as int) }
    pub open spec fn ix(&self) -> Seq<int> { ixs(self.indices@, self.ndims as int) }
    pub open spec fn pos(&self) -> int { self.iterator_index as int }
    pub open spec fn cnt(&self) -> int { self.size as int }
    /// offset of the k-th element
    pub open spec fn at(&self, k: int) -> int { off(self.sh(), self.st(), k) }
    pub open spec fn ok(&self) -> bool {
        self.ndims <= MAX_DIMS && self.size == prod(self.sh()) && 0 <= self.pos() <= self.cnt() && (prod(self.sh()) > 0 ==> span(self.sh(), self.st()) <= usize::MAX)
        && (self.pos() < self.cnt() ==> inb(self.sh(), self.ix()) && lin(self.sh(), self.ix()) == self.pos() && self.flat_index == dotp(self.st(), self.ix()))
    }
    pub open spec fn same(&self, o: &FlatIndexGenerator) -> bool { self.sh() == o.sh() && self.st() == o.st() && self.size == o.size }
//@fn src/ndarray/iterator/flat_index_generator.rs :: impl FlatIndexGenerator :: from
//@sig pub fn from(shape: &[usize], stride: &[usize]) -> (r: FlatIndexGenerator)
//@type Self => FlatIndexGenerator
//@requires shape@.len() == stride@.len(), shape@.len() <= MAX_DIMS, fits(shape@, stride@)
//@ensures r.ok(), r.pos() == 0, r.cnt() == prod(shape@), forall|k: int| 0 <= k < prod(shape@) ==> #[trigger] r.at(k) == off(shape@, stride@, k)
//@start
    let ghost (sh0, st0) = (shape@, stride@);
    proof { lemma_prod_nonneg(sh0); }
//@ret
    proof {
        assert(vx_ret.sh() =~= shape@); assert(vx_ret.st() =~= stride@);
        if prod(sh0) > 0 {
            lemma_prod_nonneg(shape@);
            assert(inb(shape@, vx_ret.ix()));
            lemma_off0(shape@, stride@); lemma_lin0(shape@, vx_ret.ix()); lemma_off_lin(shape@, stride@, vx_ret.ix());
        }
    }
//@end
//@fn src/ndarray/iterator/flat_index_generator.rs :: impl Iterator for FlatIndexGenerator :: next
//@sig pub fn next(&mut self) -> (r: Option<usize>)
//@flag arith
//@requires old(self).ok()
//@ensures final(self).ok(), final(self).same(old(self)), old(self).pos() == old(self).cnt() ==> r.is_none() && final(self).pos() == old(self).pos(),
    old(self).pos() < old(self).cnt() ==> r == Some(old(self).at(old(self).pos()) as usize) && final(self).pos() == old(self).pos() + 1 && 0 <= old(self).at(old(self).pos()) <= span(old(self).sh(), old(self).st()) <= usize::MAX
//@start
    let ghost (sh, st, ix) = (self.sh(), self.st(), self.ix()); let ghost n = self.ndims as int; let ghost p0 = self.pos(); let ghost s0 = *self;
    proof { if p0 < self.cnt() { lemma_off_lin(sh, st, ix); lemma_off_bounds(sh, st, p0); lemma_prod_nonneg(sh); assert(st.subrange(0, n) =~= st); assert(ix.subrange(0, n) =~= ix); } }
//@loop 0 before
    let ghost mut brk = false;
//@loop 0
    invariant_except_break !brk,
        self.ndims == n, self.sh() == sh, self.st() == st, self.size == prod(sh), self.iterator_index == p0, p0 < prod(sh),
        0 <= i <= n, n <= MAX_DIMS, sh.len() == n, st.len() == n, inb(sh, ix), lin(sh, ix) == p0, prod(sh) > 0, span(sh, st) <= usize::MAX,
        forall|j: int| 0 <= j < i ==> #[trigger] self.indices@[j] == ix[j],
        forall|j: int| i <= j < n ==> #[trigger] ix[j] == sh[j] - 1,
        forall|j: int| i <= j < n ==> #[trigger] self.indices@[j] == 0,
        self.flat_index == dotp(st.subrange(0, i as int), ix.subrange(0, i as int)),
        return_index == dotp(st, ix),
    decreases i,
//@loop 0 start
    proof {
        let m = i as int;
        assert(0 <= ix[m - 1] < sh[m - 1]); assert(self.indices@[m - 1] == ix[m - 1]);
        assert(self.shape@[m - 1] == sh[m - 1]); assert(self.stride@[m - 1] == st[m - 1]);
        lemma_dotp_take(sh, st, ix, m);
        if ix[m - 1] + 1 < sh[m - 1] { lemma_dotp_step(sh, st, ix, m); lemma_carried(sh, ix, m); lemma_dotp_carried(st, ix, m); }
        else { lemma_fig_wrap(sh, st, ix, m); }
    }
//@break 0
    proof { brk = true; assert(self.ix() =~= carried(ix, i + 1)); }
//@loop 0 after
    proof { lemma_off_lin(sh, st, ix); if !brk { lemma_all_top(sh, ix); } }
//@end
}
pub proof fn lemma_lin0(sh: Seq<usize>, ix: Seq<int>)
    requires sh.len() == ix.len(), forall|i: int| 0 <= i < ix.len() ==> ix[i] == 0,
    ensures lin(sh, ix) == 0,
    decreases sh.len(),
{
    if sh.len() > 0 {
        assert forall|i: int| 0 <= i < ix.drop_last().len() implies ix.drop_last()[i] == 0 by { assert(ix.drop_last()[i] == ix[i]); }
        lemma_lin0(sh.drop_last(), ix.drop_last()); assert(0 * sh.last() == 0);
    }
}

// ===================================================================== element pointers and values in row-major order
impl NdArray {
//@fn src/ndarray/methods.rs :: impl NdArray :: mut_ptr
//@sig pub fn mut_ptr(&self) -> (r: Ptr)
//@ensures r == self.ptr
//@end
//@fn src/ndarray/methods.rs :: impl NdArray :: ptr
//@sig pub fn ptr(&self) -> (r: Ptr)
//@ensures r == self.ptr
//@end
}
pub struct BufferIterator { pub ptr: Ptr, pub indices: FlatIndexGenerator }
impl BufferIterator {
    pub open spec fn ok(&self) -> bool { self.indices.ok() }
    pub open spec fn pos(&self) -> int { self.indices.pos() }
    pub open spec fn cnt(&self) -> int { self.indices.cnt() }
    pub open spec fn at(&self, k: int) -> int { self.ptr.a() + self.indices.at(k) }
    pub open spec fn same(&self, o: &BufferIterator) -> bool { self.ptr == o.ptr && self.indices.same(&o.indices) }
//@fn src/ndarray/iterator/buffer_iterator.rs :: impl BufferIterator :: from
//@sig pub fn from(tensor: &NdArray) -> (r: BufferIterator)
//@requires tensor.wf(), tensor.sh().len() <= MAX_DIMS
//@ensures r.ok(), r.pos() == 0, r.cnt() == prod(tensor.sh()), forall|k: int| 0 <= k < prod(tensor.sh()) ==> #[trigger] r.at(k) == tensor.ad(k)
//@start
    proof { lemma_wfl(tensor.sh(), tensor.st()); }
//@end
//@fn src/ndarray/iterator/buffer_iterator.rs :: impl BufferIterator :: from_reshaped_view
//@sig pub fn from_reshaped_view(tensor: &NdArray, shape: &[usize], stride: &[usize]) -> (r: BufferIterator)
//@requires wfl(shape@, stride@), shape@.len() <= MAX_DIMS
//@ensures r.ok(), r.pos() == 0, r.cnt() == prod(shape@), forall|k: int| 0 <= k < prod(shape@) ==> #[trigger] r.at(k) == tensor.ptr.a() + off(shape@, stride@, k)
//@start
    proof { lemma_wfl(shape@, stride@); }
//@end
//@fn src/ndarray/iterator/buffer_iterator.rs :: impl Iterator for BufferIterator :: next
//@sig pub fn next(&mut self) -> (r: Option<Ptr>)
//@requires old(self).ok()
//@ensures final(self).ok(), final(self).same(old(self)), old(self).pos() == old(self).cnt() ==> r.is_none() && final(self).pos() == old(self).pos(),
    old(self).pos() < old(self).cnt() ==> r.is_some() && r.unwrap().a() == old(self).at(old(self).pos()) && final(self).pos() == old(self).pos() + 1
//@end
}
pub struct FlatIterator { pub buffer_iterator: BufferIterator }
impl FlatIterator {
    pub open spec fn ok(&self) -> bool { self.buffer_iterator.ok() }
    pub open spec fn pos(&self) -> int { self.buffer_iterator.pos() }
    pub open spec fn cnt(&self) -> int { self.buffer_iterator.cnt() }
    pub open spec fn at(&self, k: int) -> int { self.buffer_iterator.at(k) }
    pub open spec fn same(&self, o: &FlatIterator) -> bool { self.buffer_iterator.same(&o.buffer_iterator) }
//@fn src/ndarray/iterator/flat_iterator.rs :: impl FlatIterator :: from
//@sig pub fn from(tensor: &NdArray) -> (r: FlatIterator)
//@requires tensor.wf(), tensor.sh().len() <= MAX_DIMS
//@ensures r.ok(), r.pos() == 0, r.cnt() == prod(tensor.sh()), forall|k: int| 0 <= k < prod(tensor.sh()) ==> #[trigger] r.at(k) == tensor.ad(k)
//@end
//@fn src/ndarray/iterator/flat_iterator.rs :: impl Iterator for FlatIterator :: next
//@sig pub fn next(&mut self, mem: &Mem) -> (r: Option<E>)
//@sigof next:m
//@type closure:ptr => Ptr
//@requires old(self).ok(), old(self).pos() < old(self).cnt() ==> mem.m().contains_key(old(self).at(old(self).pos()))
//@ensures final(self).ok(), final(self).same(old(self)), old(self).pos() == old(self).cnt() ==> r.is_none() && final(self).pos() == old(self).pos(),
    old(self).pos() < old(self).cnt() ==> r == Some(mem.m()[old(self).at(old(self).pos())]) && final(self).pos() == old(self).pos() + 1
//@end
}
impl NdArray {
//@fn src/ndarray/iterator/iterators.rs :: impl NdArray :: flatiter
//@sig pub fn flatiter(&self) -> (r: FlatIterator)
//@requires self.wf(), self.sh().len() <= MAX_DIMS
//@ensures r.ok(), r.pos() == 0, r.cnt() == prod(self.sh()), forall|k: int| 0 <= k < prod(self.sh()) ==> #[trigger] r.at(k) == self.ad(k)
//@end
//@fn src/ndarray/iterator/iterators.rs :: impl NdArray :: flatiter_ptr
//@sig pub fn flatiter_ptr(&self) -> (r: BufferIterator)
//@requires self.wf(), self.sh().len() <= MAX_DIMS
//@ensures r.ok(), r.pos() == 0, r.cnt() == prod(self.sh()), forall|k: int| 0 <= k < prod(self.sh()) ==> #[trigger] r.at(k) == self.ad(k)
//@end
}
