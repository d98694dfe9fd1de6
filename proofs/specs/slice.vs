//@use core geom mem arr
use vstd::arithmetic::mul::*;
use vstd::arithmetic::div_mod::*;

// ===================================================================== std's range types
#[derive(Clone, Copy)]
pub struct Range<A> { pub start: A, pub end: A }
#[derive(Clone, Copy)]
pub struct RangeFrom<A> { pub start: A }
#[derive(Clone, Copy)]
pub struct RangeTo<A> { pub end: A }
#[derive(Clone, Copy)]
pub struct RangeToInclusive<A> { pub end: A }
#[derive(Clone, Copy)]
pub struct RangeFull;
#[derive(Clone, Copy)]
pub struct RangeInclusive<A> { pub start_: A, pub end_: A }
impl<A> RangeInclusive<A> {
    pub fn start(&self) -> (r: &A) ensures *r == self.start_, { &self.start_ }
    pub fn end(&self) -> (r: &A) ensures *r == self.end_, { &self.end_ }
}
#[derive(Clone, Copy)]
pub enum Index {
    Usize(usize),
    Range(Range<usize>),
    RangeFrom(RangeFrom<usize>),
    RangeFull(RangeFull),
    RangeInclusive(RangeInclusive<usize>),
    RangeTo(RangeTo<usize>),
    RangeToInclusive(RangeToInclusive<usize>),
}

/// what an index selects on an axis of length n: `ilen` elements from `first` on
pub trait Indexer: Sized + Copy {
    spec fn first(&self) -> int;
    spec fn ilen(&self, n: int) -> int;
    spec fn coll(&self) -> bool;
    fn indexed_length(&self, axis_length: usize, Ghost(vx_allow): Ghost<bool>) -> (r: usize)
        requires !(0 <= self.ilen(axis_length as int) <= usize::MAX) ==> vx_allow,
        ensures r == self.ilen(axis_length as int);
    fn index_of_first_element(&self) -> (r: usize)
        ensures r == self.first();
    fn collapse_dimension(&self) -> (r: bool)
        ensures r == self.coll(), r ==> forall|n: int| self.ilen(n) == 1;
//@sigof indexed_length:p index_of_first_element collapse_dimension
}
//@call Indexer::indexed_length => Indexer::indexed_length
impl Indexer for usize {
    open spec fn first(&self) -> int { *self as int }
    open spec fn ilen(&self, n: int) -> int { 1 }
    open spec fn coll(&self) -> bool { true }
//@fn src/util/index.rs :: impl Indexer for usize :: indexed_length
//@sig fn indexed_length(&self, len: usize, Ghost(vx_allow): Ghost<bool>) -> (r: usize)
//@flag no_vacuity arith
//@panics_entry
    !(0 <= self.ilen(len as int) <= usize::MAX)
//@end
//@fn src/util/index.rs :: impl Indexer for usize :: index_of_first_element
//@sig fn index_of_first_element(&self) -> (r: usize)
//@flag no_vacuity
//@end
//@fn src/util/index.rs :: impl Indexer for usize | trait Indexer :: collapse_dimension
//@sig fn collapse_dimension(&self) -> (r: bool)
//@flag no_vacuity
//@end
}
impl Indexer for Range<usize> {
    open spec fn first(&self) -> int { self.start as int }
    open spec fn ilen(&self, n: int) -> int { self.end - self.start }
    open spec fn coll(&self) -> bool { false }
//@fn src/util/index.rs :: impl Indexer for Range<usize> :: indexed_length
//@sig fn indexed_length(&self, len: usize, Ghost(vx_allow): Ghost<bool>) -> (r: usize)
//@flag no_vacuity arith
//@panics_entry
    !(0 <= self.ilen(len as int) <= usize::MAX)
//@end
//@fn src/util/index.rs :: impl Indexer for Range<usize> :: index_of_first_element
//@sig fn index_of_first_element(&self) -> (r: usize)
//@flag no_vacuity
//@end
//@fn src/util/index.rs :: impl Indexer for Range<usize> | trait Indexer :: collapse_dimension
//@sig fn collapse_dimension(&self) -> (r: bool)
//@flag no_vacuity
//@end
}
impl Indexer for RangeFull {
    open spec fn first(&self) -> int { 0 }
    open spec fn ilen(&self, n: int) -> int { n }
    open spec fn coll(&self) -> bool { false }
//@fn src/util/index.rs :: impl Indexer for RangeFull :: indexed_length
//@sig fn indexed_length(&self, len: usize, Ghost(vx_allow): Ghost<bool>) -> (r: usize)
//@flag no_vacuity arith
//@panics_entry
    !(0 <= self.ilen(len as int) <= usize::MAX)
//@end
//@fn src/util/index.rs :: impl Indexer for RangeFull :: index_of_first_element
//@sig fn index_of_first_element(&self) -> (r: usize)
//@flag no_vacuity
//@end
//@fn src/util/index.rs :: impl Indexer for RangeFull | trait Indexer :: collapse_dimension
//@sig fn collapse_dimension(&self) -> (r: bool)
//@flag no_vacuity
//@end
}
impl Indexer for RangeFrom<usize> {
    open spec fn first(&self) -> int { self.start as int }
    open spec fn ilen(&self, n: int) -> int { n - self.start }
    open spec fn coll(&self) -> bool { false }
//@fn src/util/index.rs :: impl Indexer for RangeFrom<usize> :: indexed_length
//@sig fn indexed_length(&self, len: usize, Ghost(vx_allow): Ghost<bool>) -> (r: usize)
//@flag no_vacuity arith
//@panics_entry
    !(0 <= self.ilen(len as int) <= usize::MAX)
//@end
//@fn src/util/index.rs :: impl Indexer for RangeFrom<usize> :: index_of_first_element
//@sig fn index_of_first_element(&self) -> (r: usize)
//@flag no_vacuity
//@end
//@fn src/util/index.rs :: impl Indexer for RangeFrom<usize> | trait Indexer :: collapse_dimension
//@sig fn collapse_dimension(&self) -> (r: bool)
//@flag no_vacuity
//@end
}
impl Indexer for RangeTo<usize> {
    open spec fn first(&self) -> int { 0 }
    open spec fn ilen(&self, n: int) -> int { self.end as int }
    open spec fn coll(&self) -> bool { false }
//@fn src/util/index.rs :: impl Indexer for RangeTo<usize> :: indexed_length
//@sig fn indexed_length(&self, len: usize, Ghost(vx_allow): Ghost<bool>) -> (r: usize)
//@flag no_vacuity arith
//@panics_entry
    !(0 <= self.ilen(len as int) <= usize::MAX)
//@end
//@fn src/util/index.rs :: impl Indexer for RangeTo<usize> :: index_of_first_element
//@sig fn index_of_first_element(&self) -> (r: usize)
//@flag no_vacuity
//@end
//@fn src/util/index.rs :: impl Indexer for RangeTo<usize> | trait Indexer :: collapse_dimension
//@sig fn collapse_dimension(&self) -> (r: bool)
//@flag no_vacuity
//@end
}
impl Indexer for RangeToInclusive<usize> {
    open spec fn first(&self) -> int { 0 }
    open spec fn ilen(&self, n: int) -> int { self.end + 1 }
    open spec fn coll(&self) -> bool { false }
//@fn src/util/index.rs :: impl Indexer for RangeToInclusive<usize> :: indexed_length
//@sig fn indexed_length(&self, len: usize, Ghost(vx_allow): Ghost<bool>) -> (r: usize)
//@flag no_vacuity arith
//@panics_entry
    !(0 <= self.ilen(len as int) <= usize::MAX)
//@end
//@fn src/util/index.rs :: impl Indexer for RangeToInclusive<usize> :: index_of_first_element
//@sig fn index_of_first_element(&self) -> (r: usize)
//@flag no_vacuity
//@end
//@fn src/util/index.rs :: impl Indexer for RangeToInclusive<usize> | trait Indexer :: collapse_dimension
//@sig fn collapse_dimension(&self) -> (r: bool)
//@flag no_vacuity
//@end
}
impl Indexer for RangeInclusive<usize> {
    open spec fn first(&self) -> int { self.start_ as int }
    open spec fn ilen(&self, n: int) -> int { if self.end_ < self.start_ { -1 } else { self.end_ - self.start_ + 1 } }
    open spec fn coll(&self) -> bool { false }
//@fn src/util/index.rs :: impl Indexer for RangeInclusive<usize> :: indexed_length
//@sig fn indexed_length(&self, len: usize, Ghost(vx_allow): Ghost<bool>) -> (r: usize)
//@flag no_vacuity arith
//@panics_entry
    !(0 <= self.ilen(len as int) <= usize::MAX)
//@end
//@fn src/util/index.rs :: impl Indexer for RangeInclusive<usize> :: index_of_first_element
//@sig fn index_of_first_element(&self) -> (r: usize)
//@flag no_vacuity
//@end
//@fn src/util/index.rs :: impl Indexer for RangeInclusive<usize> | trait Indexer :: collapse_dimension
//@sig fn collapse_dimension(&self) -> (r: bool)
//@flag no_vacuity
//@end
}
impl Indexer for Index {
    open spec fn first(&self) -> int {
        match self { Index::Usize(i) => i.first(), Index::Range(i) => i.first(), Index::RangeFrom(i) => i.first(), Index::RangeFull(i) => i.first(), Index::RangeInclusive(i) => i.first(), Index::RangeTo(i) => i.first(), Index::RangeToInclusive(i) => i.first() }
    }
    open spec fn ilen(&self, n: int) -> int {
        match self { Index::Usize(i) => i.ilen(n), Index::Range(i) => i.ilen(n), Index::RangeFrom(i) => i.ilen(n), Index::RangeFull(i) => i.ilen(n), Index::RangeInclusive(i) => i.ilen(n), Index::RangeTo(i) => i.ilen(n), Index::RangeToInclusive(i) => i.ilen(n) }
    }
    open spec fn coll(&self) -> bool { self is Usize }
//@fn src/util/index.rs :: impl Indexer for Index :: indexed_length
//@sig fn indexed_length(&self, len: usize, Ghost(vx_allow): Ghost<bool>) -> (r: usize)
//@flag no_vacuity arith
//@panics_entry
    !(0 <= self.ilen(len as int) <= usize::MAX)
//@end
//@fn src/util/index.rs :: impl Indexer for Index :: index_of_first_element
//@sig fn index_of_first_element(&self) -> (r: usize)
//@flag no_vacuity
//@end
//@fn src/util/index.rs :: impl Indexer for Index :: collapse_dimension
//@sig fn collapse_dimension(&self) -> (r: bool)
//@flag no_vacuity
//@end
}

// ===================================================================== slicing
/// the selection lies on the axis and is not empty
pub open spec fn sel_ok<S: Indexer>(s: S, n: int) -> bool { 0 < s.ilen(n) && s.first() + s.ilen(n) <= n && 0 <= s.first() }
pub open spec fn slice_ok<S: Indexer>(sh: Seq<usize>, ix: Seq<S>) -> bool {
    ix.len() <= sh.len() && forall|a: int| 0 <= a < ix.len() ==> #[trigger] sel_ok(ix[a], sh[a] as int)
}
/// omitted trailing axes are kept whole
pub open spec fn afirst<S: Indexer>(ix: Seq<S>, a: int) -> int { if a < ix.len() { ix[a].first() } else { 0 } }
pub open spec fn alen<S: Indexer>(ix: Seq<S>, a: int, n: int) -> int { if a < ix.len() { ix[a].ilen(n) } else { n } }
pub open spec fn acoll<S: Indexer>(ix: Seq<S>, a: int) -> bool { a < ix.len() && ix[a].coll() }
/// shape and strides of the slice: collapsed axes are removed
pub open spec fn sl_sh<S: Indexer>(sh: Seq<usize>, ix: Seq<S>) -> Seq<usize>
    decreases sh.len(),
{
    if sh.len() == 0 { Seq::empty() } else {
        let (p, a) = (sl_sh(sh.drop_last(), ix), sh.len() - 1);
        if acoll(ix, a) { p } else { p.push(alen(ix, a, sh[a] as int) as usize) }
    }
}
pub open spec fn sl_st<S: Indexer>(st: Seq<usize>, ix: Seq<S>) -> Seq<usize>
    decreases st.len(),
{
    if st.len() == 0 { Seq::empty() } else {
        let (p, a) = (sl_st(st.drop_last(), ix), st.len() - 1);
        if acoll(ix, a) { p } else { p.push(st[a]) }
    }
}
pub open spec fn sl_off<S: Indexer>(st: Seq<usize>, ix: Seq<S>) -> int
    decreases st.len(),
{ if st.len() == 0 { 0 } else { sl_off(st.drop_last(), ix) + st.last() * afirst(ix, st.len() - 1) } }
/// the index in the source (of n axes) of the element at jx in the slice
pub open spec fn sl_src<S: Indexer>(n: nat, ix: Seq<S>, jx: Seq<int>) -> Seq<int>
    decreases n,
{
    if n == 0 { Seq::empty() } else {
        let a = n - 1;
        if acoll(ix, a) { sl_src(a as nat, ix, jx).push(afirst(ix, a)) } else { sl_src(a as nat, ix, jx.drop_last()).push(afirst(ix, a) + jx.last()) }
    }
}
pub proof fn lemma_sl_len<S: Indexer>(sh: Seq<usize>, st: Seq<usize>, ix: Seq<S>)
    requires sh.len() == st.len(),
    ensures sl_sh(sh, ix).len() == sl_st(st, ix).len(), sl_sh(sh, ix).len() <= sh.len(),
    decreases sh.len(),
{ if sh.len() > 0 { lemma_sl_len(sh.drop_last(), st.drop_last(), ix); } }
/// prefixes of the axes: every selection lies on its axis
pub open spec fn sels_ok<S: Indexer>(sh: Seq<usize>, ix: Seq<S>) -> bool {
    forall|a: int| 0 <= a < sh.len() && a < ix.len() ==> #[trigger] sel_ok(ix[a], sh[a] as int)
}
pub proof fn lemma_sl_geom<S: Indexer>(sh: Seq<usize>, st: Seq<usize>, ix: Seq<S>)
    requires sh.len() == st.len(), prod(sh) > 0, sels_ok(sh, ix),
    ensures sl_sh(sh, ix).len() == sl_st(st, ix).len(), 0 < prod(sl_sh(sh, ix)) <= prod(sh), 0 <= sl_off(st, ix), 0 <= span(sl_sh(sh, ix), sl_st(st, ix)),
        sl_off(st, ix) + span(sl_sh(sh, ix), sl_st(st, ix)) <= span(sh, st),
    decreases sh.len(),
{
    lemma_prod_nonneg(sh);
    if sh.len() > 0 {
        let (d, e, a) = (sh.drop_last(), st.drop_last(), sh.len() - 1);
        lemma_prod_nonneg(d);
        assert(prod(d) > 0) by { assert forall|i: int| 0 <= i < d.len() implies d[i] > 0 by { assert(d[i] == sh[i]); } }
        assert(sels_ok(d, ix)) by { assert forall|b: int| 0 <= b < d.len() && b < ix.len() implies #[trigger] sel_ok(ix[b], d[b] as int) by { assert(sel_ok(ix[b], sh[b] as int)); } }
        lemma_sl_geom(d, e, ix);
        let (n, t, f, l) = (sh[a] as int, st[a] as int, afirst(ix, a), alen(ix, a, sh[a] as int));
        assert(n > 0);
        if a < ix.len() { assert(sel_ok(ix[a], sh[a] as int)); }
        assert(0 <= f && 0 < l && f + l <= n);
        let (p, q) = (sl_sh(d, ix), sl_st(e, ix));
        assert(0 <= t * f) by (nonlinear_arith) requires 0 <= t, 0 <= f;
        if acoll(ix, a) {
            assert(t * f <= (n - 1) * t) by (nonlinear_arith) requires 0 <= t, f <= n - 1;
            assert(prod(d) <= prod(d) * n) by (nonlinear_arith) requires prod(d) > 0, n >= 1;
        } else {
            lemma_off_push(p, q, l as usize, st[a], 0);
            assert(t * f + (l - 1) * t <= (n - 1) * t) by (nonlinear_arith) requires 0 <= t, f + l <= n;
            assert(0 <= (l - 1) * t) by (nonlinear_arith) requires 0 <= t, 1 <= l;
            assert(0 < prod(p) * l <= prod(d) * n) by (nonlinear_arith) requires 0 < prod(p) <= prod(d), 0 < l <= n;
        }
    }
}
pub proof fn lemma_sl_src<S: Indexer>(sh: Seq<usize>, st: Seq<usize>, ix: Seq<S>, jx: Seq<int>)
    requires sh.len() == st.len(), sels_ok(sh, ix), prod(sh) > 0, inb(sl_sh(sh, ix), jx),
    ensures inb(sh, sl_src(sh.len(), ix, jx)), dotp(st, sl_src(sh.len(), ix, jx)) == sl_off(st, ix) + dotp(sl_st(st, ix), jx),
    decreases sh.len(),
{
    lemma_prod_nonneg(sh);
    lemma_sl_len(sh, st, ix);
    if sh.len() > 0 {
        let (d, e, a) = (sh.drop_last(), st.drop_last(), sh.len() - 1);
        lemma_prod_nonneg(d); lemma_sl_len(d, e, ix);
        assert(prod(d) > 0) by { assert forall|i: int| 0 <= i < d.len() implies d[i] > 0 by { assert(d[i] == sh[i]); } }
        assert(sels_ok(d, ix)) by { assert forall|b: int| 0 <= b < d.len() && b < ix.len() implies #[trigger] sel_ok(ix[b], d[b] as int) by { assert(sel_ok(ix[b], sh[b] as int)); } }
        if a < ix.len() { assert(sel_ok(ix[a], sh[a] as int)); }
        let (p, q) = (sl_sh(d, ix), sl_st(e, ix));
        let src = sl_src(sh.len(), ix, jx);
        let (f, t) = (afirst(ix, a), st[a] as int);
        if acoll(ix, a) {
            lemma_sl_src(d, e, ix, jx);
            let s0 = sl_src(d.len(), ix, jx);
            assert(src.drop_last() =~= s0);
            assert(inb(sh, src)) by { assert forall|i: int| 0 <= i < sh.len() implies 0 <= #[trigger] src[i] < sh[i] by { if i < a { assert(src[i] == s0[i]); assert(d[i] == sh[i]); } } }
            assert(t * f == f * t) by (nonlinear_arith);
        } else {
            let j0 = jx.drop_last();
            let l = alen(ix, a, sh[a] as int);
            assert(jx.len() == p.len() + 1);
            assert(0 <= jx[jx.len() - 1] < l) by { assert(sl_sh(sh, ix)[p.len() as int] == l as usize); }
            assert(inb(p, j0)) by { assert forall|i: int| 0 <= i < p.len() implies 0 <= #[trigger] j0[i] < p[i] by { assert(jx[i] == j0[i]); assert(sl_sh(sh, ix)[i] == p[i]); } }
            lemma_sl_src(d, e, ix, j0);
            let s0 = sl_src(d.len(), ix, j0);
            assert(src.drop_last() =~= s0);
            assert(inb(sh, src)) by { assert forall|i: int| 0 <= i < sh.len() implies 0 <= #[trigger] src[i] < sh[i] by { if i < a { assert(src[i] == s0[i]); assert(d[i] == sh[i]); } } }
            let x = jx.last();
            assert(sl_st(st, ix).drop_last() =~= q);
            assert((f + x) * t == t * f + x * t) by (nonlinear_arith);
        }
    }
}

//@fn src/ndarray/slice.rs :: - :: calculate_strided_buffer_length
//@sig pub fn calculate_strided_buffer_length(shape: &[usize], stride: &[usize]) -> (r: usize)
//@flag arith
//@requires shape@.len() == stride@.len(), prod(shape@) > 0 ==> span(shape@, stride@) < usize::MAX
//@panics prod(shape@) == 0
//@ensures r == span(shape@, stride@) + 1
//@start
    proof { lemma_prod_nonneg(shape@); }
//@loop 0 before
    assert(shape@.subrange(0, 0) =~= Seq::<usize>::empty());
//@loop 0
    invariant vxe0 == shape@.len(), forall|j: int| 0 <= j < vxc0 ==> shape@[j] > 0, prod(shape@) > 0 ==> vxa0 == span(shape@.subrange(0, vxc0 as int), stride@.subrange(0, vxc0 as int)),
//@loop 0 start
    proof {
        lemma_take_push(shape@, vxi0 as int); lemma_take_push(stride@, vxi0 as int);
        if prod(shape@) > 0 { lemma_span_prefix(shape@, stride@, vxi0 + 1); assert((axis_length - 1) * axis_stride == axis_stride * (axis_length - 1)) by (nonlinear_arith); }
    }
//@loop 0 after
    proof { assert(shape@.subrange(0, vxe0 as int) =~= shape@); assert(stride@.subrange(0, vxe0 as int) =~= stride@); }
//@end
pub proof fn lemma_span_prefix(sh: Seq<usize>, st: Seq<usize>, i: int)
    requires sh.len() == st.len(), prod(sh) > 0, 0 <= i <= sh.len(),
    ensures 0 <= span(sh.subrange(0, i), st.subrange(0, i)) <= span(sh, st), prod(sh.subrange(0, i)) > 0, i > 0 ==> 0 <= span(sh.subrange(0, i - 1), st.subrange(0, i - 1)) && 0 <= (sh[i - 1] - 1) * st[i - 1] && sh[i - 1] > 0,
    decreases sh.len() - i,
{
    lemma_prod_nonneg(sh);
    let (a, b) = (sh.subrange(0, i), st.subrange(0, i));
    lemma_prod_nonneg(a); lemma_span_nonneg(a, b);
    if i > 0 {
        let (c, d) = (sh.subrange(0, i - 1), st.subrange(0, i - 1));
        lemma_prod_nonneg(c); lemma_span_nonneg(c, d);
        assert((sh[i - 1] - 1) * st[i - 1] >= 0) by (nonlinear_arith) requires sh[i - 1] >= 1, st[i - 1] >= 0;
    }
    if i == sh.len() { assert(a =~= sh); assert(b =~= st); }
    else {
        lemma_span_prefix(sh, st, i + 1);
        lemma_take_push(sh, i); lemma_take_push(st, i);
    }
}

//@fn src/ndarray/slice.rs :: - :: check_index_bounds
//@sig pub fn check_index_bounds<S: Indexer>(index: &S, axis_length: usize)
//@flag arith
//@panics !(0 <= index.ilen(axis_length as int) <= usize::MAX && 0 <= index.first() && index.first() + index.ilen(axis_length as int) <= axis_length)
//@end

pub proof fn lemma_dotp_insert(st: Seq<usize>, ix: Seq<int>, i: int, s: usize, x: int)
    requires st.len() == ix.len(), 0 <= i <= st.len(),
    ensures dotp(st.insert(i, s), ix.insert(i, x)) == dotp(st, ix) + x * s,
    decreases st.len(),
{
    let (a, b) = (st.insert(i, s), ix.insert(i, x));
    if i == st.len() { assert(a.drop_last() =~= st); assert(b.drop_last() =~= ix); }
    else {
        assert(a.drop_last() =~= st.drop_last().insert(i, s)); assert(b.drop_last() =~= ix.drop_last().insert(i, x));
        lemma_dotp_insert(st.drop_last(), ix.drop_last(), i, s, x);
    }
}
pub proof fn lemma_prod_insert(sh: Seq<usize>, i: int, n: usize)
    requires 0 <= i <= sh.len(),
    ensures prod(sh.insert(i, n)) == prod(sh) * n,
    decreases sh.len(),
{
    let a = sh.insert(i, n);
    if i == sh.len() { assert(a.drop_last() =~= sh); }
    else {
        assert(a.drop_last() =~= sh.drop_last().insert(i, n));
        lemma_prod_insert(sh.drop_last(), i, n);
        let (p, l) = (prod(sh.drop_last()), sh.last() as int);
        assert(p * n * l == p * l * n) by (nonlinear_arith);
    }
}
/// the index in the source of the element at jx in a slice along one axis
pub open spec fn along_src<S: Indexer>(s: S, axis: int, jx: Seq<int>) -> Seq<int> {
    if s.coll() { jx.insert(axis, s.first()) } else { jx.update(axis, jx[axis] + s.first()) }
}
pub open spec fn along_sh<S: Indexer>(s: S, axis: int, sh: Seq<usize>) -> Seq<usize> {
    if s.coll() { sh.remove(axis) } else { sh.update(axis, s.ilen(sh[axis] as int) as usize) }
}
pub proof fn lemma_along<S: Indexer>(sh: Seq<usize>, st: Seq<usize>, s: S, axis: int)
    requires sh.len() == st.len(), 0 <= axis < sh.len(), wfl(sh, st), sel_ok(s, sh[axis] as int),
    ensures
        wfl(along_sh(s, axis, sh), if s.coll() { st.remove(axis) } else { st }),
        0 <= st[axis] * s.first() <= span(sh, st), 0 <= s.first(),
        forall|jx: Seq<int>| inb(along_sh(s, axis, sh), jx) ==> inb(sh, #[trigger] along_src(s, axis, jx)) && dotp(st, along_src(s, axis, jx)) == st[axis] * s.first() + dotp(if s.coll() { st.remove(axis) } else { st }, jx),
{
    let (nsh, nst) = (along_sh(s, axis, sh), if s.coll() { st.remove(axis) } else { st });
    let (n, t, f, l) = (sh[axis] as int, st[axis] as int, s.first(), s.ilen(sh[axis] as int));
    lemma_wfl(sh, st); lemma_span_ge(sh, st, axis); lemma_prod_nonneg(sh);
    assert(0 <= t * f <= (n - 1) * t) by (nonlinear_arith) requires 0 <= t, 0 <= f <= n - 1;
    lemma_span_dotp(sh, st); lemma_span_dotp(nsh, nst);
    if s.coll() {
        assert(sh =~= nsh.insert(axis, sh[axis])); assert(st =~= nst.insert(axis, st[axis]));
        lemma_prod_insert(nsh, axis, sh[axis]);
        lemma_prod_nonneg(nsh);
        assert forall|i: int| 0 <= i < nsh.len() implies nsh[i] > 0 by { assert(nsh[i] == sh[if i < axis { i } else { i + 1 }]); }
        assert(0 < prod(nsh) <= prod(nsh) * n) by (nonlinear_arith) requires prod(nsh) > 0, n >= 1;
        assert(topix(sh) =~= topix(nsh).insert(axis, n - 1));
        lemma_dotp_insert(nst, topix(nsh), axis, st[axis], n - 1);
        assert((n - 1) * t >= 0);
        assert forall|jx: Seq<int>| inb(nsh, jx) implies inb(sh, #[trigger] along_src(s, axis, jx)) && dotp(st, along_src(s, axis, jx)) == t * f + dotp(nst, jx) by {
            let kx = along_src(s, axis, jx);
            lemma_dotp_insert(nst, jx, axis, st[axis], f);
            assert(f * t == t * f) by (nonlinear_arith);
            assert forall|i: int| 0 <= i < sh.len() implies 0 <= #[trigger] kx[i] < sh[i] by { if i < axis { assert(kx[i] == jx[i]); assert(nsh[i] == sh[i]); } else if i > axis { assert(kx[i] == jx[i - 1]); assert(nsh[i - 1] == sh[i]); } }
        }
    } else {
        lemma_prod_update(sh, axis, l as usize);
        lemma_prod_nonneg(nsh);
        assert forall|i: int| 0 <= i < nsh.len() implies nsh[i] > 0 by { if i != axis { assert(nsh[i] == sh[i]); } }
        assert(prod(nsh) <= prod(sh)) by (nonlinear_arith) requires prod(nsh) * n == prod(sh) * l, 0 < l <= n, prod(sh) > 0, prod(nsh) > 0;
        assert(topix(nsh) =~= topix(sh).update(axis, l - 1));
        assert(st.update(axis, st[axis]) =~= st);
        lemma_dotp_update(st, topix(sh), axis, st[axis], l - 1);
        assert((l - 1) * t <= (n - 1) * t) by (nonlinear_arith) requires l <= n, t >= 0;
        assert forall|jx: Seq<int>| inb(nsh, jx) implies inb(sh, #[trigger] along_src(s, axis, jx)) && dotp(st, along_src(s, axis, jx)) == t * f + dotp(nst, jx) by {
            let kx = along_src(s, axis, jx);
            let x = jx[axis];
            assert(nsh[axis] == l); assert(0 <= jx[axis] < nsh[axis]);
            lemma_dotp_update(st, jx, axis, st[axis], x + f);
            assert((x + f) * t == x * t + t * f) by (nonlinear_arith);
            assert forall|i: int| 0 <= i < sh.len() implies 0 <= #[trigger] kx[i] < sh[i] by { if i != axis { assert(kx[i] == jx[i]); assert(nsh[i] == sh[i]); } }
        }
    }
}
/// offsets of prefixes stay within the array
pub proof fn lemma_sl_bounds<S: Indexer>(sh: Seq<usize>, st: Seq<usize>, ix: Seq<S>, a: int)
    requires wfl(sh, st), slice_ok(sh, ix), 0 <= a < ix.len(),
    ensures 0 <= sl_off(st.subrange(0, a), ix), 0 <= st[a] * ix[a].first(), sl_off(st.subrange(0, a), ix) + st[a] * ix[a].first() <= usize::MAX,
{
    let (c, d) = (sh.subrange(0, a + 1), st.subrange(0, a + 1));
    lemma_span_prefix(sh, st, a + 1); lemma_span_prefix(sh, st, a);
    lemma_take_push(sh, a); lemma_take_push(st, a);
    assert(sels_ok(c, ix)) by { assert forall|b: int| 0 <= b < c.len() && b < ix.len() implies #[trigger] sel_ok(ix[b], c[b] as int) by { assert(sel_ok(ix[b], sh[b] as int)); } }
    assert(sels_ok(sh.subrange(0, a), ix)) by { assert forall|b: int| 0 <= b < a && b < ix.len() implies #[trigger] sel_ok(ix[b], sh.subrange(0, a)[b] as int) by { assert(sel_ok(ix[b], sh[b] as int)); } }
    lemma_sl_geom(c, d, ix); lemma_sl_geom(sh.subrange(0, a), st.subrange(0, a), ix);
    assert(sel_ok(ix[a], sh[a] as int));
    let (t, f) = (st[a] as int, ix[a].first());
    assert(0 <= t * f) by (nonlinear_arith) requires t >= 0, f >= 0;
}
/// an empty selection makes the slice empty
pub proof fn lemma_empty_sel<S: Indexer>(sh: Seq<usize>, ix: Seq<S>)
    requires ix.len() <= sh.len(), !slice_ok(sh, ix),
        forall|a: int| 0 <= a < ix.len() ==> 0 <= #[trigger] ix[a].first() <= sh[a] && 0 <= ix[a].ilen(sh[a] as int) <= sh[a] - ix[a].first() && (ix[a].coll() ==> ix[a].ilen(sh[a] as int) == 1),
    ensures prod(sl_sh(sh, ix)) == 0,
{
    let a = choose|a: int| 0 <= a < ix.len() && !#[trigger] sel_ok(ix[a], sh[a] as int);
    assert(0 <= ix[a].first() <= sh[a]);
    lemma_empty_sel_at(sh, ix, a);
}
pub proof fn lemma_empty_sel_at<S: Indexer>(sh: Seq<usize>, ix: Seq<S>, a: int)
    requires 0 <= a < ix.len(), a < sh.len(), ix[a].ilen(sh[a] as int) == 0, !ix[a].coll(),
    ensures prod(sl_sh(sh, ix)) == 0,
    decreases sh.len(),
{
    let p = sl_sh(sh.drop_last(), ix);
    let b = sh.len() - 1;
    lemma_prod_push(p, alen(ix, b, sh[b] as int) as usize);
    if a < b { lemma_empty_sel_at(sh.drop_last(), ix, a); let x = alen(ix, b, sh[b] as int) as usize; assert(0 * x == 0); }
    else { assert(prod(p) * 0 == 0); }
}
/// a window into the memory of a: never owns, shares the permissions
pub open spec fn window(r: NdArray, a: NdArray) -> bool {
    r.wf() && !r.flags.owned && !r.flags.user && r.flags.writeable == a.flags.writeable && r.flags.grad == a.flags.grad && r.len == span(r.sh(), r.st()) + 1
}
impl NdArray {
//@fn src/ndarray/slice.rs :: impl NdArray :: slice_along
//@sig pub fn slice_along<S: Indexer>(&self, axis0: Axis, index: S) -> (r: NdArray)
//@flag arith index
//@call .as_absolute => @axis_as_absolute
//@requires self.wf(), self.sh().len() < isize::MAX
//@panics !axis_ok(axis0.0 as int, self.sh().len() as int) || !sel_ok(index, self.sh()[axis_abs(axis0.0 as int, self.sh().len() as int)] as int)
//@ensures window(r, *self), r.sh() == along_sh(index, axis_abs(axis0.0 as int, self.sh().len() as int), self.sh()), r.st() == (if index.coll() { self.st().remove(axis_abs(axis0.0 as int, self.sh().len() as int)) } else { self.st() }),
    forall|jx: Seq<int>| inb(r.sh(), jx) ==> inb(self.sh(), #[trigger] along_src(index, axis_abs(axis0.0 as int, self.sh().len() as int), jx)) && r.at_ix(jx) == self.at_ix(along_src(index, axis_abs(axis0.0 as int, self.sh().len() as int), jx))
//@start
    let ghost ax = axis_abs(axis0.0 as int, self.sh().len() as int);
    let ghost (sh, st) = (self.sh(), self.st());
    proof {
        lemma_wfl(sh, st);
        if axis_ok(axis0.0 as int, sh.len() as int) {
            assert(sh[ax] * st[ax] <= usize::MAX);
            if sel_ok(index, sh[ax] as int) { lemma_along(sh, st, index, ax); }
            else if 0 <= index.first() && index.ilen(sh[ax] as int) == 0 && index.first() <= sh[ax] && !index.coll() {
                let z = sh.update(ax, 0usize);
                lemma_prod_nonneg(z); assert(z[ax] == 0);
            }
        }
    }
//@end
//@fn src/ndarray/slice.rs :: impl NdArray :: slice
//@sig pub fn slice<S: Indexer>(&self, index: &[S]) -> (r: NdArray)
//@flag arith index into_iter_params
//@requires self.wf(), index@.len() < usize::MAX
//@panics !slice_ok(self.sh(), index@)
//@ensures window(r, *self), r.sh() == sl_sh(self.sh(), index@),
    forall|jx: Seq<int>| inb(r.sh(), jx) ==> inb(self.sh(), #[trigger] sl_src(self.sh().len(), index@, jx)) && r.at_ix(jx) == self.at_ix(sl_src(self.sh().len(), index@, jx))
//@start
    let ghost (sh, st, ix) = (self.sh(), self.st(), index@);
    let ghost ok = slice_ok(sh, ix);
    proof {
        lemma_wfl(sh, st);
        assert(sh.subrange(0, 0) =~= Seq::<usize>::empty());
        if ok { assert(sels_ok(sh, ix)); lemma_sl_geom(sh, st, ix); }
    }
//@loop 0
    invariant vxe0 == ix.len(), axis == vxc0, ndims == sh.len(), vxc0 <= ndims, new_shape@.len() == new_stride@.len(),
        forall|a: int| 0 <= a < vxc0 ==> 0 <= #[trigger] ix[a].first() <= sh[a] && 0 <= ix[a].ilen(sh[a] as int) <= sh[a] - ix[a].first() && (ix[a].coll() ==> ix[a].ilen(sh[a] as int) == 1),
        new_shape@ == sl_sh(sh.subrange(0, vxc0 as int), ix), new_stride@ == sl_st(st.subrange(0, vxc0 as int), ix), offset == sl_off(st.subrange(0, vxc0 as int), ix),
//@loop 0 start
    let ghost a = vxi0 as int;
    proof {
        if a < sh.len() { lemma_take_push(sh, a); lemma_take_push(st, a); }
        if ok { assert(sel_ok(ix[a], sh[a] as int)); lemma_sl_bounds(sh, st, ix, a); }
    }
//@loop 1 before
    proof { if !ok { lemma_empty_sel(sh, ix); } }
//@loop 1
    invariant ndims == sh.len(), vxe1 == ndims, vxc1 <= ndims, ix.len() <= vxc1, new_shape@ == sl_sh(sh.subrange(0, vxc1 as int), ix), new_stride@ == sl_st(st.subrange(0, vxc1 as int), ix), offset == sl_off(st.subrange(0, vxc1 as int), ix),
//@loop 1 start
    proof { lemma_take_push(sh, j as int); lemma_take_push(st, j as int); assert(st[j as int] * 0 == 0); }
//@loop 1 after
    proof {
        assert(sh.subrange(0, ndims as int) =~= sh); assert(st.subrange(0, ndims as int) =~= st);
        lemma_sl_len(sh, st, ix);
        if ok { assert forall|jx: Seq<int>| inb(new_shape@, jx) implies inb(sh, #[trigger] sl_src(sh.len(), ix, jx)) && dotp(st, sl_src(sh.len(), ix, jx)) == offset + dotp(new_stride@, jx) by { lemma_sl_src(sh, st, ix, jx); } }
    }
//@end
}

// ===================================================================== diagonals
/// the axes other than i and j, in order
pub open spec fn rm2(s: Seq<usize>, i: int, j: int) -> Seq<usize>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else {
        let (p, a) = (rm2(s.drop_last(), i, j), s.len() - 1);
        if a == i || a == j { p } else { p.push(s[a]) }
    }
}
/// the index with x on axis i, y on axis j and jx on the other (of n) axes in order
pub open spec fn put2(n: nat, i: int, j: int, x: int, y: int, jx: Seq<int>) -> Seq<int>
    decreases n,
{
    if n == 0 { Seq::empty() } else {
        let a = n - 1;
        if a == i { put2(a as nat, i, j, x, y, jx).push(x) } else if a == j { put2(a as nat, i, j, x, y, jx).push(y) } else { put2(a as nat, i, j, x, y, jx.drop_last()).push(jx.last()) }
    }
}
pub open spec fn part(st: Seq<usize>, i: int, x: int) -> int { if 0 <= i < st.len() { x * st[i] } else { 0 } }
pub proof fn lemma_put2(sh: Seq<usize>, st: Seq<usize>, i: int, j: int, x: int, y: int, jx: Seq<int>)
    requires sh.len() == st.len(), i != j, inb(rm2(sh, i, j), jx), 0 <= i < sh.len() ==> 0 <= x < sh[i], 0 <= j < sh.len() ==> 0 <= y < sh[j],
    ensures inb(sh, put2(sh.len(), i, j, x, y, jx)), dotp(st, put2(sh.len(), i, j, x, y, jx)) == dotp(rm2(st, i, j), jx) + part(st, i, x) + part(st, j, y), rm2(sh, i, j).len() == rm2(st, i, j).len(),
    decreases sh.len(),
{
    if sh.len() > 0 {
        let (d, e, a) = (sh.drop_last(), st.drop_last(), sh.len() - 1);
        let s = put2(sh.len(), i, j, x, y, jx);
        lemma_rm2_len(d, e, i, j); lemma_rm2_len(sh, st, i, j);
        let j0 = if a == i || a == j { jx } else { jx.drop_last() };
        let (p, q) = (rm2(d, i, j), rm2(e, i, j));
        assert(inb(p, j0)) by { assert forall|k: int| 0 <= k < p.len() implies 0 <= #[trigger] j0[k] < p[k] by { assert(jx[k] == j0[k]); assert(rm2(sh, i, j)[k] == p[k]); } }
        if 0 <= i < d.len() { assert(d[i] == sh[i]); assert(e[i] == st[i]); }
        if 0 <= j < d.len() { assert(d[j] == sh[j]); assert(e[j] == st[j]); }
        lemma_put2(d, e, i, j, x, y, j0);
        let s0 = put2(d.len(), i, j, x, y, j0);
        assert(s.drop_last() =~= s0);
        if a != i && a != j { assert(rm2(sh, i, j)[p.len() as int] == sh[a]); assert(0 <= jx[p.len() as int] < sh[a]); assert(rm2(st, i, j).drop_last() =~= q); }
        assert(inb(sh, s)) by { assert forall|k: int| 0 <= k < sh.len() implies 0 <= #[trigger] s[k] < sh[k] by { if k < a { assert(s[k] == s0[k]); assert(d[k] == sh[k]); } } }
    }
}
pub proof fn lemma_rm2_len(sh: Seq<usize>, st: Seq<usize>, i: int, j: int)
    requires sh.len() == st.len(),
    ensures rm2(sh, i, j).len() == rm2(st, i, j).len(), rm2(sh, i, j).len() <= sh.len(),
    decreases sh.len(),
{ if sh.len() > 0 { lemma_rm2_len(sh.drop_last(), st.drop_last(), i, j); } }
pub proof fn lemma_rm2_prod(sh: Seq<usize>, i: int, j: int)
    requires prod(sh) > 0, i != j,
    ensures 0 < prod(rm2(sh, i, j)) && prod(rm2(sh, i, j)) * (if 0 <= i < sh.len() { sh[i] as int } else { 1 }) * (if 0 <= j < sh.len() { sh[j] as int } else { 1 }) == prod(sh),
    decreases sh.len(),
{
    lemma_prod_nonneg(sh);
    if sh.len() > 0 {
        let (d, a) = (sh.drop_last(), sh.len() - 1);
        lemma_prod_nonneg(d);
        assert(prod(d) > 0) by { assert forall|k: int| 0 <= k < d.len() implies d[k] > 0 by { assert(d[k] == sh[k]); } }
        lemma_rm2_prod(d, i, j);
        let p = prod(rm2(d, i, j));
        let (u, v) = (if 0 <= i < d.len() { d[i] as int } else { 1 }, if 0 <= j < d.len() { d[j] as int } else { 1 });
        let n = sh[a] as int;
        lemma_prod_push(rm2(d, i, j), sh[a]);
        assert(n > 0);
        if a == i { assert(u == 1); assert(p * n * v == p * 1 * v * n) by (nonlinear_arith); }
        else if a == j { assert(v == 1); assert(p * u * n == p * u * 1 * n) by (nonlinear_arith); }
        else { assert(p * n > 0) by (nonlinear_arith) requires p > 0, n > 0; assert((p * n) * u * v == (p * u * v) * n) by (nonlinear_arith); }
    }
}
pub open spec fn omax(o: int) -> int { if o < 0 { 0 } else { o } }
/// length of the diagonal with the given offset
pub open spec fn dlen(n1: int, n2: int, o: int) -> int { let (a, b) = (n1 - omax(-o), n2 - omax(o)); if a <= b { a } else { b } }
/// the source index of the element at jx of the diagonal: the last axis runs along the diagonal
pub open spec fn dsrc(n: nat, i: int, j: int, o: int, jx: Seq<int>) -> Seq<int> { put2(n, i, j, jx.last() + omax(-o), jx.last() + omax(o), jx.drop_last()) }
pub open spec fn diag_ok(sh: Seq<usize>, a1: int, a2: int, o: int) -> bool {
    let n = sh.len() as int;
    n >= 2 && axis_ok(a1, n) && axis_ok(a2, n) && axis_abs(a1, n) != axis_abs(a2, n) && omax(-o) < sh[axis_abs(a1, n)] && omax(o) < sh[axis_abs(a2, n)]
}
pub open spec fn is_diag(r: NdArray, a: NdArray, i: int, j: int, o: int) -> bool {
    r.wf() && !r.flags.owned && r.flags.writeable == a.flags.writeable && r.flags.grad == a.flags.grad
    && r.sh() == rm2(a.sh(), i, j).push(dlen(a.sh()[i] as int, a.sh()[j] as int, o) as usize)
    && forall|jx: Seq<int>| inb(r.sh(), jx) ==> inb(a.sh(), #[trigger] dsrc(a.sh().len(), i, j, o, jx)) && r.at_ix(jx) == a.at_ix(dsrc(a.sh().len(), i, j, o, jx))
}
pub proof fn lemma_diag(sh: Seq<usize>, st: Seq<usize>, i: int, j: int, o: int, rs: Seq<usize>, rt: Seq<usize>, l: usize, t: usize, po: int)
    requires wfl(sh, st), 0 <= i < sh.len(), 0 <= j < sh.len(), i != j, omax(-o) < sh[i], omax(o) < sh[j], t == st[i] + st[j], l == dlen(sh[i] as int, sh[j] as int, o),
        rs == rm2(sh, i, j).push(l), rt == rm2(st, i, j).push(t), po == omax(-o) * st[i] + omax(o) * st[j],
    ensures wfl(rs, rt), po + span(rs, rt) <= span(sh, st), po >= 0,
        forall|jx: Seq<int>| inb(rs, jx) ==> inb(sh, #[trigger] dsrc(sh.len(), i, j, o, jx)) && dotp(st, dsrc(sh.len(), i, j, o, jx)) == po + dotp(rt, jx),
{
    let (p, q) = (rm2(sh, i, j), rm2(st, i, j));
    lemma_rm2_len(sh, st, i, j); lemma_rm2_prod(sh, i, j); lemma_prod_push(p, l); lemma_prod_nonneg(p);
    let (n1, n2, pp, L) = (sh[i] as int, sh[j] as int, prod(p), l as int);
    assert(0 < pp * L <= pp * n1 * n2) by (nonlinear_arith) requires 0 < pp, 0 < L <= n1, n2 >= 1;
    assert(po >= 0) by { let (a, b, c, d) = (omax(-o), st[i] as int, omax(o), st[j] as int); assert(a * b >= 0) by (nonlinear_arith) requires a >= 0, b >= 0; assert(c * d >= 0) by (nonlinear_arith) requires c >= 0, d >= 0; }
    assert forall|jx: Seq<int>| inb(rs, jx) implies inb(sh, #[trigger] dsrc(sh.len(), i, j, o, jx)) && dotp(st, dsrc(sh.len(), i, j, o, jx)) == po + dotp(rt, jx) by {
        let j0 = jx.drop_last(); let x = jx.last();
        assert(rs[p.len() as int] == l); assert(0 <= jx[p.len() as int] < l);
        assert forall|k: int| 0 <= k < p.len() implies 0 <= #[trigger] j0[k] < p[k] by { assert(j0[k] == jx[k]); assert(rs[k] == p[k]); }
        lemma_put2(sh, st, i, j, x + omax(-o), x + omax(o), j0);
        assert(rt.drop_last() =~= q);
        let (a, b, c, d) = (omax(-o), st[i] as int, omax(o), st[j] as int);
        assert((x + a) * b + (x + c) * d == a * b + c * d + x * (b + d)) by (nonlinear_arith);
    }
    lemma_prod_nonneg(rs);
    lemma_span_dotp(rs, rt);
    assert(inb(rs, topix(rs)));
    let top = dsrc(sh.len(), i, j, o, topix(rs));
    lemma_dotp_bounds(sh, st, top);
}
//@call min => vx_min
impl NdArray {
//@fn src/ndarray/reshape.rs :: impl NdArray :: reshaped_view_with_offset
//@sig pub fn reshaped_view_with_offset(&self, offset: usize, shape: Vec<usize>, stride: Vec<usize>) -> (r: NdArray)
//@requires wfl(shape@, stride@)
//@ensures r.wf(), r.ptr.a() == self.ptr.a() + offset, r.shape@ == shape@, r.stride@ == stride@, !r.flags.owned, !r.flags.user, r.flags.writeable == self.flags.writeable, r.flags.grad == self.flags.grad
//@start
    proof { lemma_wfl(shape@, stride@); }
//@end
//@fn src/linalg/matrix_ops.rs :: impl NdArray :: offset_diagonal_along
//@sig pub fn offset_diagonal_along(&self, offset: isize, axis10: isize, axis20: isize) -> (r: NdArray)
//@flag arith
//@requires self.wf(), self.sh().len() < isize::MAX, offset > isize::MIN, forall|i: int| 0 <= i < self.st().len() ==> self.st()[i] <= isize::MAX
//@panics !diag_ok(self.sh(), axis10 as int, axis20 as int, offset as int)
//@ensures is_diag(r, *self, axis_abs(axis10 as int, self.sh().len() as int), axis_abs(axis20 as int, self.sh().len() as int), offset as int)
//@start
    let ghost (sh, st) = (self.sh(), self.st());
    let ghost (gi, gj) = (axis_abs(axis10 as int, sh.len() as int), axis_abs(axis20 as int, sh.len() as int));
    let ghost off0 = offset as int;
    proof {
        lemma_wfl(sh, st);
        if diag_ok(sh, axis10 as int, axis20 as int, off0) {
            let (a, b, c, d) = (omax(-off0), st[gi] as int, omax(off0), st[gj] as int);
            assert(sh[gi] * st[gi] <= usize::MAX && sh[gj] * st[gj] <= usize::MAX);
            let (n1, n2) = (sh[gi] as int, sh[gj] as int);
            assert(a * b <= n1 * b) by (nonlinear_arith) requires 0 <= a < n1, b >= 0;
            assert(c * d <= n2 * d) by (nonlinear_arith) requires 0 <= c < n2, d >= 0;
            assert(0 * b == 0 && 0 * d == 0);
        }
        assert(sh.subrange(0, 0) =~= Seq::<usize>::empty());
    }
//@loop 0
    invariant vxe0 == sh.len(), vxc0 <= vxe0, result_shape@ == rm2(sh.subrange(0, vxc0 as int), gi, gj), result_stride@ == rm2(st.subrange(0, vxc0 as int), gi, gj),
//@loop 0 start
    proof { lemma_take_push(sh, axis as int); lemma_take_push(st, axis as int); }
//@loop 0 after
    proof {
        assert(sh.subrange(0, vxe0 as int) =~= sh); assert(st.subrange(0, vxe0 as int) =~= st);
        let (l, t) = (dlen(sh[gi] as int, sh[gj] as int, off0) as usize, (st[gi] + st[gj]) as usize);
        lemma_diag(sh, st, gi, gj, off0, rm2(sh, gi, gj).push(l), rm2(st, gi, gj).push(t), l, t, ptr_offset as int);
    }
//@end
//@fn src/linalg/matrix_ops.rs :: impl NdArray :: diagonal_along
//@sig pub fn diagonal_along(&self, axis10: isize, axis20: isize) -> (r: NdArray)
//@requires self.wf(), self.sh().len() < isize::MAX, forall|i: int| 0 <= i < self.st().len() ==> self.st()[i] <= isize::MAX
//@panics !diag_ok(self.sh(), axis10 as int, axis20 as int, 0)
//@ensures is_diag(r, *self, axis_abs(axis10 as int, self.sh().len() as int), axis_abs(axis20 as int, self.sh().len() as int), 0)
//@end
//@fn src/linalg/matrix_ops.rs :: impl NdArray :: offset_diagonal
//@sig pub fn offset_diagonal(&self, offset: isize) -> (r: NdArray)
//@requires self.wf(), self.sh().len() < isize::MAX, offset > isize::MIN, forall|i: int| 0 <= i < self.st().len() ==> self.st()[i] <= isize::MAX
//@panics !diag_ok(self.sh(), 0, 1, offset as int)
//@ensures is_diag(r, *self, 0, 1, offset as int)
//@end
//@fn src/linalg/matrix_ops.rs :: impl NdArray :: diagonal
//@sig pub fn diagonal(&self) -> (r: NdArray)
//@requires self.wf(), self.sh().len() < isize::MAX, forall|i: int| 0 <= i < self.st().len() ==> self.st()[i] <= isize::MAX
//@panics !diag_ok(self.sh(), 0, 1, 0)
//@ensures is_diag(r, *self, 0, 1, 0)
//@end
}

// ===================================================================== element access
pub open spec fn ints(s: Seq<usize>) -> Seq<int> { Seq::new(s.len(), |i: int| s[i] as int) }
impl NdArray {
//@fn src/ndarray/index_impl.rs :: impl NdArray :: offset_of_index
//@sig pub fn offset_of_index(&self, index: &[usize]) -> (r: usize)
//@flag arith index
//@requires self.wf(), index@.len() == self.sh().len()
//@panics !inb(self.sh(), ints(index@))
//@ensures r == dotp(self.st(), ints(index@)), r <= span(self.sh(), self.st())
//@start
    let ghost (sh, st, ix) = (self.sh(), self.st(), ints(index@));
    proof { lemma_wfl(sh, st); if inb(sh, ix) { lemma_dotp_bounds(sh, st, ix); } }
//@loop 0
    invariant vxe0 == index@.len(), vxc0 <= vxe0, forall|i: int| 0 <= i < vxc0 ==> 0 <= #[trigger] ix[i] < sh[i], offset == dotp(st.subrange(0, vxc0 as int), ix.subrange(0, vxc0 as int)),
        offset <= span(sh.subrange(0, vxc0 as int), st.subrange(0, vxc0 as int)),
//@loop 0 start
    proof {
        let a = axis as int;
        lemma_take_push(sh, a); lemma_take_push(st, a);
        assert(ix.subrange(0, a + 1).drop_last() =~= ix.subrange(0, a)); assert(ix.subrange(0, a + 1).last() == ix[a]);
        assert(ix[a] == index@[a]);
        lemma_span_prefix(sh, st, a + 1);
        if ix[a] < sh[a] {
            let (x, n, t) = (ix[a], sh[a] as int, st[a] as int);
            assert(0 <= x * t <= (n - 1) * t) by (nonlinear_arith) requires 0 <= x <= n - 1, t >= 0;
        } else { assert(!inb(sh, ix)); }
    }
//@loop 0 after
    proof { assert(sh.subrange(0, vxe0 as int) =~= sh); assert(st.subrange(0, vxe0 as int) =~= st); assert(ix.subrange(0, vxe0 as int) =~= ix); }
//@end
//@fn src/ndarray/index_impl.rs :: impl Index<[usize;D]> for NdArray :: index
//@sig pub fn index_d<const D: usize>(&self, index: [usize; D]) -> (r: Ptr)
//@requires self.wf()
//@panics !inb(self.sh(), ints(index@))
//@ensures r.a() == self.at_ix(ints(index@))
//@end
//@fn src/ndarray/index_impl.rs :: impl IndexMut<[usize;D]> for NdArray :: index_mut
//@sig pub fn index_mut_d<const D: usize>(&self, index: [usize; D]) -> (r: Ptr)
//@requires self.wf()
//@panics !self.flags.writeable || !inb(self.sh(), ints(index@))
//@ensures r.a() == self.at_ix(ints(index@))
//@end
//@fn src/ndarray/index_impl.rs :: impl Index<usize> for NdArray :: index
//@sig pub fn index_1(&self, index: usize) -> (r: Ptr)
//@requires self.wf()
//@panics !inb(self.sh(), seq![index as int])
//@ensures r.a() == self.at_ix(seq![index as int])
//@start
    proof { assert(ints(seq![index]) =~= seq![index as int]); assert([index]@ =~= seq![index]); }
//@end
//@fn src/ndarray/index_impl.rs :: impl IndexMut<usize> for NdArray :: index_mut
//@sig pub fn index_mut_1(&self, index: usize) -> (r: Ptr)
//@requires self.wf()
//@panics !self.flags.writeable || !inb(self.sh(), seq![index as int])
//@ensures r.a() == self.at_ix(seq![index as int])
//@start
    proof { assert(ints(seq![index]) =~= seq![index as int]); assert([index]@ =~= seq![index]); }
//@end
}
