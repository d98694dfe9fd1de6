//@use core geom mem
use vstd::arithmetic::mul::*;
use vstd::arithmetic::div_mod::*;

// ===================================================================== sums of index * stride
pub proof fn lemma_dotp_update(st: Seq<usize>, ix: Seq<int>, i: int, s: usize, x: int)
    requires 0 <= i < st.len(), ix.len() == st.len(),
    ensures dotp(st.update(i, s), ix.update(i, x)) == dotp(st, ix) - ix[i] * st[i] + x * s,
    decreases st.len(),
{
    let n = st.len() - 1;
    let (a, b) = (st.update(i, s), ix.update(i, x));
    if i == n {
        assert(a.drop_last() =~= st.drop_last()); assert(b.drop_last() =~= ix.drop_last());
    } else {
        assert(a.drop_last() =~= st.drop_last().update(i, s)); assert(b.drop_last() =~= ix.drop_last().update(i, x));
        lemma_dotp_update(st.drop_last(), ix.drop_last(), i, s, x);
    }
}
pub proof fn lemma_dotp_push(st: Seq<usize>, ix: Seq<int>, s: usize, x: int)
    ensures dotp(st.push(s), ix.push(x)) == dotp(st, ix) + x * s,
{ assert(st.push(s).drop_last() =~= st); assert(ix.push(x).drop_last() =~= ix); }
pub proof fn lemma_prod_update(s: Seq<usize>, i: int, x: usize)
    requires 0 <= i < s.len(),
    ensures prod(s.update(i, x)) * s[i] == prod(s) * x,
    decreases s.len(),
{
    let d = s.drop_last(); let u = s.update(i, x);
    if i == s.len() - 1 {
        assert(u.drop_last() =~= d);
        assert(prod(d) * x * s.last() == prod(d) * s.last() * x) by (nonlinear_arith);
    } else {
        assert(u.drop_last() =~= d.update(i, x));
        lemma_prod_update(d, i, x);
        let (p, q, l, si) = (prod(d.update(i, x)), prod(d), s.last() as int, s[i] as int);
        assert(p * l * si == q * l * x) by (nonlinear_arith) requires p * si == q * x;
    }
}
/// index of the last element
pub open spec fn topix(sh: Seq<usize>) -> Seq<int> { Seq::new(sh.len(), |i: int| sh[i] - 1) }
pub proof fn lemma_span_dotp(sh: Seq<usize>, st: Seq<usize>)
    requires sh.len() == st.len(),
    ensures span(sh, st) == dotp(st, topix(sh)),
    decreases sh.len(),
{
    if sh.len() > 0 { assert(topix(sh).drop_last() =~= topix(sh.drop_last())); lemma_span_dotp(sh.drop_last(), st.drop_last()); }
}
/// lemma_off_lin plus bounds: the offset of every in-range index
pub proof fn lemma_dotp_bounds(sh: Seq<usize>, st: Seq<usize>, ix: Seq<int>)
    requires sh.len() == st.len(), inb(sh, ix),
    ensures 0 <= dotp(st, ix) <= span(sh, st),
{ lemma_off_lin(sh, st, ix); lemma_off_bounds(sh, st, lin(sh, ix)); }

// ===================================================================== layouts of non-empty arrays that fit in memory
pub open spec fn wfl(sh: Seq<usize>, st: Seq<usize>) -> bool {
    sh.len() == st.len() && prod(sh) > 0 && prod(sh) <= isize::MAX && span(sh, st) < isize::MAX
}
pub proof fn lemma_span_ge(sh: Seq<usize>, st: Seq<usize>, i: int)
    requires sh.len() == st.len(), prod(sh) > 0, 0 <= i < sh.len(),
    ensures sh[i] > 0, 0 <= (sh[i] - 1) * st[i] <= span(sh, st), 0 <= span(sh, st),
    decreases sh.len(),
{
    lemma_prod_nonneg(sh); lemma_prod_nonneg(sh.drop_last());
    assert(sh[i] > 0 && sh.last() > 0);
    lemma_span_nonneg(sh.drop_last(), st.drop_last());
    assert((sh.last() - 1) * st.last() >= 0) by (nonlinear_arith) requires sh.last() >= 1, st.last() >= 0;
    if i < sh.len() - 1 { lemma_span_ge(sh.drop_last(), st.drop_last(), i); }
}
pub proof fn lemma_span_nonneg(sh: Seq<usize>, st: Seq<usize>)
    requires sh.len() == st.len(),
    ensures (forall|i: int| 0 <= i < sh.len() ==> sh[i] > 0) ==> span(sh, st) >= 0 && prod(sh) > 0, prod(sh) > 0 ==> span(sh, st) >= 0,
    decreases sh.len(),
{
    lemma_prod_nonneg(sh);
    if prod(sh) > 0 && sh.len() > 0 {
        lemma_prod_nonneg(sh.drop_last());
        assert forall|i: int| 0 <= i < sh.drop_last().len() implies sh.drop_last()[i] > 0 by { assert(sh.drop_last()[i] == sh[i]); }
        lemma_span_nonneg(sh.drop_last(), st.drop_last());
        assert((sh.last() - 1) * st.last() >= 0) by (nonlinear_arith) requires sh.last() >= 1, st.last() >= 0;
    }
}
pub proof fn lemma_pz_prod(sh: Seq<usize>)
    requires prod(sh) > 0,
    ensures pz(sh) == prod(sh),
    decreases sh.len(),
{
    lemma_prod_nonneg(sh);
    if sh.len() > 0 {
        lemma_prod_nonneg(sh.drop_last());
        assert(prod(sh.drop_last()) > 0) by (nonlinear_arith) requires prod(sh.drop_last()) * sh.last() > 0, sh.last() >= 0;
        lemma_pz_prod(sh.drop_last());
    }
}
pub proof fn lemma_wfl(sh: Seq<usize>, st: Seq<usize>)
    requires wfl(sh, st),
    ensures pz(sh) <= isize::MAX, pz(sh) == prod(sh), fits1(sh, st), forall|i: int| 0 <= i < sh.len() ==> sh[i] > 0,
        forall|k: int| 0 <= k < prod(sh) ==> 0 <= #[trigger] off(sh, st, k) <= span(sh, st), span(sh, st) >= 0,
{
    lemma_pz_prod(sh); lemma_prod_nonneg(sh); lemma_span_nonneg(sh, st);
    assert forall|i: int| 0 <= i < sh.len() implies #[trigger] sh[i] * st[i] <= usize::MAX by {
        lemma_span_ge(sh, st, i);
        let (n, t) = (sh[i] as int, st[i] as int);
        assert(n * t == (n - 1) * t + t) by (nonlinear_arith);
        if n >= 2 { assert(t <= (n - 1) * t) by (nonlinear_arith) requires n >= 2, t >= 0; }
        else { assert((n - 1) * t == 0) by (nonlinear_arith) requires n == 1; }
        assert(2 * isize::MAX < usize::MAX);
    }
    assert forall|k: int| 0 <= k < prod(sh) implies 0 <= #[trigger] off(sh, st, k) <= span(sh, st) by { lemma_off_bounds(sh, st, k); }
}

// ===================================================================== the array
pub struct NdArray { pub ptr: Ptr, pub len: usize, pub capacity: usize, pub shape: Vec<usize>, pub stride: Vec<usize>, pub flags: NdArrayFlags }
/// stride between consecutive elements of a uniform layout
pub open spec fn lasts(st: Seq<usize>) -> int { if st.len() == 0 { 0 } else { st.last() as int } }
/// the layout flags tell the truth
pub open spec fn flags_ok(fl: NdArrayFlags, sh: Seq<usize>, st: Seq<usize>) -> bool {
    (fl.uniform ==> uniform(sh, st, lasts(st)) && ustruct(sh, st)) && (fl.contiguous ==> fl.uniform && uniform(sh, st, 1))
    && (chained(sh, st) ==> fl.uniform) && (rowmajor(sh, st) ==> fl.contiguous)
}
impl NdArray {
    pub open spec fn sh(&self) -> Seq<usize> { self.shape@ }
    pub open spec fn st(&self) -> Seq<usize> { self.stride@ }
    pub open spec fn wf(&self) -> bool {
        wfl(self.sh(), self.st()) && flags_ok(self.flags, self.sh(), self.st()) && (self.len == prod(self.sh()) || self.len == span(self.sh(), self.st()) + 1) && (self.flags.owned ==> self.len == prod(self.sh()))
    }
    /// address of the k-th element in row-major order
    pub open spec fn ad(&self, k: int) -> int { self.ptr.a() + off(self.sh(), self.st(), k) }
    /// address of the element at a multi-index
    pub open spec fn at_ix(&self, ix: Seq<int>) -> int { self.ptr.a() + dotp(self.st(), ix) }
}
pub proof fn lemma_uniform1(sh: Seq<usize>, st: Seq<usize>, s: int)
    requires uniform(sh, st, s), prod(sh) == 1 || s == 1,
    ensures uniform(sh, st, 1),
{
    assert forall|k: int| 0 <= k < prod(sh) implies #[trigger] off(sh, st, k) == k * 1 by {
        assert(off(sh, st, k) == k * s);
        if prod(sh) == 1 { assert(k == 0); assert(0 * s == 0); }
    }
}
//@fn src/ndarray/slice.rs :: - :: update_flags_with_contiguity
//@sig pub fn update_flags_with_contiguity(flags0: NdArrayFlags, shape: &[usize], stride: &[usize]) -> (r: NdArrayFlags)
//@requires wfl(shape@, stride@)
//@ensures flags_ok(r, shape@, stride@), r.owned == flags0.owned, r.writeable == flags0.writeable, r.user == flags0.user, r.grad == flags0.grad
//@start
    proof { lemma_wfl(shape@, stride@); }
//@ret
    proof {
        if prod(shape@) == 1 || lasts(stride@) == 1 { if uniform(shape@, stride@, lasts(stride@)) { lemma_uniform1(shape@, stride@, lasts(stride@)); } }
        if shape@.len() == 0 { assert(uniform(shape@, stride@, 0)); }
    }
//@end

pub trait StridedMemory: Sized {
    spec fn nd(&self) -> NdArray;
    fn shape(&self) -> (r: &[usize])
        ensures r@ == self.nd().shape@;
    fn stride(&self) -> (r: &[usize])
        ensures r@ == self.nd().stride@;
    fn flags(&self) -> (r: NdArrayFlags)
        ensures r == self.nd().flags;
//@sigof shape stride flags
//@fn src/common/methods.rs :: trait StridedMemory :: ndims
//@sig fn ndims(&self) -> (r: usize)
//@flag no_vacuity
//@ensures r == self.nd().sh().len()
//@end
//@fn src/common/methods.rs :: trait StridedMemory :: len
//@sig fn len(&self) -> (r: usize)
//@flag no_vacuity
//@ensures r == (if self.nd().sh().len() == 0 { 0 } else { self.nd().sh()[0] })
//@end
//@fn src/common/methods.rs :: trait StridedMemory :: size
//@sig fn size(&self) -> (r: usize)
//@flag no_vacuity
//@requires pz(self.nd().sh()) <= usize::MAX
//@ensures r == prod(self.nd().sh())
//@end
//@fn src/common/methods.rs :: trait StridedMemory :: is_contiguous
//@sig fn is_contiguous(&self) -> (r: bool)
//@flag no_vacuity
//@ensures r == self.nd().flags.contiguous
//@end
//@fn src/common/methods.rs :: trait StridedMemory :: is_view
//@sig fn is_view(&self) -> (r: bool)
//@flag no_vacuity
//@ensures r == !self.nd().flags.owned
//@end
//@fn src/common/methods.rs :: trait StridedMemory :: is_uniformly_strided
//@sig fn is_uniformly_strided(&self) -> (r: bool)
//@flag no_vacuity
//@ensures r == self.nd().flags.uniform
//@end
//@fn src/common/methods.rs :: trait StridedMemory :: has_uniform_stride
//@sig fn has_uniform_stride(&self) -> (r: Option<usize>)
//@flag no_vacuity
//@requires self.nd().wf()
//@ensures r.is_some() == self.nd().flags.uniform, r.is_some() ==> uniform(self.nd().sh(), self.nd().st(), r.unwrap() as int)
//@start
    proof { lemma_wfl(self.nd().sh(), self.nd().st()); lemma_flags_scalar(self.nd().sh(), self.nd().st(), self.nd().flags); }
//@end
}
pub proof fn lemma_flags_scalar(sh: Seq<usize>, st: Seq<usize>, fl: NdArrayFlags)
    requires sh.len() == st.len(), flags_ok(fl, sh, st),
    ensures sh.len() == 0 ==> fl.uniform && fl.contiguous,
{}

// ===================================================================== axes
#[derive(Clone, Copy)]
pub struct Axis(pub isize);
pub open spec fn axis_ok(axis: int, n: int) -> bool { -n <= axis < n }
pub open spec fn axis_abs(axis: int, n: int) -> int { if axis < 0 { axis + n } else { axis } }
//@fn src/util/axis.rs :: trait AxisType :: as_absolute
//@sig pub fn as_absolute(axis0: isize, ndims0: usize) -> (r: usize)
//@call .isize => !id
//@requires ndims0 <= isize::MAX
//@panics !axis_ok(axis0 as int, ndims0 as int)
//@ensures r == axis_abs(axis0 as int, ndims0 as int), r < ndims0
//@end
//@call .as_absolute => @as_absolute
//@fn src/util/axis.rs :: impl AxisType for Axis :: isize
//@sig pub fn axis_isize(x: Axis) -> (r: isize)
//@ensures r == x.0
//@end
//@fn src/util/axis.rs :: trait AxisType :: as_absolute
//@sig pub fn axis_as_absolute(axis0: Axis, ndims0: usize) -> (r: usize)
//@call .isize => @axis_isize
//@requires ndims0 <= isize::MAX
//@panics !axis_ok(axis0.0 as int, ndims0 as int)
//@ensures r == axis_abs(axis0.0 as int, ndims0 as int), r < ndims0
//@end
//@fn src/util/axis.rs :: impl AxisType for isize :: isize
//@sig pub fn isize_isize(x: &isize) -> (r: isize)
//@ensures r == *x
//@end

// ===================================================================== re-indexing
impl StridedMemory for NdArray {
    open spec fn nd(&self) -> NdArray { *self }
//@fn src/ndarray/methods.rs :: impl StridedMemory for NdArray :: shape
//@sig fn shape(&self) -> (r: &[usize])
//@flag no_vacuity
//@end
//@fn src/ndarray/methods.rs :: impl StridedMemory for NdArray :: stride
//@sig fn stride(&self) -> (r: &[usize])
//@flag no_vacuity
//@end
//@fn src/ndarray/methods.rs :: impl StridedMemory for NdArray :: flags
//@sig fn flags(&self) -> (r: NdArrayFlags)
//@flag no_vacuity
//@end
}
impl<'a> StridedMemory for &'a NdArray {
    open spec fn nd(&self) -> NdArray { **self }
//@fn src/ndarray/methods.rs :: impl StridedMemory for &NdArray :: shape
//@sig fn shape(&self) -> (r: &[usize])
//@flag no_vacuity
//@end
//@fn src/ndarray/methods.rs :: impl StridedMemory for &NdArray :: stride
//@sig fn stride(&self) -> (r: &[usize])
//@flag no_vacuity
//@end
//@fn src/ndarray/methods.rs :: impl StridedMemory for &NdArray :: flags
//@sig fn flags(&self) -> (r: NdArrayFlags)
//@flag no_vacuity
//@end
}
pub open spec fn view_of(r: NdArray, a: NdArray, owns: bool) -> bool {
    r.ptr.a() == a.ptr.a() && r.wf() && r.flags.writeable == a.flags.writeable && r.flags.grad == a.flags.grad
    && r.flags.owned == (owns && a.flags.owned) && (r.flags.owned ==> r.capacity == a.capacity && r.len == a.len)
}
/// the elements of r, in row-major order, are those of a
pub open spec fn same_elems(r: NdArray, a: NdArray) -> bool {
    prod(r.sh()) == prod(a.sh()) && forall|k: int| 0 <= k < prod(a.sh()) ==> #[trigger] r.ad(k) == a.ad(k)
}
/// a chained layout with last stride s has its elements s apart
pub proof fn lemma_chained_uniform(sh: Seq<usize>, st: Seq<usize>, s: int)
    requires sh.len() == st.len(), chained(sh, st), sh.len() > 0 ==> s == st.last(),
    ensures uniform(sh, st, s), sh.len() > 0 ==> sh[0] * st[0] == prod(sh) * s,
    decreases sh.len(),
{
    if sh.len() == 0 {
        assert forall|k: int| 0 <= k < prod(sh) implies #[trigger] off(sh, st, k) == k * s by { assert(k == 0); assert(0 * s == 0); }
    } else {
        let n = sh.len() as int;
        let (d, e) = (sh.drop_last(), st.drop_last());
        assert(chained(d, e)) by { assert forall|i: int| 1 <= i < d.len() implies #[trigger] e[i - 1] == d[i] * e[i] by { assert(st[i - 1] == sh[i] * st[i]); } }
        if d.len() > 0 {
            let t = e.last() as int;
            assert(st[n - 2] == sh[n - 1] * st[n - 1]);
            lemma_chained_uniform(d, e, t);
            let (p, m) = (prod(d), sh.last() as int);
            assert(p * (m * s) == (p * m) * s) by (nonlinear_arith);
            assert forall|k: int| 0 <= k < prod(sh) implies #[trigger] off(sh, st, k) == k * s by {
                lemma_prod_nonneg(d);
                lemma_div_range(p, m, k);
                assert(off(d, e, k / m) == (k / m) * t);
                let q = k / m;
                assert((q * m + k % m) * s == q * (m * s) + (k % m) * s) by (nonlinear_arith);
            }
        } else {
            assert(prod(sh) == sh[0]) by { assert(prod(d) == 1); assert(1 * sh.last() == sh.last()); }
            assert forall|k: int| 0 <= k < prod(sh) implies #[trigger] off(sh, st, k) == k * s by { lemma_small_mod(k as nat, sh[0] as nat); assert(off(d, e, k / (sh.last() as int)) == 0); }
        }
    }
}
/// the span of a uniform layout
pub proof fn lemma_uniform_span(sh: Seq<usize>, st: Seq<usize>, s: int)
    requires sh.len() == st.len(), prod(sh) > 0, uniform(sh, st, s),
    ensures span(sh, st) == (prod(sh) - 1) * s,
{
    lemma_span_dotp(sh, st); lemma_prod_nonneg(sh);
    assert(inb(sh, topix(sh)));
    lemma_off_lin(sh, st, topix(sh));
    lemma_top_lin(sh);
    assert(off(sh, st, prod(sh) - 1) == (prod(sh) - 1) * s);
}
pub proof fn lemma_top_lin(sh: Seq<usize>)
    requires prod(sh) > 0,
    ensures lin(sh, topix(sh)) == prod(sh) - 1,
    decreases sh.len(),
{
    if sh.len() > 0 {
        let d = sh.drop_last();
        lemma_prod_nonneg(sh); lemma_prod_nonneg(d);
        assert(prod(d) > 0) by { assert forall|i: int| 0 <= i < d.len() implies d[i] > 0 by { assert(d[i] == sh[i]); } }
        lemma_top_lin(d);
        assert(topix(sh).drop_last() =~= topix(d));
        let (p, n) = (prod(d), sh.last() as int);
        assert((p - 1) * n + (n - 1) == p * n - 1) by (nonlinear_arith);
    }
}
/// axes of length one do not move elements
pub proof fn lemma_off_one(sh: Seq<usize>, st: Seq<usize>, i: int, t: usize, k: int)
    requires sh.len() == st.len(), 0 <= i <= sh.len(),
    ensures off(sh.insert(i, 1), st.insert(i, t), k) == off(sh, st, k), prod(sh.insert(i, 1)) == prod(sh), span(sh.insert(i, 1), st.insert(i, t)) == span(sh, st),
    decreases sh.len(),
{
    let (a, b) = (sh.insert(i, 1), st.insert(i, t));
    if i == sh.len() {
        assert(a.drop_last() =~= sh); assert(b.drop_last() =~= st);
        assert(k / 1 == k && k % 1 == 0); assert(0 * t == 0); assert((1 - 1) * t == 0);
    } else {
        let (d, e) = (sh.drop_last(), st.drop_last());
        assert(a.drop_last() =~= d.insert(i, 1)); assert(b.drop_last() =~= e.insert(i, t));
        lemma_off_one(d, e, i, t, k / (sh.last() as int));
    }
}
pub open spec fn swapped<A>(s: Seq<A>, i: int, j: int) -> Seq<A> { s.update(i, s[j]).update(j, s[i]) }
pub proof fn lemma_swap(sh: Seq<usize>, st: Seq<usize>, i: int, j: int)
    requires sh.len() == st.len(), prod(sh) > 0, 0 <= i < sh.len(), 0 <= j < sh.len(),
    ensures prod(swapped(sh, i, j)) == prod(sh), span(swapped(sh, i, j), swapped(st, i, j)) == span(sh, st),
        forall|ix: Seq<int>| inb(sh, ix) ==> inb(swapped(sh, i, j), #[trigger] swapped(ix, i, j)) && dotp(swapped(st, i, j), swapped(ix, i, j)) == dotp(st, ix),
{
    lemma_prod_nonneg(sh);
    assert forall|ix: Seq<int>| ix.len() == sh.len() implies dotp(swapped(st, i, j), #[trigger] swapped(ix, i, j)) == dotp(st, ix) by { lemma_swap_dotp(st, ix, i, j); }
    let a = sh.update(i, sh[j]);
    lemma_prod_update(sh, i, sh[j]); lemma_prod_update(a, j, sh[i]);
    if i != j {
        let (p, q, r, x, y) = (prod(sh), prod(a), prod(swapped(sh, i, j)), sh[i] as int, sh[j] as int);
        assert(r == p) by (nonlinear_arith) requires q * x == p * y, r * y == q * x, y > 0;
    } else {
        assert(swapped(sh, i, j) =~= sh);
    }
    lemma_span_dotp(sh, st); lemma_span_dotp(swapped(sh, i, j), swapped(st, i, j));
    assert(topix(swapped(sh, i, j)) =~= swapped(topix(sh), i, j));
}
pub proof fn lemma_swap_dotp(st: Seq<usize>, ix: Seq<int>, i: int, j: int)
    requires st.len() == ix.len(), 0 <= i < st.len(), 0 <= j < st.len(),
    ensures dotp(swapped(st, i, j), swapped(ix, i, j)) == dotp(st, ix),
{
    if i == j { assert(swapped(st, i, j) =~= st); assert(swapped(ix, i, j) =~= ix); }
    else {
        lemma_dotp_update(st, ix, i, st[j], ix[j]);
        lemma_dotp_update(st.update(i, st[j]), ix.update(i, ix[j]), j, st[i], ix[i]);
    }
}

/// one more axis in front of a row-major tail with innermost stride s
pub proof fn lemma_tail_step(n0: Seq<usize>, j: int, s: int)
    requires 0 <= j < n0.len(), s >= 0, prod(n0) > 0, s * prod(n0) <= usize::MAX,
    ensures (s * prod(n0.subrange(j + 1, n0.len() as int))) * n0[j] == s * prod(n0.subrange(j, n0.len() as int)), s * prod(n0.subrange(j, n0.len() as int)) <= usize::MAX,
        n0[j] * (s * prod(n0.subrange(j + 1, n0.len() as int))) == s * prod(n0.subrange(j, n0.len() as int)),
{
    let nn = n0.len() as int;
    let (a, b) = (n0.subrange(j, j + 1), n0.subrange(j + 1, nn));
    assert(n0.subrange(j, nn) =~= a + b); assert(n0 =~= n0.subrange(0, j) + n0.subrange(j, nn));
    lemma_pz_concat(a, b); lemma_pz_concat(n0.subrange(0, j), n0.subrange(j, nn));
    assert(a =~= Seq::<usize>::empty().push(n0[j])); lemma_prod_push(Seq::empty(), n0[j]);
    lemma_prod_nonneg(n0.subrange(0, j)); lemma_prod_nonneg(n0.subrange(j, nn));
    let (p, q, d, x) = (prod(n0.subrange(0, j)), prod(n0.subrange(j, nn)), n0[j] as int, prod(b));
    assert(p >= 1) by (nonlinear_arith) requires p * q > 0, p >= 0;
    assert(q <= p * q) by (nonlinear_arith) requires p >= 1, q >= 0;
    assert(s * q <= s * (p * q)) by (nonlinear_arith) requires s >= 0, q <= p * q;
    assert((s * x) * d == s * (d * x)) by (nonlinear_arith);
    assert(d * (s * x) == s * (d * x)) by (nonlinear_arith);
}
pub proof fn lemma_reshape_stride(nd: NdArray, n0: Seq<usize>, s0: int)
    requires nd.wf(), nd.flags.uniform, prod(n0) == prod(nd.sh()), s0 >= 0, nd.sh().len() > 0 ==> s0 == lasts(nd.st()), nd.sh().len() == 0 ==> s0 <= 1,
    ensures s0 * prod(n0) <= usize::MAX, prod(n0) > 0,
{
    if nd.sh().len() > 0 { lemma_stride_bound(nd.sh(), nd.st(), s0); } else { assert(prod(nd.sh()) == 1); assert(s0 * 1 == s0); }
}
pub proof fn lemma_reshaped(nd: NdArray, n0: Seq<usize>, st: Seq<usize>, s0: int)
    requires nd.wf(), nd.flags.uniform, prod(n0) == prod(nd.sh()), s0 >= 0, nd.sh().len() > 0 ==> s0 == lasts(nd.st()), n0.len() == st.len(),
        forall|j: int| 0 < j < n0.len() ==> #[trigger] st[j - 1] == n0[j] * st[j], n0.len() > 0 ==> st.last() == s0,
    ensures wfl(n0, st), span(n0, st) == span(nd.sh(), nd.st()), forall|k: int| 0 <= k < prod(n0) ==> #[trigger] off(n0, st, k) == off(nd.sh(), nd.st(), k),
{
    assert(chained(n0, st)) by { assert forall|l: int| 1 <= l < n0.len() implies #[trigger] st[l - 1] == n0[l] * st[l] by { } }
    let s = if n0.len() > 0 { s0 } else { 0 };
    lemma_chained_uniform(n0, st, s);
    lemma_uniform_span(n0, st, s);
    lemma_uniform_eq(nd, n0, st, s, s0);
}

pub trait Reshape: StridedMemory {
    spec fn consumes(&self) -> bool;
    fn reshaped_view(self, shape: Vec<usize>, stride: Vec<usize>) -> (r: NdArray)
        requires self.nd().wf(), wfl(shape@, stride@), self.consumes() ==> prod(shape@) == prod(self.nd().sh()) && span(shape@, stride@) == span(self.nd().sh(), self.nd().st()),
        ensures view_of(r, self.nd(), self.consumes()), r.shape@ == shape@, r.stride@ == stride@;
//@sigof reshaped_view
//@fn src/common/reshape.rs :: trait Reshape :: view
//@flag overridden
//@sig fn view(self) -> (r: NdArray)
//@flag no_vacuity
//@requires self.nd().wf()
//@ensures view_of(r, self.nd(), self.consumes()), r.sh() == self.nd().sh(), r.st() == self.nd().st(), same_elems(r, self.nd())
//@end
//@fn src/common/reshape.rs :: trait Reshape :: reshape
//@sig fn reshape(self, new_shape0: Vec<usize>) -> (r: NdArray)
//@flag no_vacuity arith
//@requires self.nd().wf(), pz(new_shape0@) <= usize::MAX
//@panics new_shape0@ != self.nd().sh() && (!self.nd().flags.uniform || prod(new_shape0@) != prod(self.nd().sh()))
//@ensures view_of(r, self.nd(), self.consumes()), r.sh() == new_shape0@, same_elems(r, self.nd())
//@start
    let ghost nd = self.nd(); let ghost n0 = new_shape0@;
    proof { lemma_wfl(nd.sh(), nd.st()); }
//@loop 0 before
    let ghost nn = new_shape@.len() as int;
    let ghost s0 = acc as int;
    proof { lemma_reshape_stride(nd, n0, s0); assert(n0.subrange(nn, nn) =~= Seq::<usize>::empty()); }
//@loop 0
    invariant new_stride@.len() == new_shape@.len(), new_shape@ == n0, nn == n0.len(), acc == s0 * prod(n0.subrange(nn - vxc0, nn)),
        s0 * prod(n0) <= usize::MAX, s0 >= 0, prod(n0) > 0,
        forall|j: int| nn - vxc0 < j < nn ==> #[trigger] new_stride@[j - 1] == n0[j] * new_stride@[j],
        vxc0 > 0 ==> acc == n0[nn - vxc0] * new_stride@[nn - vxc0] && new_stride@[nn - 1] == s0,
//@loop 0 start
    let ghost st0 = new_stride@;
    proof {
        let j = nn - 1 - i;
        lemma_tail_step(n0, j, s0);
        assert(acc == s0 * prod(n0.subrange(j + 1, nn))); assert(dim == n0[j]);
        assert(acc * dim == s0 * prod(n0.subrange(j, nn)) && acc * dim <= usize::MAX); assert(dim * acc == acc * dim) by (nonlinear_arith); assert(acc * dim >= 0) by (nonlinear_arith) requires acc >= 0, dim >= 0;
    }
//@loop 0 end
    proof {
        let j = nn - 1 - i;
        assert forall|l: int| j < l < nn implies #[trigger] new_stride@[l - 1] == n0[l] * new_stride@[l] by { if l - 1 == j { } else { assert(st0[l - 1] == n0[l] * st0[l]); } }
    }
//@loop 0 after
    proof { lemma_reshaped(nd, n0, new_stride@, s0); }
//@end
//@fn src/common/reshape.rs :: trait Reshape :: squeeze
//@sig fn squeeze(self) -> (r: NdArray)
//@flag no_vacuity
//@requires self.nd().wf()
//@ensures view_of(r, self.nd(), self.consumes()), r.sh() == self.nd().sh().filter(|x: usize| x != 1), same_elems(r, self.nd())
//@start
    let ghost nd = self.nd();
    proof { lemma_wfl(nd.sh(), nd.st()); }
//@loop 0 before
    proof { reveal(Seq::filter); assert(nd.sh().subrange(0, 0) =~= Seq::<usize>::empty()); assert(nd.st().subrange(0, 0) =~= Seq::<usize>::empty()); assert(Seq::<usize>::empty().filter(|x: usize| x != 1) =~= Seq::<usize>::empty()); }
//@loop 0
    invariant shape@ == nd.sh(), stride@ == nd.st(), vxa0@.len() == vxb0@.len(), vxe0 == nd.sh().len(), nd.sh().len() == nd.st().len(),
        vxa0@ == nd.sh().subrange(0, vxc0 as int).filter(|x: usize| x != 1),
        prod(vxa0@) == prod(nd.sh().subrange(0, vxc0 as int)), span(vxa0@, vxb0@) == span(nd.sh().subrange(0, vxc0 as int), nd.st().subrange(0, vxc0 as int)),
        forall|k: int| #[trigger] off(vxa0@, vxb0@, k) == off(nd.sh().subrange(0, vxc0 as int), nd.st().subrange(0, vxc0 as int), k),
//@loop 0 start
    let ghost a0 = vxa0@; let ghost b0 = vxb0@; let ghost c0 = nd.sh().subrange(0, vxi0 as int); let ghost d0 = nd.st().subrange(0, vxi0 as int);
    proof {
        lemma_take_push(nd.sh(), vxi0 as int); lemma_take_push(nd.st(), vxi0 as int);
        reveal(Seq::filter);
        let f = |x: usize| x != 1;
        assert(c0.push(nd.sh()[vxi0 as int]).drop_last() =~= c0);
        lemma_prod_push(c0, nd.sh()[vxi0 as int]); lemma_prod_push(a0, nd.sh()[vxi0 as int]);
    }
//@loop 0 end
    proof {
        let n = nd.sh()[vxi0 as int]; let t = nd.st()[vxi0 as int];
        lemma_off_push(c0, d0, n, t, 0); lemma_off_push(a0, b0, n, t, 0);
        assert forall|k: int| #[trigger] off(vxa0@, vxb0@, k) == off(c0.push(n), d0.push(t), k) by {
            lemma_off_push(c0, d0, n, t, k); lemma_off_push(a0, b0, n, t, k);
            if n == 1 { assert(k / 1 == k && k % 1 == 0); assert(0 * t == 0); assert(off(a0, b0, k) == off(c0, d0, k)); }
            else { assert(off(a0, b0, k / (n as int)) == off(c0, d0, k / (n as int))); }
        }
        if n == 1 { assert((1 - 1) * t == 0); assert(prod(c0) * 1 == prod(c0)); }
    }
//@loop 0 after
    proof { assert(nd.sh().subrange(0, vxe0 as int) =~= nd.sh()); assert(nd.st().subrange(0, vxe0 as int) =~= nd.st()); }
//@end
//@fn src/common/reshape.rs :: trait Reshape :: unsqueeze
//@sig fn unsqueeze(self, axis0: isize) -> (r: NdArray)
//@flag no_vacuity
//@requires self.nd().wf(), self.nd().sh().len() < isize::MAX
//@panics !axis_ok(axis0 as int, self.nd().sh().len() as int + 1)
//@ensures view_of(r, self.nd(), self.consumes()), r.sh() == self.nd().sh().insert(axis_abs(axis0 as int, self.nd().sh().len() as int + 1), 1), same_elems(r, self.nd())
//@start
    let ghost nd = self.nd();
    proof {
        lemma_wfl(nd.sh(), nd.st());
        if axis_ok(axis0 as int, nd.sh().len() as int + 1) {
            let a = axis_abs(axis0 as int, nd.sh().len() as int + 1);
            if a < nd.sh().len() { assert(nd.sh()[a] * nd.st()[a] <= usize::MAX); lemma_mul_is_commutative(nd.sh()[a] as int, nd.st()[a] as int); }
            lemma_unsqueezed(nd, a);
        }
    }
//@ret
    proof {
        let a = axis_abs(axis0 as int, nd.sh().len() as int + 1);
        let t = vx_ret.st()[a];
        assert(vx_ret.sh() =~= nd.sh().insert(a, 1)); assert(vx_ret.st() =~= nd.st().insert(a, t));
        assert forall|k: int| 0 <= k < prod(nd.sh()) implies #[trigger] vx_ret.ad(k) == nd.ad(k) by { lemma_off_one(nd.sh(), nd.st(), a, t, k); }
    }
//@end
//@fn src/common/reshape.rs :: trait Reshape :: transpose
//@flag overridden
//@sig fn transpose(self, axis10: isize, axis20: isize) -> (r: NdArray)
//@flag no_vacuity
//@requires self.nd().wf(), self.nd().sh().len() < isize::MAX
//@panics !axis_ok(axis10 as int, self.nd().sh().len() as int) || !axis_ok(axis20 as int, self.nd().sh().len() as int)
//@ensures view_of(r, self.nd(), self.consumes()), transposed(r, self.nd(), axis_abs(axis10 as int, self.nd().sh().len() as int), axis_abs(axis20 as int, self.nd().sh().len() as int))
//@start
    let ghost nd = self.nd();
    proof { if axis_ok(axis10 as int, nd.sh().len() as int) && axis_ok(axis20 as int, nd.sh().len() as int) { lemma_swap(nd.sh(), nd.st(), axis_abs(axis10 as int, nd.sh().len() as int), axis_abs(axis20 as int, nd.sh().len() as int)); } }
//@end
//@fn src/common/reshape.rs :: trait Reshape :: T
//@sig fn T(self) -> (r: NdArray)
//@flag no_vacuity
//@requires self.nd().wf(), self.nd().sh().len() < isize::MAX
//@panics self.nd().sh().len() < 2
//@ensures view_of(r, self.nd(), self.consumes()), transposed(r, self.nd(), 0, 1)
//@end
}
pub open spec fn unsq(a: NdArray, i: int, t: usize) -> bool { wfl(a.sh().insert(i, 1), a.st().insert(i, t)) && span(a.sh().insert(i, 1), a.st().insert(i, t)) == span(a.sh(), a.st()) }
pub proof fn lemma_unsqueezed(a: NdArray, i: int)
    requires a.wf(), 0 <= i <= a.sh().len(),
    ensures forall|t: usize| wfl(a.sh().insert(i, 1), #[trigger] a.st().insert(i, t)), forall|t: usize| span(a.sh().insert(i, 1), #[trigger] a.st().insert(i, t)) == span(a.sh(), a.st()), prod(a.sh().insert(i, 1)) == prod(a.sh()),
        i == a.sh().len() ==> a.sh().push(1) == a.sh().insert(i, 1) && forall|t: usize| #[trigger] a.st().push(t) == a.st().insert(i, t),
{
    assert forall|t: usize| #[trigger] unsq(a, i, t) by { lemma_off_one(a.sh(), a.st(), i, t, 0); }
    lemma_off_one(a.sh(), a.st(), i, 0, 0);
    assert forall|t: usize| wfl(a.sh().insert(i, 1), #[trigger] a.st().insert(i, t)) by { assert(unsq(a, i, t)); }
    assert forall|t: usize| span(a.sh().insert(i, 1), #[trigger] a.st().insert(i, t)) == span(a.sh(), a.st()) by { assert(unsq(a, i, t)); }
    if i == a.sh().len() {
        assert(a.sh().push(1) =~= a.sh().insert(i, 1));
        assert forall|t: usize| #[trigger] a.st().push(t) == a.st().insert(i, t) by { assert(a.st().push(t) =~= a.st().insert(i, t)); }
    }
}
pub open spec fn transposed(r: NdArray, a: NdArray, i: int, j: int) -> bool {
    r.sh() == swapped(a.sh(), i, j) && forall|ix: Seq<int>| inb(a.sh(), ix) ==> inb(r.sh(), #[trigger] swapped(ix, i, j)) && r.at_ix(swapped(ix, i, j)) == a.at_ix(ix)
}
pub proof fn lemma_stride_bound(sh: Seq<usize>, st: Seq<usize>, s: int)
    requires wfl(sh, st), sh.len() > 0, s == st.last(), uniform(sh, st, s),
    ensures s * prod(sh) <= usize::MAX,
{
    lemma_uniform_span(sh, st, s);
    let p = prod(sh);
    assert(s * p == (p - 1) * s + s) by (nonlinear_arith);
    if p >= 2 { assert(s <= (p - 1) * s) by (nonlinear_arith) requires p >= 2, s >= 0; assert(2 * isize::MAX < usize::MAX); }
    else { assert((p - 1) * s == 0) by (nonlinear_arith) requires p == 1; }
}
pub proof fn lemma_uniform_eq(a: NdArray, sh: Seq<usize>, st: Seq<usize>, s: int, s0: int)
    requires a.wf(), a.flags.uniform, prod(sh) == prod(a.sh()), sh.len() == st.len(), uniform(sh, st, s), s == (if sh.len() > 0 { s0 } else { 0 }), a.sh().len() > 0 ==> s0 == lasts(a.st()), s0 >= 0, span(sh, st) == (prod(sh) - 1) * s,
    ensures wfl(sh, st), span(sh, st) == span(a.sh(), a.st()), forall|k: int| 0 <= k < prod(sh) ==> #[trigger] off(sh, st, k) == off(a.sh(), a.st(), k),
{
    lemma_uniform_span(a.sh(), a.st(), lasts(a.st()));
    assert forall|k: int| 0 <= k < prod(sh) implies #[trigger] off(sh, st, k) == off(a.sh(), a.st(), k) by {
        assert(off(a.sh(), a.st(), k) == k * lasts(a.st()));
        if sh.len() == 0 || a.sh().len() == 0 { assert(k == 0); assert(0 * s == 0); assert(0 * lasts(a.st()) == 0); }
    }
    if sh.len() == 0 || a.sh().len() == 0 { assert(prod(sh) == 1); assert((prod(sh) - 1) * s == 0) by (nonlinear_arith) requires prod(sh) == 1; let l = lasts(a.st()); assert((prod(sh) - 1) * l == 0) by (nonlinear_arith) requires prod(sh) == 1; }
}
impl Reshape for NdArray {
    open spec fn consumes(&self) -> bool { true }
//@fn src/ndarray/reshape.rs :: impl Reshape for NdArray :: reshaped_view
//@sig fn reshaped_view(self, shape: Vec<usize>, stride: Vec<usize>) -> (r: NdArray)
//@flag no_vacuity
//@ret
    // the consumed array is dropped here: it must no longer own the buffer
    assert(!vx_self.flags.owned);
//@end
}
impl<'a> Reshape for &'a NdArray {
    open spec fn consumes(&self) -> bool { false }
//@fn src/ndarray/reshape.rs :: impl Reshape for &NdArray :: reshaped_view
//@sig fn reshaped_view(self, shape: Vec<usize>, stride: Vec<usize>) -> (r: NdArray)
//@flag no_vacuity
//@start
    proof { lemma_wfl(shape@, stride@); }
//@end
}
