use vstd::arithmetic::mul::*;
use vstd::arithmetic::div_mod::*;

// ===================================================================== panics, allowed by contract only
#[verifier::external_body]
pub fn vx_panic<A>(Ghost(c): Ghost<bool>) -> (r: A)
    requires c,
    ensures false,
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_any<A>() -> (r: A) { unimplemented!() }
pub fn vx_assert(b: bool)
    requires b,
{}
/// an index expression that panics when it is out of bounds
pub fn vx_ck(i: usize, n: usize, Ghost(c): Ghost<bool>) -> (r: usize)
    requires i >= n ==> c,
    ensures r == i, i < n,
{ if i >= n { vx_panic::<()>(Ghost(c)); } i }
/// arithmetic that panics on overflow (overflow checks on, as in the dev and test profiles)
pub fn vx_ck_add(a: usize, b: usize, Ghost(c): Ghost<bool>) -> (r: usize)
    requires a + b > usize::MAX ==> c,
    ensures r == a + b,
{ if a > usize::MAX - b { vx_panic::<()>(Ghost(c)); } a + b }
pub fn vx_ck_sub(a: usize, b: usize, Ghost(c): Ghost<bool>) -> (r: usize)
    requires a < b ==> c,
    ensures r == a - b,
{ if a < b { vx_panic::<()>(Ghost(c)); } a - b }
#[verifier::external_body]
pub fn vx_ck_mul(a: usize, b: usize, Ghost(c): Ghost<bool>) -> (r: usize)
    requires a * b > usize::MAX ==> c,
    ensures r == a * b,
{ unimplemented!() }

// ===================================================================== sequences
pub trait VxSl<T> { spec fn vx_seq(&self) -> Seq<T>; fn vx_sl(&self) -> (r: &[T]) ensures r@ == self.vx_seq(); }
impl<T> VxSl<T> for [T] {
    open spec fn vx_seq(&self) -> Seq<T> { self@ }
    fn vx_sl(&self) -> (r: &[T]) { assert(self.vx_seq() == self@); self }
}
impl<T> VxSl<T> for Vec<T> {
    open spec fn vx_seq(&self) -> Seq<T> { self@ }
    fn vx_sl(&self) -> (r: &[T]) { assert(self.vx_seq() == self@); self.as_slice() }
}
impl<T, const N: usize> VxSl<T> for [T; N] {
    open spec fn vx_seq(&self) -> Seq<T> { self@ }
    fn vx_sl(&self) -> (r: &[T]) { assert(self.vx_seq() == self@); self.as_slice() }
}

pub fn vx_to_vec<T: Copy>(s: &[T]) -> (r: Vec<T>)
    ensures r@ == s@,
{
    let mut r: Vec<T> = Vec::new();
    let mut i = 0;
    while i < s.len()
        invariant i <= s.len(), r@ == s@.subrange(0, i as int),
        decreases s.len() - i,
    { r.push(s[i]); i += 1; assert(r@ =~= s@.subrange(0, i as int)); }
    assert(r@ =~= s@);
    r
}
pub fn vx_slice<T>(s: &[T], a: usize, b: usize) -> (r: &[T])
    requires a <= b <= s@.len(),
    ensures r@ == s@.subrange(a as int, b as int),
{ vstd::slice::slice_subrange(s, a, b) }
pub fn vx_eq(a: &[usize], b: &[usize]) -> (r: bool)
    ensures r == (a@ == b@),
{
    if a.len() != b.len() { return false; }
    let mut i = 0;
    while i < a.len()
        invariant i <= a.len(), a.len() == b.len(), forall|j: int| 0 <= j < i ==> a@[j] == b@[j],
        decreases a.len() - i,
    { if a[i] != b[i] { assert(a@[i as int] != b@[i as int]); return false; } i += 1; }
    assert(a@ =~= b@);
    true
}
pub fn vx_with_capacity<T>(n: usize) -> (r: Vec<T>)
    ensures r@.len() == 0, r@ == Seq::<T>::empty(),
{ let r = Vec::new(); assert(r@ =~= Seq::<T>::empty()); r }
pub fn vx_vec_of<T: Copy>(x: T, n: usize) -> (r: Vec<T>)
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> r@[i] == x,
{
    let mut r: Vec<T> = Vec::new();
    let mut i = 0;
    while i < n
        invariant i <= n, r@.len() == i, forall|j: int| 0 <= j < i ==> r@[j] == x,
        decreases n - i,
    { r.push(x); i += 1; }
    r
}
pub fn vx_swap<T: Copy>(v: &mut Vec<T>, a: usize, b: usize)
    requires a < old(v)@.len(), b < old(v)@.len(),
    ensures final(v)@ == old(v)@.update(a as int, old(v)@[b as int]).update(b as int, old(v)@[a as int]),
{ let x = v[a]; let y = v[b]; v[a] = y; v[b] = x; }
pub fn vx_swap_arr<T: Copy, const N: usize>(v: &mut [T; N], a: usize, b: usize)
    requires a < N, b < N,
    ensures final(v)@ == old(v)@.update(a as int, old(v)@[b as int]).update(b as int, old(v)@[a as int]),
{ let x = v[a]; let y = v[b]; v[a] = y; v[b] = x; }
pub fn vx_resize<T: Copy>(v: &mut Vec<T>, n: usize, x: T)
    ensures final(v)@.len() == n,
        forall|i: int| 0 <= i < n && i < old(v)@.len() ==> final(v)@[i] == old(v)@[i],
        forall|i: int| old(v)@.len() <= i < n ==> final(v)@[i] == x,
{
    if n < v.len() { v.truncate(n); }
    let ghost m = v@.len();
    while v.len() < n
        invariant m <= v@.len() <= n, m <= old(v)@.len(), m < n ==> m == old(v)@.len(),
            forall|i: int| 0 <= i < m ==> v@[i] == old(v)@[i],
            forall|i: int| m <= i < v@.len() ==> v@[i] == x,
        decreases n - v.len(),
    { v.push(x); }
}
pub fn vx_extend<T: Copy>(v: &mut Vec<T>, s: &[T])
    ensures final(v)@ == old(v)@ + s@,
{
    let mut i = 0;
    while i < s.len()
        invariant i <= s.len(), v@ == old(v)@ + s@.subrange(0, i as int),
        decreases s.len() - i,
    { v.push(s[i]); i += 1; assert(v@ =~= old(v)@ + s@.subrange(0, i as int)); }
    assert(v@ =~= old(v)@ + s@);
}
pub fn vx_copy_into<T: Copy, const N: usize>(x: &mut [T; N], a: usize, b: usize, y: &[T])
    requires a <= b <= N, y@.len() == b - a,
    ensures forall|i: int| 0 <= i < N ==> final(x)@[i] == (if a <= i < b { y@[i - a] } else { old(x)@[i] }),
{
    let mut i = a;
    while i < b
        invariant a <= i <= b, b <= N, y@.len() == b - a,
            forall|j: int| 0 <= j < N ==> x@[j] == (if a <= j < i { y@[j - a] } else { old(x)@[j] }),
        decreases b - i,
    { x[i] = y[i - a]; i += 1; }
}
pub fn vx_contains(v: &[i8], x: i8) -> (r: bool)
    ensures r == v@.contains(x),
{
    let mut i = 0;
    while i < v.len()
        invariant i <= v.len(), forall|j: int| 0 <= j < i ==> v@[j] != x,
        decreases v.len() - i,
    { if v[i] == x { assert(v@[i as int] == x); return true; } i += 1; }
    false
}
pub fn vx_last_or(v: &[usize], d: usize) -> (r: usize)
    ensures r == (if v@.len() == 0 { d } else { v@.last() }),
{ if v.len() == 0 { d } else { v[v.len() - 1] } }
pub fn vx_first_or(v: &[usize], d: usize) -> (r: usize)
    ensures r == (if v@.len() == 0 { d } else { v@[0] }),
{ if v.len() == 0 { d } else { v[0] } }
pub fn vx_min(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }), { if a <= b { a } else { b } }
pub fn vx_max(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { b } else { a }), { if a <= b { b } else { a } }
pub fn vx_sat_sub(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { 0 } else { a - b }), { if a <= b { 0 } else { a - b } }

// ===================================================================== geometry
pub open spec fn prod(s: Seq<usize>) -> int
    decreases s.len(),
{ if s.len() == 0 { 1 } else { prod(s.drop_last()) * s.last() } }
/// product of the extents that are not 0
pub open spec fn pz(s: Seq<usize>) -> int
    decreases s.len(),
{ if s.len() == 0 { 1 } else { pz(s.drop_last()) * (if s.last() == 0 { 1int } else { s.last() as int }) } }
/// buffer offset of the k-th element in row-major order
pub open spec fn off(sh: Seq<usize>, st: Seq<usize>, k: int) -> int
    decreases sh.len(),
{ if sh.len() == 0 { 0 } else { off(sh.drop_last(), st.drop_last(), k / (sh.last() as int)) + (k % (sh.last() as int)) * st.last() } }
/// sum of index * stride
pub open spec fn dotp(st: Seq<usize>, ix: Seq<int>) -> int
    decreases st.len(),
{ if st.len() == 0 { 0 } else { dotp(st.drop_last(), ix.drop_last()) + ix.last() * st.last() } }
/// row-major position of a multi-index
pub open spec fn lin(sh: Seq<usize>, ix: Seq<int>) -> int
    decreases sh.len(),
{ if sh.len() == 0 { 0 } else { lin(sh.drop_last(), ix.drop_last()) * sh.last() + ix.last() } }
pub open spec fn inb(sh: Seq<usize>, ix: Seq<int>) -> bool {
    ix.len() == sh.len() && forall|i: int| 0 <= i < sh.len() ==> 0 <= #[trigger] ix[i] < sh[i]
}
/// largest offset of any element (of an array with elements)
pub open spec fn span(sh: Seq<usize>, st: Seq<usize>) -> int
    decreases sh.len(),
{ if sh.len() == 0 { 0 } else { span(sh.drop_last(), st.drop_last()) + (sh.last() - 1) * st.last() } }
/// extents and strides whose arithmetic stays within usize
pub open spec fn fits(sh: Seq<usize>, st: Seq<usize>) -> bool {
    sh.len() == st.len() && pz(sh) <= usize::MAX
    && (forall|i: int| 0 <= i < sh.len() ==> #[trigger] sh[i] * st[i] <= usize::MAX)
    && (prod(sh) > 0 ==> span(sh, st) <= usize::MAX)
}

pub proof fn lemma_prod_nonneg(s: Seq<usize>)
    ensures prod(s) >= 0, pz(s) >= 1, prod(s) <= pz(s), (prod(s) > 0) == (forall|i: int| 0 <= i < s.len() ==> s[i] > 0),
    decreases s.len(),
{
    if s.len() > 0 {
        let d = s.drop_last();
        lemma_prod_nonneg(d);
        let z = if s.last() == 0 { 1int } else { s.last() as int };
        assert(prod(d) * s.last() >= 0) by (nonlinear_arith) requires prod(d) >= 0, s.last() >= 0;
        assert(pz(d) * z >= 1) by (nonlinear_arith) requires pz(d) >= 1, z >= 1;
        assert(prod(d) * s.last() <= pz(d) * z) by (nonlinear_arith) requires 0 <= prod(d) <= pz(d), 0 <= s.last() <= z;
        assert((prod(d) * s.last() > 0) == (prod(d) > 0 && s.last() > 0)) by (nonlinear_arith) requires prod(d) >= 0, s.last() >= 0;
        if forall|i: int| 0 <= i < s.len() ==> s[i] > 0 { assert forall|i: int| 0 <= i < d.len() implies d[i] > 0 by { assert(d[i] == s[i]); } }
        if prod(s) > 0 { assert forall|i: int| 0 <= i < s.len() implies s[i] > 0 by { if i < d.len() { assert(d[i] == s[i]); } } }
    }
}
pub proof fn lemma_prod_push(s: Seq<usize>, x: usize)
    ensures prod(s.push(x)) == prod(s) * x, pz(s.push(x)) == pz(s) * (if x == 0 { 1int } else { x as int }),
{ assert(s.push(x).drop_last() =~= s); }
pub proof fn lemma_take_push(s: Seq<usize>, i: int)
    requires 0 <= i < s.len(),
    ensures s.subrange(0, i + 1) == s.subrange(0, i).push(s[i]), s.subrange(0, i + 1).drop_last() == s.subrange(0, i), s.subrange(0, i + 1).last() == s[i],
{ assert(s.subrange(0, i + 1) =~= s.subrange(0, i).push(s[i])); assert(s.subrange(0, i + 1).drop_last() =~= s.subrange(0, i)); }
/// products of prefixes are bounded by pz
pub proof fn lemma_pz_prefix(s: Seq<usize>, i: int)
    requires 0 <= i <= s.len(),
    ensures 1 <= pz(s.subrange(0, i)) <= pz(s),
    decreases s.len(),
{
    lemma_prod_nonneg(s.subrange(0, i));
    if i == s.len() { assert(s.subrange(0, i) =~= s); }
    else {
        lemma_pz_prefix(s.drop_last(), i);
        assert(s.drop_last().subrange(0, i) =~= s.subrange(0, i));
        let z = if s.last() == 0 { 1int } else { s.last() as int };
        lemma_prod_nonneg(s.drop_last());
        assert(pz(s.drop_last()) <= pz(s.drop_last()) * z) by (nonlinear_arith) requires pz(s.drop_last()) >= 1, z >= 1;
    }
}
pub proof fn lemma_pz_concat(a: Seq<usize>, b: Seq<usize>)
    ensures pz(a + b) == pz(a) * pz(b), prod(a + b) == prod(a) * prod(b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); }
    else {
        lemma_pz_concat(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        let z = if b.last() == 0 { 1int } else { b.last() as int };
        lemma_mul_is_associative(pz(a), pz(b.drop_last()), z);
        lemma_mul_is_associative(prod(a), prod(b.drop_last()), b.last() as int);
    }
}
/// products of any subrange are bounded by pz
pub proof fn lemma_pz_sub(s: Seq<usize>, a: int, b: int)
    requires 0 <= a <= b <= s.len(),
    ensures 1 <= pz(s.subrange(a, b)) <= pz(s), 0 <= prod(s.subrange(a, b)) <= pz(s),
{
    let (x, y, z) = (s.subrange(0, a), s.subrange(a, b), s.subrange(b, s.len() as int));
    assert(s =~= x + y + z);
    lemma_pz_concat(x, y); lemma_pz_concat(x + y, z);
    lemma_prod_nonneg(x); lemma_prod_nonneg(y); lemma_prod_nonneg(z);
    assert(pz(y) <= pz(x) * pz(y) * pz(z)) by (nonlinear_arith) requires pz(x) >= 1, pz(y) >= 1, pz(z) >= 1;
}
pub proof fn lemma_off0(sh: Seq<usize>, st: Seq<usize>)
    requires sh.len() == st.len(), prod(sh) > 0,
    ensures off(sh, st, 0) == 0,
    decreases sh.len(),
{
    lemma_prod_nonneg(sh);
    if sh.len() > 0 {
        let n = sh.last() as int;
        lemma_prod_nonneg(sh.drop_last());
        assert(prod(sh.drop_last()) > 0) by (nonlinear_arith) requires prod(sh.drop_last()) * n > 0, prod(sh.drop_last()) >= 0;
        lemma_off0(sh.drop_last(), st.drop_last());
        assert(0int / n == 0 && 0int % n == 0) by (nonlinear_arith) requires n > 0;
        assert(0 * st.last() == 0);
    }
}
/// division stays in range: k < prod(sh) => k / last < prod(drop_last)
pub proof fn lemma_div_range(p: int, n: int, k: int)
    requires 0 <= k < p * n, n >= 0, p >= 0,
    ensures n > 0, 0 <= k / n < p, 0 <= k % n < n, k == (k / n) * n + k % n,
{
    assert(n > 0) by (nonlinear_arith) requires 0 <= k < p * n, n >= 0;
    lemma_fundamental_div_mod(k, n);
    lemma_mod_bound(k, n);
    lemma_div_pos_is_pos(k, n);
    assert(k / n < p) by (nonlinear_arith) requires k == n * (k / n) + k % n, 0 <= k % n, k < p * n, n > 0;
    assert(k == (k / n) * n + k % n) by (nonlinear_arith) requires k == n * (k / n) + k % n;
}
pub proof fn lemma_off_bounds(sh: Seq<usize>, st: Seq<usize>, k: int)
    requires sh.len() == st.len(), 0 <= k < prod(sh),
    ensures 0 <= off(sh, st, k) <= span(sh, st),
    decreases sh.len(),
{
    if sh.len() > 0 {
        let d = sh.drop_last();
        lemma_prod_nonneg(d);
        let n = sh.last() as int;
        lemma_div_range(prod(d), n, k);
        lemma_off_bounds(d, st.drop_last(), k / n);
        let t = st.last() as int;
        assert(0 <= (k % n) * t <= (n - 1) * t) by (nonlinear_arith) requires 0 <= k % n <= n - 1, t >= 0;
    }
}
/// the two views of an element: by position and by index
pub proof fn lemma_off_lin(sh: Seq<usize>, st: Seq<usize>, ix: Seq<int>)
    requires sh.len() == st.len(), inb(sh, ix),
    ensures 0 <= lin(sh, ix) < prod(sh), off(sh, st, lin(sh, ix)) == dotp(st, ix),
    decreases sh.len(),
{
    if sh.len() > 0 {
        let (d, e, x) = (sh.drop_last(), st.drop_last(), ix.drop_last());
        assert(inb(d, x)) by { assert forall|i: int| 0 <= i < d.len() implies 0 <= #[trigger] x[i] < d[i] by { assert(x[i] == ix[i]); } }
        lemma_off_lin(d, e, x);
        let (n, p, l) = (sh.last() as int, lin(d, x), ix.last());
        assert(0 <= ix[ix.len() - 1] < sh[sh.len() - 1]);
        assert((p * n + l) / n == p && (p * n + l) % n == l) by { lemma_fundamental_div_mod_converse(p * n + l, n, p, l); }
        assert(p * n + l < prod(d) * n) by (nonlinear_arith) requires p + 1 <= prod(d), l < n, n > 0;
        assert(0 <= p * n) by (nonlinear_arith) requires 0 <= p, 0 <= n;
    }
}
/// every position is the position of an index
pub open spec fn unlin(sh: Seq<usize>, k: int) -> Seq<int>
    decreases sh.len(),
{ if sh.len() == 0 { Seq::empty() } else { unlin(sh.drop_last(), k / (sh.last() as int)).push(k % (sh.last() as int)) } }
pub proof fn lemma_unlin(sh: Seq<usize>, k: int)
    requires 0 <= k < prod(sh),
    ensures inb(sh, unlin(sh, k)), lin(sh, unlin(sh, k)) == k,
    decreases sh.len(),
{
    if sh.len() > 0 {
        let d = sh.drop_last();
        lemma_prod_nonneg(d);
        let n = sh.last() as int;
        lemma_div_range(prod(d), n, k);
        lemma_unlin(d, k / n);
        let u = unlin(sh, k);
        assert(u.drop_last() =~= unlin(d, k / n));
        assert forall|i: int| 0 <= i < sh.len() implies 0 <= #[trigger] u[i] < sh[i] by { if i < d.len() { assert(u[i] == unlin(d, k / n)[i]); assert(d[i] == sh[i]); } }
    }
}
pub open spec fn same_off(s1: Seq<usize>, t1: Seq<usize>, s2: Seq<usize>, t2: Seq<usize>) -> bool {
    forall|k: int| 0 <= k < prod(s1) ==> #[trigger] off(s1, t1, k) == off(s2, t2, k)
}
pub open spec fn uniform(sh: Seq<usize>, st: Seq<usize>, s: int) -> bool {
    forall|k: int| 0 <= k < prod(sh) ==> #[trigger] off(sh, st, k) == k * s
}

pub fn vx_product(s: &[usize]) -> (r: usize)
    requires pz(s@) <= usize::MAX,
    ensures r == prod(s@),
{
    let mut i = 0;
    let mut p: usize = 1;
    assert(s@.subrange(0, 0) =~= Seq::<usize>::empty());
    while i < s.len()
        invariant i <= s.len(), pz(s@) <= usize::MAX, p == prod(s@.subrange(0, i as int)),
        decreases s.len() - i,
    {
        proof { lemma_take_push(s@, i as int); lemma_pz_prefix(s@, i + 1); lemma_prod_nonneg(s@.subrange(0, i + 1)); }
        p = p * s[i];
        i += 1;
    }
    assert(s@.subrange(0, i as int) =~= s@);
    p
}
pub const MAX_DIMS: usize = 32;
pub const MAX_ARGS: usize = 16;

// ===================================================================== flags
/// bitflags' set operations on disjoint single-bit flags (disjointness is an obligation of its own)
#[derive(Clone, Copy)]
pub struct NdArrayFlags { pub owned: bool, pub contiguous: bool, pub uniform: bool, pub writeable: bool, pub user: bool, pub grad: bool }
impl NdArrayFlags {
    pub const Owned: NdArrayFlags = NdArrayFlags { owned: true, contiguous: false, uniform: false, writeable: false, user: false, grad: false };
    pub const Contiguous: NdArrayFlags = NdArrayFlags { owned: false, contiguous: true, uniform: false, writeable: false, user: false, grad: false };
    pub const UniformStride: NdArrayFlags = NdArrayFlags { owned: false, contiguous: false, uniform: true, writeable: false, user: false, grad: false };
    pub const Writeable: NdArrayFlags = NdArrayFlags { owned: false, contiguous: false, uniform: false, writeable: true, user: false, grad: false };
    pub const UserCreated: NdArrayFlags = NdArrayFlags { owned: false, contiguous: false, uniform: false, writeable: false, user: true, grad: false };
    pub const RequiresGrad: NdArrayFlags = NdArrayFlags { owned: false, contiguous: false, uniform: false, writeable: false, user: false, grad: true };
    pub open spec fn minus(self, o: NdArrayFlags) -> NdArrayFlags {
        NdArrayFlags { owned: self.owned && !o.owned, contiguous: self.contiguous && !o.contiguous, uniform: self.uniform && !o.uniform, writeable: self.writeable && !o.writeable, user: self.user && !o.user, grad: self.grad && !o.grad }
    }
    pub open spec fn plus(self, o: NdArrayFlags) -> NdArrayFlags {
        NdArrayFlags { owned: self.owned || o.owned, contiguous: self.contiguous || o.contiguous, uniform: self.uniform || o.uniform, writeable: self.writeable || o.writeable, user: self.user || o.user, grad: self.grad || o.grad }
    }
    pub fn contains(self, o: NdArrayFlags) -> (r: bool)
        ensures r == ((o.owned ==> self.owned) && (o.contiguous ==> self.contiguous) && (o.uniform ==> self.uniform) && (o.writeable ==> self.writeable) && (o.user ==> self.user) && (o.grad ==> self.grad)),
    { (!o.owned || self.owned) && (!o.contiguous || self.contiguous) && (!o.uniform || self.uniform) && (!o.writeable || self.writeable) && (!o.user || self.user) && (!o.grad || self.grad) }
}
impl std::ops::Sub for NdArrayFlags { type Output = NdArrayFlags;
    fn sub(self, o: NdArrayFlags) -> (r: NdArrayFlags) ensures r == self.minus(o),
    { NdArrayFlags { owned: self.owned && !o.owned, contiguous: self.contiguous && !o.contiguous, uniform: self.uniform && !o.uniform, writeable: self.writeable && !o.writeable, user: self.user && !o.user, grad: self.grad && !o.grad } }
}
impl std::ops::BitOr for NdArrayFlags { type Output = NdArrayFlags;
    fn bitor(self, o: NdArrayFlags) -> (r: NdArrayFlags) ensures r == self.plus(o),
    { NdArrayFlags { owned: self.owned || o.owned, contiguous: self.contiguous || o.contiguous, uniform: self.uniform || o.uniform, writeable: self.writeable || o.writeable, user: self.user || o.user, grad: self.grad || o.grad } }
}
impl vstd::std_specs::ops::SubSpecImpl for NdArrayFlags {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: NdArrayFlags) -> bool { true }
    open spec fn sub_spec(self, rhs: NdArrayFlags) -> NdArrayFlags { self.minus(rhs) }
}
impl vstd::std_specs::ops::BitOrSpecImpl for NdArrayFlags {
    open spec fn obeys_bitor_spec() -> bool { true }
    open spec fn bitor_req(self, rhs: NdArrayFlags) -> bool { true }
    open spec fn bitor_spec(self, rhs: NdArrayFlags) -> NdArrayFlags { self.plus(rhs) }
}

/// unwrapping that panics on None
pub fn vx_unwrap<A>(o: Option<A>, Ghost(c): Ghost<bool>) -> (r: A)
    requires o.is_none() ==> c,
    ensures o == Some(r),
{ match o { Some(x) => x, None => vx_panic(Ghost(c)) } }
