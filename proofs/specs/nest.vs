//@use core geom mem arr slice bcast iter heap kern ops assign fill red redax
use vstd::arithmetic::mul::*;
// ===================================================================== nested data
/// taking an item out of a vector that is consumed (each position is taken once)
#[verifier::external_body]
pub fn vx_take<T, S: VxSl<T>>(v: &S, i: usize) -> (r: T)
    requires i < v.vx_seq().len(),
    ensures r == v.vx_seq()[i as int],
{ unimplemented!() }
pub fn vx_vec_from<S: VxSl<E>>(s: S) -> (r: Vec<E>) ensures r@ == s.vx_seq(), { vx_to_vec(s.vx_sl()) }
/// a vector as the owner of a heap block of its own
#[verifier::external_body]
pub fn vx_to_heap(v: Vec<E>, mem: &mut Mem) -> (r: VecE)
    ensures r.len == v@.len() <= isize::MAX,
        v@.len() == 0 ==> *final(mem) == *old(mem),
        v@.len() > 0 ==> is_newv(r, v@.len() as int, *old(mem), *final(mem)) && forall|k: int| 0 <= k < v@.len() ==> #[trigger] final(mem).m()[r.ptr.a() + k] == v@[k],
{ unimplemented!() }
/// nested sequences of elements
pub trait Nst: Sized {
    /// the first item of every level exists, so a shape can be read off
    spec fn sdef(&self) -> bool;
    /// the length of each level, outermost first, read off the first items
    spec fn nsh(&self) -> Seq<usize>;
    /// every level consists of items of one shape
    spec fn rect(&self) -> bool;
    /// the innermost elements, in order
    spec fn nfl(&self) -> Seq<E>;
    /// the element found by indexing the levels one after the other
    spec fn nat(&self, ix: Seq<int>) -> E;
    proof fn lemma_len(&self)
        requires self.rect(),
        ensures self.sdef(), self.nfl().len() == prod(self.nsh());
    proof fn lemma_at(&self, ix: Seq<int>)
        requires self.rect(), inb(self.nsh(), ix),
        ensures 0 <= lin(self.nsh(), ix) < self.nfl().len(), self.nfl()[lin(self.nsh(), ix)] == self.nat(ix);
    fn nshape(&self, Ghost(vx_allow): Ghost<bool>) -> (r: Vec<usize>)
        requires !self.sdef() ==> vx_allow,
        ensures self.sdef(), r@ == self.nsh();
    fn nhomog(&self, Ghost(vx_allow): Ghost<bool>) -> (r: bool)
        requires !self.rect() ==> vx_allow,
        ensures r == self.rect();
    fn nflatten(self) -> (r: Vec<E>)
        ensures r@ == self.nfl();
}
//@sigof nshape:p nhomog:p nflatten
pub open spec fn flat_to<T: Nst>(s: Seq<T>, n: int) -> Seq<E>
    decreases n,
{ if n <= 0 { Seq::empty() } else { flat_to(s, n - 1) + s[n - 1].nfl() } }
pub open spec fn seq_rect<T: Nst>(s: Seq<T>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).rect() && s[i].nsh() == s[0].nsh() }
pub open spec fn cons(n: usize, s: Seq<usize>) -> Seq<usize> { seq![n] + s }
pub proof fn lemma_flat_len<T: Nst>(s: Seq<T>, n: int)
    requires seq_rect(s), 0 <= n <= s.len(),
    ensures s[0].sdef(), flat_to(s, n).len() == n * prod(s[0].nsh()),
    decreases n,
{
    s[0].lemma_len();
    if n > 0 { lemma_flat_len(s, n - 1); s[n - 1].lemma_len(); assert((n - 1) * prod(s[0].nsh()) + prod(s[0].nsh()) == n * prod(s[0].nsh())) by (nonlinear_arith); }
    else { assert(n * prod(s[0].nsh()) == 0) by (nonlinear_arith) requires n == 0; }
}
pub proof fn lemma_flat_at<T: Nst>(s: Seq<T>, n: int, i: int, j: int)
    requires seq_rect(s), 0 <= i < n <= s.len(), 0 <= j < prod(s[0].nsh()),
    ensures 0 <= i * prod(s[0].nsh()) + j < flat_to(s, n).len(), flat_to(s, n)[i * prod(s[0].nsh()) + j] == s[i].nfl()[j],
    decreases n,
{
    let p = prod(s[0].nsh());
    lemma_flat_len(s, n); lemma_flat_len(s, n - 1); s[n - 1].lemma_len();
    assert((n - 1) * p + p == n * p) by (nonlinear_arith);
    if i < n - 1 {
        lemma_flat_at(s, n - 1, i, j);
    } else { assert(i * p == (n - 1) * p); assert(0 <= (n - 1) * p) by (nonlinear_arith) requires n >= 1, p >= 0; }
}
pub proof fn lemma_cons(n: usize, s: Seq<usize>)
    ensures cons(n, s).drop_first() =~= s, cons(n, s)[0] == n, cons(n, s).len() == s.len() + 1, prod(cons(n, s)) == n * prod(s),
{
    assert(cons(n, s).drop_first() =~= s);
    lemma_prod_first(cons(n, s));
}
pub proof fn lemma_nest_len<T: Nst>(s: Seq<T>)
    requires seq_rect(s), s.len() <= usize::MAX,
    ensures s[0].sdef(), flat_to(s, s.len() as int).len() == prod(cons(s.len() as usize, s[0].nsh())),
{ lemma_flat_len(s, s.len() as int); lemma_cons(s.len() as usize, s[0].nsh()); }
pub proof fn lemma_nest_at<T: Nst>(s: Seq<T>, ix: Seq<int>)
    requires seq_rect(s), s.len() <= usize::MAX, inb(cons(s.len() as usize, s[0].nsh()), ix),
    ensures ({ let sh = cons(s.len() as usize, s[0].nsh()); 0 <= lin(sh, ix) < flat_to(s, s.len() as int).len() && flat_to(s, s.len() as int)[lin(sh, ix)] == s[ix[0]].nat(ix.drop_first()) }),
{
    let sh = cons(s.len() as usize, s[0].nsh()); let i = ix[0];
    lemma_cons(s.len() as usize, s[0].nsh());
    assert(0 <= i < s.len()) by { assert(0 <= ix[0] < sh[0]); }
    let jx = ix.drop_first();
    assert(inb(s[i].nsh(), jx)) by {
        assert forall|q: int| 0 <= q < s[i].nsh().len() implies 0 <= #[trigger] jx[q] < s[i].nsh()[q] by { assert(0 <= ix[q + 1] < sh[q + 1]); assert(sh.drop_first()[q] == s[0].nsh()[q]); }
    }
    s[i].lemma_at(jx); s[i].lemma_len();
    lemma_lin_first(sh, ix);
    lemma_flat_at(s, s.len() as int, i, lin(s[0].nsh(), jx));
}
pub proof fn lemma_single(n: usize)
    ensures prod(seq![n]) == n,
{ assert(seq![n].drop_last() =~= Seq::<usize>::empty()); assert(prod(Seq::<usize>::empty()) == 1); assert(1 * n == n); }
pub proof fn lemma_single_at(n: usize, ix: Seq<int>)
    requires inb(seq![n], ix),
    ensures lin(seq![n], ix) == ix[0], 0 <= ix[0] < n,
{ assert(seq![n].drop_last() =~= Seq::<usize>::empty()); assert(lin(Seq::<usize>::empty(), ix.drop_last()) == 0); assert(0 <= ix[0] < seq![n][0]); }
// --------------------------------------------------------------------- Vec<T>
//@fn src/util/shape.rs :: impl Shape for Vec<T> :: shape
//@sig pub fn shape_vec<T: Nst>(self_: &Vec<T>) -> (r: Vec<usize>)
//@flag index
//@call .shape => nshape
//@panics self_@.len() == 0 || !self_@[0].sdef()
//@ensures r@ == cons(self_@.len() as usize, self_@[0].nsh())
//@ret
    proof { assert(vx_ret@ =~= cons(self_@.len() as usize, self_@[0].nsh())); }
//@end
//@fn src/util/homogenous.rs :: impl Homogenous for Vec<T> :: check_homogenous
//@sig pub fn homog_vec<T: Nst>(self_: &Vec<T>) -> (r: bool)
//@flag index
//@flag may_panic
//@call .shape => nshape
//@call .check_homogenous => nhomog
//@panics !seq_rect(self_@)
//@ensures r == seq_rect(self_@)
//@start
    proof { if seq_rect(self_@) { self_@[0].lemma_len(); } }
//@loop 0
    invariant_except_break vxa0, forall|i: int| 0 <= i < vxc0 ==> (#[trigger] self_@[i]).rect() && self_@[i].nsh() == self_@[0].nsh(),
    invariant vx_p == !seq_rect(self_@), vxe0 == self_@.len(), self_@.len() > 0, first_shape@ == self_@[0].nsh(),
    ensures vxa0 ==> seq_rect(self_@), !vxa0 ==> !seq_rect(self_@),
//@loop 0 start
    proof { if v.rect() { v.lemma_len(); } }
//@end
//@fn src/util/flatten.rs :: impl Flatten<A> for Vec<T> :: flatten
//@sig pub fn flatten_vec<T: Nst>(self_: Vec<T>) -> (r: Vec<E>)
//@flag owned_items
//@call .flatten => nflatten
//@ensures r@ == flat_to(self_@, self_@.len() as int)
//@loop 0
    invariant vxe0 == self_@.len(), vxa0@ == flat_to(self_@, vxc0 as int),
//@end
//@fn src/util/shape.rs :: macro shape_trait with dtype=E / impl Shape for Vec<E> :: shape
//@sig pub fn shape1_vec(self_: &Vec<E>) -> (r: Vec<usize>)
//@ensures r@ == seq![self_@.len() as usize]
//@end
//@fn src/util/homogenous.rs :: macro homogenous_vec_trait with dtype=E / impl Homogenous for Vec<E> :: check_homogenous
//@sig pub fn homog1_vec(self_: &Vec<E>) -> (r: bool)
//@ensures r
//@end
//@fn src/util/flatten.rs :: macro flatten_trait with dtype=E / impl Flatten<E> for Vec<E> :: flatten
//@sig pub fn flatten1_vec(self_: Vec<E>) -> (r: Vec<E>)
//@call Vec::from => vx_vec_from
//@ensures r@ == self_@
//@end
impl<T: Nst> Nst for Vec<T> {
    open spec fn sdef(&self) -> bool { self@.len() > 0 && self@[0].sdef() }
    open spec fn nsh(&self) -> Seq<usize> { cons(self@.len() as usize, self@[0].nsh()) }
    open spec fn rect(&self) -> bool { seq_rect(self@) }
    open spec fn nfl(&self) -> Seq<E> { flat_to(self@, self@.len() as int) }
    open spec fn nat(&self, ix: Seq<int>) -> E { self@[ix[0]].nat(ix.drop_first()) }
    proof fn lemma_len(&self) { assert(self@.len() == self.len()); lemma_nest_len(self@); }
    proof fn lemma_at(&self, ix: Seq<int>) { assert(self@.len() == self.len()); lemma_nest_at(self@, ix); }
    fn nshape(&self, Ghost(vx_allow): Ghost<bool>) -> (r: Vec<usize>) { shape_vec(self, Ghost(vx_allow)) }
    fn nhomog(&self, Ghost(vx_allow): Ghost<bool>) -> (r: bool) { homog_vec(self, Ghost(vx_allow)) }
    fn nflatten(self) -> (r: Vec<E>) { flatten_vec(self) }
}
impl Nst for Vec<E> {
    open spec fn sdef(&self) -> bool { true }
    open spec fn nsh(&self) -> Seq<usize> { seq![self@.len() as usize] }
    open spec fn rect(&self) -> bool { true }
    open spec fn nfl(&self) -> Seq<E> { self@ }
    open spec fn nat(&self, ix: Seq<int>) -> E { self@[ix[0]] }
    proof fn lemma_len(&self) { assert(self@.len() == self.len()); lemma_single(self@.len() as usize); }
    proof fn lemma_at(&self, ix: Seq<int>) { assert(self@.len() == self.len()); lemma_single_at(self@.len() as usize, ix); }
    fn nshape(&self, Ghost(vx_allow): Ghost<bool>) -> (r: Vec<usize>) { shape1_vec(self) }
    fn nhomog(&self, Ghost(vx_allow): Ghost<bool>) -> (r: bool) { homog1_vec(self) }
    fn nflatten(self) -> (r: Vec<E>) { flatten1_vec(self) }
}
// --------------------------------------------------------------------- [T; N]
//@fn src/util/shape.rs :: impl Shape for [T; N] :: shape
//@sig pub fn shape_arr<T: Nst, const N: usize>(self_: &[T; N]) -> (r: Vec<usize>)
//@flag index
//@call .shape => nshape
//@panics self_@.len() == 0 || !self_@[0].sdef()
//@ensures r@ == cons(self_@.len() as usize, self_@[0].nsh())
//@ret
    proof { assert(vx_ret@ =~= cons(self_@.len() as usize, self_@[0].nsh())); }
//@end
//@fn src/util/homogenous.rs :: impl Homogenous for [T; N] :: check_homogenous
//@sig pub fn homog_arr<T: Nst, const N: usize>(self_: &[T; N]) -> (r: bool)
//@flag index
//@flag may_panic
//@call .shape => nshape
//@call .check_homogenous => nhomog
//@panics !seq_rect(self_@)
//@ensures r == seq_rect(self_@)
//@start
    proof { if seq_rect(self_@) { self_@[0].lemma_len(); } }
//@loop 0
    invariant_except_break vxa0, forall|i: int| 0 <= i < vxc0 ==> (#[trigger] self_@[i]).rect() && self_@[i].nsh() == self_@[0].nsh(),
    invariant vx_p == !seq_rect(self_@), vxe0 == self_@.len(), self_@.len() > 0, first_shape@ == self_@[0].nsh(),
    ensures vxa0 ==> seq_rect(self_@), !vxa0 ==> !seq_rect(self_@),
//@loop 0 start
    proof { if v.rect() { v.lemma_len(); } }
//@end
//@fn src/util/flatten.rs :: impl Flatten<A> for [T; N] :: flatten
//@sig pub fn flatten_arr<T: Nst, const N: usize>(self_: [T; N]) -> (r: Vec<E>)
//@flag owned_items
//@call .flatten => nflatten
//@ensures r@ == flat_to(self_@, self_@.len() as int)
//@loop 0
    invariant vxe0 == self_@.len(), vxa0@ == flat_to(self_@, vxc0 as int),
//@end
//@fn src/util/shape.rs :: macro shape_trait with dtype=E / impl Shape for [E; N] :: shape
//@sig pub fn shape1_arr<const N: usize>(self_: &[E; N]) -> (r: Vec<usize>)
//@ensures r@ == seq![self_@.len() as usize]
//@end
//@fn src/util/homogenous.rs :: macro homogenous_vec_trait with dtype=E / impl Homogenous for [E; N] :: check_homogenous
//@sig pub fn homog1_arr<const N: usize>(self_: &[E; N]) -> (r: bool)
//@ensures r
//@end
//@fn src/util/flatten.rs :: macro flatten_trait with dtype=E / impl Flatten<E> for [E; N] :: flatten
//@sig pub fn flatten1_arr<const N: usize>(self_: [E; N]) -> (r: Vec<E>)
//@call Vec::from => vx_vec_from
//@ensures r@ == self_@
//@end
impl<T: Nst, const N: usize> Nst for [T; N] {
    open spec fn sdef(&self) -> bool { self@.len() > 0 && self@[0].sdef() }
    open spec fn nsh(&self) -> Seq<usize> { cons(self@.len() as usize, self@[0].nsh()) }
    open spec fn rect(&self) -> bool { seq_rect(self@) }
    open spec fn nfl(&self) -> Seq<E> { flat_to(self@, self@.len() as int) }
    open spec fn nat(&self, ix: Seq<int>) -> E { self@[ix[0]].nat(ix.drop_first()) }
    proof fn lemma_len(&self) { assert(self@.len() == N); lemma_nest_len(self@); }
    proof fn lemma_at(&self, ix: Seq<int>) { assert(self@.len() == N); lemma_nest_at(self@, ix); }
    fn nshape(&self, Ghost(vx_allow): Ghost<bool>) -> (r: Vec<usize>) { shape_arr(self, Ghost(vx_allow)) }
    fn nhomog(&self, Ghost(vx_allow): Ghost<bool>) -> (r: bool) { homog_arr(self, Ghost(vx_allow)) }
    fn nflatten(self) -> (r: Vec<E>) { flatten_arr(self) }
}
impl<const N: usize> Nst for [E; N] {
    open spec fn sdef(&self) -> bool { true }
    open spec fn nsh(&self) -> Seq<usize> { seq![self@.len() as usize] }
    open spec fn rect(&self) -> bool { true }
    open spec fn nfl(&self) -> Seq<E> { self@ }
    open spec fn nat(&self, ix: Seq<int>) -> E { self@[ix[0]] }
    proof fn lemma_len(&self) { assert(self@.len() == N); lemma_single(self@.len() as usize); }
    proof fn lemma_at(&self, ix: Seq<int>) { assert(self@.len() == N); lemma_single_at(self@.len() as usize, ix); }
    fn nshape(&self, Ghost(vx_allow): Ghost<bool>) -> (r: Vec<usize>) { shape1_arr(self) }
    fn nhomog(&self, Ghost(vx_allow): Ghost<bool>) -> (r: bool) { homog1_arr(self) }
    fn nflatten(self) -> (r: Vec<E>) { flatten1_arr(self) }
}
// --------------------------------------------------------------------- constructors
pub fn nst_flatten<A: Nst>(d: A, mem: &mut Mem) -> (r: VecE)
    requires d.rect(),
    ensures r.len == d.nfl().len() <= isize::MAX,
        d.nfl().len() == 0 ==> *final(mem) == *old(mem),
        d.nfl().len() > 0 ==> is_newv(r, d.nfl().len() as int, *old(mem), *final(mem)) && forall|k: int| 0 <= k < d.nfl().len() ==> #[trigger] final(mem).m()[r.ptr.a() + k] == d.nfl()[k],
{ vx_to_heap(d.nflatten(), mem) }
//@sigof nst_flatten:m
//@fn src/common/constructors.rs :: trait Constructors :: new
//@sig pub fn nd_new<A: Nst>(data: A, mem: &mut Mem) -> (r: NdArray)
//@type Self => NdArray
//@call .shape => nshape
//@call .check_homogenous => nhomog
//@call .flatten => @nst_flatten
//@panics !data.rect() || data.nfl().len() == 0
//@ensures is_new(r, data.nsh(), *old(mem), *final(mem)), forall|ix: Seq<int>| inb(data.nsh(), ix) ==> #[trigger] final(mem).m()[r.at_ix(ix)] == data.nat(ix)
//@start
    let ghost d0 = data; let ghost m0 = *mem;
    proof { if data.rect() { data.lemma_len(); } }
//@ret
    proof {
        assert(is_new(vx_ret, d0.nsh(), m0, *mem));
        assert forall|ix: Seq<int>| inb(d0.nsh(), ix) implies #[trigger] mem.m()[vx_ret.at_ix(ix)] == d0.nat(ix) by {
            d0.lemma_at(ix); lemma_new_at(vx_ret, d0.nsh(), m0, *mem, ix);
        }
    }
//@end
//@fn src/common/constructors.rs :: trait Constructors :: zeros
//@sig pub fn nd_zeros(shape: &[usize], mem: &mut Mem) -> (r: NdArray)
//@call Self::full => nd_full
//@call .into => @E::from_bool
//@requires pz(shape@) <= isize::MAX
//@panics prod(shape@) == 0
//@ensures is_full(r, shape@, E::of_bool(false), *old(mem), *final(mem))
//@end
//@fn src/common/constructors.rs :: trait Constructors :: ones
//@sig pub fn nd_ones(shape: &[usize], mem: &mut Mem) -> (r: NdArray)
//@call Self::full => nd_full
//@call .into => @E::from_bool
//@requires pz(shape@) <= isize::MAX
//@panics prod(shape@) == 0
//@ensures is_full(r, shape@, E::of_bool(true), *old(mem), *final(mem))
//@end
