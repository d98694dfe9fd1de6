//@use core geom mem arr slice
use vstd::arithmetic::mul::*;
use vstd::arithmetic::div_mod::*;

// ===================================================================== the broadcasting rule
/// axis i of n right-aligned axes; missing axes have length one
pub open spec fn ralign(s: Seq<usize>, n: int, i: int) -> usize { if i < n - s.len() { 1 } else { s[i - (n - s.len())] } }
/// sh can be repeated to fill `to`
pub open spec fn bc_ok(sh: Seq<usize>, to: Seq<usize>) -> bool {
    sh.len() <= to.len() && forall|i: int| 0 <= i < sh.len() ==> #[trigger] sh[i] == 1 || sh[i] == to[to.len() - sh.len() + i]
}
pub open spec fn bc_st(sh: Seq<usize>, st: Seq<usize>, n: int) -> Seq<usize> { Seq::new(n as nat, |i: int| if i < n - sh.len() || sh[i - (n - sh.len())] == 1 { 0 } else { st[i - (n - sh.len())] }) }
/// the source index of the element at jx of the broadcast
pub open spec fn bsrc(sh: Seq<usize>, jx: Seq<int>) -> Seq<int> { Seq::new(sh.len(), |i: int| if sh[i] == 1 { 0 } else { jx[jx.len() - sh.len() + i] }) }
/// two shapes combine
pub open spec fn bc2_pair(x: usize, y: usize) -> bool { x == y || x == 1 || y == 1 }
pub open spec fn bc2_len(a: Seq<usize>, b: Seq<usize>) -> int { if a.len() > b.len() { a.len() as int } else { b.len() as int } }
pub open spec fn bc2_ok(a: Seq<usize>, b: Seq<usize>) -> bool { forall|i: int| 0 <= i < bc2_len(a, b) ==> bc2_pair(#[trigger] ralign(a, bc2_len(a, b), i), ralign(b, bc2_len(a, b), i)) }
pub open spec fn bc2(a: Seq<usize>, b: Seq<usize>) -> Seq<usize> { Seq::new(bc2_len(a, b) as nat, |i: int| if ralign(a, bc2_len(a, b), i) == 1 { ralign(b, bc2_len(a, b), i) } else { ralign(a, bc2_len(a, b), i) }) }
/// the combined shape can be reached from both
pub proof fn lemma_bc2(a: Seq<usize>, b: Seq<usize>)
    requires bc2_ok(a, b),
    ensures bc_ok(a, bc2(a, b)), bc_ok(b, bc2(a, b)),
{
    let n = bc2_len(a, b);
    assert forall|i: int| 0 <= i < a.len() implies #[trigger] a[i] == 1 || a[i] == bc2(a, b)[n - a.len() + i] by { assert(ralign(a, n, n - a.len() + i) == a[i]); }
    assert forall|i: int| 0 <= i < b.len() implies #[trigger] b[i] == 1 || b[i] == bc2(a, b)[n - b.len() + i] by { assert(ralign(b, n, n - b.len() + i) == b[i]); assert(bc2_pair(ralign(a, n, n - b.len() + i), b[i])); }
}
/// axes along which a broadcast from sh to `to` repeats elements, among the first n
pub open spec fn is_bax(to: Seq<usize>, sh: Seq<usize>, i: int) -> bool { i < to.len() - sh.len() || (sh[i - (to.len() - sh.len())] == 1 && to[i] > 1) }
pub open spec fn baxes(to: Seq<usize>, sh: Seq<usize>, n: int) -> Seq<isize>
    decreases n,
{ if n <= 0 { Seq::empty() } else if is_bax(to, sh, n - 1) { baxes(to, sh, n - 1).push((n - 1) as isize) } else { baxes(to, sh, n - 1) } }

pub proof fn lemma_bc_dotp(sh: Seq<usize>, st: Seq<usize>, jx: Seq<int>, n: int)
    requires sh.len() == st.len(), sh.len() <= n, jx.len() == n,
    ensures dotp(bc_st(sh, st, n), jx) == dotp(st, bsrc(sh, jx)),
    decreases n,
{
    if n > 0 {
        let b = bc_st(sh, st, n);
        if sh.len() == 0 {
            assert(b.drop_last() =~= bc_st(sh, st, n - 1));
            assert(bsrc(sh, jx) =~= bsrc(sh, jx.drop_last()));
            lemma_bc_dotp(sh, st, jx.drop_last(), n - 1);
            assert(jx.last() * 0 == 0);
        } else {
            let (d, e) = (sh.drop_last(), st.drop_last());
            assert(b.drop_last() =~= bc_st(d, e, n - 1));
            assert(bsrc(sh, jx).drop_last() =~= bsrc(d, jx.drop_last()));
            lemma_bc_dotp(d, e, jx.drop_last(), n - 1);
            let (x, t) = (jx.last(), st.last() as int);
            assert(x * 0 == 0); assert(0 * t == 0);
        }
    }
}
pub proof fn lemma_bc(sh: Seq<usize>, st: Seq<usize>, to: Seq<usize>)
    requires sh.len() == st.len(), bc_ok(sh, to), prod(to) > 0,
    ensures span(to, bc_st(sh, st, to.len() as int)) == span(sh, st), bc_st(sh, st, to.len() as int).len() == to.len(),
        forall|jx: Seq<int>| inb(to, jx) ==> inb(sh, #[trigger] bsrc(sh, jx)) && dotp(bc_st(sh, st, to.len() as int), jx) == dotp(st, bsrc(sh, jx)),
{
    let n = to.len() as int;
    lemma_span_dotp(sh, st); lemma_span_dotp(to, bc_st(sh, st, n));
    lemma_bc_dotp(sh, st, topix(to), n);
    assert(bsrc(sh, topix(to)) =~= topix(sh)) by {
        assert forall|i: int| 0 <= i < sh.len() implies bsrc(sh, topix(to))[i] == topix(sh)[i] by { if sh[i] == 1 { } else { assert(sh[i] == to[n - sh.len() + i]); } }
    }
    assert forall|jx: Seq<int>| inb(to, jx) implies inb(sh, #[trigger] bsrc(sh, jx)) && dotp(bc_st(sh, st, n), jx) == dotp(st, bsrc(sh, jx)) by {
        lemma_bc_dotp(sh, st, jx, n);
        let u = bsrc(sh, jx);
        assert forall|i: int| 0 <= i < sh.len() implies 0 <= #[trigger] u[i] < sh[i] by {
            if sh[i] == 1 { } else { assert(sh[i] == to[n - sh.len() + i]); assert(0 <= jx[n - sh.len() + i] < to[n - sh.len() + i]); }
        }
    }
}

//@fn src/util/functions.rs :: - :: pad
//@sig pub fn pad(arr: &[usize], value: usize, n: usize) -> (r: Vec<usize>)
//@requires n >= arr@.len()
//@ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == (if i < n - arr@.len() { value } else { arr@[i - (n - arr@.len())] })
//@loop 0
    invariant new_arr@.len() == vxc0, forall|i: int| 0 <= i < vxc0 ==> new_arr@[i] == value,
//@end
//@fn src/ndarray/broadcast.rs :: - :: broadcast_shape
//@sig pub fn broadcast_shape(shape: &[usize], to0: &[usize]) -> (r: Vec<usize>)
//@panics !bc_ok(shape@, to0@)
//@ensures r@ == to0@, bc_ok(shape@, to0@)
//@loop 0
    invariant to@ == to0@, shape@.len() <= to0@.len(), last_ndims@ == to0@.subrange(to0@.len() - shape@.len(), to0@.len() as int),
        forall|i: int| 0 <= i < vxc0 ==> #[trigger] shape@[i] == 1 || shape@[i] == to0@[to0@.len() - shape@.len() + i],
//@end
//@fn src/ndarray/broadcast.rs :: - :: broadcast_stride
//@sig pub fn broadcast_stride(stride: &[usize], broadcast_shape: &[usize], original_shape: &[usize]) -> (r: Vec<usize>)
//@requires original_shape@.len() == stride@.len()
//@panics !bc_ok(original_shape@, broadcast_shape@)
//@ensures r@ == bc_st(original_shape@, stride@, broadcast_shape@.len() as int), bc_ok(original_shape@, broadcast_shape@)
//@loop 0
    invariant ndims == broadcast_shape@.len(), original_shape@.len() == stride@.len(), original_first_axis == ndims - original_shape@.len(), original_first_axis <= vxc0 <= ndims,
        broadcast_stride@.len() == vxc0, forall|i: int| 0 <= i < vxc0 ==> #[trigger] broadcast_stride@[i] == bc_st(original_shape@, stride@, ndims as int)[i],
        forall|i: int| 0 <= i < vxc0 - original_first_axis ==> #[trigger] original_shape@[i] == 1 || original_shape@[i] == broadcast_shape@[ndims - original_shape@.len() + i],
//@ret
    proof { assert(vx_ret@ =~= bc_st(original_shape@, stride@, ndims as int)); }
//@end
//@fn src/ndarray/broadcast.rs :: - :: broadcast_shapes
//@sig pub fn broadcast_shapes(first: &[usize], second: &[usize]) -> (r: Vec<usize>)
//@panics !bc2_ok(first@, second@)
//@ensures r@ == bc2(first@, second@), bc2_ok(first@, second@)
//@loop 0
    invariant shape1@.len() == bc2_len(first@, second@), shape2@.len() == shape1@.len(),
        forall|i: int| 0 <= i < vxc0 ==> #[trigger] shape1@[i] == bc2(first@, second@)[i],
        forall|i: int| 0 <= i < vxc0 ==> bc2_pair(#[trigger] ralign(first@, shape1@.len() as int, i), ralign(second@, shape1@.len() as int, i)),
        forall|i: int| vxc0 <= i < shape1@.len() ==> #[trigger] shape1@[i] == ralign(if first@.len() > second@.len() { second@ } else { first@ }, shape1@.len() as int, i),
        forall|i: int| vxc0 <= i < shape1@.len() ==> #[trigger] shape2@[i] == ralign(if first@.len() > second@.len() { first@ } else { second@ }, shape1@.len() as int, i),
//@loop 0 start
    proof { let n = shape1@.len() as int; if !bc2_pair(ralign(first@, n, axis as int), ralign(second@, n, axis as int)) { assert(!bc2_ok(first@, second@)); } }
//@ret
    proof { assert(vx_ret@ =~= bc2(first@, second@)); }
//@end
//@fn src/ndarray/broadcast.rs :: - :: get_broadcasted_axes
//@sig pub fn get_broadcasted_axes(broadcast_shape: &[usize], original_shape: &[usize]) -> (r: Vec<isize>)
//@requires broadcast_shape@.len() <= isize::MAX
//@panics broadcast_shape@.len() < original_shape@.len()
//@ensures r@ == baxes(broadcast_shape@, original_shape@, broadcast_shape@.len() as int)
//@loop 0
    invariant broadcast_shape@.len() <= isize::MAX, ndims_diff == broadcast_shape@.len() - original_shape@.len(), axes@ == baxes(broadcast_shape@, original_shape@, vxc0 as int),
//@end
pub open spec fn is_broadcast(r: NdArray, a: NdArray, to: Seq<usize>) -> bool {
    r.wf() && r.sh() == to && r.ptr.a() == a.ptr.a() && !r.flags.owned && !r.flags.writeable && r.flags.grad == a.flags.grad
    && r.st() == bc_st(a.sh(), a.st(), to.len() as int) && span(r.sh(), r.st()) == span(a.sh(), a.st())
    && forall|jx: Seq<int>| inb(to, jx) ==> inb(a.sh(), #[trigger] bsrc(a.sh(), jx)) && r.at_ix(jx) == a.at_ix(bsrc(a.sh(), jx))
}
impl NdArray {
//@fn src/ndarray/broadcast.rs :: impl NdArray :: broadcast_to
//@sig pub fn broadcast_to(&self, shape: &[usize]) -> (r: NdArray)
//@requires self.wf(), 0 < prod(shape@) <= isize::MAX
//@panics !bc_ok(self.sh(), shape@)
//@ensures is_broadcast(r, *self, shape@), bc_ok(self.sh(), shape@)
//@start
    proof { if bc_ok(self.sh(), shape@) { lemma_bc(self.sh(), self.st(), shape@); } }
//@end
}
