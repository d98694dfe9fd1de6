//@use core geom mem arr slice bcast iter heap kern ops
use vstd::arithmetic::mul::*;
use vstd::arithmetic::div_mod::*;

// ===================================================================== writing through arrays
impl NdArray {
    /// no two positions of the array share an element
    pub open spec fn inj(&self) -> bool { forall|i: int, j: int| 0 <= i < prod(self.sh()) && 0 <= j < prod(self.sh()) && i != j ==> #[trigger] self.ad(i) != #[trigger] self.ad(j) }
    /// no axis repeats its elements
    pub open spec fn posst(&self) -> bool { forall|i: int| 0 <= i < self.st().len() ==> #[trigger] self.st()[i] > 0 }
    pub open spec fn covers(&self, x: int) -> bool { exists|k: int| 0 <= k < prod(self.sh()) && #[trigger] self.ad(k) == x }
}
/// no shared element
pub open spec fn apart(a: NdArray, b: NdArray) -> bool { forall|i: int| 0 <= i < prod(b.sh()) ==> !a.covers(#[trigger] b.ad(i)) }
/// nothing but the elements of a changes
pub open spec fn only(a: NdArray, m0: Mem, m1: Mem) -> bool {
    (forall|p: int| #[trigger] m0.blocks().contains_key(p) ==> m1.blocks().contains_key(p) && m1.blocks()[p] == m0.blocks()[p]) && (forall|x: int| #[trigger] m0.m().contains_key(x) ==> m1.m().contains_key(x)) && (forall|x: int| m0.m().contains_key(x) && !a.covers(x) ==> #[trigger] m1.m()[x] == m0.m()[x])
}
impl NdArray {
//@fn src/ndarray/assign_ops.rs :: impl NdArray :: assign
//@sig pub fn assign(&self, values: &NdArray, mem: &mut Mem)
//@requires self.wf(), self.readable(*old(mem)), self.inj(), values.wf(), values.readable(*old(mem)), apart(*self, *values), values.sh() == self.sh(), self.sh().len() <= MAX_DIMS
//@ensures only(*self, *old(mem), *final(mem)), forall|k: int| 0 <= k < prod(self.sh()) ==> #[trigger] final(mem).m()[self.ad(k)] == old(mem).m()[values.ad(k)]
//@start
    let ghost m0 = *mem; let ghost n = prod(self.sh());
//@loop 0 before
    let ghost g0 = vxg0a; let ghost h0 = vxg0b;
//@loop 0
    invariant vxg0a.ok(), vxg0a.same(&g0), vxg0a.cnt() == n, vxg0b.ok(), vxg0b.same(&h0), vxg0b.cnt() == n, vxg0a.pos() == vxg0b.pos(), mem.blocks() == m0.blocks(), mem.m().dom() == m0.m().dom(),
        forall|x: int| !self.covers(x) ==> #[trigger] mem.m()[x] == m0.m()[x],
        forall|k: int| 0 <= k < vxg0a.pos() ==> #[trigger] mem.m()[self.ad(k)] == m0.m()[values.ad(k)],
    decreases n - vxg0a.pos(),
//@loop 0 fetch
    proof {
        let b = vxg0b.pos();
        if b < n { assert(h0.at(b) == values.ad(b)); assert(vxg0b.at(b) == h0.at(b)); assert(m0.m().contains_key(values.ad(b))); assert(m0.m().dom().contains(values.ad(b))); assert(mem.m().contains_key(values.ad(b))); assert(!self.covers(values.ad(b))); }
    }
//@loop 0 start
    let ghost b = vxg0a.pos() - 1; let ghost m2 = *mem;
    proof { assert(g0.at(b) == self.ad(b)); assert(m0.m().contains_key(self.ad(b))); assert(m0.m().dom().contains(self.ad(b))); assert(mem.m()[values.ad(b)] == m0.m()[values.ad(b)]); assert(self.covers(self.ad(b))); }
//@loop 0 end
    proof {
        assert forall|k: int| 0 <= k < vxg0a.pos() implies #[trigger] mem.m()[self.ad(k)] == m0.m()[values.ad(k)] by { if k < b { assert(m2.m()[self.ad(k)] == m0.m()[values.ad(k)]); assert(self.ad(k) != self.ad(b)); } }
    }
//@ret
    proof { assert forall|x: int| #[trigger] m0.m().contains_key(x) implies mem.m().contains_key(x) by { assert(m0.m().dom().contains(x)); } }
//@end
}
/// a op= b
pub open spec fn upd_bin(a: NdArray, b: NdArray, m0: Mem, m1: Mem) -> bool {
    only(a, m0, m1) && forall|jx: Seq<int>| inb(a.sh(), jx) ==> #[trigger] m1.m()[a.at_ix(jx)] == op2(m0.m()[a.at_ix(jx)], m0.m()[b.at_ix(bsrc(b.sh(), jx))])
}
/// a op= x
pub open spec fn upd_scal(a: NdArray, x: E, m0: Mem, m1: Mem) -> bool {
    only(a, m0, m1) && forall|k: int| 0 <= k < prod(a.sh()) ==> #[trigger] m1.m()[a.ad(k)] == op2(m0.m()[a.ad(k)], x)
}
pub open spec fn upd_args(a: NdArray, b: NdArray, m: Mem) -> bool {
    a.wf() && b.wf() && a.readable(m) && b.readable(m) && a.inj() && apart(a, b) && a.sh().len() <= MAX_DIMS
}
/// elements of a contiguous array
pub proof fn lemma_covers_contig(a: NdArray)
    requires a.wf(), a.flags.contiguous,
    ensures forall|x: int| #[trigger] a.covers(x) <==> a.ptr.a() <= x < a.ptr.a() + prod(a.sh()),
{
    lemma_contig(a);
    assert forall|x: int| a.ptr.a() <= x < a.ptr.a() + prod(a.sh()) implies #[trigger] a.covers(x) by { assert(a.ad(x - a.ptr.a()) == x); }
}
/// an array that is not shared stays unread while a contiguous array is written
pub proof fn lemma_nohaz_apart(l: Seq<int>, a: NdArray)
    requires a.wf(), a.flags.contiguous, l.len() == prod(a.sh()), forall|k: int| 0 <= k < l.len() ==> !a.covers(#[trigger] l[k]),
    ensures nohaz(l, a.ptr.a()),
{ lemma_covers_contig(a); assert forall|j: int| 0 <= j < l.len() implies !(a.ptr.a() <= #[trigger] l[j] < a.ptr.a() + j) by { if a.ptr.a() <= l[j] < a.ptr.a() + j { assert(a.covers(l[j])); } } }
pub proof fn lemma_self_rw(a: NdArray, m: Mem)
    requires a.wf(), a.flags.contiguous, a.readable(m),
    ensures reads(m, lad(a.ptr.a(), a.sh(), a.st())), writes(m, a.ptr.a(), prod(a.sh())), nohaz(lad(a.ptr.a(), a.sh(), a.st()), a.ptr.a()),
{
    lemma_reads(a, m); lemma_lad_ad(a); lemma_contig(a);
    let l = lad(a.ptr.a(), a.sh(), a.st());
    assert forall|x: int| a.ptr.a() <= x < a.ptr.a() + prod(a.sh()) implies #[trigger] m.m().contains_key(x) by { assert(a.ad(x - a.ptr.a()) == x); }
    assert forall|j: int| 0 <= j < l.len() implies !(a.ptr.a() <= #[trigger] l[j] < a.ptr.a() + j) by { assert(a.ad(j) == a.ptr.a() + j); }
}
/// b, repeated to the shape of a: where its elements are, and that a does not cover them
pub proof fn lemma_bapart(a: NdArray, b: NdArray, m: Mem, st: Seq<usize>)
    requires upd_args(a, b, m), bc_ok(b.sh(), a.sh()), st == bc_st(b.sh(), b.st(), a.sh().len() as int),
    ensures wfl(a.sh(), st), reads(m, lad(b.ptr.a(), a.sh(), st)), lad(b.ptr.a(), a.sh(), st).len() == prod(a.sh()),
        forall|k: int| 0 <= k < prod(a.sh()) ==> !a.covers(#[trigger] lad(b.ptr.a(), a.sh(), st)[k]),
        forall|jx: Seq<int>| inb(a.sh(), jx) ==> 0 <= #[trigger] lin(a.sh(), jx) < prod(a.sh()) && lad(b.ptr.a(), a.sh(), st)[lin(a.sh(), jx)] == b.at_ix(bsrc(b.sh(), jx)),
{
    lemma_wfl(a.sh(), a.st());
    lemma_bread(b, m, a.sh());
    lemma_bc(b.sh(), b.st(), a.sh());
    let l = lad(b.ptr.a(), a.sh(), st);
    assert forall|k: int| 0 <= k < prod(a.sh()) implies !a.covers(#[trigger] l[k]) by {
        lemma_unlin(a.sh(), k);
        let jx = unlin(a.sh(), k);
        assert(l[lin(a.sh(), jx)] == b.at_ix(bsrc(b.sh(), jx)));
        let u = bsrc(b.sh(), jx);
        lemma_off_lin(b.sh(), b.st(), u);
        assert(!a.covers(b.ad(lin(b.sh(), u))));
    }
}
/// reading b through the strides of its broadcast or, for equal shapes, through its own
pub open spec fn reads_as(a: NdArray, b: NdArray, st: Seq<usize>) -> bool { bc_ok(b.sh(), a.sh()) && (st == bc_st(b.sh(), b.st(), a.sh().len() as int) || (st == b.st() && b.sh() == a.sh())) }
pub proof fn lemma_reads_as(a: NdArray, b: NdArray, st: Seq<usize>, m: Mem)
    requires reads_as(a, b, st), upd_args(a, b, m),
    ensures wfl(a.sh(), st), lad(b.ptr.a(), a.sh(), st) =~= lad(b.ptr.a(), a.sh(), bc_st(b.sh(), b.st(), a.sh().len() as int)),
{
    lemma_bapart(a, b, m, bc_st(b.sh(), b.st(), a.sh().len() as int));
    let (l, r) = (lad(b.ptr.a(), a.sh(), st), lad(b.ptr.a(), a.sh(), bc_st(b.sh(), b.st(), a.sh().len() as int)));
    assert forall|k: int| 0 <= k < l.len() implies #[trigger] l[k] == r[k] by {
        if st == b.st() && b.sh() == a.sh() {
            lemma_unlin(a.sh(), k);
            let jx = unlin(a.sh(), k);
            assert(bsrc(b.sh(), jx) =~= jx);
            assert(lin(a.sh(), jx) == k);
            lemma_off_lin(b.sh(), b.st(), jx);
        }
    }
}
/// writing the results over a contiguous a
pub proof fn lemma_upd_contig(a: NdArray, b: NdArray, m0: Mem, m1: Mem, st: Seq<usize>)
    requires upd_args(a, b, m0), bc_ok(b.sh(), a.sh()), st == bc_st(b.sh(), b.st(), a.sh().len() as int), a.flags.contiguous,
        bin_done(m0, m1, lad(a.ptr.a(), a.sh(), a.st()), lad(b.ptr.a(), a.sh(), st), a.ptr.a(), prod(a.sh())),
    ensures upd_bin(a, b, m0, m1),
{
    lemma_bapart(a, b, m0, st); lemma_covers_contig(a); lemma_lad_ad(a); lemma_contig(a);
    let (l, r) = (lad(a.ptr.a(), a.sh(), a.st()), lad(b.ptr.a(), a.sh(), st));
    assert forall|jx: Seq<int>| inb(a.sh(), jx) implies #[trigger] m1.m()[a.at_ix(jx)] == op2(m0.m()[a.at_ix(jx)], m0.m()[b.at_ix(bsrc(b.sh(), jx))]) by {
        let k = lin(a.sh(), jx);
        lemma_off_lin(a.sh(), a.st(), jx);
        assert(a.ad(k) == a.ptr.a() + k); assert(l[k] == a.ad(k));
        assert(m1.m()[a.ptr.a() + k] == op2(m0.m()[l[k]], m0.m()[r[k]]));
    }
}
/// copying the results back into a strided a
pub proof fn lemma_upd_strided(a: NdArray, b: NdArray, c: NdArray, t: NdArray, m0: Mem, m1: Mem, m2: Mem)
    requires upd_args(a, b, m0), bc_ok(b.sh(), a.sh()), is_broadcast(c, b, a.sh()), is_bin(t, a, c, m0, m1), t.sh() == a.sh(), only(a, m1, m2),
        forall|k: int| 0 <= k < prod(a.sh()) ==> #[trigger] m2.m()[a.ad(k)] == m1.m()[t.ad(k)],
    ensures upd_bin(a, b, m0, m2),
{
    assert forall|x: int| #[trigger] m0.m().contains_key(x) implies m2.m().contains_key(x) by { assert(m1.m().contains_key(x)); }
    assert forall|x: int| m0.m().contains_key(x) && !a.covers(x) implies #[trigger] m2.m()[x] == m0.m()[x] by { assert(m1.m().contains_key(x)); assert(m2.m()[x] == m1.m()[x]); assert(m1.m()[x] == m0.m()[x]); }
    assert forall|jx: Seq<int>| inb(a.sh(), jx) implies #[trigger] m2.m()[a.at_ix(jx)] == op2(m0.m()[a.at_ix(jx)], m0.m()[b.at_ix(bsrc(b.sh(), jx))]) by {
        let k = lin(a.sh(), jx);
        lemma_off_lin(a.sh(), a.st(), jx);
        lemma_off_lin(t.sh(), t.st(), jx);
        assert(m2.m()[a.ad(k)] == m1.m()[t.ad(k)]);
        assert(bsrc(a.sh(), jx) =~= jx);
        assert(bsrc(c.sh(), jx) =~= jx);
        assert(m1.m()[t.at_ix(jx)] == op2(m0.m()[a.at_ix(bsrc(a.sh(), jx))], m0.m()[c.at_ix(bsrc(c.sh(), jx))]));
        assert(c.at_ix(jx) == b.at_ix(bsrc(b.sh(), jx)));
    }
}
pub proof fn lemma_bc2_same(a: Seq<usize>)
    ensures bc2(a, a) =~= a, bc2_ok(a, a),
{}
//@fn src/ndarray/assign_ops.rs :: macro define_binary_iop with binary_op_trait=BinOp,op_trait=Xop,iop_trait=XopAssign,operator=^=,method=vop / impl XopAssign<&NdArray<T>> for NdArray<T> :: vop_assign
//@sig pub fn nd_vop_assign(self_: &NdArray, rhs0: &NdArray, mem: &mut Mem)
//@call Xop::vop => nd_vop
//@requires upd_args(*self_, *rhs0, *old(mem))
//@panics !self_.flags.writeable || !bc_ok(rhs0.sh(), self_.sh())
//@ensures upd_bin(*self_, *rhs0, *old(mem), *final(mem)), self_.flags.writeable, bc_ok(rhs0.sh(), self_.sh())
//@start
    let ghost m0 = *mem;
    proof {
        lemma_wfl(self_.sh(), self_.st()); lemma_bc2_same(self_.sh());
        if self_.flags.contiguous { lemma_self_rw(*self_, m0); lemma_lad_ad(*self_); }
        if rhs0.sh() == self_.sh() { assert(bc_ok(rhs0.sh(), self_.sh())); }
    }
//@before nd_vop
    proof { lemma_bcast_readable(*self_, *rhs0, rhs, m0); }
//@returns
    proof { if !self_.flags.contiguous { lemma_upd_strided(*self_, *rhs0, rhs, result, m0, m1, *mem); } }
//@after nd_vop
    let ghost m1 = *mem;
    proof { lemma_tmp(*self_, result, m0, *mem); }
//@before BinOp::vop
    proof {
        let st = bc_st(rhs0.sh(), rhs0.st(), self_.sh().len() as int);
        assert(reads_as(*self_, *rhs0, rhs.st())); lemma_reads_as(*self_, *rhs0, rhs.st(), m0); lemma_bapart(*self_, *rhs0, m0, st);
        lemma_nohaz_apart(lad(rhs.ptr.a(), self_.sh(), st), *self_);
    }
//@after BinOp::vop
    proof { lemma_upd_contig(*self_, *rhs0, m0, *mem, bc_st(rhs0.sh(), rhs0.st(), self_.sh().len() as int)); }
//@end
//@fn src/ndarray/assign_ops.rs :: macro define_binary_iop with binary_op_trait=BinOp,op_trait=Xop,iop_trait=XopAssign,operator=^=,method=vop / impl XopAssign<NdArray<T>> for NdArray<T> :: vop_assign
//@sig pub fn nd_vop_assign_o(self_: &NdArray, rhs: NdArray, mem: &mut Mem)
//@call op^= => &nd_vop_assign
//@requires upd_args(*self_, rhs, *old(mem))
//@panics !self_.flags.writeable || !bc_ok(rhs.sh(), self_.sh())
//@ensures upd_bin(*self_, rhs, *old(mem), *final(mem)), self_.flags.writeable, bc_ok(rhs.sh(), self_.sh())
//@end
//@fn src/ndarray/assign_ops.rs :: macro define_binary_iop with binary_op_trait=BinOp,op_trait=Xop,iop_trait=XopAssign,operator=^=,method=vop / impl XopAssign<T> for NdArray<T> :: vop_assign
//@sig pub fn nd_vop_assign_s(self_: &NdArray, rhs: E, mem: &mut Mem)
//@call Xop::vop => nd_vop_scalar
//@requires self_.wf(), self_.readable(*old(mem)), self_.inj(), self_.sh().len() <= MAX_DIMS
//@panics !self_.flags.writeable
//@ensures upd_scal(*self_, rhs, *old(mem), *final(mem)), self_.flags.writeable
//@start
    let ghost m0 = *mem;
    proof {
        lemma_wfl(self_.sh(), self_.st());
        if self_.flags.contiguous { lemma_self_rw(*self_, m0); lemma_lad_ad(*self_); lemma_contig(*self_); lemma_covers_contig(*self_); }
    }
//@after nd_vop_scalar
    let ghost m1 = *mem;
    proof { lemma_tmp(*self_, result, m0, *mem); }
//@returns
    proof { if !self_.flags.contiguous { lemma_upd_scal(*self_, rhs, result, m0, m1, *mem); } }
//@after BinOp::vop_scalar
    proof {
        assert forall|k: int| 0 <= k < prod(self_.sh()) implies #[trigger] mem.m()[self_.ad(k)] == op2(m0.m()[self_.ad(k)], rhs) by { assert(self_.ad(k) == self_.ptr.a() + k); assert(mem.m()[self_.ptr.a() + k] == op2(m0.m()[lad(self_.ptr.a(), self_.sh(), self_.st())[k]], rhs)); }
    }
//@end
pub proof fn lemma_upd_scal(a: NdArray, x: E, t: NdArray, m0: Mem, m1: Mem, m2: Mem)
    requires a.readable(m0), is_scal(t, a, x, m0, m1), only(a, m1, m2), forall|k: int| 0 <= k < prod(a.sh()) ==> #[trigger] m2.m()[a.ad(k)] == m1.m()[t.ad(k)],
    ensures upd_scal(a, x, m0, m2),
{
    assert forall|x: int| #[trigger] m0.m().contains_key(x) implies m2.m().contains_key(x) by { assert(m1.m().contains_key(x)); }
    assert forall|x: int| m0.m().contains_key(x) && !a.covers(x) implies #[trigger] m2.m()[x] == m0.m()[x] by { assert(m1.m().contains_key(x)); assert(m2.m()[x] == m1.m()[x]); assert(m1.m()[x] == m0.m()[x]); }
    assert forall|k: int| 0 <= k < prod(a.sh()) implies #[trigger] m2.m()[a.ad(k)] == op2(m0.m()[a.ad(k)], x) by { assert(m2.m()[a.ad(k)] == m1.m()[t.ad(k)]); }
}
/// a broadcast view is readable where its source is
pub proof fn lemma_bcast_readable(a: NdArray, b: NdArray, c: NdArray, m: Mem)
    requires is_broadcast(c, b, a.sh()), b.readable(m), a.wf(), b.wf(),
    ensures c.readable(m),
{
    assert forall|k: int| 0 <= k < prod(c.sh()) implies m.m().contains_key(#[trigger] c.ad(k)) by {
        lemma_unlin(c.sh(), k);
        let jx = unlin(c.sh(), k);
        lemma_off_lin(c.sh(), c.st(), jx);
        let u = bsrc(b.sh(), jx);
        lemma_off_lin(b.sh(), b.st(), u);
        assert(c.at_ix(jx) == b.at_ix(u));
        assert(m.m().contains_key(b.ad(lin(b.sh(), u))));
    }
}
/// a result in new memory shares nothing with an older array
pub proof fn lemma_tmp(a: NdArray, t: NdArray, m0: Mem, m1: Mem)
    requires a.wf(), a.readable(m0), is_new(t, a.sh(), m0, m1),
    ensures a.readable(m1), t.readable(m1), apart(a, t),
{
    assert forall|k: int| 0 <= k < prod(a.sh()) implies m1.m().contains_key(#[trigger] a.ad(k)) by { assert(m0.m().contains_key(a.ad(k))); }
    assert forall|k: int| 0 <= k < prod(t.sh()) implies m1.m().contains_key(#[trigger] t.ad(k)) by { assert(t.ad(k) == t.ptr.a() + k); assert(!m0.m().contains_key(t.ptr.a() + k)); }
    assert forall|k: int| 0 <= k < prod(t.sh()) implies !a.covers(#[trigger] t.ad(k)) by {
        assert(t.ad(k) == t.ptr.a() + k); assert(!m0.m().contains_key(t.ptr.a() + k));
        if a.covers(t.ad(k)) { let j = choose|j: int| 0 <= j < prod(a.sh()) && #[trigger] a.ad(j) == t.ad(k); assert(m0.m().contains_key(a.ad(j))); }
    }
}
