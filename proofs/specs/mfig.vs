//@use core geom mem arr slice bcast iter heap kern ops red redax sop mat eloop
use vstd::arithmetic::mul::*;
use vstd::arithmetic::div_mod::*;

// ===================================================================== flat offsets of several arrays at once
pub struct MultiFlatIndexGenerator { pub ndims: usize, pub nops: usize, pub shape: [usize; MAX_DIMS], pub strides: [[usize; MAX_ARGS]; MAX_DIMS], pub size: usize, pub iterator_index: usize, pub indices: [usize; MAX_DIMS], pub flat_indices: [usize; MAX_ARGS] }
impl MultiFlatIndexGenerator {
    pub open spec fn sh(&self) -> Seq<usize> { self.shape@.subrange(0, self.ndims as int) }
    pub open spec fn st(&self, i: int) -> Seq<usize> { Seq::new(self.ndims as nat, |d: int| self.strides@[d]@[i]) }
    /// the axes count down from their extents
    pub open spec fn ix(&self) -> Seq<int> { Seq::new(self.ndims as nat, |d: int| self.shape@[d] - self.indices@[d]) }
    pub open spec fn pos(&self) -> int { lin(self.sh(), self.ix()) }
    pub open spec fn fixed(&self) -> bool {
        self.ndims <= MAX_DIMS && self.nops <= MAX_ARGS && 0 < prod(self.sh()) <= isize::MAX && (forall|i: int| 0 <= i < self.nops ==> span(self.sh(), #[trigger] self.st(i)) <= isize::MAX)
    }
    pub open spec fn ok(&self) -> bool {
        self.fixed() && inb(self.sh(), self.ix()) && (forall|i: int| 0 <= i < self.nops ==> #[trigger] self.flat_indices@[i] == dotp(self.st(i), self.ix()))
    }
    pub open spec fn same(&self, o: &MultiFlatIndexGenerator) -> bool { self.ndims == o.ndims && self.nops == o.nops && self.shape == o.shape && self.strides == o.strides && self.size == o.size }
//@fn src/ndarray/iterator/multi_flat_index_generator.rs :: impl MultiFlatIndexGenerator :: from
//@sig pub fn from<const OPERANDS: usize>(nops: usize, shape: &[usize], strides: &[[usize; OPERANDS]]) -> (r: MultiFlatIndexGenerator)
//@type Self => MultiFlatIndexGenerator
//@requires strides@.len() == shape@.len(), nops <= OPERANDS <= MAX_ARGS, shape@.len() <= MAX_DIMS, 0 < prod(shape@) <= isize::MAX, forall|i: int| 0 <= i < nops ==> span(shape@, #[trigger] col(strides@, i)) <= isize::MAX
//@ensures r.ok(), r.pos() == 0, r.sh() == shape@, r.nops == nops, r.ndims == shape@.len(), forall|i: int| 0 <= i < nops ==> #[trigger] r.st(i) == col(strides@, i)
//@start
    let ghost sh0 = shape@;
    proof { lemma_prod_nonneg(sh0); lemma_pz_prod(sh0); }
//@loop 0
    invariant forall|d: int, i: int| 0 <= d < vxc0 && 0 <= i < nops ==> #[trigger] new_strides@[d]@[i] == strides@[d]@[i],
//@ret
    proof {
        assert(vx_ret.sh() =~= sh0); let ix = vx_ret.ix();
        assert forall|d: int| 0 <= d < sh0.len() implies sh0[d] > 0 by { }
        assert(inb(sh0, ix)); lemma_lin0(sh0, ix);
        assert forall|i: int| 0 <= i < nops implies #[trigger] vx_ret.st(i) == col(strides@, i) by { assert(vx_ret.st(i) =~= col(strides@, i)); }
        assert forall|i: int| 0 <= i < nops implies #[trigger] vx_ret.flat_indices@[i] == dotp(vx_ret.st(i), ix) by { lemma_dotp_zeros(vx_ret.st(i), ix, 0); reveal_with_fuel(dotp, 2); }
    }
//@end
//@fn src/ndarray/iterator/multi_flat_index_generator.rs :: impl MultiFlatIndexGenerator :: cur_indices
//@sig pub fn cur_indices(&self) -> (r: &[usize; MAX_ARGS])
//@ensures *r == self.flat_indices
//@end
//@fn src/ndarray/iterator/multi_flat_index_generator.rs :: impl MultiFlatIndexGenerator :: increment_flat_indices
//@sig pub fn increment_flat_indices(&mut self)
//@requires old(self).ok()
//@ensures final(self).ok(), final(self).same(old(self)), final(self).iterator_index == old(self).iterator_index, old(self).pos() + 1 < prod(old(self).sh()) ==> final(self).pos() == old(self).pos() + 1
//@start
    let ghost s0 = *self; let ghost (sh, ix) = (self.sh(), self.ix()); let ghost (n, nn) = (self.ndims as int, self.nops as int);
    proof {
        assert(sh.len() == n);
        assert forall|p: int| 0 <= p < nn implies #[trigger] self.flat_indices@[p] == dotp(s0.st(p).subrange(0, n), ix.subrange(0, n)) by { assert(s0.st(p).subrange(0, n) =~= s0.st(p)); assert(ix.subrange(0, n) =~= ix); }
    }
//@loop 0
    invariant self.same(&s0), self.iterator_index == s0.iterator_index, 0 <= idim <= n, n == s0.ndims, nn == s0.nops, s0.ok(), sh == s0.sh(), ix == s0.ix(), sh.len() == n,
        forall|j: int| 0 <= j < idim ==> #[trigger] self.indices@[j] == s0.indices@[j],
        forall|j: int| idim <= j < n ==> #[trigger] self.indices@[j] == sh[j],
        forall|j: int| idim <= j < n ==> #[trigger] ix[j] == sh[j] - 1,
        forall|p: int| 0 <= p < nn ==> #[trigger] self.flat_indices@[p] == dotp(s0.st(p).subrange(0, idim as int), ix.subrange(0, idim as int)),
    decreases idim,
//@loop 0 start
    let ghost m = idim as int; let ghost b = *self;
    proof {
        assert(self.indices@[m - 1] == s0.indices@[m - 1]); assert(ix[m - 1] == sh[m - 1] - s0.indices@[m - 1]); assert(0 <= ix[m - 1] < sh[m - 1]);
        assert forall|p: int| 0 <= p < nn implies 0 <= #[trigger] b.flat_indices@[p] && (ix[m - 1] + 1 < sh[m - 1] ==> 0 <= b.flat_indices@[p] + s0.strides@[m - 1]@[p] <= isize::MAX)
            && (ix[m - 1] + 1 == sh[m - 1] ==> s0.strides@[m - 1]@[p] * (sh[m - 1] - 1) <= isize::MAX && b.flat_indices@[p] - s0.strides@[m - 1]@[p] * (sh[m - 1] - 1) == dotp(s0.st(p).subrange(0, m - 1), ix.subrange(0, m - 1)) && dotp(s0.st(p).subrange(0, m - 1), ix.subrange(0, m - 1)) >= 0) by {
            let st = s0.st(p);
            assert(st[m - 1] == s0.strides@[m - 1]@[p]);
            lemma_dotp_take(sh, st, ix, m);
            assert(ix[m - 1] * st[m - 1] >= 0) by (nonlinear_arith) requires ix[m - 1] >= 0, st[m - 1] >= 0;
            if ix[m - 1] + 1 < sh[m - 1] { lemma_dotp_step(sh, st, ix, m); } else { lemma_fig_wrap(sh, st, ix, m); }
        }
    }
//@loop 1
    invariant self.same(&s0), self.iterator_index == s0.iterator_index, strides == s0.strides@[m - 1],
        self.indices@ == b.indices@.update(m - 1, (b.indices@[m - 1] - 1) as usize),
        forall|p: int| vxc1 <= p < nn ==> #[trigger] self.flat_indices@[p] == b.flat_indices@[p],
        forall|p: int| 0 <= p < vxc1 ==> #[trigger] self.flat_indices@[p] == b.flat_indices@[p] + s0.strides@[m - 1]@[p],
//@loop 1 start
    proof { assert(0 <= b.flat_indices@[vxc1 - 1]); }
//@loop 1 after
    proof {
        lemma_carried(sh, ix, m);
        assert(self.ix() =~= carried(ix, m));
        assert(self.sh() == sh);
        assert forall|p: int| 0 <= p < nn implies #[trigger] self.flat_indices@[p] == dotp(self.st(p), self.ix()) by { assert(self.st(p) =~= s0.st(p)); lemma_dotp_carried(s0.st(p), ix, m); }
        assert forall|p: int| 0 <= p < nn implies span(self.sh(), #[trigger] self.st(p)) <= isize::MAX by { assert(self.st(p) =~= s0.st(p)); }
    }
//@loop 2
    invariant self.same(&s0), self.iterator_index == s0.iterator_index, strides == s0.strides@[m - 1],
        self.indices@ == b.indices@.update(m - 1, sh[m - 1]),
        forall|p: int| vxc2 <= p < nn ==> #[trigger] self.flat_indices@[p] == b.flat_indices@[p],
        forall|p: int| 0 <= p < vxc2 ==> #[trigger] self.flat_indices@[p] == b.flat_indices@[p] - s0.strides@[m - 1]@[p] * (sh[m - 1] - 1),
//@loop 2 start
    proof { assert(0 <= b.flat_indices@[vxc2 - 1]); }
//@loop 0 after
    proof {
        lemma_all_top(sh, ix);
        let z = self.ix();
        assert(self.sh() == sh);
        assert(inb(sh, z)) by { assert forall|j: int| 0 <= j < sh.len() implies 0 <= #[trigger] z[j] < sh[j] by { assert(self.indices@[j] == sh[j]); assert(0 <= ix[j] < sh[j]); } }
        assert forall|p: int| 0 <= p < nn implies #[trigger] self.flat_indices@[p] == dotp(self.st(p), z) by { assert(self.st(p) =~= s0.st(p)); lemma_dotp_zeros(self.st(p), z, 0); reveal_with_fuel(dotp, 2); }
        assert forall|p: int| 0 <= p < nn implies span(self.sh(), #[trigger] self.st(p)) <= isize::MAX by { assert(self.st(p) =~= s0.st(p)); }
    }
//@end
}
