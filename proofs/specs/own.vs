//@use core geom mem arr slice bcast iter heap
// ===================================================================== who frees a buffer
/// the buffer at p is gone: its cells can no longer be reached, every other buffer is as before
pub open spec fn freed(a: Mem, b: Mem, p: int) -> bool {
    b.blocks() == a.blocks().remove(p) && (forall|x: int| #[trigger] b.m().contains_key(x) <==> a.m().contains_key(x) && !(p <= x < p + a.blocks()[p]))
    && (forall|x: int| b.m().contains_key(x) ==> #[trigger] b.m()[x] == a.m()[x])
}
/// Vec::from_raw_parts: the buffer must have been allocated with exactly this capacity
pub fn vx_raw_vec(ptr: Ptr, len: usize, cap: usize, mem: &mut Mem) -> (r: VecE)
    requires len <= cap, old(mem).blocks().contains_key(ptr.a()), old(mem).blocks()[ptr.a()] == cap,
    ensures r.ptr == ptr, r.len == len, r.cap == cap, *final(mem) == *old(mem),
{ VecE { ptr, len, cap } }
//@call Vec::from_raw_parts => vx_raw_vec +mem
/// dropping a vector frees its buffer
#[verifier::external_body]
pub fn vx_drop_vec(v: VecE, mem: &mut Mem)
    requires old(mem).blocks().contains_key(v.ptr.a()), old(mem).blocks()[v.ptr.a()] == v.cap,
    ensures freed(*old(mem), *final(mem), v.ptr.a()),
{ unimplemented!() }
//@call drop => vx_drop_vec +mem
//@call std::mem::drop => vx_drop_vec +mem
/// a vector that is leaked keeps its buffer
pub fn vx_forget(v: VecE) { }
//@call std::mem::forget => vx_forget
//@call mem::forget => vx_forget
//@call forget => vx_forget

impl NdArray {
//@fn src/ndarray/constructors.rs :: impl Drop for NdArray :: drop
//@sig pub fn vx_drop(&mut self, mem: &mut Mem)
//@requires old(self).flags.owned ==> old(self).owns(*old(mem))
//@ensures !old(self).flags.owned ==> *final(mem) == *old(mem), old(self).flags.owned ==> freed(*old(mem), *final(mem), old(self).ptr.a())
//@end
//@fn src/ndarray/methods.rs :: impl NdArray :: into_data_vector
//@sig pub fn into_data_vector(self, mem: &mut Mem) -> (r: VecE)
//@requires self.wf(), self.flags.owned ==> self.owns(*old(mem)), self.readable(*old(mem))
//@panics !self.flags.owned || !self.flags.contiguous
//@ensures *final(mem) == *old(mem), r.ptr == self.ptr, r.len == prod(self.sh()), r.cap == self.capacity, forall|k: int| 0 <= k < prod(self.sh()) ==> #[trigger] self.ad(k) == r.ptr.a() + k
//@start
    proof { lemma_wfl(self.sh(), self.st()); if self.flags.contiguous { lemma_contig(self); } }
//@ret
    // the consumed array is dropped here
    vx_self.vx_drop(mem);
//@end
//@fn src/ndarray/astype.rs :: impl NdArray :: lifetime_cast
//@sig pub fn lifetime_cast(&self) -> (r: NdArray)
//@requires self.wf(), !self.flags.owned
//@ensures r.wf(), !r.flags.owned, r.ptr == self.ptr, r.shape@ == self.shape@, r.stride@ == self.stride@, r.len == self.len
//@end
}
