//@use core
// ===================================================================== elements: an arbitrary type with arbitrary total operators
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct E { x: u64 }

// ===================================================================== memory: element addresses and their contents
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Ptr { x: u64 }
impl Ptr {
    pub uninterp spec fn a(self) -> int;
    #[verifier::external_body]
    pub fn add(self, n: usize) -> (r: Ptr) ensures r.a() == self.a() + n, { unimplemented!() }
    #[verifier::external_body]
    pub fn offset(self, n: isize) -> (r: Ptr) ensures r.a() == self.a() + n, { unimplemented!() }
}
#[verifier::external_body]
pub struct Mem { x: u64 }
impl Mem {
    /// contents of every element cell that can be read
    pub uninterp spec fn m(&self) -> Map<int, E>;
    /// heap buffers: address -> capacity
    pub uninterp spec fn blocks(&self) -> Map<int, int>;
    #[verifier::external_body]
    pub fn rd(&self, p: Ptr) -> (r: E)
        requires self.m().contains_key(p.a()),
        ensures r == self.m()[p.a()],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn wr(&mut self, p: Ptr, v: E)
        requires old(self).m().contains_key(p.a()),
        ensures final(self).m() == old(self).m().insert(p.a(), v), final(self).blocks() == old(self).blocks(),
    { unimplemented!() }
    /// the address of a local variable holding v: memory of its own
    #[verifier::external_body]
    pub fn addr_of(&mut self, v: E) -> (r: Ptr)
        ensures !old(self).m().contains_key(r.a()), final(self).m() == old(self).m().insert(r.a(), v), final(self).blocks() == old(self).blocks(),
    { unimplemented!() }
    /// std::ptr::copy_nonoverlapping
    #[verifier::external_body]
    pub fn copy(&mut self, src: Ptr, dst: Ptr, n: usize)
        requires forall|i: int| 0 <= i < n ==> old(self).m().contains_key(#[trigger] (src.a() + i)), forall|i: int| 0 <= i < n ==> old(self).m().contains_key(#[trigger] (dst.a() + i)),
            src.a() + n <= dst.a() || dst.a() + n <= src.a(),
        ensures final(self).blocks() == old(self).blocks(), final(self).m().dom() == old(self).m().dom(),
            forall|x: int| #[trigger] final(self).m()[x] == (if dst.a() <= x < dst.a() + n { old(self).m()[src.a() + (x - dst.a())] } else { old(self).m()[x] }),
    { unimplemented!() }
}
/// std::ptr::copy_nonoverlapping
pub fn vx_copy(src: Ptr, dst: Ptr, n: usize, mem: &mut Mem)
    requires forall|i: int| 0 <= i < n ==> old(mem).m().contains_key(#[trigger] (src.a() + i)), forall|i: int| 0 <= i < n ==> old(mem).m().contains_key(#[trigger] (dst.a() + i)),
        src.a() + n <= dst.a() || dst.a() + n <= src.a(),
    ensures final(mem).blocks() == old(mem).blocks(), final(mem).m().dom() == old(mem).m().dom(),
        forall|x: int| #[trigger] final(mem).m()[x] == (if dst.a() <= x < dst.a() + n { old(mem).m()[src.a() + (x - dst.a())] } else { old(mem).m()[x] }),
{ mem.copy(src, dst, n); }
/// everything readable before is readable now, with the same value
pub open spec fn grew(a: Mem, b: Mem) -> bool {
    (forall|x: int| #[trigger] a.m().contains_key(x) ==> b.m().contains_key(x)) && (forall|x: int| a.m().contains_key(x) ==> #[trigger] b.m()[x] == a.m()[x])
    && (forall|p: int| #[trigger] a.blocks().contains_key(p) ==> b.blocks().contains_key(p) && b.blocks()[p] == a.blocks()[p])
}
/// the n cells from p on are new in b
pub open spec fn fresh(a: Mem, b: Mem, p: int, n: int) -> bool {
    forall|x: int| p <= x < p + n ==> !(#[trigger] a.m().contains_key(x)) && b.m().contains_key(x)
}

// ===================================================================== Vec<T>: a heap buffer
pub struct VecE { pub ptr: Ptr, pub len: usize, pub cap: usize }
impl VecE {
    pub open spec fn ok(&self, mem: Mem) -> bool {
        self.len <= self.cap && mem.blocks().contains_key(self.ptr.a()) && mem.blocks()[self.ptr.a()] == self.cap
        && forall|x: int| self.ptr.a() <= x < self.ptr.a() + self.cap ==> #[trigger] mem.m().contains_key(x)
    }
    /// (the contents of cells that were not written are arbitrary)
    #[verifier::external_body]
    pub fn with_capacity(n: usize, mem: &mut Mem) -> (r: VecE)
        requires n <= isize::MAX,
        ensures r.ok(*final(mem)), r.len == 0, r.cap >= n, grew(*old(mem), *final(mem)), fresh(*old(mem), *final(mem), r.ptr.a(), r.cap as int), !old(mem).blocks().contains_key(r.ptr.a()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn filled(v: E, n: usize, mem: &mut Mem) -> (r: VecE)
        requires n <= isize::MAX,
        ensures r.ok(*final(mem)), r.len == n, r.cap >= n, grew(*old(mem), *final(mem)), fresh(*old(mem), *final(mem), r.ptr.a(), r.cap as int), !old(mem).blocks().contains_key(r.ptr.a()),
            forall|x: int| r.ptr.a() <= x < r.ptr.a() + n ==> #[trigger] final(mem).m()[x] == v,
    { unimplemented!() }
    pub fn as_mut_ptr(&self) -> (r: Ptr) ensures r == self.ptr, { self.ptr }
    pub fn len(&self) -> (r: usize) ensures r == self.len, { self.len }
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.len == 0), { self.len == 0 }
    pub fn capacity(&self) -> (r: usize) ensures r == self.cap, { self.cap }
    pub fn set_len(&mut self, n: usize)
        requires n <= old(self).cap,
        ensures final(self).len == n, final(self).ptr == old(self).ptr, final(self).cap == old(self).cap,
    { self.len = n; }
}
//@call .as_mut_ptr => as_mut_ptr
//@call .set_len => set_len
//@call .capacity => capacity
//@call ManuallyDrop::new => !id
//@call NonNull::new_unchecked => !id
//@call copy_nonoverlapping => vx_copy +mem

/// &[T]: part of a buffer
pub struct SliceE { pub ptr: Ptr, pub len: usize }
/// std::slice::from_raw_parts
pub fn vx_raw_slice(p: Ptr, n: usize, mem: &Mem) -> (r: SliceE)
    requires forall|i: int| 0 <= i < n ==> mem.m().contains_key(#[trigger] (p.a() + i)),
    ensures r.ptr == p, r.len == n,
{ SliceE { ptr: p, len: n } }
/// NumCast::from between element types
pub uninterp spec fn cast(e: E) -> Option<E>;
#[verifier::external_body]
pub fn vx_cast(e: E) -> (r: Option<E>) ensures r == cast(e), { unimplemented!() }
impl E {
    pub uninterp spec fn dflt() -> E;
    #[verifier::external_body]
    pub fn default_value() -> (r: E) ensures r == E::dflt(), { unimplemented!() }
}
