//@use core geom mem arr slice bcast iter heap kern ops assign fill red redax nest rng
use vstd::arithmetic::mul::*;

// ===================================================================== random values
/// a random generator: an arbitrary source of outcomes
pub struct Rng { pub x: u64 }
/// the outcome of the next draw
pub uninterp spec fn draw(g: Rng) -> int;
/// the generator after a draw
pub uninterp spec fn drawn(g: Rng) -> Rng;
pub open spec fn rng_at(g: Rng, k: int) -> Rng
    decreases k,
{ if k <= 0 { g } else { drawn(rng_at(g, k - 1)) } }
#[verifier::external_body]
pub fn vx_rng() -> (r: Rng) { unimplemented!() }
/// the values lo <= x < hi, one of which each outcome selects (trusted: rand::distributions::Uniform)
pub struct Unif { pub lo: E, pub hi: E }
pub uninterp spec fn unif(lo: E, hi: E, o: int) -> E;
#[verifier::external_body]
pub proof fn axiom_unif(lo: E, hi: E, o: int)
    requires re(lo) < re(hi),
    ensures re(lo) <= re(unif(lo, hi, o)) < re(hi) { }
/// every value of the range is the value of some outcome
#[verifier::external_body]
pub proof fn axiom_unif_all(lo: E, hi: E, x: E)
    requires re(lo) <= re(x) < re(hi),
    ensures exists|o: int| #[trigger] unif(lo, hi, o) == x { }
impl Unif {
    #[verifier::external_body]
    pub fn unif_new(lo: E, hi: E, Ghost(vx_allow): Ghost<bool>) -> (r: Unif)
        requires !(re(lo) < re(hi)) ==> vx_allow,
        ensures r.lo == lo, r.hi == hi, re(lo) < re(hi),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn sample(&self, g: &mut Rng) -> (r: E)
        requires re(self.lo) < re(self.hi),
        ensures r == unif(self.lo, self.hi, draw(*old(g))), *final(g) == drawn(*old(g)),
    { unimplemented!() }
}
/// a floating-point literal, by its bits
pub fn vx_flit(x: u64) -> (r: Fl) ensures r.x == x, { Fl { x } }
pub struct Norm { pub x: u64 }
impl Norm {
    #[verifier::external_body]
    pub fn new(a: Fl, b: Fl) -> (r: Option<Norm>) ensures b.x == 0x3ff0000000000000 ==> r.is_some(), { unimplemented!() }
    #[verifier::external_body]
    pub fn sample(&self, g: &mut Rng) -> (r: E) { unimplemented!() }
}
#[verifier::external_body]
pub fn re_cast(a: E) -> (r: Option<E>) ensures r == Some(a), { unimplemented!() }
#[verifier::external_body]
pub fn re_zero() -> (r: E) ensures re(r) == 0.0real, { unimplemented!() }
/// the least whole number not below e, the greatest one not above it
pub uninterp spec fn ceil_e(e: E) -> E;
pub uninterp spec fn floor_e(e: E) -> E;
pub open spec fn whole(e: E) -> bool { exists|k: int| re(e) == #[trigger] rl(k) }
#[verifier::external_body]
pub proof fn axiom_ceil(e: E) ensures re(ceil_e(e)) == rl(up(re(e))) { }
#[verifier::external_body]
pub proof fn axiom_floor(e: E) ensures re(floor_e(e)) == rl(-up(-re(e))), whole(e) ==> floor_e(e) == e { }
#[verifier::external_body]
pub fn vx_ceil(e: E) -> (r: E) ensures r == ceil_e(e), { unimplemented!() }
#[verifier::external_body]
pub fn vx_floor(e: E) -> (r: E) ensures r == floor_e(e), { unimplemented!() }
#[verifier::external_body]
pub fn vx_lt(a: E, b: E) -> (r: bool) ensures r == (re(a) < re(b)), { unimplemented!() }
pub fn rnd_fcob(shape: Vec<usize>, data: Vec<E>, mem: &mut Mem) -> (r: NdArray)
    requires 0 < prod(shape@) <= isize::MAX, data@.len() == prod(shape@),
    ensures is_new(r, shape@, *old(mem), *final(mem)), forall|k: int| 0 <= k < prod(shape@) ==> #[trigger] final(mem).m()[r.ad(k)] == data@[k],
{
    let r = vx_fcob(shape, vx_to_heap(data, mem));
    r
}
//@sigof rnd_fcob:m unif_new:p
pub open spec fn is_uniform(r: NdArray, lo: E, hi: E, m: Mem) -> bool { forall|k: int| 0 <= k < prod(r.sh()) ==> re(lo) <= re(#[trigger] m.m()[r.ad(k)]) < re(hi) }
//@fn src/common/random.rs :: trait RandomConstructors :: randn
//@sig pub fn randn(shape0: &[usize], mem: &mut Mem) -> (r: NdArray)
//@type Vec<T> => Vec<E>
//@call thread_rng => vx_rng
//@call Normal::new => Norm::new
//@call NumCast::from => re_cast
//@call .sample => sample
//@call Self::from_contiguous_owned_buffer => rnd_fcob
//@requires 0 < prod(shape0@) <= isize::MAX
//@ensures is_new(r, shape0@, *old(mem), *final(mem))
//@start
    let ghost m0 = *mem;
    proof { lemma_pz_prod(shape0@); }
//@loop 0
    invariant vxa0@.len() == vxc0,
//@end
//@fn src/common/random.rs :: trait RandomConstructors :: rand
//@sig pub fn rand(shape0: &[usize], mem: &mut Mem) -> (r: NdArray)
//@call thread_rng => vx_rng
//@call Uniform::new => Unif::unif_new
//@call T::zero => re_zero
//@call T::one => re_one
//@call NumCast::from => re_cast
//@call .sample => sample
//@call Self::from_contiguous_owned_buffer => rnd_fcob
//@requires 0 < prod(shape0@) <= isize::MAX
//@ensures is_new(r, shape0@, *old(mem), *final(mem)), forall|k: int| 0 <= k < prod(shape0@) ==> 0.0real <= re(#[trigger] final(mem).m()[r.ad(k)]) < 1.0real
//@start
    let ghost m0 = *mem;
    proof { lemma_pz_prod(shape0@); }
//@loop 0
    invariant vxa0@.len() == vxc0, forall|k: int| 0 <= k < vxc0 ==> 0.0real <= re(#[trigger] vxa0@[k]) < 1.0real, re(uniform.lo) == 0.0real, re(uniform.hi) == 1.0real,
//@loop 0 start
    proof { axiom_unif(uniform.lo, uniform.hi, draw(rng)); }
//@end
//@fn src/common/random.rs :: trait RandomConstructors :: uniform
//@sig pub fn nd_uniform(shape0: &[usize], low: E, high: E, mem: &mut Mem) -> (r: NdArray)
//@call thread_rng => vx_rng
//@call Uniform::new => Unif::unif_new
//@call NumCast::from => re_cast
//@call .sample => sample
//@call Self::from_contiguous_owned_buffer => rnd_fcob
//@requires 0 < prod(shape0@) <= isize::MAX
//@panics !(re(low) < re(high))
//@ensures is_new(r, shape0@, *old(mem), *final(mem)), forall|k: int| 0 <= k < prod(shape0@) ==> re(low) <= re(#[trigger] final(mem).m()[r.ad(k)]) < re(high)
//@start
    let ghost m0 = *mem;
    proof { lemma_pz_prod(shape0@); }
//@loop 0
    invariant vxa0@.len() == vxc0, forall|k: int| 0 <= k < vxc0 ==> re(low) <= re(#[trigger] vxa0@[k]) < re(high), uniform.lo == low, uniform.hi == high, re(low) < re(high),
//@loop 0 start
    proof { axiom_unif(uniform.lo, uniform.hi, draw(rng)); }
//@end
/// the integer each outcome gives lies in the range, and every integer of the range is given by some outcome
pub open spec fn int_in(e: E, low: E, high: E) -> bool { whole(e) && re(low) <= re(e) < re(high) }
pub open spec fn randint_of(low: E, high: E, f: spec_fn(int) -> E) -> bool {
    (forall|o: int| int_in(#[trigger] f(o), low, high)) && (forall|x: E| #[trigger] int_in(x, low, high) ==> exists|o: int| #[trigger] f(o) == x)
}
pub open spec fn is_randint(r: NdArray, low: E, high: E, f: spec_fn(int) -> E, g: Rng, m: Mem) -> bool { randint_of(low, high, f) && forall|k: int| 0 <= k < prod(r.sh()) ==> #[trigger] m.m()[r.ad(k)] == f(draw(rng_at(g, k))) }
pub open spec fn ri(low: E, high: E) -> spec_fn(int) -> E { |o: int| floor_e(unif(ceil_e(low), ceil_e(high), o)) }
pub proof fn lemma_ri(low: E, high: E)
    requires re(ceil_e(low)) < re(ceil_e(high)),
    ensures randint_of(low, high, ri(low, high)),
{
    broadcast use axiom_up;
    axiom_ceil(low); axiom_ceil(high);
    let (a, b) = (up(re(low)), up(re(high)));
    let f = ri(low, high);
    assert forall|o: int| int_in(#[trigger] f(o), low, high) by {
        let x = unif(ceil_e(low), ceil_e(high), o);
        axiom_unif(ceil_e(low), ceil_e(high), o); axiom_floor(x);
        let k = -up(-re(x));
        // k <= x < k + 1
        assert(rl(-k) >= -re(x)); assert(rl(-k - 1) < -re(x));
        assert(rl(k) <= re(x)); assert(rl(k + 1) > re(x));
        assert(rl(k + 1) > rl(a)); assert(k + 1 > a);
        assert(rl(k) < rl(b)); assert(k < b); assert(rl(k) <= rl(b - 1));
        assert(re(f(o)) == rl(k));
    }
    assert forall|x: E| #[trigger] int_in(x, low, high) implies exists|o: int| #[trigger] f(o) == x by {
        let k = choose|k: int| re(x) == #[trigger] rl(k);
        assert(rl(a - 1) < rl(k)); assert(a - 1 < k); assert(rl(a) <= rl(k));
        assert(rl(b) >= re(high)); assert(rl(k) < rl(b));
        axiom_unif_all(ceil_e(low), ceil_e(high), x); axiom_floor(x);
        let o = choose|o: int| #[trigger] unif(ceil_e(low), ceil_e(high), o) == x;
        assert(f(o) == x);
    }
}
pub open spec fn no_whole(low: E, high: E) -> bool { !(re(ceil_e(low)) < re(ceil_e(high))) }
//@fn src/common/random.rs :: trait RandomConstructors :: randint
//@sig pub fn randint(shape0: &[usize], low: E, high: E, mem: &mut Mem) -> (r: NdArray)
//@call thread_rng => vx_rng
//@call Uniform::new => Unif::unif_new
//@call .sample => sample
//@call .ceil => @vx_ceil
//@call .floor => @vx_floor
//@call op< => vx_lt
//@call Self::from_contiguous_owned_buffer => rnd_fcob
//@requires 0 < prod(shape0@) <= isize::MAX
//@panics !(re(low) < re(high)) || no_whole(low, high)
//@ensures is_new(r, shape0@, *old(mem), *final(mem)), exists|f: spec_fn(int) -> E, g: Rng| #[trigger] is_randint(r, low, high, f, g, *final(mem))
//@start
    let ghost m0 = *mem;
    proof { lemma_pz_prod(shape0@); }
//@after rng
    let ghost g0 = rng;
//@loop 0 before
    proof { lemma_ri(low, high); }
//@loop 0
    invariant vxa0@.len() == vxc0, rng == rng_at(g0, vxc0 as int), forall|k: int| 0 <= k < vxc0 ==> #[trigger] vxa0@[k] == ri(low, high)(draw(rng_at(g0, k))), uniform.lo == ceil_e(low), uniform.hi == ceil_e(high), re(uniform.lo) < re(uniform.hi),
//@ret
    proof { assert forall|k: int| 0 <= k < prod(shape0@) implies #[trigger] mem.m()[vx_ret.ad(k)] == ri(low, high)(draw(rng_at(g0, k))) by {} assert(is_randint(vx_ret, low, high, ri(low, high), g0, *mem)); }
//@end
