//@use core geom mem arr slice bcast iter heap kern ops assign fill red redax nest
use vstd::arithmetic::mul::*;

// ===================================================================== evenly spaced values
// elements are read as the real numbers they stand for: sums, products and quotients are those of the reals
// (rounding is not modelled), and NumCast gives the number itself
pub uninterp spec fn re(e: E) -> real;
pub open spec fn rl(k: int) -> real { k as real }
pub struct Fl { pub x: u64 }
pub uninterp spec fn fre(f: Fl) -> real;
#[verifier::external_body]
pub fn re_sub(a: E, b: E) -> (r: E) ensures re(r) == re(a) - re(b), { unimplemented!() }
#[verifier::external_body]
pub fn re_add(a: E, b: E) -> (r: E) ensures re(r) == re(a) + re(b), { unimplemented!() }
#[verifier::external_body]
pub fn re_mul(a: E, b: E) -> (r: E) ensures re(r) == re(a) * re(b), { unimplemented!() }
#[verifier::external_body]
pub fn re_div(a: E, b: E) -> (r: E) requires re(b) != 0.0real, ensures re(r) == re(a) / re(b), { unimplemented!() }
#[verifier::external_body]
pub fn re_one() -> (r: E) ensures re(r) == 1.0real, { unimplemented!() }
#[verifier::external_body]
pub fn re_default() -> (r: E) { unimplemented!() }
/// counts that the element type holds exactly
pub uninterp spec fn counts_to(n: int) -> bool;
#[verifier::external_body]
pub fn re_from(i: usize) -> (r: Option<E>) ensures counts_to(i as int) ==> r.is_some() && re(r.unwrap()) == rl(i as int), { unimplemented!() }
#[verifier::external_body]
pub proof fn axiom_counts(n: int, i: int) requires counts_to(n), 0 <= i <= n, ensures counts_to(i) { }
#[verifier::external_body]
pub fn re_to_float(a: E) -> (r: Fl) ensures fre(r) == re(a), { unimplemented!() }
#[verifier::external_body]
pub fn fl_div(a: Fl, b: Fl) -> (r: Fl) requires fre(b) != 0.0real, ensures fre(r) == fre(a) / fre(b), { unimplemented!() }
/// the least whole number not below x
pub uninterp spec fn up(x: real) -> int;
#[verifier::external_body]
pub broadcast proof fn axiom_up(x: real) ensures rl(#[trigger] up(x)) >= x, rl(up(x) - 1) < x { }
impl Fl {
    #[verifier::external_body]
    pub fn ceil(self) -> (r: Fl) ensures fre(r) == rl(up(fre(self))), { unimplemented!() }
}
#[verifier::external_body]
pub fn fl_to_usize(a: Fl) -> (r: Option<usize>) ensures forall|k: int| 0 <= k <= usize::MAX && fre(a) == #[trigger] rl(k) ==> r.is_some() && r.unwrap() == k, { unimplemented!() }
pub broadcast proof fn lemma_one(s: Seq<usize>)
    requires s.len() == 1,
    ensures #[trigger] prod(s) == s[0], s == seq![s[0]],
{ assert(s =~= seq![s[0]]); lemma_single(s[0]); }
/// r: a new one-dimensional array of the n values s, s + d, s + 2 d, ...
pub open spec fn is_range(r: NdArray, s: real, d: real, n: int, m0: Mem, m1: Mem) -> bool {
    is_new(r, seq![n as usize], m0, m1) && r.len == n && forall|k: int| 0 <= k < n ==> re(#[trigger] m1.m()[r.ad(k)]) == s + rl(k) * d
}
//@fn src/common/constructors.rs :: - :: evenly_spaced
//@sig pub fn evenly_spaced(start: E, step: E, n: usize, mem: &mut Mem) -> (r: VecE)
//@flag elem_vec
//@call NumCast::from => re_from
//@call T::default => re_default
//@call op* => re_mul
//@call op+ => re_add
//@requires 0 < n <= isize::MAX, counts_to(n as int)
//@ensures is_newv(r, n as int, *old(mem), *final(mem)), forall|k: int| 0 <= k < n ==> re(#[trigger] final(mem).m()[r.ptr.a() + k]) == re(start) + rl(k) * re(step)
//@start
    let ghost m0 = *mem;
//@loop 0
    invariant vxe0 == n, is_newv(data, n as int, m0, *mem), counts_to(n as int), forall|k: int| 0 <= k < vxc0 ==> re(#[trigger] mem.m()[data.ptr.a() + k]) == re(start) + rl(k) * re(step),
//@loop 0 start
    proof { axiom_counts(n as int, i as int); }
//@end
//@fn src/common/constructors.rs :: trait Constructors :: arange_with_step
//@sig pub fn arange_with_step(start: E, stop: E, step: E, mem: &mut Mem) -> (r: NdArray)
//@type Self => NdArray
//@call NumCast::from => fl_to_usize
//@call .to_float => @re_to_float
//@call .ceil => ceil
//@call op- => re_sub
//@call op/ => fl_div
//@requires re(step) > 0.0real, re(start) < re(stop), up((re(stop) - re(start)) / re(step)) <= isize::MAX, counts_to(up((re(stop) - re(start)) / re(step)))
//@ensures is_range(r, re(start), re(step), r.len as int, *old(mem), *final(mem)), forall|k: int| 0 <= k ==> (k < r.len <==> re(start) + #[trigger] rl(k) * re(step) < re(stop))
//@start
    broadcast use axiom_up; broadcast use lemma_one;
    let ghost m0 = *mem; let ghost (a, b) = (re(stop) - re(start), re(step)); let ghost c = up(a / b);
    proof {
        assert(a / b > 0.0real) by (nonlinear_arith) requires a > 0.0real, b > 0.0real;
        assert(rl(c) > 0.0real);
        assert(c > 0);
    }
//@ret
    proof {
        assert(vx_ret.len == c);
        assert forall|k: int| 0 <= k implies (k < c <==> re(start) + #[trigger] rl(k) * re(step) < re(stop)) by {
            let x = rl(k); let q = a / b;
            if k < c { assert(x <= rl(c - 1)); assert(x < q); assert(x * b < a) by (nonlinear_arith) requires x < a / b, b > 0.0real; }
            else { assert(x >= rl(c)); assert(x >= q); assert(x * b >= a) by (nonlinear_arith) requires x >= a / b, b > 0.0real; }
        }
    }
//@end
//@fn src/common/constructors.rs :: trait Constructors :: arange
//@sig pub fn arange(start: E, stop: E, mem: &mut Mem) -> (r: NdArray)
//@call Self::arange_with_step => arange_with_step
//@call T::one => re_one
//@requires re(start) < re(stop), up((re(stop) - re(start)) / 1.0real) <= isize::MAX, counts_to(up((re(stop) - re(start)) / 1.0real))
//@ensures is_range(r, re(start), 1.0real, r.len as int, *old(mem), *final(mem)), forall|k: int| 0 <= k ==> (k < r.len <==> re(start) + #[trigger] rl(k) < re(stop))
//@end
//@fn src/common/constructors.rs :: trait Constructors :: linspace
//@sig pub fn linspace(start: E, stop: E, num: usize, mem: &mut Mem) -> (r: NdArray)
//@type Self => NdArray
//@flag elem_vec
//@call NumCast::from => re_from
//@call T::one => re_one
//@call op- => re_sub
//@call op/ => re_div
//@requires num <= isize::MAX, counts_to(num as int)
//@panics num == 0
//@ensures is_new(r, seq![num], *old(mem), *final(mem)), r.len == num, re(final(mem).m()[r.ad(0)]) == re(start), num > 1 ==> is_range(r, re(start), (re(stop) - re(start)) / rl(num - 1), num as int, *old(mem), *final(mem)) && re(final(mem).m()[r.ad(num - 1)]) == re(stop)
//@start
    let ghost m0 = *mem;
    broadcast use lemma_one;
//@ret
    proof {
        let x = re(stop) - re(start); let n = rl(num - 1);
        assert(re(mem.m()[vx_ret.ad(num - 1)]) == re(start) + n * (x / n));
        assert(n * (x / n) == x) by (nonlinear_arith) requires n > 0.0real;
        assert(re(mem.m()[vx_ret.ad(0)]) == re(start) + rl(0) * (x / n));
        assert(rl(0) * (x / n) == 0.0real) by (nonlinear_arith);
    }
//@end
//@fn src/common/constructors.rs :: trait Constructors :: linspace_exclusive
//@sig pub fn linspace_exclusive(start: E, stop: E, num: usize, mem: &mut Mem) -> (r: NdArray)
//@type Self => NdArray
//@flag elem_vec
//@call NumCast::from => re_from
//@call T::one => re_one
//@call op- => re_sub
//@call op/ => re_div
//@requires num <= isize::MAX, counts_to(num as int)
//@panics num == 0
//@ensures is_range(r, re(start), (re(stop) - re(start)) / rl(num as int), num as int, *old(mem), *final(mem))
//@start
    let ghost m0 = *mem;
    broadcast use lemma_one;
    proof { let d = (re(stop) - re(start)) / rl(num as int); assert(rl(0) * d == 0.0real) by (nonlinear_arith) requires rl(0) == 0.0real; }
//@end
