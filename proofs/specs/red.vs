//@use core geom mem arr slice bcast iter heap kern ops
use vstd::arithmetic::mul::*;
use vstd::arithmetic::div_mod::*;

// ===================================================================== element arithmetic of reductions
pub uninterp spec fn add_e(a: E, b: E) -> E;
pub uninterp spec fn mul_e(a: E, b: E) -> E;
pub uninterp spec fn abs_e(a: E) -> E;
/// the order of the elements (no NaN; zeros of either sign are the same value)
pub uninterp spec fn rank(a: E) -> int;
#[verifier::external_body]
pub fn vx_add(a: E, b: E) -> (r: E) ensures r == add_e(a, b), add_e(a, b) == add_e(b, a), { unimplemented!() }
#[verifier::external_body]
pub fn vx_mul(a: E, b: E) -> (r: E) ensures r == mul_e(a, b), mul_e(a, b) == mul_e(b, a), { unimplemented!() }
#[verifier::external_body]
pub fn vx_is_less(a: E, b: E) -> (r: bool) ensures r == (rank(a) < rank(b)), rank(a) == rank(b) ==> a == b, { unimplemented!() }
#[verifier::external_body]
pub fn vx_is_greater(a: E, b: E) -> (r: bool) ensures r == (rank(a) > rank(b)), rank(a) == rank(b) ==> a == b, { unimplemented!() }
impl E {
    #[verifier::external_body]
    pub fn vx_abs(self) -> (r: E) ensures r == abs_e(self), { unimplemented!() }
    pub uninterp spec fn zero_() -> E;
    pub uninterp spec fn one_() -> E;
    /// the least and the greatest value of the type (the infinities for floating-point types)
    pub uninterp spec fn least() -> E;
    /// Bounded::min_value: below every magnitude
    pub uninterp spec fn minv() -> E;
    #[verifier::external_body]
    pub fn minv_value() -> (r: E) ensures r == E::minv(), { unimplemented!() }
    pub uninterp spec fn greatest() -> E;
    #[verifier::external_body]
    pub fn zero_value() -> (r: E) ensures r == E::zero_(), { unimplemented!() }
    #[verifier::external_body]
    pub fn one_value() -> (r: E) ensures r == E::one_(), { unimplemented!() }
    #[verifier::external_body]
    pub fn least_value() -> (r: E) ensures r == E::least(), forall|x: E| rank(r) <= #[trigger] rank(x), { unimplemented!() }
    #[verifier::external_body]
    pub fn greatest_value() -> (r: E) ensures r == E::greatest(), forall|x: E| rank(r) >= #[trigger] rank(x), { unimplemented!() }
}
pub open spec fn min_e(a: E, b: E) -> E { if rank(a) < rank(b) { a } else { b } }
pub open spec fn max_e(a: E, b: E) -> E { if rank(a) > rank(b) { a } else { b } }
//@fn src/util/partial_ord.rs :: - :: partial_min
//@sig pub fn partial_min(a: E, b: E) -> (r: E)
//@ensures r == min_e(a, b)
//@end
//@fn src/util/partial_ord.rs :: - :: partial_max
//@sig pub fn partial_max(a: E, b: E) -> (r: E)
//@ensures r == max_e(a, b)
//@end
//@fn src/util/partial_ord.rs :: - :: partial_min_magnitude
//@sig pub fn partial_min_magnitude(val0: E, acc: E) -> (r: E)
//@call .abs => vx_abs
//@ensures r == min_e(abs_e(val0), acc)
//@end
//@fn src/util/partial_ord.rs :: - :: partial_max_magnitude
//@sig pub fn partial_max_magnitude(val0: E, acc: E) -> (r: E)
//@call .abs => vx_abs
//@ensures r == max_e(abs_e(val0), acc)
//@end
/// folding the cells l[0..n] of m, in order
pub open spec fn rfold(f: spec_fn(E, E) -> E, m: Mem, l: Seq<int>, n: int, init: E) -> E
    decreases n,
{ if n <= 0 { init } else { f(m.m()[l[n - 1]], rfold(f, m, l, n - 1, init)) } }
pub open spec fn f_sum() -> spec_fn(E, E) -> E { |v: E, a: E| add_e(a, v) }
pub open spec fn f_product() -> spec_fn(E, E) -> E { |v: E, a: E| mul_e(a, v) }
pub open spec fn f_min() -> spec_fn(E, E) -> E { |v: E, a: E| min_e(v, a) }
pub open spec fn f_max() -> spec_fn(E, E) -> E { |v: E, a: E| max_e(v, a) }
pub open spec fn f_min_magnitude() -> spec_fn(E, E) -> E { |v: E, a: E| min_e(abs_e(v), a) }
pub open spec fn f_max_magnitude() -> spec_fn(E, E) -> E { |v: E, a: E| max_e(abs_e(v), a) }
pub proof fn lemma_rfold_ext(f: spec_fn(E, E) -> E, m: Mem, l: Seq<int>, k: Seq<int>, n: int, init: E)
    requires l =~= k,
    ensures rfold(f, m, l, n, init) == rfold(f, m, k, n, init),
{}
/// the address list of a layout with a uniform stride
pub proof fn lemma_lad_uniform(p: int, sh: Seq<usize>, st: Seq<usize>)
    ensures forall|s: int| #[trigger] uniform(sh, st, s) ==> lad(p, sh, st) == uad(p, s, prod(sh)),
{
    lemma_prod_nonneg(sh);
    let l = lad(p, sh, st);
    assert forall|s: int| #[trigger] uniform(sh, st, s) implies l == uad(p, s, prod(sh)) by {
        assert forall|k: int| 0 <= k < prod(sh) implies #[trigger] l[k] == uad(p, s, prod(sh))[k] by { assert(off(sh, st, k) == k * s); }
        assert(l =~= uad(p, s, prod(sh)));
    }
}
//@fn src/ops/reduce_max.rs :: trait ReduceMax :: max_identity
//@sig pub fn max_identity() -> (r: E)
//@call Self::min_value => E::least_value
//@call =Self::NEG_INFINITY => E::least_value()
//@ensures r == E::least()
//@flag overridden
//@end
//@fn src/ops/reduce_max.rs :: impl ReduceMax for f32 :: max_identity
//@sig pub fn max_identity_f32() -> (r: E)
//@call Self::min_value => E::least_value
//@call =Self::NEG_INFINITY => E::least_value()
//@ensures r == E::least()
//@flag no_vacuity
//@end
//@fn src/ops/reduce_max.rs :: impl ReduceMax for f64 :: max_identity
//@sig pub fn max_identity_f64() -> (r: E)
//@call Self::min_value => E::least_value
//@call =Self::NEG_INFINITY => E::least_value()
//@ensures r == E::least()
//@flag no_vacuity
//@end
//@fn src/ops/reduce_min.rs :: trait ReduceMin :: min_identity
//@sig pub fn min_identity() -> (r: E)
//@call Self::max_value => E::greatest_value
//@call =Self::INFINITY => E::greatest_value()
//@ensures r == E::greatest()
//@flag overridden
//@end
//@fn src/ops/reduce_min.rs :: impl ReduceMin for f32 :: min_identity
//@sig pub fn min_identity_f32() -> (r: E)
//@call Self::max_value => E::greatest_value
//@call =Self::INFINITY => E::greatest_value()
//@ensures r == E::greatest()
//@flag no_vacuity
//@end
//@fn src/ops/reduce_min.rs :: impl ReduceMin for f64 :: min_identity
//@sig pub fn min_identity_f64() -> (r: E)
//@call Self::max_value => E::greatest_value
//@call =Self::INFINITY => E::greatest_value()
//@ensures r == E::greatest()
//@flag no_vacuity
//@end
//@fn src/ops/reduce_min_magnitude.rs :: trait ReduceMinMagnitude :: min_magnitude_identity
//@sig pub fn min_magnitude_identity() -> (r: E)
//@call Self::max_value => E::greatest_value
//@call =Self::INFINITY => E::greatest_value()
//@ensures r == E::greatest()
//@flag overridden
//@end
//@fn src/ops/reduce_min_magnitude.rs :: impl ReduceMinMagnitude for f32 :: min_magnitude_identity
//@sig pub fn min_magnitude_identity_f32() -> (r: E)
//@call Self::max_value => E::greatest_value
//@call =Self::INFINITY => E::greatest_value()
//@ensures r == E::greatest()
//@flag no_vacuity
//@end
//@fn src/ops/reduce_min_magnitude.rs :: impl ReduceMinMagnitude for f64 :: min_magnitude_identity
//@sig pub fn min_magnitude_identity_f64() -> (r: E)
//@call Self::max_value => E::greatest_value
//@call =Self::INFINITY => E::greatest_value()
//@ensures r == E::greatest()
//@flag no_vacuity
//@end

pub struct ReduceSum { }
impl ReduceSum {
//@fn src/ops/reduce_sum.rs :: trait ReduceSum :: sum_uniform_stride
//@sig pub fn sum_uniform_stride(ptr0: Ptr, count: usize, stride: usize, mem: &Mem) -> (r: E)
//@sigof sum_uniform_stride:m
//@call op+ => vx_add
//@call Self::zero => E::zero_value
//@call !overrides => ReduceSum/sum
//@requires reads(*mem, uad(ptr0.a(), stride as int, count as int))
//@ensures r == rfold(f_sum(), *mem, uad(ptr0.a(), stride as int, count as int), count as int, E::zero_())
//@start
    let ghost (p, s, n) = (ptr0.a(), stride as int, count as int); let ghost l = uad(p, s, n);
//@loop 0
    invariant output == rfold(f_sum(), *mem, l, vxc0 as int, E::zero_()), ptr.a() == p + vxc0 * s, s == stride, n == count, l == uad(p, s, n), reads(*mem, l), p == ptr0.a(),
//@loop 0 start
    let ghost i = vxc0 - 1;
    proof { assert(ptr.a() == l[i]); assert(mem.m().contains_key(l[i])); assert((i + 1) * s == i * s + s) by (nonlinear_arith); }
//@end
//@fn src/ops/reduce_sum.rs :: trait ReduceSum :: sum_contiguous
//@sig pub fn sum_contiguous(ptr: Ptr, count: usize, mem: &Mem) -> (r: E)
//@sigof sum_contiguous:m
//@call !overrides => ReduceSum/sum
//@requires reads(*mem, uad(ptr.a(), 1, count as int))
//@ensures r == rfold(f_sum(), *mem, uad(ptr.a(), 1, count as int), count as int, E::zero_())
//@end
//@fn src/ops/reduce_sum.rs :: trait ReduceSum :: sum
//@sig pub fn sum_raw(ptr: Ptr, shape: &[usize], stride0: &[usize], mem: &Mem) -> (r: E)
//@sigof sum_raw:m
//@call op+ => vx_add
//@call Self::zero => E::zero_value
//@call !overrides => ReduceSum/sum
//@requires wfl(shape@, stride0@), shape@.len() <= MAX_DIMS, reads(*mem, lad(ptr.a(), shape@, stride0@))
//@ensures r == rfold(f_sum(), *mem, lad(ptr.a(), shape@, stride0@), prod(shape@), E::zero_())
//@start
    let ghost (p, sh, st) = (ptr.a(), shape@, stride0@); let ghost l = lad(p, sh, st); let ghost n = prod(sh);
    proof { lemma_wfl(sh, st); lemma_pz_prod(sh); lemma_lad_uniform(p, sh, st); }
//@loop 0 before
    let ghost g0 = vxg0a;
//@loop 0
    invariant output == rfold(f_sum(), *mem, l, vxg0a.pos(), E::zero_()), vxg0a.ok(), vxg0a.same(&g0), vxg0a.cnt() == n, l == lad(p, sh, st), reads(*mem, l), p == ptr.a(), n == prod(sh),
    decreases n - vxg0a.pos(),
//@loop 0 start
    proof { let i = vxg0a.pos() - 1; assert(g0.at(i) == off(sh, st, i)); assert(p + index == l[i]); assert(mem.m().contains_key(l[i])); }
//@end
}

pub struct ReduceProduct { }
impl ReduceProduct {
//@fn src/ops/reduce_product.rs :: trait ReduceProduct :: product_uniform_stride
//@sig pub fn product_uniform_stride(ptr0: Ptr, count: usize, stride: usize, mem: &Mem) -> (r: E)
//@sigof product_uniform_stride:m
//@call op* => vx_mul
//@call Self::one => E::one_value
//@call !overrides => ReduceProduct/product
//@requires reads(*mem, uad(ptr0.a(), stride as int, count as int))
//@ensures r == rfold(f_product(), *mem, uad(ptr0.a(), stride as int, count as int), count as int, E::one_())
//@start
    let ghost (p, s, n) = (ptr0.a(), stride as int, count as int); let ghost l = uad(p, s, n);
//@loop 0
    invariant output == rfold(f_product(), *mem, l, vxc0 as int, E::one_()), ptr.a() == p + vxc0 * s, s == stride, n == count, l == uad(p, s, n), reads(*mem, l), p == ptr0.a(),
//@loop 0 start
    let ghost i = vxc0 - 1;
    proof { assert(ptr.a() == l[i]); assert(mem.m().contains_key(l[i])); assert((i + 1) * s == i * s + s) by (nonlinear_arith); }
//@end
//@fn src/ops/reduce_product.rs :: trait ReduceProduct :: product_contiguous
//@sig pub fn product_contiguous(ptr: Ptr, count: usize, mem: &Mem) -> (r: E)
//@sigof product_contiguous:m
//@call !overrides => ReduceProduct/product
//@requires reads(*mem, uad(ptr.a(), 1, count as int))
//@ensures r == rfold(f_product(), *mem, uad(ptr.a(), 1, count as int), count as int, E::one_())
//@end
//@fn src/ops/reduce_product.rs :: trait ReduceProduct :: product
//@sig pub fn product_raw(ptr: Ptr, shape: &[usize], stride0: &[usize], mem: &Mem) -> (r: E)
//@sigof product_raw:m
//@call op* => vx_mul
//@call Self::one => E::one_value
//@call !overrides => ReduceProduct/product
//@requires wfl(shape@, stride0@), shape@.len() <= MAX_DIMS, reads(*mem, lad(ptr.a(), shape@, stride0@))
//@ensures r == rfold(f_product(), *mem, lad(ptr.a(), shape@, stride0@), prod(shape@), E::one_())
//@start
    let ghost (p, sh, st) = (ptr.a(), shape@, stride0@); let ghost l = lad(p, sh, st); let ghost n = prod(sh);
    proof { lemma_wfl(sh, st); lemma_pz_prod(sh); lemma_lad_uniform(p, sh, st); }
//@loop 0 before
    let ghost g0 = vxg0a;
//@loop 0
    invariant output == rfold(f_product(), *mem, l, vxg0a.pos(), E::one_()), vxg0a.ok(), vxg0a.same(&g0), vxg0a.cnt() == n, l == lad(p, sh, st), reads(*mem, l), p == ptr.a(), n == prod(sh),
    decreases n - vxg0a.pos(),
//@loop 0 start
    proof { let i = vxg0a.pos() - 1; assert(g0.at(i) == off(sh, st, i)); assert(p + index == l[i]); assert(mem.m().contains_key(l[i])); }
//@end
}

pub struct ReduceMin { }
impl ReduceMin {
//@fn src/ops/reduce_min.rs :: trait ReduceMin :: min_uniform_stride
//@sig pub fn min_uniform_stride(ptr0: Ptr, count: usize, stride: usize, mem: &Mem) -> (r: E)
//@sigof min_uniform_stride:m
//@call Self::min_identity => min_identity
//@call !overrides => ReduceMin/min
//@requires reads(*mem, uad(ptr0.a(), stride as int, count as int))
//@ensures r == rfold(f_min(), *mem, uad(ptr0.a(), stride as int, count as int), count as int, E::greatest())
//@start
    let ghost (p, s, n) = (ptr0.a(), stride as int, count as int); let ghost l = uad(p, s, n);
//@loop 0
    invariant output == rfold(f_min(), *mem, l, vxc0 as int, E::greatest()), ptr.a() == p + vxc0 * s, s == stride, n == count, l == uad(p, s, n), reads(*mem, l), p == ptr0.a(),
//@loop 0 start
    let ghost i = vxc0 - 1;
    proof { assert(ptr.a() == l[i]); assert(mem.m().contains_key(l[i])); assert((i + 1) * s == i * s + s) by (nonlinear_arith); }
//@end
//@fn src/ops/reduce_min.rs :: trait ReduceMin :: min_contiguous
//@sig pub fn min_contiguous(ptr: Ptr, count: usize, mem: &Mem) -> (r: E)
//@sigof min_contiguous:m
//@call !overrides => ReduceMin/min
//@requires reads(*mem, uad(ptr.a(), 1, count as int))
//@ensures r == rfold(f_min(), *mem, uad(ptr.a(), 1, count as int), count as int, E::greatest())
//@end
//@fn src/ops/reduce_min.rs :: trait ReduceMin :: min
//@sig pub fn min_raw(ptr: Ptr, shape: &[usize], stride0: &[usize], mem: &Mem) -> (r: E)
//@sigof min_raw:m
//@call Self::min_identity => min_identity
//@call !overrides => ReduceMin/min
//@requires wfl(shape@, stride0@), shape@.len() <= MAX_DIMS, reads(*mem, lad(ptr.a(), shape@, stride0@))
//@ensures r == rfold(f_min(), *mem, lad(ptr.a(), shape@, stride0@), prod(shape@), E::greatest())
//@start
    let ghost (p, sh, st) = (ptr.a(), shape@, stride0@); let ghost l = lad(p, sh, st); let ghost n = prod(sh);
    proof { lemma_wfl(sh, st); lemma_pz_prod(sh); lemma_lad_uniform(p, sh, st); }
//@loop 0 before
    let ghost g0 = vxg0a;
//@loop 0
    invariant output == rfold(f_min(), *mem, l, vxg0a.pos(), E::greatest()), vxg0a.ok(), vxg0a.same(&g0), vxg0a.cnt() == n, l == lad(p, sh, st), reads(*mem, l), p == ptr.a(), n == prod(sh),
    decreases n - vxg0a.pos(),
//@loop 0 start
    proof { let i = vxg0a.pos() - 1; assert(g0.at(i) == off(sh, st, i)); assert(p + index == l[i]); assert(mem.m().contains_key(l[i])); }
//@end
}

pub struct ReduceMax { }
impl ReduceMax {
//@fn src/ops/reduce_max.rs :: trait ReduceMax :: max_uniform_stride
//@sig pub fn max_uniform_stride(ptr0: Ptr, count: usize, stride: usize, mem: &Mem) -> (r: E)
//@sigof max_uniform_stride:m
//@call Self::max_identity => max_identity
//@call !overrides => ReduceMax/max
//@requires reads(*mem, uad(ptr0.a(), stride as int, count as int))
//@ensures r == rfold(f_max(), *mem, uad(ptr0.a(), stride as int, count as int), count as int, E::least())
//@start
    let ghost (p, s, n) = (ptr0.a(), stride as int, count as int); let ghost l = uad(p, s, n);
//@loop 0
    invariant output == rfold(f_max(), *mem, l, vxc0 as int, E::least()), ptr.a() == p + vxc0 * s, s == stride, n == count, l == uad(p, s, n), reads(*mem, l), p == ptr0.a(),
//@loop 0 start
    let ghost i = vxc0 - 1;
    proof { assert(ptr.a() == l[i]); assert(mem.m().contains_key(l[i])); assert((i + 1) * s == i * s + s) by (nonlinear_arith); }
//@end
//@fn src/ops/reduce_max.rs :: trait ReduceMax :: max_contiguous
//@sig pub fn max_contiguous(ptr: Ptr, count: usize, mem: &Mem) -> (r: E)
//@sigof max_contiguous:m
//@call !overrides => ReduceMax/max
//@requires reads(*mem, uad(ptr.a(), 1, count as int))
//@ensures r == rfold(f_max(), *mem, uad(ptr.a(), 1, count as int), count as int, E::least())
//@end
//@fn src/ops/reduce_max.rs :: trait ReduceMax :: max
//@sig pub fn max_raw(ptr: Ptr, shape: &[usize], stride0: &[usize], mem: &Mem) -> (r: E)
//@sigof max_raw:m
//@call Self::max_identity => max_identity
//@call !overrides => ReduceMax/max
//@requires wfl(shape@, stride0@), shape@.len() <= MAX_DIMS, reads(*mem, lad(ptr.a(), shape@, stride0@))
//@ensures r == rfold(f_max(), *mem, lad(ptr.a(), shape@, stride0@), prod(shape@), E::least())
//@start
    let ghost (p, sh, st) = (ptr.a(), shape@, stride0@); let ghost l = lad(p, sh, st); let ghost n = prod(sh);
    proof { lemma_wfl(sh, st); lemma_pz_prod(sh); lemma_lad_uniform(p, sh, st); }
//@loop 0 before
    let ghost g0 = vxg0a;
//@loop 0
    invariant output == rfold(f_max(), *mem, l, vxg0a.pos(), E::least()), vxg0a.ok(), vxg0a.same(&g0), vxg0a.cnt() == n, l == lad(p, sh, st), reads(*mem, l), p == ptr.a(), n == prod(sh),
    decreases n - vxg0a.pos(),
//@loop 0 start
    proof { let i = vxg0a.pos() - 1; assert(g0.at(i) == off(sh, st, i)); assert(p + index == l[i]); assert(mem.m().contains_key(l[i])); }
//@end
}

pub struct ReduceMinMagnitude { }
impl ReduceMinMagnitude {
//@fn src/ops/reduce_min_magnitude.rs :: trait ReduceMinMagnitude :: min_magnitude_uniform_stride
//@sig pub fn min_magnitude_uniform_stride(ptr0: Ptr, count: usize, stride: usize, mem: &Mem) -> (r: E)
//@sigof min_magnitude_uniform_stride:m
//@call Self::min_magnitude_identity => min_magnitude_identity
//@call !overrides => ReduceMinMagnitude/min_magnitude
//@requires reads(*mem, uad(ptr0.a(), stride as int, count as int))
//@ensures r == rfold(f_min_magnitude(), *mem, uad(ptr0.a(), stride as int, count as int), count as int, E::greatest())
//@start
    let ghost (p, s, n) = (ptr0.a(), stride as int, count as int); let ghost l = uad(p, s, n);
//@loop 0
    invariant output == rfold(f_min_magnitude(), *mem, l, vxc0 as int, E::greatest()), ptr.a() == p + vxc0 * s, s == stride, n == count, l == uad(p, s, n), reads(*mem, l), p == ptr0.a(),
//@loop 0 start
    let ghost i = vxc0 - 1;
    proof { assert(ptr.a() == l[i]); assert(mem.m().contains_key(l[i])); assert((i + 1) * s == i * s + s) by (nonlinear_arith); }
//@end
//@fn src/ops/reduce_min_magnitude.rs :: trait ReduceMinMagnitude :: min_magnitude_contiguous
//@sig pub fn min_magnitude_contiguous(ptr: Ptr, count: usize, mem: &Mem) -> (r: E)
//@sigof min_magnitude_contiguous:m
//@call !overrides => ReduceMinMagnitude/min_magnitude
//@requires reads(*mem, uad(ptr.a(), 1, count as int))
//@ensures r == rfold(f_min_magnitude(), *mem, uad(ptr.a(), 1, count as int), count as int, E::greatest())
//@end
//@fn src/ops/reduce_min_magnitude.rs :: trait ReduceMinMagnitude :: min_magnitude
//@sig pub fn min_magnitude_raw(ptr: Ptr, shape: &[usize], stride0: &[usize], mem: &Mem) -> (r: E)
//@sigof min_magnitude_raw:m
//@call Self::min_magnitude_identity => min_magnitude_identity
//@call !overrides => ReduceMinMagnitude/min_magnitude
//@requires wfl(shape@, stride0@), shape@.len() <= MAX_DIMS, reads(*mem, lad(ptr.a(), shape@, stride0@))
//@ensures r == rfold(f_min_magnitude(), *mem, lad(ptr.a(), shape@, stride0@), prod(shape@), E::greatest())
//@start
    let ghost (p, sh, st) = (ptr.a(), shape@, stride0@); let ghost l = lad(p, sh, st); let ghost n = prod(sh);
    proof { lemma_wfl(sh, st); lemma_pz_prod(sh); lemma_lad_uniform(p, sh, st); }
//@loop 0 before
    let ghost g0 = vxg0a;
//@loop 0
    invariant output == rfold(f_min_magnitude(), *mem, l, vxg0a.pos(), E::greatest()), vxg0a.ok(), vxg0a.same(&g0), vxg0a.cnt() == n, l == lad(p, sh, st), reads(*mem, l), p == ptr.a(), n == prod(sh),
    decreases n - vxg0a.pos(),
//@loop 0 start
    proof { let i = vxg0a.pos() - 1; assert(g0.at(i) == off(sh, st, i)); assert(p + index == l[i]); assert(mem.m().contains_key(l[i])); }
//@end
}

pub struct ReduceMaxMagnitude { }
impl ReduceMaxMagnitude {
//@fn src/ops/reduce_max_magnitude.rs :: trait ReduceMaxMagnitude :: max_magnitude_uniform_stride
//@sig pub fn max_magnitude_uniform_stride(ptr0: Ptr, count: usize, stride: usize, mem: &Mem) -> (r: E)
//@sigof max_magnitude_uniform_stride:m
//@call Self::min_value => E::minv_value
//@call !overrides => ReduceMaxMagnitude/max_magnitude
//@requires reads(*mem, uad(ptr0.a(), stride as int, count as int))
//@ensures r == rfold(f_max_magnitude(), *mem, uad(ptr0.a(), stride as int, count as int), count as int, E::minv())
//@start
    let ghost (p, s, n) = (ptr0.a(), stride as int, count as int); let ghost l = uad(p, s, n);
//@loop 0
    invariant output == rfold(f_max_magnitude(), *mem, l, vxc0 as int, E::minv()), ptr.a() == p + vxc0 * s, s == stride, n == count, l == uad(p, s, n), reads(*mem, l), p == ptr0.a(),
//@loop 0 start
    let ghost i = vxc0 - 1;
    proof { assert(ptr.a() == l[i]); assert(mem.m().contains_key(l[i])); assert((i + 1) * s == i * s + s) by (nonlinear_arith); }
//@end
//@fn src/ops/reduce_max_magnitude.rs :: trait ReduceMaxMagnitude :: max_magnitude_contiguous
//@sig pub fn max_magnitude_contiguous(ptr: Ptr, count: usize, mem: &Mem) -> (r: E)
//@sigof max_magnitude_contiguous:m
//@call !overrides => ReduceMaxMagnitude/max_magnitude
//@requires reads(*mem, uad(ptr.a(), 1, count as int))
//@ensures r == rfold(f_max_magnitude(), *mem, uad(ptr.a(), 1, count as int), count as int, E::minv())
//@end
//@fn src/ops/reduce_max_magnitude.rs :: trait ReduceMaxMagnitude :: max_magnitude
//@sig pub fn max_magnitude_raw(ptr: Ptr, shape: &[usize], stride0: &[usize], mem: &Mem) -> (r: E)
//@sigof max_magnitude_raw:m
//@call Self::min_value => E::minv_value
//@call !overrides => ReduceMaxMagnitude/max_magnitude
//@requires wfl(shape@, stride0@), shape@.len() <= MAX_DIMS, reads(*mem, lad(ptr.a(), shape@, stride0@))
//@ensures r == rfold(f_max_magnitude(), *mem, lad(ptr.a(), shape@, stride0@), prod(shape@), E::minv())
//@start
    let ghost (p, sh, st) = (ptr.a(), shape@, stride0@); let ghost l = lad(p, sh, st); let ghost n = prod(sh);
    proof { lemma_wfl(sh, st); lemma_pz_prod(sh); lemma_lad_uniform(p, sh, st); }
//@loop 0 before
    let ghost g0 = vxg0a;
//@loop 0
    invariant output == rfold(f_max_magnitude(), *mem, l, vxg0a.pos(), E::minv()), vxg0a.ok(), vxg0a.same(&g0), vxg0a.cnt() == n, l == lad(p, sh, st), reads(*mem, l), p == ptr.a(), n == prod(sh),
    decreases n - vxg0a.pos(),
//@loop 0 start
    proof { let i = vxg0a.pos() - 1; assert(g0.at(i) == off(sh, st, i)); assert(p + index == l[i]); assert(mem.m().contains_key(l[i])); }
//@end
}

// ===================================================================== whole-array reductions
/// r: a new zero-dimensional array holding v
pub open spec fn is_scalar(r: NdArray, v: E, m0: Mem, m1: Mem) -> bool { is_new(r, Seq::<usize>::empty(), m0, m1) && m1.m()[r.ad(0)] == v }
pub open spec fn is_full(r: NdArray, sh: Seq<usize>, v: E, m0: Mem, m1: Mem) -> bool { is_new(r, sh, m0, m1) && forall|k: int| 0 <= k < prod(sh) ==> #[trigger] m1.m()[r.ad(k)] == v }
//@fn src/common/constructors.rs :: trait Constructors :: full
//@sig pub fn nd_full(n: E, shape0: &[usize], mem: &mut Mem) -> (r: NdArray)
//@flag elem_vec
//@type Self => NdArray
//@requires pz(shape0@) <= isize::MAX
//@panics prod(shape0@) == 0
//@ensures is_full(r, shape0@, n, *old(mem), *final(mem)), prod(shape0@) > 0
//@start
    let ghost m0 = *mem;
    proof { lemma_prod_nonneg(shape0@); if prod(shape0@) > 0 { lemma_pz_prod(shape0@); } }
//@end
//@fn src/common/constructors.rs :: trait Constructors :: scalar
//@sig pub fn nd_scalar(n: E, mem: &mut Mem) -> (r: NdArray)
//@call Self::full => nd_full
//@ensures is_scalar(r, n, *old(mem), *final(mem))
//@start
    proof { assert(prod(Seq::<usize>::empty()) == 1); assert(pz(Seq::<usize>::empty()) == 1); }
//@ret
    proof { assert(vx_ret.sh() =~= Seq::<usize>::empty()); }
//@end
/// the fold over the elements of a, in row-major order
pub open spec fn fold_of(f: spec_fn(E, E) -> E, a: NdArray, m: Mem, init: E) -> E { rfold(f, m, lad(a.ptr.a(), a.sh(), a.st()), prod(a.sh()), init) }

/// the least / greatest of the values w[0..n]
pub open spec fn least_of(r: E, w: Seq<E>) -> bool { w.contains(r) && forall|k: int| 0 <= k < w.len() ==> rank(r) <= rank(#[trigger] w[k]) }
pub open spec fn greatest_of(r: E, w: Seq<E>) -> bool { w.contains(r) && forall|k: int| 0 <= k < w.len() ==> rank(r) >= rank(#[trigger] w[k]) }
pub open spec fn vals(a: NdArray, m: Mem) -> Seq<E> { Seq::new(prod(a.sh()) as nat, |k: int| m.m()[a.ad(k)]) }
pub open spec fn mags(a: NdArray, m: Mem) -> Seq<E> { Seq::new(prod(a.sh()) as nat, |k: int| abs_e(m.m()[a.ad(k)])) }
/// folding with min / max (of g applied to each cell) gives the least / greatest value
pub proof fn lemma_fold_min(f: spec_fn(E, E) -> E, w: Seq<E>, m: Mem, l: Seq<int>, n: int, init: E)
    requires 0 <= n <= w.len(), forall|k: int, a: E| 0 <= k < w.len() ==> #[trigger] f(m.m()[l[k]], a) == min_e(w[k], a), forall|k: int| 0 <= k < w.len() ==> rank(init) >= rank(#[trigger] w[k]),
    ensures n == 0 ==> rfold(f, m, l, n, init) == init, n > 0 ==> w.subrange(0, n).contains(rfold(f, m, l, n, init)) || rfold(f, m, l, n, init) == init && rank(w[0]) == rank(init), forall|k: int| 0 <= k < n ==> rank(rfold(f, m, l, n, init)) <= rank(#[trigger] w[k]),
    decreases n,
{
    if n > 0 {
        lemma_fold_min(f, w, m, l, n - 1, init);
        let a = rfold(f, m, l, n - 1, init); let r = rfold(f, m, l, n, init);
        assert(r == min_e(w[n - 1], a));
        let (u, v) = (w.subrange(0, n - 1), w.subrange(0, n));
        if r == w[n - 1] { assert(v[n - 1] == r); }
        else if n - 1 > 0 && u.contains(a) { let k = choose|k: int| 0 <= k < u.len() && u[k] == a; assert(v[k] == a); }
        else { assert(a == init); assert(rank(w[0]) <= rank(init)); if n - 1 == 0 { assert(rank(w[0]) >= rank(init)); } }
    }
}
pub proof fn lemma_fold_max(f: spec_fn(E, E) -> E, w: Seq<E>, m: Mem, l: Seq<int>, n: int, init: E)
    requires 0 <= n <= w.len(), forall|k: int, a: E| 0 <= k < w.len() ==> #[trigger] f(m.m()[l[k]], a) == max_e(w[k], a), forall|k: int| 0 <= k < w.len() ==> rank(init) <= rank(#[trigger] w[k]),
    ensures n == 0 ==> rfold(f, m, l, n, init) == init, n > 0 ==> w.subrange(0, n).contains(rfold(f, m, l, n, init)) || rfold(f, m, l, n, init) == init && rank(w[0]) == rank(init), forall|k: int| 0 <= k < n ==> rank(rfold(f, m, l, n, init)) >= rank(#[trigger] w[k]),
    decreases n,
{
    if n > 0 {
        lemma_fold_max(f, w, m, l, n - 1, init);
        let a = rfold(f, m, l, n - 1, init); let r = rfold(f, m, l, n, init);
        assert(r == max_e(w[n - 1], a));
        let (u, v) = (w.subrange(0, n - 1), w.subrange(0, n));
        if r == w[n - 1] { assert(v[n - 1] == r); }
        else if n - 1 > 0 && u.contains(a) { let k = choose|k: int| 0 <= k < u.len() && u[k] == a; assert(v[k] == a); }
        else { assert(a == init); assert(rank(w[0]) >= rank(init)); if n - 1 == 0 { assert(rank(w[0]) <= rank(init)); } }
    }
}
/// values of equal rank are the same value
#[verifier::external_body]
pub proof fn axiom_rank(a: E, b: E) ensures rank(a) == rank(b) ==> a == b, { unimplemented!() }
#[verifier::external_body]
pub proof fn axiom_extremes() ensures forall|x: E| rank(E::least()) <= #[trigger] rank(x) <= rank(E::greatest()), forall|x: E| rank(E::minv()) <= #[trigger] rank(abs_e(x)), forall|x: E| rank(E::zero_()) <= #[trigger] rank(abs_e(x)), { unimplemented!() }
pub proof fn lemma_min_of(f: spec_fn(E, E) -> E, a: NdArray, w: Seq<E>, m: Mem)
    requires w.len() == prod(a.sh()) > 0, forall|k: int, c: E| 0 <= k < w.len() ==> #[trigger] f(m.m()[lad(a.ptr.a(), a.sh(), a.st())[k]], c) == min_e(w[k], c),
    ensures least_of(fold_of(f, a, m, E::greatest()), w),
{
    axiom_extremes();
    let l = lad(a.ptr.a(), a.sh(), a.st()); let r = rfold(f, m, l, w.len() as int, E::greatest());
    lemma_fold_min(f, w, m, l, w.len() as int, E::greatest());
    assert(w.subrange(0, w.len() as int) =~= w);
    axiom_rank(w[0], r);
    assert(w.contains(w[0]));
}
pub proof fn lemma_max_of(f: spec_fn(E, E) -> E, a: NdArray, w: Seq<E>, m: Mem, init: E)
    requires forall|k: int| 0 <= k < w.len() ==> rank(init) <= rank(#[trigger] w[k]), w.len() == prod(a.sh()) > 0, forall|k: int, c: E| 0 <= k < w.len() ==> #[trigger] f(m.m()[lad(a.ptr.a(), a.sh(), a.st())[k]], c) == max_e(w[k], c),
    ensures greatest_of(fold_of(f, a, m, init), w),
{
    axiom_extremes();
    let l = lad(a.ptr.a(), a.sh(), a.st()); let r = rfold(f, m, l, w.len() as int, init);
    lemma_fold_max(f, w, m, l, w.len() as int, init);
    assert(w.subrange(0, w.len() as int) =~= w);
    axiom_rank(w[0], r);
    assert(w.contains(w[0]));
}

impl NdArray {
//@fn src/ndarray/reduce.rs :: impl NdArray :: sum
//@sig pub fn nd_sum(&self, mem: &mut Mem) -> (r: NdArray)
//@call ReduceSum::sum => ReduceSum::sum_raw
//@call NdArray::scalar => nd_scalar
//@requires self.wf(), self.readable(*old(mem)), self.sh().len() <= MAX_DIMS
//@ensures is_scalar(r, fold_of(f_sum(), *self, *old(mem), E::zero_()), *old(mem), *final(mem))
//@start
    let ghost m0 = *mem;
    proof { lemma_reads(*self, m0);  }
//@end
}

impl NdArray {
//@fn src/ndarray/reduce.rs :: impl NdArray :: product
//@sig pub fn nd_product(&self, mem: &mut Mem) -> (r: NdArray)
//@call ReduceProduct::product => ReduceProduct::product_raw
//@call NdArray::scalar => nd_scalar
//@requires self.wf(), self.readable(*old(mem)), self.sh().len() <= MAX_DIMS
//@ensures is_scalar(r, fold_of(f_product(), *self, *old(mem), E::one_()), *old(mem), *final(mem))
//@start
    let ghost m0 = *mem;
    proof { lemma_reads(*self, m0);  }
//@end
}

impl NdArray {
//@fn src/ndarray/reduce.rs :: impl NdArray :: min
//@sig pub fn nd_min(&self, mem: &mut Mem) -> (r: NdArray)
//@call ReduceMin::min => ReduceMin::min_raw
//@call NdArray::scalar => nd_scalar
//@requires self.wf(), self.readable(*old(mem)), self.sh().len() <= MAX_DIMS
//@ensures is_scalar(r, fold_of(f_min(), *self, *old(mem), E::greatest()), *old(mem), *final(mem)), exists|v: E| is_scalar(r, v, *old(mem), *final(mem)) && #[trigger] least_of(v, vals(*self, *old(mem)))
//@start
    let ghost m0 = *mem;
    proof { lemma_reads(*self, m0); lemma_lad_ad(*self); axiom_extremes(); lemma_wfl(self.sh(), self.st()); let w = vals(*self, m0); assert forall|k: int, c: E| 0 <= k < w.len() implies #[trigger] (f_min())(m0.m()[lad(self.ptr.a(), self.sh(), self.st())[k]], c) == min_e(w[k], c) by { assert(lad(self.ptr.a(), self.sh(), self.st())[k] == self.ad(k)); } lemma_min_of(f_min(), *self, w, m0); }
//@end
}

impl NdArray {
//@fn src/ndarray/reduce.rs :: impl NdArray :: max
//@sig pub fn nd_max(&self, mem: &mut Mem) -> (r: NdArray)
//@call ReduceMax::max => ReduceMax::max_raw
//@call NdArray::scalar => nd_scalar
//@requires self.wf(), self.readable(*old(mem)), self.sh().len() <= MAX_DIMS
//@ensures is_scalar(r, fold_of(f_max(), *self, *old(mem), E::least()), *old(mem), *final(mem)), exists|v: E| is_scalar(r, v, *old(mem), *final(mem)) && #[trigger] greatest_of(v, vals(*self, *old(mem)))
//@start
    let ghost m0 = *mem;
    proof { lemma_reads(*self, m0); lemma_lad_ad(*self); axiom_extremes(); lemma_wfl(self.sh(), self.st()); let w = vals(*self, m0); assert forall|k: int, c: E| 0 <= k < w.len() implies #[trigger] (f_max())(m0.m()[lad(self.ptr.a(), self.sh(), self.st())[k]], c) == max_e(w[k], c) by { assert(lad(self.ptr.a(), self.sh(), self.st())[k] == self.ad(k)); } lemma_max_of(f_max(), *self, w, m0, E::least()); }
//@end
}

impl NdArray {
//@fn src/ndarray/reduce.rs :: impl NdArray :: min_magnitude
//@sig pub fn nd_min_magnitude(&self, mem: &mut Mem) -> (r: NdArray)
//@call ReduceMinMagnitude::min_magnitude => ReduceMinMagnitude::min_magnitude_raw
//@call NdArray::scalar => nd_scalar
//@requires self.wf(), self.readable(*old(mem)), self.sh().len() <= MAX_DIMS
//@ensures is_scalar(r, fold_of(f_min_magnitude(), *self, *old(mem), E::greatest()), *old(mem), *final(mem)), exists|v: E| is_scalar(r, v, *old(mem), *final(mem)) && #[trigger] least_of(v, mags(*self, *old(mem)))
//@start
    let ghost m0 = *mem;
    proof { lemma_reads(*self, m0); lemma_lad_ad(*self); axiom_extremes(); lemma_wfl(self.sh(), self.st()); let w = mags(*self, m0); assert forall|k: int, c: E| 0 <= k < w.len() implies #[trigger] (f_min_magnitude())(m0.m()[lad(self.ptr.a(), self.sh(), self.st())[k]], c) == min_e(w[k], c) by { assert(lad(self.ptr.a(), self.sh(), self.st())[k] == self.ad(k)); } lemma_min_of(f_min_magnitude(), *self, w, m0); }
//@end
}

impl NdArray {
//@fn src/ndarray/reduce.rs :: impl NdArray :: max_magnitude
//@sig pub fn nd_max_magnitude(&self, mem: &mut Mem) -> (r: NdArray)
//@call ReduceMaxMagnitude::max_magnitude => ReduceMaxMagnitude::max_magnitude_raw
//@call NdArray::scalar => nd_scalar
//@requires self.wf(), self.readable(*old(mem)), self.sh().len() <= MAX_DIMS
//@ensures is_scalar(r, fold_of(f_max_magnitude(), *self, *old(mem), E::minv()), *old(mem), *final(mem)), exists|v: E| is_scalar(r, v, *old(mem), *final(mem)) && #[trigger] greatest_of(v, mags(*self, *old(mem)))
//@start
    let ghost m0 = *mem;
    proof { lemma_reads(*self, m0); lemma_lad_ad(*self); axiom_extremes(); lemma_wfl(self.sh(), self.st()); let w = mags(*self, m0); assert forall|k: int, c: E| 0 <= k < w.len() implies #[trigger] (f_max_magnitude())(m0.m()[lad(self.ptr.a(), self.sh(), self.st())[k]], c) == max_e(w[k], c) by { assert(lad(self.ptr.a(), self.sh(), self.st())[k] == self.ad(k)); } lemma_max_of(f_max_magnitude(), *self, w, m0, E::minv()); }
//@end
}

impl E {
    /// NumCast::from(usize)
    pub uninterp spec fn of_usize(n: usize) -> Option<E>;
    #[verifier::external_body]
    pub fn from_usize(n: usize) -> (r: Option<E>) ensures r == E::of_usize(n), { unimplemented!() }
}
/// a new array is also new relative to any earlier memory
pub broadcast proof fn lemma_new_trans(r: NdArray, sh: Seq<usize>, a: Mem, b: Mem, c: Mem)
    requires #[trigger] is_new(r, sh, b, c), #[trigger] grew(a, b),
    ensures is_new(r, sh, a, c),
{
    assert forall|x: int| #[trigger] a.m().contains_key(x) implies c.m().contains_key(x) by { assert(b.m().contains_key(x)); }
    assert forall|x: int| a.m().contains_key(x) implies #[trigger] c.m()[x] == a.m()[x] by { assert(b.m().contains_key(x)); assert(b.m()[x] == a.m()[x]); }
    assert forall|p: int| #[trigger] a.blocks().contains_key(p) implies c.blocks().contains_key(p) && c.blocks()[p] == a.blocks()[p] by { assert(b.blocks().contains_key(p)); }
    assert forall|x: int| r.ptr.a() <= x < r.ptr.a() + r.capacity implies !(#[trigger] a.m().contains_key(x)) && c.m().contains_key(x) by { assert(!b.m().contains_key(x)); }
}
impl NdArray {
//@fn src/ndarray/reduce.rs :: impl NdArray :: mean
//@sig pub fn nd_mean(&self, mem: &mut Mem) -> (r: NdArray)
//@call NumCast::from => E::from_usize
//@call .sum => nd_sum
//@call op/ => &nd_vop_scalar_o
//@requires self.wf(), self.readable(*old(mem)), self.sh().len() <= MAX_DIMS
//@panics E::of_usize(prod(self.sh()) as usize).is_none()
//@ensures is_scalar(r, op2(fold_of(f_sum(), *self, *old(mem), E::zero_()), E::of_usize(prod(self.sh()) as usize).unwrap()), *old(mem), *final(mem))
//@start
    broadcast use lemma_new_trans;
    let ghost m0 = *mem;
    proof { lemma_wfl(self.sh(), self.st()); lemma_pz_prod(self.sh()); assert(prod(Seq::<usize>::empty()) == 1); }
//@ret
    proof {
        assert(vx_ret.sh() =~= Seq::<usize>::empty());
        assert(is_new(vx_ret, vx_ret.sh(), m0, *mem));
    }
//@end
}
