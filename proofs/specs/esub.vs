//@use core geom mem arr slice bcast iter heap kern ops red redax sop mat eloop mfig einl
use vstd::arithmetic::mul::*;

// ===================================================================== subscripts
pub open spec fn letter(c: u8) -> bool { 65 <= c <= 90 || 97 <= c <= 122 }
pub open spec fn alnum(c: u8) -> bool { letter(c) || 48 <= c <= 57 }
pub open spec fn count_an(s: Seq<u8>, n: int) -> int
    decreases n,
{ if n <= 0 { 0 } else { count_an(s, n - 1) + (if alnum(s[n - 1]) { 1int } else { 0 }) } }
/// std's str::is_ascii over the string's bytes
pub fn vx_is_ascii(s: &[u8]) -> (r: bool)
    ensures r == (forall|j: int| 0 <= j < s@.len() ==> #[trigger] s@[j] < 128),
{
    let mut i = 0;
    while i < s.len()
        invariant 0 <= i <= s@.len(), forall|j: int| 0 <= j < i ==> #[trigger] s@[j] < 128,
        decreases s@.len() - i,
    { if s[i] >= 128 { return false; } i = i + 1; }
    true
}
pub fn vx_alnum(c: u8) -> (r: bool) ensures r == alnum(c), { (c >= 65 && c <= 90) || (c >= 97 && c <= 122) || (c >= 48 && c <= 57) }
pub fn vx_letter(c: u8) -> (r: bool) ensures r == letter(c), { (c >= 65 && c <= 90) || (c >= 97 && c <= 122) }
pub fn vx_split_at(s: &[u8], n: usize) -> (r: (&[u8], &[u8]))
    requires n <= s@.len(),
    ensures r.0@ == s@.subrange(0, n as int), r.1@ == s@.subrange(n as int, s@.len() as int),
{ (vx_slice(s, 0, n), vx_slice(s, n, s.len())) }
pub fn vx_contains_u8(s: &[u8], x: &u8) -> (r: bool)
    ensures r == s@.contains(*x),
{
    let mut i = 0;
    while i < s.len()
        invariant 0 <= i <= s@.len(), forall|j: int| 0 <= j < i ==> #[trigger] s@[j] != *x,
        decreases s@.len() - i,
    { if s[i] == *x { assert(s@[i as int] == *x); return true; } i = i + 1; }
    false
}
/// n letters, one per axis, and nothing but spaces after them
pub open spec fn word_ok(s: Seq<u8>, n: int) -> bool { n <= s.len() && (forall|j: int| 0 <= j < n ==> letter(#[trigger] s[j])) && (forall|j: int| n <= j < s.len() ==> #[trigger] s[j] == 32) }
/// no ellipsis
pub open spec fn plain(s: Seq<u8>) -> bool { forall|j: int| 0 <= j < s.len() ==> #[trigger] s[j] != 46 }
/// position of the first letter equal to letter j
pub open spec fn fo(s: Seq<u8>, j: int, k: int) -> int
    decreases j - k,
{ if k >= j || s[k] == s[j] { k } else { fo(s, j, k + 1) } }
pub open spec fn enc1(s: Seq<u8>, j: int) -> int { let k = fo(s, j, 0); if k == j { s[j] as int } else { k - j } }
pub open spec fn enc(lab: Seq<i8>, s: Seq<u8>, n: int) -> bool { lab.len() == MAX_DIMS && (forall|j: int| 0 <= j < n ==> (#[trigger] lab[j]) as int == enc1(s, j)) && (forall|j: int| n <= j < MAX_DIMS ==> #[trigger] lab[j] == 0) }
pub proof fn lemma_fo(s: Seq<u8>, j: int, k: int)
    requires 0 <= k <= j < s.len(),
    ensures k <= fo(s, j, k) <= j, s[fo(s, j, k)] == s[j], forall|i: int| k <= i < fo(s, j, k) ==> #[trigger] s[i] != s[j],
    decreases j - k,
{ if k < j && s[k] != s[j] { lemma_fo(s, j, k + 1); } }
/// the first occurrence is what a scan remembers
pub proof fn lemma_fo_is(s: Seq<u8>, j: int, f: int)
    requires 0 <= f <= j < s.len(), s[f] == s[j], forall|i: int| 0 <= i < f ==> #[trigger] s[i] != s[j],
    ensures fo(s, j, 0) == f,
{ lemma_fo(s, j, 0); if fo(s, j, 0) < f { assert(s[fo(s, j, 0)] != s[j]); } }
/// axes with the same letter have the same extent, also those of earlier operands
pub open spec fn seen(s: Seq<u8>, n: int, c: int) -> bool { exists|j: int| 0 <= j < n && #[trigger] s[j] as int == c }
pub open spec fn agree(s: Seq<u8>, sh: Seq<usize>, cnt: Seq<u32>, dims: Seq<usize>) -> bool {
    (forall|j: int| 0 <= j < sh.len() && cnt[s[j] as int] > 0 ==> dims[s[j] as int] == #[trigger] sh[j])
    && (forall|i: int, j: int| 0 <= i < sh.len() && 0 <= j < sh.len() && s[i] == s[j] ==> #[trigger] sh[i] == #[trigger] sh[j])
}
pub open spec fn cnt_ok(cnt: Seq<u32>, cnt1: Seq<u32>, s: Seq<u8>, n: int) -> bool {
    cnt1.len() == 128 && forall|c: int| 0 <= c < 128 ==> cnt[c] <= (#[trigger] cnt1[c]) <= cnt[c] + n && (cnt1[c] > 0 <==> (cnt[c] > 0 || seen(s, n, c)))
}
pub open spec fn dims_ok(cnt: Seq<u32>, dims: Seq<usize>, dims1: Seq<usize>, s: Seq<u8>, sh: Seq<usize>, n: int) -> bool {
    dims1.len() == 128 && (forall|c: int| 0 <= c < 128 && (cnt[c] > 0 || !seen(s, n, c)) ==> #[trigger] dims1[c] == dims[c])
    && (forall|j: int| 0 <= j < n ==> #[trigger] dims1[s[j] as int] == sh[j])
}
pub proof fn lemma_count_an(s: Seq<u8>, n: int)
    requires 0 <= n <= s.len(),
    ensures 0 <= count_an(s, n) <= n, count_an(s, n) == n ==> (forall|j: int| 0 <= j < n ==> alnum(#[trigger] s[j])),
    decreases n,
{ if n > 0 { lemma_count_an(s, n - 1); } }
pub proof fn lemma_count_word(s: Seq<u8>, n: int, m: int)
    requires word_ok(s, n), 0 <= m <= s.len(), n >= 0,
    ensures count_an(s, m) == (if m <= n { m } else { n }),
    decreases m,
{ if m > 0 { lemma_count_word(s, n, m - 1); if m - 1 < n { assert(letter(s[m - 1])); } else { assert(s[m - 1] == 32); } } }
/// letters at the first n positions and spaces elsewhere: the letters of each prefix are counted
pub proof fn lemma_count_pref(s: Seq<u8>, n: int, m: int)
    requires 0 <= m <= s.len(), n >= 0, forall|j: int| 0 <= j < m ==> (letter(#[trigger] s[j]) && j < n) || s[j] == 32,
    ensures count_an(s, m) <= n, count_an(s, m) <= m, count_an(s, m) == n ==> (n <= m && forall|j: int| 0 <= j < n ==> letter(#[trigger] s[j])),
    decreases m,
{
    if m > 0 {
        lemma_count_pref(s, n, m - 1);
        if letter(s[m - 1]) { lemma_count_an(s, m); } 
        if count_an(s, m) == n {
            if letter(s[m - 1]) { assert(m - 1 < n); lemma_count_an(s, m); assert(count_an(s, m) <= m); assert(m == n); assert forall|j: int| 0 <= j < n implies letter(#[trigger] s[j]) by { assert(alnum(s[j])); } }
        }
    }
}
//@fn src/linalg/einsum.rs :: - :: parse_operand_subscripts
//@sig pub fn parse_operand_subscripts(subscripts0: &[u8], operand: &NdArray, result: &mut [i8; MAX_DIMS], label_counts: &mut [u32; 128], label_dims: &mut [usize; 128], broadcast_dims: &mut usize)
//@sigof parse_operand_subscripts:p
//@call .is_ascii => @vx_is_ascii
//@call .is_ascii_alphanumeric => @vx_alnum
//@call .is_ascii_alphabetic => @vx_letter
//@call .as_bytes => !id
//@requires plain(subscripts0@), operand.sh().len() <= MAX_DIMS, forall|j: int| 0 <= j < MAX_DIMS ==> #[trigger] old(result)@[j] == 0, forall|c: int| 0 <= c < 128 ==> #[trigger] old(label_counts)@[c] < 100000
//@panics !word_ok(subscripts0@, operand.sh().len() as int) || !agree(subscripts0@, operand.sh(), old(label_counts)@, old(label_dims)@)
//@ensures enc(final(result)@, subscripts0@, operand.sh().len() as int), *final(broadcast_dims) == 0, cnt_ok(old(label_counts)@, final(label_counts)@, subscripts0@, operand.sh().len() as int), dims_ok(old(label_counts)@, old(label_dims)@, final(label_dims)@, subscripts0@, operand.sh(), operand.sh().len() as int)
//@start
    let ghost s = subscripts0@; let ghost sh = operand.sh(); let ghost n = sh.len() as int; let ghost (cnt, dims) = (label_counts@, label_dims@);
    proof { if word_ok(s, n) { assert forall|j: int| 0 <= j < s.len() implies #[trigger] s[j] < 128 by { if j < n { assert(letter(s[j])); } } lemma_count_word(s, n, s.len() as int); } }
//@loop 0
    invariant vxa0 == count_an(s, vxc0 as int), vxa0 <= vxc0,
//@loop 1
    invariant s == subscripts@, !check_ellipsis, ellipsis_index == -1, *broadcast_dims == n - alphanum_chars, result@.len() == MAX_DIMS,
        forall|j: int| 0 <= j < vxc1 ==> (letter(#[trigger] s[j]) && j < n) || s[j] == 32,
        forall|j: int| 0 <= j < vxc1 && letter(s[j]) ==> (#[trigger] result@[j]) as int == enc1(s, j),
        forall|j: int| n <= j < MAX_DIMS ==> #[trigger] result@[j] == 0,
        forall|c: int| 0 <= c < 128 ==> cnt[c] <= (#[trigger] label_counts@[c]) <= cnt[c] + vxc1 && label_counts@[c] <= cnt[c] + n && (label_counts@[c] > 0 <==> (cnt[c] > 0 || seen(s, vxc1 as int, c) && c != 32)),
        forall|c: int| 0 <= c < 128 && (cnt[c] > 0 || c == 32 || !seen(s, vxc1 as int, c)) ==> #[trigger] label_dims@[c] == dims[c],
        forall|j: int| 0 <= j < vxc1 && letter(s[j]) ==> #[trigger] label_dims@[s[j] as int] == sh[j],
        forall|c: int| 0 <= c < 128 && (c == 32 || !seen(s, vxc1 as int, c)) ==> #[trigger] first_occurrence@[c] == 35,
        forall|c: int| 0 <= c < 128 && c != 32 && seen(s, vxc1 as int, c) ==> 0 <= #[trigger] first_occurrence@[c] < vxc1 && first_occurrence@[c] < n && s[first_occurrence@[c] as int] == c && (forall|i: int| 0 <= i < first_occurrence@[c] ==> (#[trigger] s[i]) as int != c),
//@loop 1 start
    let ghost i1 = vxc1 - 1; let ghost (r0, c0, d0, f0) = (result@, label_counts@, label_dims@, first_occurrence@); let ghost c1 = s[i1] as int;
    proof {
        assert forall|c: int| #[trigger] seen(s, i1 + 1, c) == (seen(s, i1, c) || c == c1) by { if seen(s, i1 + 1, c) { let j = choose|j: int| 0 <= j < i1 + 1 && #[trigger] s[j] as int == c; if j < i1 { assert(s[j] as int == c); } } if seen(s, i1, c) { let j = choose|j: int| 0 <= j < i1 && #[trigger] s[j] as int == c; assert(s[j] as int == c); } if c == c1 { assert(s[i1] as int == c); } }
        if word_ok(s, n) { if i1 < n { assert(letter(s[i1])); } else { assert(s[i1] == 32); } }
        if letter(s[i1]) && i1 < n {
            if seen(s, i1, c1) { lemma_fo_is(s, i1, f0[c1] as int); } else { assert forall|i: int| 0 <= i < i1 implies #[trigger] s[i] != s[i1] by { assert(!seen(s, i1, c1)); if s[i] == s[i1] { assert(s[i] as int == c1); } } lemma_fo_is(s, i1, i1); }
        }
        if agree(s, sh, cnt, dims) && word_ok(s, n) && i1 < n && c0[c1] > 0 {
            assert(letter(s[i1]));
            if cnt[c1] > 0 { assert(dims[s[i1] as int] == sh[i1]); assert(d0[c1] == dims[c1]); } else { let j = choose|j: int| 0 <= j < i1 && #[trigger] s[j] as int == c1; assert(seen(s, i1, c1)); assert(s[j] == s[i1]); assert(letter(s[j])); assert(d0[s[j] as int] == sh[j]); assert(sh[j] == sh[i1]); }
        }
    }
//@loop 1 end
    proof {
        assert forall|j: int| 0 <= j < vxc1 && letter(s[j]) implies (#[trigger] result@[j]) as int == enc1(s, j) by { if j < i1 { assert(result@[j] == r0[j]); } }
        assert forall|j: int| 0 <= j < vxc1 && letter(s[j]) implies #[trigger] label_dims@[s[j] as int] == sh[j] by {
            if j < i1 { assert(d0[s[j] as int] == sh[j]); if s[j] as int == c1 { assert(seen(s, i1, c1)); assert(c0[c1] > 0); assert(label_dims@ == d0); } }
        }
    }
//@loop 1 after
    proof {
        lemma_count_pref(s, n, s.len() as int);
        if *broadcast_dims == 0 {
            assert(word_ok(s, n)) by { assert forall|j: int| n <= j < s.len() implies #[trigger] s[j] == 32 by { } }
            assert forall|c: int| #[trigger] seen(s, n, c) == (seen(s, s.len() as int, c) && c != 32) || c < 0 by {
                if seen(s, n, c) { let j = choose|j: int| 0 <= j < n && #[trigger] s[j] as int == c; assert(letter(s[j])); assert(s[j] as int == c); assert(seen(s, s.len() as int, c)); }
                if seen(s, s.len() as int, c) && c != 32 { let j = choose|j: int| 0 <= j < s.len() && #[trigger] s[j] as int == c; assert(j < n); assert(s[j] as int == c); }
            }
            assert forall|j: int| 0 <= j < n implies (#[trigger] result@[j]) as int == enc1(s, j) by { assert(letter(s[j])); }
            assert forall|j: int| 0 <= j < n implies #[trigger] label_dims@[s[j] as int] == sh[j] by { assert(letter(s[j])); }
            assert forall|j: int| 0 <= j < sh.len() && cnt[s[j] as int] > 0 implies dims[s[j] as int] == #[trigger] sh[j] by { assert(letter(s[j])); assert(label_dims@[s[j] as int] == sh[j]); }
            assert forall|i: int, j: int| 0 <= i < sh.len() && 0 <= j < sh.len() && s[i] == s[j] implies #[trigger] sh[i] == #[trigger] sh[j] by { assert(letter(s[j]) && letter(s[i])); assert(label_dims@[s[j] as int] == sh[j]); assert(label_dims@[s[i] as int] == sh[i]); }
        }
    }
//@end
//@fn src/linalg/einsum.rs :: - :: parse_output_subscripts
//@sig pub fn parse_output_subscripts(subscripts0: &[u8], result: &mut [i8; MAX_DIMS], broadcast_dims: usize, label_counts: &[u32; 128]) -> (r: usize)
//@sigof parse_output_subscripts:p
//@call .is_ascii => @vx_is_ascii
//@call .is_ascii_alphabetic => @vx_letter
//@call .as_bytes => !id
//@call .split_at => @vx_split_at
//@call .contains => @vx_contains_u8
//@requires plain(subscripts0@), subscripts0@.len() <= MAX_DIMS, broadcast_dims == 0, forall|j: int| 0 <= j < MAX_DIMS ==> #[trigger] old(result)@[j] == 0
//@panics !oword_ok(subscripts0@, label_counts@)
//@ensures r == subscripts0@.len(), forall|j: int| 0 <= j < r ==> (#[trigger] final(result)@[j]) as int == olab(subscripts0@[j]), forall|j: int| r <= j < MAX_DIMS ==> #[trigger] final(result)@[j] == 0
//@start
    let ghost s = subscripts0@; let ghost cnt = label_counts@;
    proof { if oword_ok(s, cnt) { assert forall|j: int| 0 <= j < s.len() implies #[trigger] s[j] < 128 by { assert(letter(s[j]) || s[j] == 32); } } }
//@loop 0
    invariant s == subscripts@, cnt == label_counts@, !check_ellipsis, !found_ellipsis, result@.len() == MAX_DIMS,
        forall|j: int| 0 <= j < vxc0 ==> letter(#[trigger] s[j]) || s[j] == 32, forall|j: int| 0 <= j < vxc0 && letter(s[j]) ==> cnt[#[trigger] s[j] as int] > 0,
        forall|i: int, j: int| 0 <= i < j < s.len() && i < vxc0 && letter(s[i]) ==> #[trigger] s[i] != #[trigger] s[j],
        forall|j: int| 0 <= j < vxc0 ==> (#[trigger] result@[j]) as int == olab(s[j]), forall|j: int| vxc0 <= j < MAX_DIMS ==> #[trigger] result@[j] == 0,
//@loop 0 start
    let ghost i1 = vxc0 - 1; let ghost rest = s.subrange(i1 + 1, s.len() as int);
    proof {
        if letter(s[i1]) {
            if rest.contains(s[i1]) { let k = choose|k: int| 0 <= k < rest.len() && rest[k] == s[i1]; assert(s[i1 + 1 + k] == s[i1]); assert(!oword_ok(s, cnt)); }
            else { assert forall|j: int| i1 < j < s.len() implies #[trigger] s[j] != s[i1] by { if s[j] == s[i1] { assert(rest[j - i1 - 1] == s[i1]); } } }
        }
    }
//@end
/// letters (or spaces, whose label 0 is refused later), each of an input, none twice
pub open spec fn oword_ok(s: Seq<u8>, cnt: Seq<u32>) -> bool {
    (forall|j: int| 0 <= j < s.len() ==> letter(#[trigger] s[j]) || s[j] == 32) && (forall|j: int| 0 <= j < s.len() && letter(s[j]) ==> cnt[#[trigger] s[j] as int] > 0)
    && (forall|i: int, j: int| 0 <= i < j < s.len() && letter(s[i]) ==> #[trigger] s[i] != #[trigger] s[j])
}
pub open spec fn olab(c: u8) -> int { if letter(c) { c as int } else { 0 } }
// ===================================================================== permutations
pub open spec fn is_perm(p: Seq<usize>, n: int) -> bool {
    p.len() == n && (forall|i: int| 0 <= i < n ==> #[trigger] p[i] < n) && (forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] p[i] != #[trigger] p[j])
    && (forall|d: int| 0 <= d < n ==> #[trigger] hit(p, d))
}
pub open spec fn hit(p: Seq<usize>, d: int) -> bool { exists|i: int| 0 <= i < p.len() && #[trigger] p[i] == d }
//@fn src/util/functions.rs :: - :: permute_array
//@sig pub fn permute_array<T: Copy>(arr: &mut Vec<T>, permutation: &[usize])
//@call .clone => !id
//@requires old(arr)@.len() == permutation@.len(), forall|i: int| 0 <= i < permutation@.len() ==> #[trigger] permutation@[i] < old(arr)@.len()
//@ensures final(arr)@.len() == old(arr)@.len(), forall|i: int| 0 <= i < permutation@.len() ==> #[trigger] final(arr)@[i] == old(arr)@[permutation@[i] as int]
//@start
    let ghost a0 = arr@;
//@loop 0
    invariant arr@.len() == a0.len(), original@ == a0, forall|i: int| 0 <= i < vxc0 ==> #[trigger] arr@[i] == a0[permutation@[i] as int],
//@end
//@fn src/util/functions.rs :: - :: transpose_2d_array
//@sig pub fn transpose_2d_array<const N: usize, const M: usize>(array: [[usize; N]; M]) -> (r: [[usize; M]; N])
//@call T::default => vx_zero_usize
//@ensures forall|i: int, j: int| 0 <= i < M && 0 <= j < N ==> #[trigger] r@[j]@[i] == array@[i]@[j]
//@loop 0
    invariant forall|a: int, b: int| 0 <= a < vxc0 && 0 <= b < N ==> #[trigger] result@[b]@[a] == array@[a]@[b],
//@loop 1
    invariant forall|a: int, b: int| 0 <= a < i && 0 <= b < N ==> #[trigger] result@[b]@[a] == array@[a]@[b], forall|b: int| 0 <= b < vxc1 ==> #[trigger] result@[b]@[i as int] == array@[i as int]@[b],
//@end
pub fn vx_zero_usize() -> (r: usize) ensures r == 0, { 0 }
/// moving entry b to position a keeps a permutation
pub open spec fn moved(p: Seq<usize>, a: int, b: int) -> Seq<usize> { Seq::new(p.len(), |i: int| if i == a { p[b] } else if a < i <= b { p[i - 1] } else { p[i] }) }
pub proof fn lemma_moved(p: Seq<usize>, n: int, a: int, b: int)
    requires is_perm(p, n), 0 <= a <= b < n,
    ensures is_perm(moved(p, a, b), n),
{
    let q = moved(p, a, b);
    assert forall|i: int, j: int| 0 <= i < j < n implies #[trigger] q[i] != #[trigger] q[j] by {
        let f = |x: int| if x == a { b } else if a < x <= b { x - 1 } else { x };
        assert(q[i] == p[f(i)] && q[j] == p[f(j)]); assert(f(i) != f(j));
        if f(i) < f(j) { assert(p[f(i)] != p[f(j)]); } else { assert(p[f(j)] != p[f(i)]); }
    }
    assert forall|d: int| 0 <= d < n implies #[trigger] hit(q, d) by {
        assert(hit(p, d));
        let k = choose|k: int| 0 <= k < p.len() && #[trigger] p[k] == d;
        let i = if k == b { a } else if a <= k < b { k + 1 } else { k };
        assert(q[i] == d);
    }
    assert forall|i: int| 0 <= i < n implies #[trigger] q[i] < n by { }
}
impl MultiFlatIndexGenerator {
//@fn src/ndarray/iterator/multi_flat_index_generator.rs :: impl MultiFlatIndexGenerator :: find_best_axis_ordering
//@sig pub fn find_best_axis_ordering<const OPERANDS: usize>(nops: usize, ndims: usize, strides: &[[usize; OPERANDS]]) -> (r: Option<Vec<usize>>)
//@call .abs => !id
//@requires ndims <= MAX_DIMS, ndims <= strides@.len(), nops <= OPERANDS
//@ensures r.is_some() ==> is_perm(r.unwrap()@, ndims as int)
//@loop 0
    invariant best_axis_ordering@.len() == vxc0, forall|i: int| 0 <= i < vxc0 ==> #[trigger] best_axis_ordering@[i] == i,
//@loop 0 after
    proof { assert forall|d: int| 0 <= d < ndims implies #[trigger] hit(best_axis_ordering@, d) by { assert(best_axis_ordering@[d] == d); } }
//@loop 1
    invariant is_perm(best_axis_ordering@, ndims as int),
//@loop 1 start
    let ghost p0 = best_axis_ordering@; let ghost b = vxc1 - 1;
//@loop 2
    invariant ax_ipos <= ax_i0, best_axis_ordering@ == p0,
//@loop 4
    invariant best_axis_ordering@.len() == ndims, ax_ipos < ax_i0, forall|i: int| 0 <= i < ndims && vxc4 <= i <= b ==> #[trigger] best_axis_ordering@[i] == p0[i - 1], forall|i: int| 0 <= i < ndims && (i < vxc4 || i > b) ==> #[trigger] best_axis_ordering@[i] == p0[i],
//@loop 1 end
    proof { lemma_moved(p0, ndims as int, ax_ipos as int, b); if ax_ipos != ax_i0 { assert(best_axis_ordering@ =~= moved(p0, ax_ipos as int, b)); } }
//@end
}
// ===================================================================== strides of labels
/// the label of axis j (a negative entry points back to the label's first axis)
pub open spec fn rl(lab: Seq<i8>, j: int) -> int { if lab[j] >= 0 { lab[j] as int } else { lab[j + lab[j]] as int } }
/// strides of the first n axes labelled l, added up
pub open spec fn lsl(lab: Seq<i8>, st: Seq<usize>, n: int, l: int) -> int
    decreases n,
{ if n <= 0 { 0 } else { lsl(lab, st, n - 1, l) + (if rl(lab, n - 1) == l { st[n - 1] as int } else { 0 }) } }
pub open spec fn lsum(s: Seq<u8>, st: Seq<usize>, n: int, l: int) -> int
    decreases n,
{ if n <= 0 { 0 } else { lsum(s, st, n - 1, l) + (if s[n - 1] as int == l { st[n - 1] as int } else { 0 }) } }
pub open spec fn neg(lab: Seq<i8>, j: int) -> bool { lab[j] < 0 }
/// labels point back to labels
pub open spec fn lab_ok(lab: Seq<i8>, n: int) -> bool { lab.len() == MAX_DIMS && 0 <= n <= MAX_DIMS && forall|j: int| 0 <= j < n && #[trigger] neg(lab, j) ==> 0 <= j + lab[j] < j && lab[j + lab[j]] > 0 }
pub proof fn lemma_enc(lab: Seq<i8>, s: Seq<u8>, n: int)
    requires enc(lab, s, n), word_ok(s, n), 0 <= n <= MAX_DIMS,
    ensures lab_ok(lab, n), forall|j: int| 0 <= j < n ==> #[trigger] rl(lab, j) == s[j] as int, forall|j: int| 0 <= j < n ==> #[trigger] lab[j] != 0,
        forall|j: int| 0 <= j < n && #[trigger] neg(lab, j) ==> s[j + lab[j]] == s[j],
{
    assert forall|j: int| 0 <= j < n implies #[trigger] rl(lab, j) == s[j] as int && lab[j] != 0 && (lab[j] < 0 ==> 0 <= j + lab[j] < j && lab[j + lab[j]] > 0 && s[j + lab[j]] == s[j]) by {
        lemma_fo(s, j, 0); assert(letter(s[j])); assert(lab[j] as int == enc1(s, j));
        let f = fo(s, j, 0);
        if f < j {
            assert(letter(s[f])); lemma_fo_is(s, f, f); assert(lab[f] as int == enc1(s, f));
        }
    }
    assert forall|j: int| 0 <= j < n implies #[trigger] lab[j] != 0 by { assert(rl(lab, j) == s[j] as int); }
    assert forall|j: int| 0 <= j < n && #[trigger] neg(lab, j) implies 0 <= j + lab[j] < j && lab[j + lab[j]] > 0 && s[j + lab[j]] == s[j] by { assert(rl(lab, j) == s[j] as int); }
}
pub proof fn lemma_lsl_enc(lab: Seq<i8>, s: Seq<u8>, st: Seq<usize>, n: int, k: int, l: int)
    requires enc(lab, s, n), word_ok(s, n), 0 <= k <= n <= MAX_DIMS,
    ensures lsl(lab, st, k, l) == lsum(s, st, k, l),
    decreases k,
{ if k > 0 { lemma_lsl_enc(lab, s, st, n, k - 1, l); lemma_enc(lab, s, n); assert(rl(lab, k - 1) == s[k - 1] as int); } }
pub proof fn lemma_lsl_mono(lab: Seq<i8>, st: Seq<usize>, k: int, n: int, l: int)
    requires 0 <= k <= n,
    ensures 0 <= lsl(lab, st, k, l) <= lsl(lab, st, n, l),
    decreases n,
{ if k < n { lemma_lsl_mono(lab, st, k, n - 1, l); } else if n > 0 { lemma_lsl_mono(lab, st, k - 1, n - 1, l); } }
/// labels and strides agree on the first n axes
pub proof fn lemma_lsl_ext(lab: Seq<i8>, st: Seq<usize>, lab2: Seq<i8>, st2: Seq<usize>, n: int, l: int)
    requires forall|j: int| 0 <= j < n ==> #[trigger] st[j] == st2[j], forall|j: int| 0 <= j < n ==> rl(lab, j) == #[trigger] rl(lab2, j),
    ensures lsl(lab, st, n, l) == lsl(lab2, st2, n, l),
    decreases n,
{ if n > 0 { lemma_lsl_ext(lab, st, lab2, st2, n - 1, l); assert(st[n - 1] == st2[n - 1]); assert(rl(lab, n - 1) == rl(lab2, n - 1)); } }
pub proof fn lemma_lsl_upd(lab: Seq<i8>, st: Seq<usize>, n: int, i: int, v: usize, l: int)
    requires 0 <= i < st.len(),
    ensures lsl(lab, st.update(i, v), n, l) == lsl(lab, st, n, l) + (if i < n && rl(lab, i) == l { v - st[i] } else { 0 }),
    decreases n,
{ if n > 0 { lemma_lsl_upd(lab, st, n - 1, i, v, l); if n - 1 == i { } } }
pub proof fn lemma_lsl_in(lab: Seq<i8>, st: Seq<usize>, n: int, i: int)
    requires 0 <= i < n,
    ensures st[i] <= lsl(lab, st, n, rl(lab, i)),
    decreases n,
{ lemma_lsl_mono(lab, st, i + 1, n, rl(lab, i)); lemma_lsl_mono(lab, st, i, n, rl(lab, i)); }
pub proof fn lemma_span_upd(sh: Seq<usize>, st: Seq<usize>, i: int, v: usize)
    requires 0 <= i < st.len(), sh.len() == st.len(),
    ensures span(sh, st.update(i, v)) == span(sh, st) + (sh[i] - 1) * (v - st[i]),
    decreases sh.len(),
{
    let st2 = st.update(i, v);
    if i == st.len() - 1 {
        assert(st2.drop_last() =~= st.drop_last());
        assert((sh[i] - 1) * v == (sh[i] - 1) * st[i] + (sh[i] - 1) * (v - st[i])) by (nonlinear_arith);
    } else { assert(st2.drop_last() =~= st.drop_last().update(i, v)); lemma_span_upd(sh.drop_last(), st.drop_last(), i, v); }
}
//@fn src/linalg/einsum.rs :: - :: operand_stride_for_einsum
//@sig pub fn operand_stride_for_einsum(ndims: usize, stride: &[usize], operand_labels: &[i8; MAX_DIMS], iter_labels: &[i8], result: &mut [usize; MAX_DIMS])
//@sigof operand_stride_for_einsum:p
//@requires lab_ok(operand_labels@, ndims as int), stride@.len() == ndims, iter_labels@.len() <= MAX_DIMS, forall|i: int| 0 <= i < MAX_DIMS ==> #[trigger] old(result)@[i] == 0, forall|l: int| 0 < l ==> #[trigger] lsl(operand_labels@, stride@, ndims as int, l) <= isize::MAX, forall|i: int| 0 <= i < iter_labels@.len() ==> #[trigger] iter_labels@[i] >= 0
//@panics exists|i: int| 0 <= i < iter_labels@.len() && #[trigger] iter_labels@[i] == 0
//@ensures forall|i: int| 0 <= i < iter_labels@.len() ==> (#[trigger] final(result)@[i]) as int == lsl(operand_labels@, stride@, ndims as int, iter_labels@[i] as int), forall|i: int| iter_labels@.len() <= i < MAX_DIMS ==> #[trigger] final(result)@[i] == 0
//@loop 0
    invariant forall|i: int| 0 <= i < vxc0 ==> #[trigger] iter_labels@[i] != 0, forall|i: int| 0 <= i < vxc0 ==> (#[trigger] result@[i]) as int == lsl(operand_labels@, stride@, ndims as int, iter_labels@[i] as int), forall|i: int| vxc0 <= i < MAX_DIMS ==> #[trigger] result@[i] == 0,
//@loop 0 start
    let ghost r0 = result@;
//@loop 1
    invariant_except_break label > 0, vxc1 <= ndims, forall|i0: int| 0 <= i0 < MAX_DIMS && i0 != i ==> #[trigger] result@[i0] == r0[i0], result@[i as int] == lsl(operand_labels@, stride@, vxc1 as int, label as int),
    ensures forall|i0: int| 0 <= i0 < MAX_DIMS && i0 != i ==> #[trigger] result@[i0] == r0[i0], result@[i as int] == lsl(operand_labels@, stride@, ndims as int, label as int),
//@loop 1 start
    proof { if vxc1 <= ndims { let nx = vxc1 as int; let j = nx - 1; if operand_labels@[j] < 0 { assert(neg(operand_labels@, j)); } assert(lsl(operand_labels@, stride@, nx, label as int) == lsl(operand_labels@, stride@, j, label as int) + if rl(operand_labels@, j) == label as int { stride@[j] as int } else { 0 }); lemma_lsl_mono(operand_labels@, stride@, nx, ndims as int, label as int); } }
//@end
pub open spec fn blank(ol: Seq<i8>, n: int) -> bool { exists|d: int| 0 <= d < n && #[trigger] ol[d] == 0 }
//@fn src/linalg/einsum.rs :: - :: reshape_shape_and_stride_for_einsum
//@sig pub fn reshape_shape_and_stride_for_einsum(operand: &NdArray, labels: &[i8; MAX_DIMS], output_dims: usize, output_labels: &[i8]) -> (r: Option<(Vec<usize>, Vec<usize>)>)
//@sigof reshape_shape_and_stride_for_einsum:p
//@requires operand.wf(), lab_ok(labels@, operand.sh().len() as int), output_labels@.len() == output_dims, forall|j: int| 0 <= j < operand.sh().len() ==> #[trigger] labels@[j] != 0, forall|l: int| 0 < l ==> #[trigger] lsl(labels@, operand.st(), operand.sh().len() as int, l) <= isize::MAX,
    forall|i: int, j: int| 0 <= i < j < output_dims ==> #[trigger] output_labels@[i] != #[trigger] output_labels@[j] || output_labels@[i] == 0
//@panics blank(output_labels@, output_labels@.len() as int)
//@ensures r.is_some() ==> r.unwrap().0@.len() == output_dims && r.unwrap().1@.len() == output_dims,
    r.is_some() ==> forall|d: int| 0 <= d < output_dims ==> #[trigger] r.unwrap().0@[d] == lsl(labels@, operand.st(), operand.sh().len() as int, output_labels@[d] as int),
    r.is_some() ==> forall|j: int| 0 <= j < operand.sh().len() ==> #[trigger] covers(output_labels@, rl(labels@, j)),
    r.is_some() ==> forall|d: int| 0 <= d < output_dims ==> #[trigger] r.unwrap().1@[d] == lastdim(labels@, operand.sh(), operand.sh().len() as int, output_labels@[d] as int),
    r.is_none() ==> exists|j: int| 0 <= j < operand.sh().len() && !(#[trigger] covers(output_labels@, rl(labels@, j)))
//@start
    let ghost n = operand.sh().len() as int; let ghost st = operand.st(); let ghost ol = output_labels@;
//@loop 0
    invariant vxa0 == blank(ol, vxc0 as int),
//@loop 1
    invariant vxe1 == n, new_stride@.len() == output_dims, new_shape@.len() == output_dims, forall|d: int| 0 <= d < output_dims ==> #[trigger] new_stride@[d] == lsl(labels@, st, vxc1 as int, ol[d] as int),
        forall|j: int| 0 <= j < vxc1 ==> #[trigger] covers(ol, rl(labels@, j)),
        forall|d: int| 0 <= d < output_dims ==> #[trigger] new_shape@[d] == lastdim(labels@, operand.sh(), vxc1 as int, ol[d] as int),
//@loop 1 start
    let ghost j = vxc1 - 1; let ghost lj = rl(labels@, j);
    proof { assert(labels@[j] != 0); if labels@[j] < 0 { assert(neg(labels@, j)); } assert(lj > 0); lemma_lsl_mono(labels@, st, vxc1 as int, n, lj); lemma_lsl_mono(labels@, st, j, n, lj); }
//@loop 2
    invariant_except_break vxa2.is_none(), forall|d: int| 0 <= d < vxc2 ==> #[trigger] ol[d] != label,
    ensures vxa2.is_some() ==> 0 <= vxa2.unwrap() < ol.len() && ol[vxa2.unwrap() as int] == label, vxa2.is_none() ==> forall|d: int| 0 <= d < ol.len() ==> #[trigger] ol[d] != label,
//@loop 2 after
    proof { if vxa2.is_none() { assert(!covers(ol, rl(labels@, j))); } else { assert(ol[vxa2.unwrap() as int] as int == lj); assert(covers(ol, lj)); } }
//@end
pub open spec fn covers(ol: Seq<i8>, l: int) -> bool { exists|d: int| 0 <= d < ol.len() && #[trigger] ol[d] as int == l }
/// extent of the last axis labelled l among the first n
pub open spec fn lastdim(lab: Seq<i8>, sh: Seq<usize>, n: int, l: int) -> usize
    decreases n,
{ if n <= 0 { 0 } else if rl(lab, n - 1) == l { sh[n - 1] } else { lastdim(lab, sh, n - 1, l) } }
//@fn src/linalg/einsum.rs :: - :: reshape_operand_for_einsum
//@sig pub fn reshape_operand_for_einsum(operand: &NdArray, labels: &mut [i8; MAX_DIMS]) -> (r: NdArray)
//@requires operand.wf(), lab_ok(old(labels)@, operand.sh().len() as int), forall|j: int| 0 <= j < operand.sh().len() ==> #[trigger] old(labels)@[j] != 0, forall|j: int| operand.sh().len() <= j < MAX_DIMS ==> #[trigger] old(labels)@[j] == 0,
    forall|l: int| 0 < l ==> #[trigger] lsl(old(labels)@, operand.st(), operand.sh().len() as int, l) <= isize::MAX,
    forall|j: int| 0 <= j < operand.sh().len() && #[trigger] neg(old(labels)@, j) ==> operand.sh()[j + old(labels)@[j]] == operand.sh()[j]
//@ensures r.ptr.a() == operand.ptr.a(), r.sh().len() == r.st().len(), lab_ok(final(labels)@, r.sh().len() as int), forall|l: int| 0 < l ==> #[trigger] lsl(final(labels)@, r.st(), r.sh().len() as int, l) == lsl(old(labels)@, operand.st(), operand.sh().len() as int, l), r.wf(), r.flags.owned == false
//@start
    let ghost n = operand.sh().len() as int; let ghost (sh, st) = (operand.sh(), operand.st()); let ghost lab0 = labels@;
    proof { lemma_wfl(sh, st); }
//@loop 0
    invariant_except_break labels@ == lab0, vxa0, forall|j: int| 0 <= j < vxc0 ==> #[trigger] lab0[j] >= 0,
    ensures labels@ == lab0, vxa0 ==> forall|j: int| 0 <= j < MAX_DIMS ==> #[trigger] lab0[j] >= 0,
//@loop 1 before
    let ghost mut nl: Seq<i8> = Seq::empty(); let ghost mut src: Seq<int> = Seq::empty();
//@loop 1
    invariant labels@ == lab0, vxe1 == n, icombine <= vxc1, new_shape@.len() == icombine, new_stride@.len() == icombine, nl.len() == icombine, src.len() == icombine,
        forall|a: int| 0 <= a < vxc1 && #[trigger] lab0[a] >= 0 ==> icombinemap@[a] < icombine && icombinemap@[a] <= a && src[icombinemap@[a] as int] == a && new_shape@[icombinemap@[a] as int] == sh[a],
        forall|a: int| 0 <= a < vxc1 && #[trigger] lab0[a] < 0 ==> icombinemap@[a] == 33,
        forall|j: int| 0 <= j < icombine ==> 0 <= #[trigger] src[j] < vxc1 && lab0[src[j]] > 0 && nl[j] == lab0[src[j]] && icombinemap@[src[j]] == j,
        forall|j: int| 0 <= j < icombine ==> #[trigger] nl[j] > 0,
        forall|l: int| 0 < l ==> #[trigger] lsl(nl, new_stride@, icombine as int, l) == lsl(lab0, st, vxc1 as int, l),
        prod(new_shape@) > 0, prod(new_shape@) <= prod(sh.subrange(0, vxc1 as int)), span(new_shape@, new_stride@) == span(sh.subrange(0, vxc1 as int), st.subrange(0, vxc1 as int)),
//@loop 1 start
    let ghost a = vxc1 - 1; let ghost (s1, t1, c1) = (new_shape@, new_stride@, icombine as int); let ghost nl1 = nl;
    proof {
        assert(lab0[a] != 0); lemma_take_push(sh, a); lemma_take_push(st, a); lemma_prod_push(sh.subrange(0, a), sh[a]); lemma_off_push(sh.subrange(0, a), st.subrange(0, a), sh[a], st[a], 0); lemma_prod_push(s1, sh[a]); lemma_off_push(s1, t1, sh[a], st[a], 0);
        assert(sh[a] > 0);
        if lab0[a] < 0 {
            assert(neg(lab0, a));
            let f = a + lab0[a]; assert(lab0[f] > 0); let i = icombinemap@[f] as int; assert(src[i] == f); assert(nl[i] == lab0[f]);
            let l = lab0[f] as int; assert(rl(lab0, a) == l); assert(rl(nl, i) == l); lemma_lsl_in(nl, t1, c1, i); lemma_lsl_mono(lab0, st, a + 1, n, l); assert(lsl(nl, t1, c1, l) == lsl(lab0, st, a, l)); assert(lsl(lab0, st, n, l) <= isize::MAX);
            assert(sh[f] == sh[a]); assert(s1[i] == sh[f]);
        }
        assert(prod(s1) <= prod(s1) * sh[a]) by (nonlinear_arith) requires prod(s1) > 0, sh[a] > 0;
        assert(prod(s1) * sh[a] <= prod(sh.subrange(0, a)) * sh[a]) by (nonlinear_arith) requires prod(s1) <= prod(sh.subrange(0, a)), sh[a] > 0;
        assert(prod(sh.subrange(0, a)) <= prod(sh.subrange(0, a)) * sh[a]) by (nonlinear_arith) requires prod(sh.subrange(0, a)) > 0, sh[a] > 0;
        if lab0[a] > 0 { nl = nl.push(lab0[a]); src = src.push(a); }
    }
//@loop 1 end
    proof {
        if lab0[a] > 0 {
            assert forall|l: int| 0 < l implies #[trigger] lsl(nl, new_stride@, icombine as int, l) == lsl(lab0, st, vxc1 as int, l) by {
                assert(lsl(nl1, t1, c1, l) == lsl(lab0, st, a, l)); assert forall|j: int| 0 <= j < c1 implies rl(nl1, j) == #[trigger] rl(nl, j) by { assert(nl1[j] > 0); }
                lemma_lsl_ext(nl1, t1, nl, new_stride@, c1, l); assert(rl(nl, c1) == rl(lab0, a));
            }
            assert(new_shape@ =~= s1.push(sh[a])); assert(new_stride@ =~= t1.push(st[a]));
        } else {
            let i = icombinemap@[a + lab0[a]] as int; let v = new_stride@[i];
            assert(new_stride@ =~= t1.update(i, v));
            lemma_span_upd(s1, t1, i, v);
            assert forall|l: int| 0 < l implies #[trigger] lsl(nl, new_stride@, icombine as int, l) == lsl(lab0, st, vxc1 as int, l) by { assert(lsl(nl1, t1, c1, l) == lsl(lab0, st, a, l)); lemma_lsl_upd(nl, t1, c1, i, v, l); }
        }
    }
//@loop 1 after
    proof { assert(sh.subrange(0, n) =~= sh); assert(st.subrange(0, n) =~= st); }
//@loop 2
    invariant vxe2 == n, forall|a: int| vxc2 <= a < MAX_DIMS ==> #[trigger] labels@[a] == lab0[a], forall|j: int| 0 <= j < icombine && #[trigger] src[j] < vxc2 ==> labels@[j] == nl[j],
//@loop 2 start
    let ghost b = vxc2 - 1; let ghost l2 = labels@;
    proof { assert(labels@[b] == lab0[b]); assert(lab0[b] != 0); }
//@loop 2 end
    proof {
        assert forall|j: int| 0 <= j < icombine && #[trigger] src[j] < vxc2 implies labels@[j] == nl[j] by { if src[j] == b { assert(icombinemap@[src[j]] == j); } else { assert(l2[j] == nl[j]); if lab0[b] > 0 { assert(src[icombinemap@[b] as int] == b); } } }
    }
//@loop 2 after
    proof {
        assert forall|j: int| 0 <= j < icombine implies #[trigger] labels@[j] == nl[j] by { assert(src[j] < n); }
        assert forall|l: int| 0 < l implies #[trigger] lsl(labels@, new_stride@, icombine as int, l) == lsl(lab0, st, n, l) by {
            assert(lsl(nl, new_stride@, icombine as int, l) == lsl(lab0, st, n, l));
            assert forall|j: int| 0 <= j < icombine implies rl(nl, j) == #[trigger] rl(labels@, j) by { assert(nl[j] > 0); assert(labels@[j] == nl[j]); }
            lemma_lsl_ext(nl, new_stride@, labels@, new_stride@, icombine as int, l);
        }
        assert(lab_ok(labels@, icombine as int)) by { assert forall|j: int| 0 <= j < icombine && #[trigger] neg(labels@, j) implies false by { assert(labels@[j] == nl[j]); assert(nl[j] > 0); } }
    }
//@end
