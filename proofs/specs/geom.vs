//@use core
use vstd::arithmetic::mul::*;
use vstd::arithmetic::div_mod::*;

// ===================================================================== strided layouts
pub proof fn lemma_off_push(sh: Seq<usize>, st: Seq<usize>, n: usize, t: usize, k: int)
    ensures off(sh.push(n), st.push(t), k) == off(sh, st, k / (n as int)) + (k % (n as int)) * t,
        span(sh.push(n), st.push(t)) == span(sh, st) + (n - 1) * t,
        prod(sh.push(n)) == prod(sh) * n,
{ assert(sh.push(n).drop_last() =~= sh); assert(st.push(t).drop_last() =~= st); }

/// merging two axes (n, t), (m, s) into (n*m, s)
pub proof fn lemma_merge(d: Seq<usize>, e: Seq<usize>, n: usize, t: usize, m: usize, s: usize, nm: usize, k: int)
    requires n > 0, m > 0, nm == n * m, t == m * s || (n == 1 && t == 0),
    ensures off(d.push(n).push(m), e.push(t).push(s), k) == off(d.push(nm), e.push(s), k),
{
    lemma_off_push(d.push(n), e.push(t), m, s, k);
    lemma_off_push(d, e, n, t, k / (m as int));
    lemma_off_push(d, e, nm, s, k);
    let (n_, m_, t_, s_) = (n as int, m as int, t as int, s as int);
    lemma_div_denominator_floor(k, m_, n_);
    lemma_mod_breakdown_any(k, m_, n_);
    assert(m_ * n_ == n_ * m_) by (nonlinear_arith);
    let q = (k / m_) % n_;
    if t == m * s {
        assert((m_ * q + k % m_) * s_ == q * (m_ * s_) + (k % m_) * s_) by (nonlinear_arith);
    } else {
        assert(q == 0);
        assert(0 * t_ == 0);
    }
}
pub proof fn lemma_div_denominator_floor(k: int, m: int, n: int)
    requires m > 0, n > 0,
    ensures (k / m) / n == k / (m * n),
{
    if k >= 0 { lemma_div_denominator(k, m, n); }
    else {
        // floor division also composes for negative numbers
        let a = k / m; let b = a / n;
        lemma_fundamental_div_mod(k, m); lemma_fundamental_div_mod(a, n);
        lemma_mod_bound(k, m); lemma_mod_bound(a, n);
        let r = m * (a % n) + k % m;
        assert(k == (m * n) * b + r) by (nonlinear_arith) requires k == m * a + k % m, a == n * b + a % n, r == m * (a % n) + k % m;
        assert(0 <= r < m * n) by (nonlinear_arith) requires r == m * (a % n) + k % m, 0 <= a % n <= n - 1, 0 <= k % m < m, m > 0, n > 0;
        lemma_fundamental_div_mod_converse(k, m * n, b, r);
    }
}
pub proof fn lemma_mod_breakdown_any(k: int, m: int, n: int)
    requires m > 0, n > 0,
    ensures k % (m * n) == m * ((k / m) % n) + k % m,
{
    let a = k / m; let b = a / n;
    lemma_fundamental_div_mod(k, m); lemma_fundamental_div_mod(a, n);
    lemma_mod_bound(k, m); lemma_mod_bound(a, n);
    let r = m * (a % n) + k % m;
    assert(k == (m * n) * b + r) by (nonlinear_arith) requires k == m * a + k % m, a == n * b + a % n, r == m * (a % n) + k % m;
    assert(0 <= r < m * n) by (nonlinear_arith) requires r == m * (a % n) + k % m, 0 <= a % n <= n - 1, 0 <= k % m < m, m > 0, n > 0;
    lemma_fundamental_div_mod_converse(k, m * n, b, r);
}
pub open spec fn fits1(sh: Seq<usize>, st: Seq<usize>) -> bool {
    forall|i: int| 0 <= i < sh.len() ==> #[trigger] sh[i] * st[i] <= usize::MAX
}
/// row-major: each stride spans the axes after it
pub open spec fn chained(sh: Seq<usize>, st: Seq<usize>) -> bool {
    forall|i: int| 1 <= i < sh.len() ==> #[trigger] st[i - 1] == sh[i] * st[i]
}
/// consecutive elements are equally far apart: each stride spans the axes after it, or is a zero in front of axes of length one
pub open spec fn ustep(sh: Seq<usize>, st: Seq<usize>, i: int) -> bool { st[i - 1] == sh[i] * st[i] || (st[i - 1] == 0 && prod(sh.subrange(0, i)) == 1) }
pub open spec fn ustruct(sh: Seq<usize>, st: Seq<usize>) -> bool { forall|i: int| 1 <= i < sh.len() ==> #[trigger] ustep(sh, st, i) }
pub open spec fn rowmajor(sh: Seq<usize>, st: Seq<usize>) -> bool {
    sh.len() == st.len() && chained(sh, st) && (sh.len() > 0 ==> st.last() == 1)
}

//@fn src/ndarray/iterator/collapse_contiguous.rs :: - :: collapse_to_uniform_stride
//@sig pub fn collapse_to_uniform_stride(shape: &[usize], stride: &[usize]) -> (r: (Vec<usize>, Vec<usize>))
//@requires shape@.len() == stride@.len(), pz(shape@) <= usize::MAX, fits1(shape@, stride@)
//@ensures r.0@.len() == r.1@.len(), r.0@.len() <= shape@.len(), shape@.len() > 0 ==> r.0@.len() > 0,
    prod(r.0@) == prod(shape@), pz(r.0@) <= pz(shape@), fits1(r.0@, r.1@),
    same_off(r.0@, r.1@, shape@, stride@), span(r.0@, r.1@) == span(shape@, stride@),
    shape@.len() > 0 && ustruct(shape@, stride@) ==> r.0@.len() == 1 && r.1@[0] == stride@.last()
//@loop 0 before
    proof {
        assert(shape@.subrange(0, 1) =~= new_shape@);
        assert(stride@.subrange(0, 1) =~= new_stride@);
        lemma_pz_prefix(shape@, 1);
    }
//@loop 0
    invariant ndims == shape@.len(), shape@.len() == stride@.len(), pz(shape@) <= usize::MAX, fits1(shape@, stride@), 1 <= vxc0 <= ndims,
        new_shape@.len() == new_stride@.len(), new_shape@.len() == last_idx + 1, last_idx < vxc0,
        prod(new_shape@) == prod(shape@.subrange(0, vxc0 as int)), 1 <= pz(new_shape@) <= pz(shape@.subrange(0, vxc0 as int)), fits1(new_shape@, new_stride@),
        same_off(new_shape@, new_stride@, shape@.subrange(0, vxc0 as int), stride@.subrange(0, vxc0 as int)),
        span(new_shape@, new_stride@) == span(shape@.subrange(0, vxc0 as int), stride@.subrange(0, vxc0 as int)),
        ustruct(shape@, stride@) ==> last_idx == 0,
        new_stride@[last_idx as int] == stride@[vxc0 - 1],
//@loop 0 start
    let ghost a = new_shape@; let ghost b = new_stride@; let ghost c = shape@.subrange(0, i as int); let ghost d = stride@.subrange(0, i as int);
    let ghost n = a.last(); let ghost t = b.last(); let ghost m = shape@[i as int]; let ghost s = stride@[i as int];
    proof {
        lemma_take_push(shape@, i as int); lemma_take_push(stride@, i as int);
        lemma_pz_prefix(shape@, i + 1);
        assert(a =~= a.drop_last().push(n)); assert(b =~= b.drop_last().push(t));
        lemma_prod_push(c, m); lemma_prod_push(a.drop_last(), n); lemma_prod_push(a, m);
        assert(m * s <= usize::MAX) by { assert(shape@[i as int] * stride@[i as int] <= usize::MAX); }
        lemma_collapse_bound(a.drop_last(), n, m);
        lemma_prod_nonneg(a); lemma_prod_nonneg(c); lemma_prod_nonneg(a.drop_last());
        let z = if m == 0 { 1int } else { m as int };
        assert(pz(a) * z <= pz(c) * z) by (nonlinear_arith) requires pz(a) <= pz(c), z >= 1;
        assert(a.last() * b.last() <= usize::MAX) by { assert(a[a.len() - 1] * b[a.len() - 1] <= usize::MAX); }
        assert(n * m <= usize::MAX);
        if ustruct(shape@, stride@) {
            assert(ustep(shape@, stride@, i as int));
            assert(a.drop_last() =~= Seq::<usize>::empty());
            assert(prod(a.drop_last()) == 1); assert(1 * (n as int) == n as int); assert(prod(a) == n);
        }
    }
//@loop 0 end
    proof {
        assert forall|k: int| 0 <= k < prod(new_shape@) implies #[trigger] off(new_shape@, new_stride@, k) == off(c.push(m), d.push(s), k) by {
            lemma_off_push(c, d, m, s, k);
            if can_collapse {
                let nm = new_shape@.last();
                assert(new_shape@ =~= a.drop_last().push(nm)); assert(new_stride@ =~= b.drop_last().push(s));
                lemma_prod_push(a.drop_last(), nm);
                assert(nm == n * m);
                lemma_mul_is_associative(prod(a.drop_last()), n as int, m as int);
                assert(n > 0 && m > 0) by (nonlinear_arith) requires 0 <= k < prod(a.drop_last()) * (n * m), n >= 0, m >= 0;
                lemma_div_range(prod(a), m as int, k);
                assert(off(a, b, k / (m as int)) == off(c, d, k / (m as int)));
                lemma_merge(a.drop_last(), b.drop_last(), n, t, m, s, nm, k);
                lemma_off_push(a, b, m, s, k);
            } else {
                assert(new_shape@ =~= a.push(m)); assert(new_stride@ =~= b.push(s));
                lemma_off_push(a, b, m, s, k);
                lemma_div_range(prod(a), m as int, k);
                assert(off(a, b, k / (m as int)) == off(c, d, k / (m as int)));
            }
        }
        if can_collapse {
            let nm = new_shape@.last();
            assert(new_shape@ =~= a.drop_last().push(nm)); assert(new_stride@ =~= b.drop_last().push(s));
            assert(nm == n * m); assert((n * m) as usize == nm);
            lemma_prod_push(a.drop_last(), nm); lemma_prod_nonneg(new_shape@);
            lemma_mul_is_associative(prod(a.drop_last()), n as int, m as int);
            lemma_off_push(a.drop_last(), b.drop_last(), nm, s, 0);
            lemma_off_push(a.drop_last(), b.drop_last(), n, t, 0);
            lemma_off_push(c, d, m, s, 0);
            let (n_, m_, s_, t_) = (n as int, m as int, s as int, t as int);
            if t == m * s {
                assert((n_ * m_ - 1) * s_ == (n_ - 1) * (m_ * s_) + (m_ - 1) * s_) by (nonlinear_arith);
                assert(nm * s == n * t) by (nonlinear_arith) requires nm == n * m, t == m * s;
            } else {
                assert((n_ - 1) * t_ == 0) by (nonlinear_arith) requires n_ == 1; assert(nm == m) by (nonlinear_arith) requires nm == n * m, n == 1;
            }
            assert(nm * s <= usize::MAX);
            assert forall|j: int| 0 <= j < new_shape@.len() implies #[trigger] new_shape@[j] * new_stride@[j] <= usize::MAX by {
                if j < a.len() - 1 { assert(new_shape@[j] == a[j] && new_stride@[j] == b[j]); assert(a[j] * b[j] <= usize::MAX); }
            }
        } else {
            assert(new_shape@ =~= a.push(m)); assert(new_stride@ =~= b.push(s));
            lemma_off_push(a, b, m, s, 0); lemma_off_push(c, d, m, s, 0); lemma_prod_nonneg(new_shape@);
            assert forall|j: int| 0 <= j < new_shape@.len() implies #[trigger] new_shape@[j] * new_stride@[j] <= usize::MAX by {
                if j < a.len() { assert(new_shape@[j] == a[j] && new_stride@[j] == b[j]); assert(a[j] * b[j] <= usize::MAX); }
            }
        }
    }
//@ret
    proof { assert(shape@.subrange(0, ndims as int) =~= shape@); assert(stride@.subrange(0, ndims as int) =~= stride@); }
//@end

/// merging two axes keeps the product of the non-zero extents in range
pub proof fn lemma_collapse_bound(d: Seq<usize>, n: usize, m: usize)
    ensures n * m <= pz(d.push(n)) * (if m == 0 { 1int } else { m as int }),
        n * m <= usize::MAX ==> pz(d.push((n * m) as usize)) <= pz(d.push(n)) * (if m == 0 { 1int } else { m as int }),
{
    lemma_prod_push(d, n);
    lemma_prod_nonneg(d);
    let zn = if n == 0 { 1int } else { n as int }; let zm = if m == 0 { 1int } else { m as int };
    assert(n * m <= pz(d) * zn * zm) by (nonlinear_arith) requires n <= zn, m <= zm, pz(d) >= 1, 0 <= n, 0 <= m, zn >= 1, zm >= 1;
    if n * m <= usize::MAX {
        let nm = (n * m) as usize;
        lemma_prod_push(d, nm);
        let z = if nm == 0 { 1int } else { nm as int };
        assert(z <= zn * zm) by (nonlinear_arith) requires n <= zn, m <= zm, 0 <= n, 0 <= m, zn >= 1, zm >= 1, z == n * m || z == 1;
        assert(pz(d) * z <= pz(d) * zn * zm) by (nonlinear_arith) requires z <= zn * zm, pz(d) >= 1;
    }
}

//@fn src/ndarray/iterator/collapse_contiguous.rs :: - :: has_uniform_stride
//@sig pub fn has_uniform_stride(shape: &[usize], stride: &[usize]) -> (r: Option<usize>)
//@requires shape@.len() == stride@.len(), pz(shape@) <= usize::MAX, fits1(shape@, stride@)
//@ensures r.is_some() ==> uniform(shape@, stride@, r.unwrap() as int), r.is_some() && shape@.len() > 0 ==> r.unwrap() == stride@.last(),
    shape@.len() == 0 ==> r == Some(0usize), r.is_some() ==> ustruct(shape@, stride@), chained(shape@, stride@) ==> r.is_some()
//@return 0
    proof { assert(uniform(shape@, stride@, 0)); }
//@loop 0 before
    proof {
        let (a, b) = (shape@.subrange(0, 1), stride@.subrange(0, 1));
        assert(shape@.subrange(0, 0) =~= Seq::<usize>::empty());
        assert forall|k: int| 0 <= k < prod(a) implies #[trigger] off(a, b, k) == k * stride@[0] by { lemma_take_push(shape@, 0); lemma_take_push(stride@, 0); lemma_prod_push(shape@.subrange(0, 0), shape@[0]); lemma_off_push(shape@.subrange(0, 0), stride@.subrange(0, 0), shape@[0], stride@[0], k); lemma_small_mod(k as nat, shape@[0] as nat); }
    }
//@loop 0
    invariant ndims == shape@.len(), shape@.len() == stride@.len(), pz(shape@) <= usize::MAX, fits1(shape@, stride@), 1 <= vxc0 <= ndims,
        leading_size == prod(shape@.subrange(0, vxc0 - 1)),
        uniform(shape@.subrange(0, vxc0 as int), stride@.subrange(0, vxc0 as int), stride@[vxc0 - 1] as int),
        forall|j: int| 1 <= j < vxc0 ==> #[trigger] ustep(shape@, stride@, j),
//@loop 0 start
    let ghost c = shape@.subrange(0, i as int); let ghost d = stride@.subrange(0, i as int);
    let ghost m = shape@[i as int]; let ghost s = stride@[i as int]; let ghost t = stride@[i - 1];
    proof {
        lemma_take_push(shape@, i as int); lemma_take_push(stride@, i as int);
        lemma_take_push(shape@, i - 1);
        lemma_prod_push(shape@.subrange(0, i - 1), shape@[i - 1]); lemma_prod_push(c, m);
        lemma_pz_prefix(shape@, i as int); lemma_prod_nonneg(c);
        assert(shape@[i as int] * stride@[i as int] <= usize::MAX);
        if !(t == 0 && prod(c) == 1) && t != m * s { assert(!chained(shape@, stride@)) by { assert(stride@[i - 1] == t); } }
    }
//@loop 0 end
    proof {
        assert forall|k: int| 0 <= k < prod(c.push(m)) implies #[trigger] off(c.push(m), d.push(s), k) == k * s by {
            lemma_off_push(c, d, m, s, k);
            lemma_div_range(prod(c), m as int, k);
            assert(off(c, d, k / (m as int)) == (k / (m as int)) * t);
            let (q, m_, s_, t_) = (k / (m as int), m as int, s as int, t as int);
            if t == m * s {
                assert((q * m_ + k % m_) * s_ == q * (m_ * s_) + (k % m_) * s_) by (nonlinear_arith);
            } else {
                assert(q == 0);
                assert(q * t_ == 0 && q * m_ == 0) by (nonlinear_arith) requires q == 0;
            }
        }
    }
//@ret
    proof { assert(shape@.subrange(0, ndims as int) =~= shape@); assert(stride@.subrange(0, ndims as int) =~= stride@); }
//@end

//@fn src/ndarray/constructors.rs :: - :: stride_from_shape
//@sig pub fn stride_from_shape(shape: &[usize]) -> (r: Vec<usize>)
//@requires pz(shape@) <= usize::MAX
//@ensures r@.len() == shape@.len(), rowmajor(shape@, r@), fits1(shape@, r@)
//@loop 0 before
    assert(shape@.subrange(ndims as int, ndims as int) =~= Seq::<usize>::empty());
//@loop 0
    invariant ndims == shape@.len(), stride@.len() == ndims, pz(shape@) <= usize::MAX,
        p == prod(shape@.subrange(vxc0 as int, ndims as int)),
        vxc0 == ndims ==> p == 1,
        forall|j: int| vxc0 < j < ndims ==> #[trigger] stride@[j - 1] == shape@[j] * stride@[j],
        forall|j: int| vxc0 <= j < ndims ==> #[trigger] shape@[j] * stride@[j] <= usize::MAX,
        vxc0 < ndims ==> p == shape@[vxc0 as int] * stride@[vxc0 as int] && stride@[ndims - 1] == 1,
//@loop 0 start
    let ghost s0 = stride@;
    proof {
        let (a, b) = (shape@.subrange(i as int, i + 1), shape@.subrange(i + 1, ndims as int));
        assert(shape@.subrange(i as int, ndims as int) =~= a + b);
        lemma_pz_concat(a, b);
        assert(a =~= Seq::<usize>::empty().push(shape@[i as int]));
        lemma_prod_push(Seq::empty(), shape@[i as int]);
        lemma_pz_sub(shape@, i as int, ndims as int);
        lemma_mul_is_commutative(p as int, shape@[i as int] as int);
        assert(p * shape@[i as int] <= usize::MAX);
    }
//@loop 0 end
    proof {
        assert forall|j: int| i < j < ndims implies #[trigger] stride@[j - 1] == shape@[j] * stride@[j] by { if j - 1 == i { } else { assert(s0[j - 1] == shape@[j] * s0[j]); } }
        assert forall|j: int| i <= j < ndims implies #[trigger] shape@[j] * stride@[j] <= usize::MAX by { if j > i { assert(shape@[j] * s0[j] <= usize::MAX); } }
    }
//@ret
    proof { assert forall|j: int| 1 <= j < shape@.len() implies #[trigger] stride@[j - 1] == shape@[j] * stride@[j] by { } }
//@end
