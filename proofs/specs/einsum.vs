//@use core geom mem arr slice bcast iter heap kern ops fill red redax sop mat eloop mfig einl dotm esub eprep
use vstd::arithmetic::mul::*;
use vstd::arithmetic::div_mod::*;

// ===================================================================== the sum an einsum denotes
/// where label l is in the list
pub open spec fn pos(ls: Seq<int>, l: int) -> int { choose|d: int| 0 <= d < ls.len() && #[trigger] ls[d] == l }
/// the indices of a word's axes when the labels have the values ix
pub open spec fn proj(ls: Seq<int>, s: Seq<u8>, n: int, ix: Seq<int>) -> Seq<int> { Seq::new(n as nat, |a: int| ix[pos(ls, s[a] as int)]) }
/// values of all labels: k for the first, the t-th combination for the others
pub open spec fn ipt(ish: Seq<usize>, t: int, k: int) -> Seq<int> { seq![k] + unlin(ish.drop_first(), t) }
/// the product of the first n operands' elements when the labels have the values ix
pub open spec fn epv(ops: Seq<&NdArray>, ws: Seq<&[u8]>, ls: Seq<int>, m: Mem, ix: Seq<int>, n: int) -> E
    decreases n,
{ if n <= 0 { E::one_() } else { mul_e(epv(ops, ws, ls, m, ix, n - 1), m.m()[ops[n - 1].at_ix(proj(ls, ws[n - 1]@, ops[n - 1].sh().len() as int, ix))]) } }
/// what the labels' values ix contribute to the output index jx
pub open spec fn eterm(ops: Seq<&NdArray>, ws: Seq<&[u8]>, out: Seq<u8>, ls: Seq<int>, m: Mem, jx: Seq<int>, ix: Seq<int>) -> E {
    if proj(ls, out, out.len() as int, ix) == jx { epv(ops, ws, ls, m, ix, ops.len() as int) } else { E::zero_() }
}
pub open spec fn erow(ops: Seq<&NdArray>, ws: Seq<&[u8]>, out: Seq<u8>, ls: Seq<int>, ish: Seq<usize>, m: Mem, jx: Seq<int>, t: int) -> spec_fn(int) -> E { |k: int| eterm(ops, ws, out, ls, m, jx, ipt(ish, t, k)) }
pub open spec fn erows(ops: Seq<&NdArray>, ws: Seq<&[u8]>, out: Seq<u8>, ls: Seq<int>, ish: Seq<usize>, m: Mem, jx: Seq<int>) -> spec_fn(int) -> E { |t: int| rs(erow(ops, ws, out, ls, ish, m, jx, t), 0, ish[0] as int) }
/// the sum over all values of all labels
pub open spec fn esum(ops: Seq<&NdArray>, ws: Seq<&[u8]>, out: Seq<u8>, ls: Seq<int>, ish: Seq<usize>, m: Mem, jx: Seq<int>) -> E { rs(erows(ops, ws, out, ls, ish, m, jx), 0, prod(ish.drop_first())) }
/// ls: the labels that occur (an extra label 0 of extent 1 when there are none), each once
pub open spec fn all_labels(ops: Seq<&NdArray>, ws: Seq<&[u8]>, ls: Seq<int>, ish: Seq<usize>) -> bool {
    ls.len() >= 1 && labelled(ops, ws, ls, ish) && forall|i: int, a: int| onax(ops, ops.len() as int, i, a) ==> inl(ls, #[trigger] wl(ws, i, a))
}
pub open spec fn oshape(ops: Seq<&NdArray>, ws: Seq<&[u8]>, out: Seq<u8>, osh: Seq<usize>) -> bool { osh.len() == out.len() && forall|j: int| 0 <= j < out.len() ==> #[trigger] lab_at(ops, ws, out[j] as int, osh[j]) }
/// the cells from d on hold, in row-major order, the sums that belong to the output indices
pub open spec fn holds(d: int, osh: Seq<usize>, ops: Seq<&NdArray>, ws: Seq<&[u8]>, out: Seq<u8>, ls: Seq<int>, ish: Seq<usize>, m0: Mem, m1: Mem) -> bool {
    all_labels(ops, ws, ls, ish) && oshape(ops, ws, out, osh) && forall|jx: Seq<int>| #[trigger] inb(osh, jx) ==> m1.m()[d + lin(osh, jx)] == esum(ops, ws, out, ls, ish, m0, jx)
}
pub open spec fn is_esum(d: int, osh: Seq<usize>, ops: Seq<&NdArray>, ws: Seq<&[u8]>, out: Seq<u8>, m0: Mem, m1: Mem) -> bool { exists|ls: Seq<int>, ish: Seq<usize>| #[trigger] holds(d, osh, ops, ws, out, ls, ish, m0, m1) }

// ===================================================================== labels and strides
pub proof fn lemma_pos(ls: Seq<int>, l: int)
    requires inl(ls, l),
    ensures 0 <= pos(ls, l) < ls.len(), ls[pos(ls, l)] == l,
{ let d = choose|d: int| 0 <= d < ls.len() && #[trigger] ls[d] == l; }
pub open spec fn uniq(ls: Seq<int>) -> bool { forall|d: int, e: int| 0 <= d < e < ls.len() ==> #[trigger] ls[d] != #[trigger] ls[e] }
pub open spec fn inls(ls: Seq<int>, s: Seq<u8>, n: int) -> bool { forall|a: int| 0 <= a < n ==> inl(ls, #[trigger] s[a] as int) }
pub open spec fn ldot(s: Seq<u8>, st: Seq<usize>, n: int, ls: Seq<int>, ix: Seq<int>, k: int) -> int
    decreases k,
{ if k <= 0 { 0 } else { ldot(s, st, n, ls, ix, k - 1) + ix[k - 1] * lsum(s, st, n, ls[k - 1]) } }
pub proof fn lemma_ldot_step(s: Seq<u8>, st: Seq<usize>, n: int, ls: Seq<int>, ix: Seq<int>, k: int)
    requires n > 0, uniq(ls), 0 <= k <= ls.len(), inl(ls, s[n - 1] as int),
    ensures ldot(s, st, n, ls, ix, k) == ldot(s, st, n - 1, ls, ix, k) + (if pos(ls, s[n - 1] as int) < k { ix[pos(ls, s[n - 1] as int)] * st[n - 1] } else { 0 }),
    decreases k,
{
    let l = s[n - 1] as int; lemma_pos(ls, l); let p = pos(ls, l);
    if k > 0 {
        lemma_ldot_step(s, st, n, ls, ix, k - 1);
        if ls[k - 1] == l { if p < k - 1 { assert(ls[p] != ls[k - 1]); } else if p > k - 1 { assert(ls[k - 1] != ls[p]); } assert(p == k - 1); assert(ix[k - 1] * (lsum(s, st, n - 1, l) + st[n - 1]) == ix[k - 1] * lsum(s, st, n - 1, l) + ix[k - 1] * st[n - 1]) by (nonlinear_arith); }
    }
}
pub proof fn lemma_ldot0(s: Seq<u8>, st: Seq<usize>, ls: Seq<int>, ix: Seq<int>, k: int)
    ensures ldot(s, st, 0, ls, ix, k) == 0,
    decreases k,
{ if k > 0 { lemma_ldot0(s, st, ls, ix, k - 1); assert(ix[k - 1] * 0 == 0); } }
pub proof fn lemma_ldot(s: Seq<u8>, st: Seq<usize>, n: int, ls: Seq<int>, ix: Seq<int>)
    requires 0 <= n <= st.len(), uniq(ls), inls(ls, s, n),
    ensures ldot(s, st, n, ls, ix, ls.len() as int) == dotp(st.subrange(0, n), proj(ls, s, n, ix)),
    decreases n,
{
    if n == 0 { lemma_ldot0(s, st, ls, ix, ls.len() as int); assert(st.subrange(0, 0) =~= Seq::<usize>::empty()); } else {
        lemma_ldot(s, st, n - 1, ls, ix); assert(inl(ls, s[n - 1] as int)); lemma_ldot_step(s, st, n, ls, ix, ls.len() as int); lemma_pos(ls, s[n - 1] as int);
        assert(st.subrange(0, n).drop_last() =~= st.subrange(0, n - 1)); assert(proj(ls, s, n, ix).drop_last() =~= proj(ls, s, n - 1, ix));
    }
}
pub proof fn lemma_ldot_col(s: Seq<u8>, st: Seq<usize>, n: int, ls: Seq<int>, cl: Seq<usize>, ix: Seq<int>, k: int)
    requires cl.len() == ls.len(), ix.len() == ls.len(), 0 <= k <= ls.len(), forall|d: int| 0 <= d < cl.len() ==> (#[trigger] cl[d]) as int == lsum(s, st, n, ls[d]),
    ensures ldot(s, st, n, ls, ix, k) == dotp(cl.subrange(0, k), ix.subrange(0, k)),
    decreases k,
{ if k > 0 { lemma_ldot_col(s, st, n, ls, cl, ix, k - 1); assert(cl.subrange(0, k).drop_last() =~= cl.subrange(0, k - 1)); assert(ix.subrange(0, k).drop_last() =~= ix.subrange(0, k - 1)); assert(cl[k - 1] as int == lsum(s, st, n, ls[k - 1])); } }
/// the offset by label strides is the offset by the word's axes
pub proof fn lemma_label_dot(s: Seq<u8>, st: Seq<usize>, ls: Seq<int>, cl: Seq<usize>, ix: Seq<int>)
    requires uniq(ls), inls(ls, s, st.len() as int), cl.len() == ls.len(), ix.len() == ls.len(), forall|d: int| 0 <= d < cl.len() ==> (#[trigger] cl[d]) as int == lsum(s, st, st.len() as int, ls[d]),
    ensures dotp(cl, ix) == dotp(st, proj(ls, s, st.len() as int, ix)),
{
    let n = st.len() as int; let k = ls.len() as int;
    lemma_ldot(s, st, n, ls, ix); lemma_ldot_col(s, st, n, ls, cl, ix, k);
    assert(cl.subrange(0, k) =~= cl); assert(ix.subrange(0, k) =~= ix); assert(st.subrange(0, n) =~= st);
}
/// a word whose axes have the labels' extents
pub open spec fn fits_labels(ls: Seq<int>, ish: Seq<usize>, s: Seq<u8>, sh: Seq<usize>) -> bool { forall|a: int| 0 <= a < sh.len() ==> ish[pos(ls, #[trigger] s[a] as int)] == sh[a] }
pub proof fn lemma_label_space(s: Seq<u8>, sh: Seq<usize>, st: Seq<usize>, ls: Seq<int>, ish: Seq<usize>, cl: Seq<usize>)
    requires uniq(ls), inls(ls, s, st.len() as int), sh.len() == st.len(), cl.len() == ls.len(), ish.len() == ls.len(), ls.len() > 0, fits_labels(ls, ish, s, sh), forall|d: int| 0 <= d < cl.len() ==> (#[trigger] cl[d]) as int == lsum(s, st, st.len() as int, ls[d]), prod(ish) > 0,
    ensures span(ish, cl) == span(sh, st), span(ish.drop_first(), cl.drop_first()) + (ish[0] - 1) * cl[0] == span(ish, cl), span(ish.drop_first(), cl.drop_first()) >= 0, (ish[0] - 1) * cl[0] >= 0,
        forall|t: int, k: int| 0 <= t < prod(ish.drop_first()) && 0 <= k < ish[0] ==> inb(sh, proj(ls, s, sh.len() as int, #[trigger] ipt(ish, t, k))),
        forall|t: int, k: int| 0 <= t < prod(ish.drop_first()) && 0 <= k < ish[0] ==> off(ish.drop_first(), cl.drop_first(), t) + k * cl[0] == dotp(st, proj(ls, s, sh.len() as int, #[trigger] ipt(ish, t, k))),
{
    let n = st.len() as int; let ti = ish.drop_first(); let tc = cl.drop_first();
    lemma_span_dotp(ish, cl); lemma_span_dotp(sh, st); lemma_label_dot(s, st, ls, cl, topix(ish));
    assert(proj(ls, s, n, topix(ish)) =~= topix(sh)) by { assert forall|a: int| 0 <= a < n implies #[trigger] proj(ls, s, n, topix(ish))[a] == topix(sh)[a] by { assert(inl(ls, s[a] as int)); lemma_pos(ls, s[a] as int); } }
    lemma_dotp_first(cl, topix(ish)); assert(topix(ish).drop_first() =~= topix(ti)); lemma_span_dotp(ti, tc);
    lemma_prod_first(ish); lemma_prod_nonneg(ish); lemma_prod_nonneg(ti);
    assert(ish[0] > 0); assert(forall|i: int| 0 <= i < ti.len() ==> ti[i] == ish[i + 1]);
    lemma_off_bounds(ti, tc, 0);
    assert((ish[0] - 1) * cl[0] >= 0) by (nonlinear_arith) requires ish[0] > 0, cl[0] >= 0;
    assert forall|t: int, k: int| 0 <= t < prod(ti) && 0 <= k < ish[0] implies inb(sh, proj(ls, s, n, #[trigger] ipt(ish, t, k))) && off(ti, tc, t) + k * cl[0] == dotp(st, proj(ls, s, n, ipt(ish, t, k))) by {
        let ix = ipt(ish, t, k); lemma_unlin(ti, t); lemma_off_lin(ti, tc, unlin(ti, t));
        assert(ix.drop_first() =~= unlin(ti, t)); lemma_dotp_first(cl, ix); lemma_label_dot(s, st, ls, cl, ix);
        assert forall|a: int| 0 <= a < n implies 0 <= #[trigger] proj(ls, s, n, ix)[a] < sh[a] by { assert(inl(ls, s[a] as int)); lemma_pos(ls, s[a] as int); let d = pos(ls, s[a] as int); if d > 0 { assert(ix[d] == unlin(ti, t)[d - 1]); assert(ti[d - 1] == ish[d]); } }
    }
}
/// the word, extents and strides of operand i (the output after the operands)
pub open spec fn wd(ops: Seq<&NdArray>, ws: Seq<&[u8]>, out: Seq<u8>, i: int) -> Seq<u8> { if i < ops.len() { ws[i]@ } else { out } }
pub open spec fn shd(ops: Seq<&NdArray>, osh: Seq<usize>, i: int) -> Seq<usize> { if i < ops.len() { ops[i].sh() } else { osh } }
pub open spec fn std(ops: Seq<&NdArray>, ost: Seq<usize>, i: int) -> Seq<usize> { if i < ops.len() { ops[i].st() } else { ost } }
pub open spec fn eall(ops: Seq<&NdArray>, ws: Seq<&[u8]>, out: Seq<u8>, sm: Seq<[usize; MAX_ARGS]>, nd: int, ish: Seq<usize>, osh: Seq<usize>, ls: Seq<int>, ost: Seq<usize>) -> bool { eready(ops, ws, out) && subs_ok(ops, ws, out) && prepared(ops, ws, out, sm, nd, ish, osh, ls, ost) }
pub open spec fn lcell(ops: Seq<&NdArray>, sm: Seq<[usize; MAX_ARGS]>, nd: int, ish: Seq<usize>, dst: Ptr, i: int, t: int, k: int) -> int { ecell(obs(ops, dst), ist(sm, (ops.len() + 1) as int), ish.subrange(1, nd), oost(sm, nd, (ops.len() + 1) as int), i, t, k) }
pub proof fn lemma_same_label(ops: Seq<&NdArray>, ws: Seq<&[u8]>, l: int, e: usize, f: usize)
    requires lab_at(ops, ws, l, e), lab_at(ops, ws, l, f), consistent(ws, ops, ops.len() as int), l != 0,
    ensures e == f,
{
    let n = ops.len() as int;
    let (i, a) = choose|i: int, a: int| onax(ops, n, i, a) && #[trigger] wl(ws, i, a) == l && ext(ops, i, a) == e;
    let (j, b) = choose|i: int, a: int| onax(ops, n, i, a) && #[trigger] wl(ws, i, a) == l && ext(ops, i, a) == f;
    assert(wl(ws, i, a) == wl(ws, j, b));
}
pub proof fn lemma_space(ops: Seq<&NdArray>, ws: Seq<&[u8]>, out: Seq<u8>, sm: Seq<[usize; MAX_ARGS]>, nd: int, ish: Seq<usize>, osh: Seq<usize>, ls: Seq<int>, ost: Seq<usize>, dst: Ptr, i: int)
    requires eall(ops, ws, out, sm, nd, ish, osh, ls, ost), 0 <= i <= ops.len(),
    ensures prod(ish) > 0, 0 < prod(ish.subrange(1, nd)) <= isize::MAX, ish[0] > 0, prod(osh) > 0, prod(osh) <= isize::MAX, ish.len() == nd, ish.subrange(1, nd) == ish.drop_first(), oost(sm, nd, (ops.len() + 1) as int)[i].len() == nd - 1, span(ish.subrange(1, nd), oost(sm, nd, (ops.len() + 1) as int)[i]) <= isize::MAX, (ish[0] - 1) * ist(sm, (ops.len() + 1) as int)[i] <= isize::MAX, shd(ops, osh, i).len() == std(ops, ost, i).len(),
        forall|t: int, k: int| 0 <= t < prod(ish.subrange(1, nd)) && 0 <= k < ish[0] ==> #[trigger] lcell(ops, sm, nd, ish, dst, i, t, k) == obs(ops, dst)[i] + dotp(std(ops, ost, i), proj(ls, wd(ops, ws, out, i), shd(ops, osh, i).len() as int, ipt(ish, t, k))),
        forall|t: int, k: int| 0 <= t < prod(ish.subrange(1, nd)) && 0 <= k < ish[0] ==> inb(shd(ops, osh, i), proj(ls, wd(ops, ws, out, i), shd(ops, osh, i).len() as int, #[trigger] ipt(ish, t, k))),
{
    let n = ops.len() as int; let s = wd(ops, ws, out, i); let sh = shd(ops, osh, i); let st = std(ops, ost, i); let cl = col(sm.subrange(0, nd), i);
    lemma_lab_pos(ops, ws, ls, ish); assert(prod(ish) <= isize::MAX); lemma_prod_first(ish); 
    let ols = Seq::new(out.len(), |j: int| out[j] as int);
    assert(labelled(ops, ws, ols, osh)) by { assert forall|d: int| 0 <= d < ols.len() implies #[trigger] lab_at(ops, ws, ols[d], osh[d]) by { assert(lab_at(ops, ws, out[d] as int, osh[d])); } assert forall|d: int, e: int| 0 <= d < e < ols.len() implies #[trigger] ols[d] != #[trigger] ols[e] by { assert(out[d] != out[e]); } }
    lemma_lab_pos(ops, ws, ols, osh); lemma_rowmajor(osh, ost);
    if i < n { assert(ops[i].wf()); lemma_wfl(ops[i].sh(), ops[i].st()); }
    assert(inls(ls, s, st.len() as int)) by { assert forall|a: int| 0 <= a < st.len() implies inl(ls, #[trigger] s[a] as int) by { if i < n { assert(onax(ops, n, i, a)); assert(inl(ls, wl(ws, i, a))); } else { assert(inl(ls, out[a] as int)); } } }
    assert(fits_labels(ls, ish, s, sh)) by {
        assert forall|a: int| 0 <= a < sh.len() implies ish[pos(ls, #[trigger] s[a] as int)] == sh[a] by {
            assert(inl(ls, s[a] as int)); lemma_pos(ls, s[a] as int); let d = pos(ls, s[a] as int); assert(lab_at(ops, ws, ls[d], ish[d]));
            if i < n { assert(onax(ops, n, i, a)); lemma_wl_letter(ws, ops, n, i, a); assert(wl(ws, i, a) == ls[d] && ext(ops, i, a) == sh[a]); assert(lab_at(ops, ws, ls[d], sh[a])); } else { assert(letter(out[a])); assert(lab_at(ops, ws, out[a] as int, osh[a])); }
            lemma_same_label(ops, ws, ls[d], ish[d], sh[a]);
        }
    }
    assert forall|d: int| 0 <= d < cl.len() implies (#[trigger] cl[d]) as int == lsum(s, st, st.len() as int, ls[d]) by { if i < n { assert(sm[d]@[i] == lsum(ws[i]@, ops[i].st(), ops[i].sh().len() as int, ls[d])); } else { assert(sm[d]@[n] == lsum(out, ost, out.len() as int, ls[d])); } }
    lemma_label_space(s, sh, st, ls, ish, cl);
    assert(ish.subrange(1, nd) =~= ish.drop_first()); assert(oost(sm, nd, n + 1)[i] =~= cl.drop_first()); assert(ist(sm, n + 1)[i] == cl[0]);
    let p = prod(ish.drop_first());
    lemma_prod_nonneg(ish.drop_first()); assert(ish[0] > 0);
    assert(p <= ish[0] * p) by (nonlinear_arith) requires ish[0] > 0, p >= 0;
    assert(p > 0) by (nonlinear_arith) requires ish[0] * p > 0, p >= 0;
    assert forall|t: int, k: int| 0 <= t < prod(ish.subrange(1, nd)) && 0 <= k < ish[0] implies #[trigger] lcell(ops, sm, nd, ish, dst, i, t, k) == obs(ops, dst)[i] + dotp(st, proj(ls, s, sh.len() as int, ipt(ish, t, k))) by {
        let q = ipt(ish, t, k); assert(off(ish.drop_first(), cl.drop_first(), t) + k * cl[0] == dotp(st, proj(ls, s, sh.len() as int, q)));
    }
}
/// the operands are readable and lie outside the output
pub open spec fn apart(ops: Seq<&NdArray>, d: int, n: int) -> bool { forall|i: int, k: int| 0 <= i < ops.len() && 0 <= k < prod(ops[i].sh()) ==> !(d <= #[trigger] ops[i].ad(k) < d + n) }
pub open spec fn rall(ops: Seq<&NdArray>, m: Mem) -> bool { forall|i: int| 0 <= i < ops.len() ==> (#[trigger] ops[i]).readable(m) }
pub proof fn lemma_cells(ops: Seq<&NdArray>, ws: Seq<&[u8]>, out: Seq<u8>, sm: Seq<[usize; MAX_ARGS]>, nd: int, ish: Seq<usize>, osh: Seq<usize>, ls: Seq<int>, ost: Seq<usize>, dst: Ptr, m: Mem, i: int, t: int, k: int)
    requires eall(ops, ws, out, sm, nd, ish, osh, ls, ost), rall(ops, m), 0 <= i <= ops.len(), 0 <= t < prod(ish.subrange(1, nd)), 0 <= k < ish[0],
    ensures i < ops.len() ==> lcell(ops, sm, nd, ish, dst, i, t, k) == ops[i].at_ix(proj(ls, ws[i]@, ops[i].sh().len() as int, ipt(ish, t, k))) && m.m().contains_key(lcell(ops, sm, nd, ish, dst, i, t, k)) && exists|a: int| 0 <= a < prod(ops[i].sh()) && #[trigger] ops[i].ad(a) == lcell(ops, sm, nd, ish, dst, i, t, k),
        i == ops.len() ==> lcell(ops, sm, nd, ish, dst, i, t, k) == dst.a() + lin(osh, proj(ls, out, out.len() as int, ipt(ish, t, k))) && inb(osh, proj(ls, out, out.len() as int, ipt(ish, t, k))) && 0 <= lin(osh, proj(ls, out, out.len() as int, ipt(ish, t, k))) < prod(osh),
{
    lemma_space(ops, ws, out, sm, nd, ish, osh, ls, ost, dst, i);
    let ix = ipt(ish, t, k); let jx = proj(ls, wd(ops, ws, out, i), shd(ops, osh, i).len() as int, ix);
    assert(inb(shd(ops, osh, i), jx)); lemma_off_lin(shd(ops, osh, i), std(ops, ost, i), jx);
    assert(lcell(ops, sm, nd, ish, dst, i, t, k) == obs(ops, dst)[i] + dotp(std(ops, ost, i), jx));
    if i < ops.len() { let a = lin(ops[i].sh(), jx); assert(ops[i].readable(m)); assert(ops[i].ad(a) == ops[i].at_ix(jx)); assert(m.m().contains_key(ops[i].ad(a))); } else { lemma_rowmajor(osh, ost); assert(off(osh, ost, lin(osh, jx)) == lin(osh, jx) * 1); }
}
pub proof fn lemma_lin_in(ops: Seq<&NdArray>, ws: Seq<&[u8]>, out: Seq<u8>, sm: Seq<[usize; MAX_ARGS]>, nd: int, ish: Seq<usize>, osh: Seq<usize>, ls: Seq<int>, ost: Seq<usize>, dst: Ptr, m: Mem)
    requires eall(ops, ws, out, sm, nd, ish, osh, ls, ost), rall(ops, m), apart(ops, dst.a(), prod(osh)), forall|x: int| dst.a() <= x < dst.a() + prod(osh) ==> #[trigger] m.m().contains_key(x),
    ensures lin_(m, ops, sm, nd, ish, dst),
{
    let n = ops.len() as int; let bs = obs(ops, dst); let s0 = ist(sm, n + 1); let o = ish.subrange(1, nd); let q = oost(sm, nd, n + 1);
    lemma_space(ops, ws, out, sm, nd, ish, osh, ls, ost, dst, 0);
    assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]).len() == o.len() && span(o, q[i]) <= isize::MAX by { lemma_space(ops, ws, out, sm, nd, ish, osh, ls, ost, dst, i); }
    assert forall|i: int| 0 <= i < s0.len() implies (ish[0] - 1) * #[trigger] s0[i] <= isize::MAX by { lemma_space(ops, ws, out, sm, nd, ish, osh, ls, ost, dst, i); }
    assert forall|i: int, t: int, k: int| 0 <= i < bs.len() && 0 <= t < prod(o) && 0 <= k < ish[0] implies m.m().contains_key(#[trigger] ecell(bs, s0, o, q, i, t, k)) by { lemma_cells(ops, ws, out, sm, nd, ish, osh, ls, ost, dst, m, i, t, k); assert(ecell(bs, s0, o, q, i, t, k) == lcell(ops, sm, nd, ish, dst, i, t, k)); }
    assert forall|i: int, t: int, k: int, u: int, j: int| 0 <= i < bs.len() - 1 && 0 <= t < prod(o) && 0 <= k < ish[0] && 0 <= u < prod(o) && 0 <= j < ish[0] implies #[trigger] ecell(bs, s0, o, q, i, t, k) != #[trigger] ecell(bs, s0, o, q, bs.len() - 1, u, j) by {
        lemma_cells(ops, ws, out, sm, nd, ish, osh, ls, ost, dst, m, i, t, k); lemma_cells(ops, ws, out, sm, nd, ish, osh, ls, ost, dst, m, n, u, j);
        let a = choose|a: int| 0 <= a < prod(ops[i].sh()) && #[trigger] ops[i].ad(a) == lcell(ops, sm, nd, ish, dst, i, t, k);
        assert(!(dst.a() <= ops[i].ad(a) < dst.a() + prod(osh)));
        assert(ecell(bs, s0, o, q, i, t, k) == lcell(ops, sm, nd, ish, dst, i, t, k)); assert(ecell(bs, s0, o, q, n, u, j) == lcell(ops, sm, nd, ish, dst, n, u, j));
    }
}
/// the product the kernels form is the product of the operands' elements
pub proof fn lemma_epv(ops: Seq<&NdArray>, ws: Seq<&[u8]>, out: Seq<u8>, sm: Seq<[usize; MAX_ARGS]>, nd: int, ish: Seq<usize>, osh: Seq<usize>, ls: Seq<int>, ost: Seq<usize>, dst: Ptr, m: Mem, t: int, k: int, n: int)
    requires eall(ops, ws, out, sm, nd, ish, osh, ls, ost), rall(ops, m), 0 <= n <= ops.len(), 0 <= t < prod(ish.subrange(1, nd)), 0 <= k < ish[0],
    ensures pv(m, pst(obs(ops, dst), ish.subrange(1, nd), oost(sm, nd, (ops.len() + 1) as int), t), ist(sm, (ops.len() + 1) as int), n, k) == epv(ops, ws, ls, m, ipt(ish, t, k), n),
    decreases n,
{ if n > 0 { lemma_epv(ops, ws, out, sm, nd, ish, osh, ls, ost, dst, m, t, k, n - 1); lemma_cells(ops, ws, out, sm, nd, ish, osh, ls, ost, dst, m, n - 1, t, k); } }
pub proof fn lemma_epv_same(ops: Seq<&NdArray>, ws: Seq<&[u8]>, out: Seq<u8>, sm: Seq<[usize; MAX_ARGS]>, nd: int, ish: Seq<usize>, osh: Seq<usize>, ls: Seq<int>, ost: Seq<usize>, dst: Ptr, m0: Mem, m: Mem, t: int, k: int, n: int)
    requires eall(ops, ws, out, sm, nd, ish, osh, ls, ost), rall(ops, m0), 0 <= n <= ops.len(), 0 <= t < prod(ish.subrange(1, nd)), 0 <= k < ish[0], forall|i: int, a: int| 0 <= i < ops.len() && 0 <= a < prod(ops[i].sh()) ==> m.m()[#[trigger] ops[i].ad(a)] == m0.m()[ops[i].ad(a)],
    ensures epv(ops, ws, ls, m0, ipt(ish, t, k), n) == epv(ops, ws, ls, m, ipt(ish, t, k), n),
    decreases n,
{ if n > 0 { lemma_epv_same(ops, ws, out, sm, nd, ish, osh, ls, ost, dst, m0, m, t, k, n - 1); lemma_cells(ops, ws, out, sm, nd, ish, osh, ls, ost, dst, m0, n - 1, t, k); let a = choose|a: int| 0 <= a < prod(ops[n - 1].sh()) && #[trigger] ops[n - 1].ad(a) == lcell(ops, sm, nd, ish, dst, n - 1, t, k); assert(m.m()[ops[n - 1].ad(a)] == m0.m()[ops[n - 1].ad(a)]); } }
/// from zeroed output cells, the loops leave the sums (m: operands as before the output was zeroed)
pub proof fn lemma_lout(ops: Seq<&NdArray>, ws: Seq<&[u8]>, out: Seq<u8>, sm: Seq<[usize; MAX_ARGS]>, nd: int, ish: Seq<usize>, osh: Seq<usize>, ls: Seq<int>, ost: Seq<usize>, dst: Ptr, m: Mem, m1: Mem, m2: Mem)
    requires eall(ops, ws, out, sm, nd, ish, osh, ls, ost), rall(ops, m1), rall(ops, m), apart(ops, dst.a(), prod(osh)), lout(m1, m2, ops, sm, nd, ish, dst), forall|x: int| dst.a() <= x < dst.a() + prod(osh) ==> #[trigger] m1.m().contains_key(x), forall|x: int| dst.a() <= x < dst.a() + prod(osh) ==> #[trigger] m1.m()[x] == E::zero_(),
        forall|i: int, a: int| 0 <= i < ops.len() && 0 <= a < prod(ops[i].sh()) ==> m1.m()[#[trigger] ops[i].ad(a)] == m.m()[ops[i].ad(a)],
    ensures holds(dst.a(), osh, ops, ws, out, ls, ish, m, m2), is_esum(dst.a(), osh, ops, ws, out, m, m2), m2.m().dom() == m1.m().dom(), m2.blocks() == m1.blocks(), forall|x: int| m1.m().contains_key(x) && !(dst.a() <= x < dst.a() + prod(osh)) ==> #[trigger] m2.m()[x] == m1.m()[x],
{
    let n = ops.len() as int; let bs = obs(ops, dst); let s0 = ist(sm, n + 1); let o = ish.subrange(1, nd); let q = oost(sm, nd, n + 1); let n0 = ish[0] as int;
    lemma_space(ops, ws, out, sm, nd, ish, osh, ls, ost, dst, 0);
    assert forall|jx: Seq<int>| #[trigger] inb(osh, jx) implies m2.m()[dst.a() + lin(osh, jx)] == esum(ops, ws, out, ls, ish, m, jx) by {
        lemma_off_lin(osh, ost, jx); let x = dst.a() + lin(osh, jx);
        assert(m1.m().contains_key(x)); assert(m1.m()[x] == E::zero_());
        let (f, g) = (eg(m1, bs, s0, n0, o, q, x), erows(ops, ws, out, ls, ish, m, jx));
        assert forall|t: int| 0 <= t < prod(o) implies #[trigger] f(t) == g(t) by {
            let ps = pst(bs, o, q, t); let (a, b) = (kv(m1, ps, s0, x), erow(ops, ws, out, ls, ish, m, jx, t));
            assert forall|k: int| 0 <= k < n0 implies #[trigger] a(k) == b(k) by {
                lemma_cells(ops, ws, out, sm, nd, ish, osh, ls, ost, dst, m1, n, t, k); lemma_epv(ops, ws, out, sm, nd, ish, osh, ls, ost, dst, m1, t, k, n); lemma_epv_same(ops, ws, out, sm, nd, ish, osh, ls, ost, dst, m, m1, t, k, n);
                let jy = proj(ls, out, out.len() as int, ipt(ish, t, k));
                if lin(osh, jy) == lin(osh, jx) { lemma_lin_inj(osh, jy, jx); }
            }
            lemma_rs_ext(a, b, 0, n0);
        }
        lemma_rs_ext(f, g, 0, prod(o)); ax_add_zero(rs(f, 0, prod(o))); ax_add_comm(rs(f, 0, prod(o)), E::zero_());
    }
    assert forall|x: int| m1.m().contains_key(x) && !(dst.a() <= x < dst.a() + prod(osh)) implies #[trigger] m2.m()[x] == m1.m()[x] by {
        let f = eg(m1, bs, s0, n0, o, q, x);
        assert forall|t: int| 0 <= t < prod(o) implies #[trigger] f(t) == E::zero_() by {
            let ps = pst(bs, o, q, t); let a = kv(m1, ps, s0, x);
            assert forall|k: int| 0 <= k < n0 implies #[trigger] a(k) == E::zero_() by { lemma_cells(ops, ws, out, sm, nd, ish, osh, ls, ost, dst, m1, n, t, k); }
            lemma_rs_zero(a, 0, n0);
        }
        lemma_rs_zero(f, 0, prod(o)); ax_add_zero(m1.m()[x]);
    }
    assert(holds(dst.a(), osh, ops, ws, out, ls, ish, m, m2));
}
/// a new buffer lies apart from every operand
pub proof fn lemma_apart_new(ops: Seq<&NdArray>, a: Mem, b: Mem, p: int, c: int, n: int)
    requires rall(ops, a), grew(a, b), fresh(a, b, p, c), n <= c,
    ensures apart(ops, p, n), rall(ops, b), forall|i: int, k: int| 0 <= i < ops.len() && 0 <= k < prod(ops[i].sh()) ==> b.m()[#[trigger] ops[i].ad(k)] == a.m()[ops[i].ad(k)],
{
    assert forall|i: int, k: int| 0 <= i < ops.len() && 0 <= k < prod(ops[i].sh()) implies !(p <= #[trigger] ops[i].ad(k) < p + n) && b.m()[ops[i].ad(k)] == a.m()[ops[i].ad(k)] by { assert(ops[i].readable(a)); assert(a.m().contains_key(ops[i].ad(k))); }
    assert forall|i: int| 0 <= i < ops.len() implies (#[trigger] ops[i]).readable(b) by { assert(ops[i].readable(a)); assert forall|k: int| 0 <= k < prod(ops[i].sh()) implies b.m().contains_key(#[trigger] ops[i].ad(k)) by { assert(a.m().contains_key(ops[i].ad(k))); } }
}
//@fn src/linalg/einsum.rs :: - :: einsum
//@sig pub fn einsum(operands0: &[&NdArray], subscripts: (&[&[u8]], &[u8]), mem: &mut Mem) -> (r: NdArray)
//@sigof einsum:mp
//@flag elem_vec
//@call .as_ref => !id
//@call T::zero => E::zero_value
//@requires eready(operands0@, subscripts.0@, subscripts.1@), rall(operands0@, *old(mem))
//@panics !subs_ok(operands0@, subscripts.0@, subscripts.1@)
//@ensures is_new(r, r.sh(), *old(mem), *final(mem)), is_esum(r.ptr.a(), r.sh(), operands0@, subscripts.0@, subscripts.1@, *old(mem), *final(mem))
//@hide
    eready prepared subs_ok lin_ lout eall
//@start
    let ghost m0 = *mem; let ghost ops = operands0@; let ghost ws = subscripts.0@; let ghost out = subscripts.1@;
//@after prepare_einsum
    let ghost (ls, ost) = choose|ls: Seq<int>, ost: Seq<usize>| #[trigger] prepared(ops, ws, out, strides@, iter_ndims as int, iter_shape@, output_shape@, ls, ost);
    let ghost osh = output_shape@;
    proof { reveal(eall); let d0: Ptr = arbitrary(); assert(eall(ops, ws, out, strides@, iter_ndims as int, iter_shape@, osh, ls, ost)); lemma_space(ops, ws, out, strides@, iter_ndims as int, iter_shape@, osh, ls, ost, d0, 0); lemma_pz_prod(osh); }
//@after VecE::filled
    let ghost m1 = *mem;
    proof { lemma_apart_new(ops, m0, m1, output.ptr.a(), output.cap as int, prod(osh)); lemma_lin_in(ops, ws, out, strides@, iter_ndims as int, iter_shape@, osh, ls, ost, output.ptr, m1); }
//@ret
    proof { lemma_lout(ops, ws, out, strides@, iter_ndims as int, iter_shape@, osh, ls, ost, output.ptr, m0, m1, *mem); }
//@end
/// the memory from d on can take the result: as many cells as the output has, apart from the operands, strides in row-major order
pub open spec fn into_ok(ops: Seq<&NdArray>, ws: Seq<&[u8]>, out: Seq<u8>, rst: Seq<usize>, d: int, m: Mem) -> bool {
    out.len() > 0 && forall|osh: Seq<usize>| #[trigger] oshape(ops, ws, out, osh) ==> rowmajor(osh, rst) && apart(ops, d, prod(osh)) && writes(m, d, prod(osh))
}
/// m1: m0 with the sums in the cells from d on
pub open spec fn into_done(ops: Seq<&NdArray>, ws: Seq<&[u8]>, out: Seq<u8>, d: int, osh: Seq<usize>, m0: Mem, m1: Mem) -> bool {
    is_esum(d, osh, ops, ws, out, m0, m1) && m1.blocks() == m0.blocks() && m1.m().dom() == m0.m().dom() && forall|x: int| m0.m().contains_key(x) && !(d <= x < d + prod(osh)) ==> #[trigger] m1.m()[x] == m0.m()[x]
}
pub proof fn lemma_into_zeroed(ops: Seq<&NdArray>, d: int, osh: Seq<usize>, rst: Seq<usize>, m0: Mem, m1: Mem)
    requires rall(ops, m0), apart(ops, d, prod(osh)), rowmajor(osh, rst), 0 < prod(osh) <= isize::MAX, filled(m0, m1, lad(d, osh, rst), E::zero_()),
    ensures rall(ops, m1), forall|x: int| d <= x < d + prod(osh) ==> #[trigger] m1.m()[x] == E::zero_(), forall|x: int| !(d <= x < d + prod(osh)) ==> #[trigger] m1.m()[x] == m0.m()[x], forall|i: int, a: int| 0 <= i < ops.len() && 0 <= a < prod(ops[i].sh()) ==> m1.m()[#[trigger] ops[i].ad(a)] == m0.m()[ops[i].ad(a)],
{
    lemma_rowmajor(osh, rst); let l = lad(d, osh, rst);
    assert forall|k: int| 0 <= k < prod(osh) implies #[trigger] l[k] == d + k by { assert(off(osh, rst, k) == k * 1); }
    assert forall|x: int| d <= x < d + prod(osh) implies #[trigger] m1.m()[x] == E::zero_() by { assert(l[x - d] == x); }
    assert forall|x: int| !(d <= x < d + prod(osh)) implies #[trigger] m1.m()[x] == m0.m()[x] by { if l.contains(x) { let k = choose|k: int| 0 <= k < l.len() && l[k] == x; assert(l[k] == d + k); } }
    assert forall|i: int| 0 <= i < ops.len() implies (#[trigger] ops[i]).readable(m1) by { assert(ops[i].readable(m0)); assert forall|k: int| 0 <= k < prod(ops[i].sh()) implies m1.m().contains_key(#[trigger] ops[i].ad(k)) by { assert(m0.m().dom().contains(ops[i].ad(k))); } }
}
pub proof fn lemma_into_in(d: int, osh: Seq<usize>, rst: Seq<usize>, m: Mem)
    requires rowmajor(osh, rst), 0 < prod(osh) <= isize::MAX, writes(m, d, prod(osh)), osh.len() > 0,
    ensures pz(osh) <= usize::MAX, fits1(osh, rst), wfl(osh, rst), reads(m, lad(d, osh, rst)), forall|i: int| 0 <= i < rst.len() ==> #[trigger] rst[i] > 0, rst.last() == 1, osh.len() == rst.len(),
{
    lemma_rowmajor(osh, rst); lemma_pz_prod(osh); lemma_wfl(osh, rst); let l = lad(d, osh, rst);
    assert forall|k: int| 0 <= k < prod(osh) implies m.m().contains_key(#[trigger] l[k]) by { assert(off(osh, rst, k) == k * 1); }
    lemma_rm_pos(osh, rst, 0);
}
pub proof fn lemma_rm_pos(sh: Seq<usize>, st: Seq<usize>, i: int)
    requires rowmajor(sh, st), prod(sh) > 0, 0 <= i <= sh.len(),
    ensures forall|j: int| i <= j < st.len() ==> #[trigger] st[j] > 0,
    decreases sh.len() - i,
{ if i < sh.len() { lemma_rm_pos(sh, st, i + 1); if i + 1 < sh.len() { lemma_prod_nonneg(sh); assert(sh[i + 1] > 0); let e = i + 1; assert(st[e - 1] == sh[e] * st[e]); assert(sh[i + 1] * st[i + 1] > 0) by (nonlinear_arith) requires sh[i + 1] > 0, st[i + 1] > 0; } } }
//@fn src/linalg/einsum.rs :: - :: einsum_into_ptr
//@sig pub fn einsum_into_ptr(operands0: &[&NdArray], subscripts: (&[&[u8]], &[u8]), result_stride: &[usize], result: Ptr, mem: &mut Mem)
//@sigof einsum_into_ptr:mp
//@call .as_ref => !id
//@call T::zero => E::zero_value
//@call Fill::fill => Fill::fill_raw +mem
//@requires eready(operands0@, subscripts.0@, subscripts.1@), rall(operands0@, *old(mem)), into_ok(operands0@, subscripts.0@, subscripts.1@, result_stride@, result.a(), *old(mem))
//@panics !subs_ok(operands0@, subscripts.0@, subscripts.1@)
//@ensures exists|osh: Seq<usize>| #[trigger] into_done(operands0@, subscripts.0@, subscripts.1@, result.a(), osh, *old(mem), *final(mem))
//@hide
    eready prepared subs_ok lin_ lout eall rowmajor
//@start
    let ghost m0 = *mem; let ghost ops = operands0@; let ghost ws = subscripts.0@; let ghost out = subscripts.1@;
//@after prepare_einsum
    let ghost (ls, ost) = choose|ls: Seq<int>, ost: Seq<usize>| #[trigger] prepared(ops, ws, out, strides@, iter_ndims as int, iter_shape@, output_shape@, ls, ost);
    let ghost osh = output_shape@;
    proof {
        reveal(eall); assert(eall(ops, ws, out, strides@, iter_ndims as int, iter_shape@, osh, ls, ost)); lemma_space(ops, ws, out, strides@, iter_ndims as int, iter_shape@, osh, ls, ost, result, 0);
        assert(oshape(ops, ws, out, osh)) by { reveal(prepared); }
        lemma_into_in(result.a(), osh, result_stride@, m0);
    }
//@after Fill::fill_raw
    let ghost m1 = *mem;
    proof { lemma_into_zeroed(ops, result.a(), osh, result_stride@, m0, m1); assert forall|x: int| result.a() <= x < result.a() + prod(osh) implies #[trigger] m1.m().contains_key(x) by { assert(m0.m().contains_key(x)); assert(m0.m().dom().contains(x)); } lemma_lin_in(ops, ws, out, strides@, iter_ndims as int, iter_shape@, osh, ls, ost, result, m1); }
//@ret
    proof { lemma_lout(ops, ws, out, strides@, iter_ndims as int, iter_shape@, osh, ls, ost, result, m0, m1, *mem); assert forall|x: int| m0.m().contains_key(x) && !(result.a() <= x < result.a() + prod(osh)) implies #[trigger] mem.m()[x] == m0.m()[x] by { assert(m0.m().dom().contains(x)); assert(m1.m()[x] == m0.m()[x]); } assert(into_done(ops, ws, out, result.a(), osh, m0, *mem)); }
//@end
// ===================================================================== the sums depend on the operands' elements only
pub open spec fn same_on(ops: Seq<&NdArray>, a: Mem, b: Mem) -> bool { forall|i: int, k: int| 0 <= i < ops.len() && 0 <= k < prod(ops[i].sh()) ==> b.m()[#[trigger] ops[i].ad(k)] == a.m()[ops[i].ad(k)] }
pub proof fn lemma_ipt(ish: Seq<usize>, t: int, k: int)
    requires ish.len() > 0, 0 <= t < prod(ish.drop_first()), 0 <= k < ish[0],
    ensures ipt(ish, t, k).len() == ish.len(), forall|d: int| 0 <= d < ish.len() ==> 0 <= #[trigger] ipt(ish, t, k)[d] < ish[d],
{ lemma_unlin(ish.drop_first(), t); assert forall|d: int| 0 <= d < ish.len() implies 0 <= #[trigger] ipt(ish, t, k)[d] < ish[d] by { if d > 0 { assert(ipt(ish, t, k)[d] == unlin(ish.drop_first(), t)[d - 1]); assert(ish.drop_first()[d - 1] == ish[d]); } } }
pub proof fn lemma_epv_on(ops: Seq<&NdArray>, ws: Seq<&[u8]>, out: Seq<u8>, ls: Seq<int>, ish: Seq<usize>, a: Mem, b: Mem, ix: Seq<int>, n: int)
    requires eready(ops, ws, out), subs_ok(ops, ws, out), all_labels(ops, ws, ls, ish), same_on(ops, a, b), 0 <= n <= ops.len(), ix.len() == ish.len(), forall|d: int| 0 <= d < ish.len() ==> 0 <= #[trigger] ix[d] < ish[d],
    ensures epv(ops, ws, ls, a, ix, n) == epv(ops, ws, ls, b, ix, n),
    decreases n,
{
    if n > 0 {
        lemma_epv_on(ops, ws, out, ls, ish, a, b, ix, n - 1);
        let i = n - 1; let sh = ops[i].sh(); let jx = proj(ls, ws[i]@, sh.len() as int, ix); assert(ops[i].wf()); lemma_wfl(sh, ops[i].st());
        assert forall|x: int| 0 <= x < sh.len() implies 0 <= #[trigger] jx[x] < sh[x] by {
            assert(onax(ops, ops.len() as int, i, x)); lemma_wl_letter(ws, ops, ops.len() as int, i, x); assert(inl(ls, wl(ws, i, x))); lemma_pos(ls, wl(ws, i, x)); let d = pos(ls, wl(ws, i, x));
            assert(lab_at(ops, ws, ls[d], ish[d])); assert(ext(ops, i, x) == sh[x]); assert(lab_at(ops, ws, ls[d], sh[x])); lemma_same_label(ops, ws, ls[d], ish[d], sh[x]); assert(jx[x] == ix[d]);
        }
        lemma_off_lin(sh, ops[i].st(), jx); assert(ops[i].ad(lin(sh, jx)) == ops[i].at_ix(jx));
    }
}
pub proof fn lemma_esum_on(ops: Seq<&NdArray>, ws: Seq<&[u8]>, out: Seq<u8>, ls: Seq<int>, ish: Seq<usize>, a: Mem, b: Mem, jx: Seq<int>)
    requires eready(ops, ws, out), subs_ok(ops, ws, out), all_labels(ops, ws, ls, ish), same_on(ops, a, b),
    ensures esum(ops, ws, out, ls, ish, a, jx) == esum(ops, ws, out, ls, ish, b, jx),
{
    let (f, g) = (erows(ops, ws, out, ls, ish, a, jx), erows(ops, ws, out, ls, ish, b, jx)); let n = prod(ish.drop_first());
    lemma_prod_nonneg(ish.drop_first());
    assert forall|t: int| 0 <= t < n implies #[trigger] f(t) == g(t) by {
        let (x, y) = (erow(ops, ws, out, ls, ish, a, jx, t), erow(ops, ws, out, ls, ish, b, jx, t));
        assert forall|k: int| 0 <= k < ish[0] implies #[trigger] x(k) == y(k) by { lemma_ipt(ish, t, k); lemma_epv_on(ops, ws, out, ls, ish, a, b, ipt(ish, t, k), ops.len() as int); }
        lemma_rs_ext(x, y, 0, ish[0] as int);
    }
    lemma_rs_ext(f, g, 0, n);
}
/// the operands read from another memory with the same elements, the sums found in another memory with the same sums
pub proof fn lemma_is_esum_on(d: int, osh: Seq<usize>, ops: Seq<&NdArray>, ws: Seq<&[u8]>, out: Seq<u8>, a: Mem, b: Mem, m1: Mem, m2: Mem)
    requires eready(ops, ws, out), subs_ok(ops, ws, out), same_on(ops, a, b), is_esum(d, osh, ops, ws, out, a, m1), forall|x: int| d <= x < d + prod(osh) ==> #[trigger] m2.m()[x] == m1.m()[x],
    ensures is_esum(d, osh, ops, ws, out, b, m2),
{
    let (ls, ish) = choose|ls: Seq<int>, ish: Seq<usize>| #[trigger] holds(d, osh, ops, ws, out, ls, ish, a, m1);
    assert forall|jx: Seq<int>| #[trigger] inb(osh, jx) implies m2.m()[d + lin(osh, jx)] == esum(ops, ws, out, ls, ish, b, jx) by { lemma_off_lin(osh, osh, jx); lemma_esum_on(ops, ws, out, ls, ish, a, b, jx); assert(m2.m()[d + lin(osh, jx)] == m1.m()[d + lin(osh, jx)]); }
    assert(holds(d, osh, ops, ws, out, ls, ish, b, m2));
}
