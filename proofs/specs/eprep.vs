//@use core geom mem arr slice bcast iter heap kern ops red redax sop mat eloop mfig einl esub
use vstd::arithmetic::mul::*;

// ===================================================================== labels of all operands
/// the label of axis a of operand i, and its extent
pub open spec fn wl(ws: Seq<&[u8]>, i: int, a: int) -> int { ws[i]@[a] as int }
pub open spec fn ext(ops: Seq<&NdArray>, i: int, a: int) -> usize { ops[i].sh()[a] }
pub open spec fn onax(ops: Seq<&NdArray>, n: int, i: int, a: int) -> bool { 0 <= i < n && 0 <= a < ops[i].sh().len() }
/// one letter, one extent
pub open spec fn consistent(ws: Seq<&[u8]>, ops: Seq<&NdArray>, n: int) -> bool {
    forall|i: int, a: int, j: int, b: int| onax(ops, n, i, a) && onax(ops, n, j, b) && #[trigger] wl(ws, i, a) == #[trigger] wl(ws, j, b) ==> ext(ops, i, a) == ext(ops, j, b)
}
/// some axis of the first n operands has label c
pub open spec fn pres(ws: Seq<&[u8]>, ops: Seq<&NdArray>, n: int, c: int) -> bool { exists|i: int, a: int| onax(ops, n, i, a) && #[trigger] wl(ws, i, a) == c }
pub open spec fn words_ok(ws: Seq<&[u8]>, ops: Seq<&NdArray>, n: int) -> bool { forall|i: int| 0 <= i < n ==> word_ok(#[trigger] ws[i]@, ops[i].sh().len() as int) }
/// labels below c that are summed over
pub open spec fn nx(ws: Seq<&[u8]>, ops: Seq<&NdArray>, out: Seq<u8>, c: int) -> int
    decreases c,
{ if c <= 0 { 0 } else { nx(ws, ops, out, c - 1) + (if pres(ws, ops, ops.len() as int, c - 1) && !seen(out, out.len() as int, c - 1) { 1int } else { 0 }) } }
pub open spec fn outs_ok(ws: Seq<&[u8]>, ops: Seq<&NdArray>, out: Seq<u8>) -> bool {
    (forall|j: int| 0 <= j < out.len() ==> letter(#[trigger] out[j])) && (forall|j: int| 0 <= j < out.len() ==> pres(ws, ops, ops.len() as int, #[trigger] out[j] as int)) && (forall|i: int, j: int| 0 <= i < j < out.len() ==> #[trigger] out[i] != #[trigger] out[j])
}
/// subscripts einsum accepts
pub open spec fn subs_ok(ops: Seq<&NdArray>, ws: Seq<&[u8]>, out: Seq<u8>) -> bool {
    ws.len() == ops.len() && ops.len() < MAX_ARGS && words_ok(ws, ops, ops.len() as int) && consistent(ws, ops, ops.len() as int) && outs_ok(ws, ops, out) && out.len() + nx(ws, ops, out, 128) <= MAX_DIMS
}
/// label l has extent e
pub open spec fn lab_at(ops: Seq<&NdArray>, ws: Seq<&[u8]>, l: int, e: usize) -> bool { (l == 0 && e == 1) || exists|i: int, a: int| onax(ops, ops.len() as int, i, a) && #[trigger] wl(ws, i, a) == l && ext(ops, i, a) == e }
/// distinct labels with their extents
pub open spec fn labelled(ops: Seq<&NdArray>, ws: Seq<&[u8]>, ls: Seq<int>, ish: Seq<usize>) -> bool {
    ls.len() == ish.len() && (forall|d: int| 0 <= d < ls.len() ==> #[trigger] lab_at(ops, ws, ls[d], ish[d])) && (forall|d: int, e: int| 0 <= d < e < ls.len() ==> #[trigger] ls[d] != #[trigger] ls[e])
}
/// axes of one label: their strides together are machine numbers
pub open spec fn lbound(ops: Seq<&NdArray>, ws: Seq<&[u8]>) -> bool { forall|i: int, l: int| 0 <= i < ops.len() && 0 < l ==> #[trigger] lsum(ws[i]@, ops[i].st(), ops[i].sh().len() as int, l) <= isize::MAX }
pub open spec fn small(ops: Seq<&NdArray>, ws: Seq<&[u8]>) -> bool { forall|ls: Seq<int>, ish: Seq<usize>| #[trigger] labelled(ops, ws, ls, ish) ==> prod(ish) <= isize::MAX }
/// operands that exist, subscripts without ellipsis
pub open spec fn eready(ops: Seq<&NdArray>, ws: Seq<&[u8]>, out: Seq<u8>) -> bool {
    1 <= ops.len() && (forall|i: int| 0 <= i < ops.len() ==> (#[trigger] ops[i]).wf() && ops[i].sh().len() <= MAX_DIMS) && (forall|i: int| 0 <= i < ws.len() ==> plain(#[trigger] ws[i]@)) && plain(out) && out.len() <= MAX_DIMS && lbound(ops, ws) && small(ops, ws)
}
pub open spec fn inl(ls: Seq<int>, l: int) -> bool { exists|d: int| 0 <= d < ls.len() && #[trigger] ls[d] == l }
/// the iteration space of a sum of products: axis d runs over label ls[d], on which operand i moves by the strides of its axes with that label and the output by ost
pub open spec fn prepared(ops: Seq<&NdArray>, ws: Seq<&[u8]>, out: Seq<u8>, sm: Seq<[usize; MAX_ARGS]>, nd: int, ish: Seq<usize>, osh: Seq<usize>, ls: Seq<int>, ost: Seq<usize>) -> bool {
    1 <= nd <= MAX_DIMS && ls.len() == nd && sm.len() == MAX_DIMS && labelled(ops, ws, ls, ish)
    && (forall|i: int, a: int| onax(ops, ops.len() as int, i, a) ==> inl(ls, #[trigger] wl(ws, i, a))) && (forall|j: int| 0 <= j < out.len() ==> inl(ls, #[trigger] out[j] as int))
    && osh.len() == out.len() && (forall|j: int| 0 <= j < out.len() ==> #[trigger] lab_at(ops, ws, out[j] as int, osh[j])) && rowmajor(osh, ost)
    && (forall|d: int, i: int| 0 <= d < nd && 0 <= i < ops.len() ==> #[trigger] sm[d]@[i] == lsum(ws[i]@, ops[i].st(), ops[i].sh().len() as int, ls[d]))
    && (forall|d: int| 0 <= d < nd ==> (#[trigger] sm[d])@[ops.len() as int] == lsum(out, ost, out.len() as int, ls[d]))
}
/// what is known after the first k operands' subscripts
pub open spec fn pinv(ws: Seq<&[u8]>, ops: Seq<&NdArray>, k: int, cnt: Seq<u32>, dims: Seq<usize>) -> bool {
    cnt.len() == 128 && dims.len() == 128 && words_ok(ws, ops, k) && consistent(ws, ops, k) && (forall|c: int| 0 <= c < 128 ==> #[trigger] cnt[c] <= 40 * k && (cnt[c] > 0 <==> pres(ws, ops, k, c)))
    && (forall|i: int, a: int| onax(ops, k, i, a) ==> dims[#[trigger] wl(ws, i, a)] == ext(ops, i, a))
}
pub proof fn lemma_wl_letter(ws: Seq<&[u8]>, ops: Seq<&NdArray>, n: int, i: int, a: int)
    requires words_ok(ws, ops, n), onax(ops, n, i, a),
    ensures 65 <= wl(ws, i, a) <= 122, letter(ws[i]@[a]),
{ assert(word_ok(ws[i]@, ops[i].sh().len() as int)); assert(letter(ws[i]@[a])); }
pub proof fn lemma_agree(ws: Seq<&[u8]>, ops: Seq<&NdArray>, n: int, k: int, cnt: Seq<u32>, dims: Seq<usize>)
    requires pinv(ws, ops, k, cnt, dims), 0 <= k < n, consistent(ws, ops, n), words_ok(ws, ops, n),
    ensures agree(ws[k]@, ops[k].sh(), cnt, dims),
{
    let s = ws[k]@; let sh = ops[k].sh();
    assert forall|j: int| 0 <= j < sh.len() && cnt[s[j] as int] > 0 implies dims[s[j] as int] == #[trigger] sh[j] by {
        assert(onax(ops, n, k, j)); lemma_wl_letter(ws, ops, n, k, j); let c = wl(ws, k, j);
        assert(cnt[c] > 0); assert(pres(ws, ops, k, c));
        let (i, a) = choose|i: int, a: int| onax(ops, k, i, a) && #[trigger] wl(ws, i, a) == c;
        assert(onax(ops, n, i, a)); assert(ext(ops, i, a) == ext(ops, k, j));
    }
    assert forall|i: int, j: int| 0 <= i < sh.len() && 0 <= j < sh.len() && s[i] == s[j] implies #[trigger] sh[i] == #[trigger] sh[j] by { assert(onax(ops, n, k, i) && onax(ops, n, k, j)); assert(wl(ws, k, i) == wl(ws, k, j)); assert(ext(ops, k, i) == ext(ops, k, j)); }
}
pub proof fn lemma_pinv_step(ws: Seq<&[u8]>, ops: Seq<&NdArray>, k: int, cnt: Seq<u32>, dims: Seq<usize>, cnt1: Seq<u32>, dims1: Seq<usize>)
    requires pinv(ws, ops, k, cnt, dims), 0 <= k, word_ok(ws[k]@, ops[k].sh().len() as int), ops[k].sh().len() <= MAX_DIMS, agree(ws[k]@, ops[k].sh(), cnt, dims),
        cnt_ok(cnt, cnt1, ws[k]@, ops[k].sh().len() as int), dims_ok(cnt, dims, dims1, ws[k]@, ops[k].sh(), ops[k].sh().len() as int),
    ensures pinv(ws, ops, k + 1, cnt1, dims1),
{
    let s = ws[k]@; let sh = ops[k].sh(); let n = sh.len() as int;
    assert(words_ok(ws, ops, k + 1)) by { assert forall|i: int| 0 <= i < k + 1 implies word_ok(#[trigger] ws[i]@, ops[i].sh().len() as int) by { } }
    assert forall|c: int| 0 <= c < 128 implies #[trigger] cnt1[c] <= 40 * (k + 1) && (cnt1[c] > 0 <==> pres(ws, ops, k + 1, c)) by {
        assert(cnt[c] <= 40 * k);
        if pres(ws, ops, k + 1, c) { let (i, a) = choose|i: int, a: int| onax(ops, k + 1, i, a) && #[trigger] wl(ws, i, a) == c; if i < k { assert(onax(ops, k, i, a)); assert(pres(ws, ops, k, c)); } else { assert(s[a] as int == c); assert(seen(s, n, c)); } }
        if pres(ws, ops, k, c) { let (i, a) = choose|i: int, a: int| onax(ops, k, i, a) && #[trigger] wl(ws, i, a) == c; assert(onax(ops, k + 1, i, a)); }
        if seen(s, n, c) { let j = choose|j: int| 0 <= j < n && #[trigger] s[j] as int == c; assert(onax(ops, k + 1, k, j)); assert(wl(ws, k, j) == c); }
    }
    assert forall|i: int, a: int| onax(ops, k + 1, i, a) implies dims1[#[trigger] wl(ws, i, a)] == ext(ops, i, a) by {
        lemma_wl_letter(ws, ops, k + 1, i, a); let c = wl(ws, i, a);
        if i < k { assert(onax(ops, k, i, a)); assert(pres(ws, ops, k, c)); assert(cnt[c] > 0); assert(dims1[c] == dims[c]); } else { assert(dims1[s[a] as int] == sh[a]); }
    }
    assert forall|i: int, a: int, j: int, b: int| onax(ops, k + 1, i, a) && onax(ops, k + 1, j, b) && #[trigger] wl(ws, i, a) == #[trigger] wl(ws, j, b) implies ext(ops, i, a) == ext(ops, j, b) by { assert(dims1[wl(ws, i, a)] == ext(ops, i, a)); assert(dims1[wl(ws, j, b)] == ext(ops, j, b)); }
}
pub proof fn lemma_words_pre(ws: Seq<&[u8]>, ops: Seq<&NdArray>, n: int, k: int)
    requires 0 <= k <= n, words_ok(ws, ops, n), 
    ensures words_ok(ws, ops, k),
{ }
pub proof fn lemma_nx(ws: Seq<&[u8]>, ops: Seq<&NdArray>, out: Seq<u8>, c: int, d: int)
    requires 0 <= c <= d,
    ensures 0 <= nx(ws, ops, out, c) <= nx(ws, ops, out, d),
    decreases d,
{ if c < d { lemma_nx(ws, ops, out, c, d - 1); } else if c > 0 { lemma_nx(ws, ops, out, c - 1, c - 1); } }

/// iteration labels chosen so far: the output's, then the others below c
pub open spec fn itl(lab: Seq<i8>, nd: int) -> Seq<int> { Seq::new(nd as nat, |d: int| lab[d] as int) }
pub open spec fn chosen(ws: Seq<&[u8]>, ops: Seq<&NdArray>, out: Seq<u8>, lab: Seq<i8>, nd: int, c: int) -> bool {
    lab.len() == MAX_DIMS && out.len() <= nd <= MAX_DIMS && nd == out.len() + nx(ws, ops, out, c)
    && (forall|j: int| 0 <= j < out.len() ==> (#[trigger] lab[j]) as int == olab(out[j]))
    && (forall|d: int| out.len() <= d < nd ==> 0 < #[trigger] lab[d] && (lab[d] as int) < c && pres(ws, ops, ops.len() as int, lab[d] as int) && !seen(out, out.len() as int, lab[d] as int))
    && (forall|d: int, e: int| out.len() <= d < e < nd ==> #[trigger] lab[d] != #[trigger] lab[e])
    && (forall|l: int| 0 <= l < c && #[trigger] pres(ws, ops, ops.len() as int, l) ==> inl(itl(lab, nd), l) || seen(out, out.len() as int, l))
}

pub proof fn lemma_lsum_zero(s: Seq<u8>, st: Seq<usize>, n: int, l: int)
    requires forall|j: int| 0 <= j < n ==> (#[trigger] s[j]) as int != l,
    ensures lsum(s, st, n, l) == 0,
    decreases n,
{ if n > 0 { lemma_lsum_zero(s, st, n - 1, l); assert(s[n - 1] as int != l); } }
pub proof fn lemma_lsum_one(s: Seq<u8>, st: Seq<usize>, n: int, d: int)
    requires 0 <= d < n, forall|j: int| 0 <= j < n && j != d ==> #[trigger] s[j] != s[d],
    ensures lsum(s, st, n, s[d] as int) == st[d],
    decreases n,
{ if n - 1 == d { lemma_lsum_zero(s, st, n - 1, s[d] as int); } else { assert(s[n - 1] != s[d]); lemma_lsum_one(s, st, n - 1, d); } }
/// the labels of operand i as the parser encodes them
pub proof fn lemma_lready(ops: Seq<&NdArray>, ws: Seq<&[u8]>, cnt: Seq<u32>, dims: Seq<usize>, lab: Seq<i8>, i: int)
    requires 0 <= i < ops.len(), ops[i].wf(), ops[i].sh().len() <= MAX_DIMS, pinv(ws, ops, ops.len() as int, cnt, dims), lbound(ops, ws), enc(lab, ws[i]@, ops[i].sh().len() as int),
    ensures lab_ok(lab, ops[i].sh().len() as int), forall|j: int| 0 <= j < ops[i].sh().len() ==> #[trigger] lab[j] != 0, forall|j: int| ops[i].sh().len() <= j < MAX_DIMS ==> #[trigger] lab[j] == 0,
        forall|l: int| 0 < l ==> #[trigger] lsl(lab, ops[i].st(), ops[i].sh().len() as int, l) == lsum(ws[i]@, ops[i].st(), ops[i].sh().len() as int, l),
        forall|l: int| 0 < l ==> #[trigger] lsl(lab, ops[i].st(), ops[i].sh().len() as int, l) <= isize::MAX,
        forall|j: int| 0 <= j < ops[i].sh().len() && #[trigger] neg(lab, j) ==> ops[i].sh()[j + lab[j]] == ops[i].sh()[j],
{
    let s = ws[i]@; let n = ops[i].sh().len() as int; let t = ops.len() as int;
    assert(word_ok(s, n)); lemma_enc(lab, s, n);
    assert forall|l: int| 0 < l implies #[trigger] lsl(lab, ops[i].st(), n, l) == lsum(s, ops[i].st(), n, l) && lsl(lab, ops[i].st(), n, l) <= isize::MAX by { lemma_lsl_enc(lab, s, ops[i].st(), n, n, l); }
    assert forall|j: int| 0 <= j < n && #[trigger] neg(lab, j) implies ops[i].sh()[j + lab[j]] == ops[i].sh()[j] by {
        let f = j + lab[j]; assert(onax(ops, t, i, j) && onax(ops, t, i, f)); assert(wl(ws, i, f) == wl(ws, i, j)); assert(ext(ops, i, f) == ext(ops, i, j));
    }
}
/// operand i after merging its repeated labels
pub open spec fn merged(ra: NdArray, lab: Seq<i8>, op: NdArray, s: Seq<u8>) -> bool {
    ra.wf() && ra.sh().len() == ra.st().len() && lab_ok(lab, ra.sh().len() as int) && forall|l: int| 0 < l ==> #[trigger] lsl(lab, ra.st(), ra.sh().len() as int, l) == lsum(s, op.st(), op.sh().len() as int, l)
}
pub proof fn lemma_lab_at(ops: Seq<&NdArray>, ws: Seq<&[u8]>, cnt: Seq<u32>, dims: Seq<usize>, l: int)
    requires pinv(ws, ops, ops.len() as int, cnt, dims), pres(ws, ops, ops.len() as int, l),
    ensures 0 <= l < 128, lab_at(ops, ws, l, dims[l]), cnt[l] > 0, letter(l as u8),
{
    let n = ops.len() as int;
    let (i, a) = choose|i: int, a: int| onax(ops, n, i, a) && #[trigger] wl(ws, i, a) == l;
    lemma_wl_letter(ws, ops, n, i, a); assert(ext(ops, i, a) == dims[l]);
}
pub proof fn lemma_lab_pos(ops: Seq<&NdArray>, ws: Seq<&[u8]>, ls: Seq<int>, ish: Seq<usize>)
    requires labelled(ops, ws, ls, ish), forall|i: int| 0 <= i < ops.len() ==> (#[trigger] ops[i]).wf(),
    ensures prod(ish) > 0, forall|d: int| 0 <= d < ish.len() ==> #[trigger] ish[d] > 0,
{
    assert forall|d: int| 0 <= d < ish.len() implies #[trigger] ish[d] > 0 by {
        assert(lab_at(ops, ws, ls[d], ish[d]));
        if !(ls[d] == 0 && ish[d] == 1) { let (i, a) = choose|i: int, a: int| onax(ops, ops.len() as int, i, a) && #[trigger] wl(ws, i, a) == ls[d] && ext(ops, i, a) == ish[d]; assert(ops[i].wf()); lemma_wfl(ops[i].sh(), ops[i].st()); assert(ops[i].sh()[a] > 0); }
    }
    lemma_prod_nonneg(ish);
}
/// the order of the axes does not matter
pub proof fn lemma_prep_perm(ops: Seq<&NdArray>, ws: Seq<&[u8]>, out: Seq<u8>, sm: Seq<[usize; MAX_ARGS]>, nd: int, ish: Seq<usize>, osh: Seq<usize>, ls: Seq<int>, ost: Seq<usize>, p: Seq<usize>, sm2: Seq<[usize; MAX_ARGS]>, ish2: Seq<usize>)
    requires prepared(ops, ws, out, sm, nd, ish, osh, ls, ost), is_perm(p, nd), sm2.len() == MAX_DIMS, ish2.len() == nd, forall|d: int| 0 <= d < nd ==> #[trigger] sm2[d] == sm[p[d] as int], forall|d: int| 0 <= d < nd ==> #[trigger] ish2[d] == ish[p[d] as int],
    ensures prepared(ops, ws, out, sm2, nd, ish2, osh, Seq::new(nd as nat, |d: int| ls[p[d] as int]), ost),
{
    let l2 = Seq::new(nd as nat, |d: int| ls[p[d] as int]);
    assert forall|l: int| #[trigger] inl(ls, l) implies inl(l2, l) by { let d = choose|d: int| 0 <= d < ls.len() && #[trigger] ls[d] == l; assert(hit(p, d)); let e = choose|e: int| 0 <= e < p.len() && #[trigger] p[e] == d; assert(l2[e] == l); }
    assert(labelled(ops, ws, l2, ish2)) by {
        assert forall|d: int| 0 <= d < nd implies #[trigger] lab_at(ops, ws, l2[d], ish2[d]) by { assert(lab_at(ops, ws, ls[p[d] as int], ish[p[d] as int])); }
        assert forall|d: int, e: int| 0 <= d < e < nd implies #[trigger] l2[d] != #[trigger] l2[e] by { assert(p[d] != p[e]); if p[d] < p[e] { assert(ls[p[d] as int] != ls[p[e] as int]); } else { assert(ls[p[e] as int] != ls[p[d] as int]); } }
    }
    assert forall|d: int, i: int| 0 <= d < nd && 0 <= i < ops.len() implies #[trigger] sm2[d]@[i] == lsum(ws[i]@, ops[i].st(), ops[i].sh().len() as int, l2[d]) by { assert(sm2[d] == sm[p[d] as int]); assert(sm[p[d] as int]@[i] == lsum(ws[i]@, ops[i].st(), ops[i].sh().len() as int, ls[p[d] as int])); }
    assert forall|d: int| 0 <= d < nd implies (#[trigger] sm2[d])@[ops.len() as int] == lsum(out, ost, out.len() as int, l2[d]) by { assert(sm2[d] == sm[p[d] as int]); }
}
pub proof fn lemma_outs(ops: Seq<&NdArray>, ws: Seq<&[u8]>, out: Seq<u8>, cnt: Seq<u32>, dims: Seq<usize>, ila: Seq<i8>, nd: int, osh: Seq<usize>)
    requires pinv(ws, ops, ops.len() as int, cnt, dims), oword_ok(out, cnt), chosen(ws, ops, out, ila, nd, 128), forall|d: int| 0 <= d < nd ==> #[trigger] ila[d] != 0, osh.len() == out.len(), forall|j: int| 0 <= j < out.len() ==> #[trigger] osh[j] == dims[olab(out[j])],
        forall|i: int| 0 <= i < ops.len() ==> (#[trigger] ops[i]).wf(), small(ops, ws),
    ensures outs_ok(ws, ops, out), forall|j: int| 0 <= j < out.len() ==> #[trigger] lab_at(ops, ws, out[j] as int, osh[j]), prod(osh) > 0, pz(osh) <= isize::MAX,
{
    let n = ops.len() as int; let ols = Seq::new(out.len(), |j: int| out[j] as int);
    assert forall|j: int| 0 <= j < out.len() implies letter(#[trigger] out[j]) && pres(ws, ops, n, out[j] as int) by { assert(ila[j] as int == olab(out[j])); assert(ila[j] != 0); assert(cnt[out[j] as int] > 0); }
    assert forall|d: int, e: int| 0 <= d < e < out.len() implies #[trigger] out[d] != #[trigger] out[e] by { assert(letter(out[d])); }
    assert(outs_ok(ws, ops, out));
    assert forall|d: int| 0 <= d < out.len() implies #[trigger] lab_at(ops, ws, ols[d], osh[d]) by { assert(letter(out[d])); lemma_lab_at(ops, ws, cnt, dims, out[d] as int); assert(osh[d] == dims[olab(out[d])]); }
    assert forall|j: int| 0 <= j < out.len() implies #[trigger] lab_at(ops, ws, out[j] as int, osh[j]) by { assert(lab_at(ops, ws, ols[j], osh[j])); }
    assert forall|d: int, e: int| 0 <= d < e < ols.len() implies #[trigger] ols[d] != #[trigger] ols[e] by { assert(out[d] != out[e]); }
    assert(labelled(ops, ws, ols, osh)); lemma_lab_pos(ops, ws, ols, osh); lemma_pz_prod(osh);
}
pub proof fn lemma_prep_end(ops: Seq<&NdArray>, ws: Seq<&[u8]>, out: Seq<u8>, cnt: Seq<u32>, dims: Seq<usize>, ila: Seq<i8>, nda: int, osh: Seq<usize>, ish: Seq<usize>, ost: Seq<usize>, sm: Seq<[usize; MAX_ARGS]>)
    requires pinv(ws, ops, ops.len() as int, cnt, dims), ops.len() < MAX_ARGS, chosen(ws, ops, out, ila, nda, 128), outs_ok(ws, ops, out), osh.len() == out.len(), ish.len() == nda, rowmajor(osh, ost), sm.len() == MAX_DIMS,
        forall|j: int| 0 <= j < out.len() ==> #[trigger] lab_at(ops, ws, out[j] as int, osh[j]), forall|d: int| 0 <= d < osh.len() ==> #[trigger] ish[d] == osh[d], forall|d: int| osh.len() <= d < nda ==> #[trigger] ish[d] == dims[ila[d] as int],
        forall|d: int, i: int| 0 <= d < nda && 0 <= i < ops.len() ==> #[trigger] sm[d]@[i] == lsum(ws[i]@, ops[i].st(), ops[i].sh().len() as int, ila[d] as int),
        forall|d: int, i: int| nda <= d < MAX_DIMS && 0 <= i < ops.len() ==> #[trigger] sm[d]@[i] == 0,
        forall|d: int| 0 <= d < MAX_DIMS ==> (#[trigger] sm[d])@[ops.len() as int] == (if d < out.len() { ost[d] } else { 0 }),
    ensures prepared(ops, ws, out, sm, if nda == 0 { 1 } else { nda }, if nda == 0 { seq![1usize] } else { ish }, osh, if nda == 0 { seq![0int] } else { itl(ila, nda) }, ost),
{
    let n = ops.len() as int; let ls = itl(ila, nda); let m = out.len() as int;
    assert forall|j: int| 0 <= j < m implies ila[j] as int == #[trigger] out[j] as int by { assert(letter(out[j])); assert(ila[j] as int == olab(out[j])); }
    assert forall|i: int, a: int| onax(ops, n, i, a) implies inl(ls, #[trigger] wl(ws, i, a)) by {
        let l = wl(ws, i, a); lemma_wl_letter(ws, ops, n, i, a); assert(pres(ws, ops, n, l));
        if !inl(ls, l) { assert(seen(out, m, l)); let j = choose|j: int| 0 <= j < m && #[trigger] out[j] as int == l; assert(ls[j] == l); }
    }
    assert forall|j: int| 0 <= j < m implies inl(ls, #[trigger] out[j] as int) by { assert(ls[j] == out[j] as int); }
    if nda == 0 {
        let l0 = seq![0int]; let i1 = seq![1usize];
        assert(labelled(ops, ws, l0, i1));
        assert forall|i: int, a: int| onax(ops, n, i, a) implies inl(l0, #[trigger] wl(ws, i, a)) by { assert(inl(ls, wl(ws, i, a))); }
        assert forall|d: int, i: int| 0 <= d < 1 && 0 <= i < n implies #[trigger] sm[d]@[i] == lsum(ws[i]@, ops[i].st(), ops[i].sh().len() as int, l0[d]) by {
            assert forall|j: int| 0 <= j < ops[i].sh().len() implies (#[trigger] ws[i]@[j]) as int != 0 by { assert(onax(ops, n, i, j)); lemma_wl_letter(ws, ops, n, i, j); }
            lemma_lsum_zero(ws[i]@, ops[i].st(), ops[i].sh().len() as int, 0);
        }
        assert forall|d: int| 0 <= d < 1 implies (#[trigger] sm[d])@[n] == lsum(out, ost, m, l0[d]) by { lemma_lsum_zero(out, ost, m, 0); }
    } else {
        assert forall|d: int| 0 <= d < nda implies #[trigger] lab_at(ops, ws, ls[d], ish[d]) by { if d < m { assert(lab_at(ops, ws, out[d] as int, osh[d])); } else { assert(0 < ila[d]); lemma_lab_at(ops, ws, cnt, dims, ila[d] as int); } }
        assert forall|d: int, e: int| 0 <= d < e < nda implies #[trigger] ls[d] != #[trigger] ls[e] by {
            if e < m { assert(out[d] != out[e]); } else if d < m { assert(!seen(out, m, ila[e] as int)); assert(out[d] as int == ls[d]); } else { assert(ila[d] != ila[e]); }
        }
        assert forall|d: int| 0 <= d < nda implies (#[trigger] sm[d])@[n] == lsum(out, ost, m, ls[d]) by {
            if d < m {
                assert forall|j: int| 0 <= j < m && j != d implies #[trigger] out[j] != out[d] by { if j < d { assert(out[j] != out[d]); } else { assert(out[d] != out[j]); } }
                lemma_lsum_one(out, ost, m, d);
            } else {
                assert(!seen(out, m, ila[d] as int));
                assert forall|j: int| 0 <= j < m implies (#[trigger] out[j]) as int != ls[d] by { }
                lemma_lsum_zero(out, ost, m, ls[d]);
            }
        }
    }
}
pub proof fn lemma_pinv0(ws: Seq<&[u8]>, ops: Seq<&NdArray>, cnt: Seq<u32>, dims: Seq<usize>)
    requires cnt.len() == 128, dims.len() == 128, forall|c: int| 0 <= c < 128 ==> #[trigger] cnt[c] == 0,
    ensures pinv(ws, ops, 0, cnt, dims),
{ }
pub proof fn lemma_pinv_next(ws: Seq<&[u8]>, ops: Seq<&NdArray>, out: Seq<u8>, k: int, cnt: Seq<u32>, dims: Seq<usize>)
    requires pinv(ws, ops, k, cnt, dims), 0 <= k < ops.len(), ops.len() < MAX_ARGS,
    ensures forall|c: int| 0 <= c < 128 ==> #[trigger] cnt[c] < 100000, subs_ok(ops, ws, out) ==> word_ok(ws[k]@, ops[k].sh().len() as int) && agree(ws[k]@, ops[k].sh(), cnt, dims),
{ if subs_ok(ops, ws, out) { lemma_agree(ws, ops, ops.len() as int, k, cnt, dims); } }
pub proof fn lemma_pinv_out(ws: Seq<&[u8]>, ops: Seq<&NdArray>, out: Seq<u8>, cnt: Seq<u32>, dims: Seq<usize>)
    requires pinv(ws, ops, ops.len() as int, cnt, dims),
    ensures subs_ok(ops, ws, out) ==> oword_ok(out, cnt), cnt.len() == 128, dims.len() == 128,
{
    if subs_ok(ops, ws, out) {
        assert forall|j: int| 0 <= j < out.len() && letter(out[j]) implies cnt[#[trigger] out[j] as int] > 0 by { assert(pres(ws, ops, ops.len() as int, out[j] as int)); }
    }
}
pub proof fn lemma_olab(out: Seq<u8>, cnt: Seq<u32>, lab: Seq<i8>)
    requires oword_ok(out, cnt), out.len() <= lab.len(), forall|j: int| 0 <= j < out.len() ==> (#[trigger] lab[j]) as int == olab(out[j]),
    ensures forall|i: int, j: int| 0 <= i < j < out.len() ==> #[trigger] lab[i] != #[trigger] lab[j] || lab[i] == 0, forall|j: int| 0 <= j < out.len() ==> #[trigger] lab[j] >= 0,
{
    assert forall|i: int, j: int| 0 <= i < j < out.len() implies #[trigger] lab[i] != #[trigger] lab[j] || lab[i] == 0 by { assert(lab[i] as int == olab(out[i])); assert(lab[j] as int == olab(out[j])); if letter(out[i]) { assert(out[i] != out[j]); } }
}
pub proof fn lemma_blank(ws: Seq<&[u8]>, ops: Seq<&NdArray>, out: Seq<u8>, lab: Seq<i8>)
    requires out.len() <= lab.len(), forall|j: int| 0 <= j < out.len() ==> (#[trigger] lab[j]) as int == olab(out[j]),
    ensures subs_ok(ops, ws, out) ==> !blank(lab.subrange(0, out.len() as int), out.len() as int),
{
    let s = lab.subrange(0, out.len() as int); let n = out.len() as int;
    if subs_ok(ops, ws, out) && blank(s, n) { let d = choose|d: int| 0 <= d < n && #[trigger] s[d] == 0; assert(lab[d] as int == olab(out[d])); assert(letter(out[d])); }
}
pub proof fn lemma_chosen0(ws: Seq<&[u8]>, ops: Seq<&NdArray>, out: Seq<u8>, lab: Seq<i8>)
    requires lab.len() == MAX_DIMS, out.len() <= MAX_DIMS, forall|j: int| 0 <= j < out.len() ==> (#[trigger] lab[j]) as int == olab(out[j]),
    ensures chosen(ws, ops, out, lab, out.len() as int, 0),
{ }
/// label c: nothing to do, or one more axis
pub proof fn lemma_chosen_at(ws: Seq<&[u8]>, ops: Seq<&NdArray>, out: Seq<u8>, cnt: Seq<u32>, dims: Seq<usize>, lab: Seq<i8>, nd: int, ol: Seq<i8>, c: int)
    requires pinv(ws, ops, ops.len() as int, cnt, dims), chosen(ws, ops, out, lab, nd, c), 0 <= c < 128, ol.len() == out.len(), forall|j: int| 0 <= j < out.len() ==> (#[trigger] ol[j]) as int == olab(out[j]),
    ensures nd <= MAX_DIMS, cnt[c] == 0 || ol.contains(c as i8) ==> chosen(ws, ops, out, lab, nd, c + 1), cnt[c] > 0 && !ol.contains(c as i8) ==> c > 0 && (subs_ok(ops, ws, out) ==> nd < MAX_DIMS) && (nd < MAX_DIMS ==> chosen(ws, ops, out, lab.update(nd, c as i8), nd + 1, c + 1)),
{
    let n = ops.len() as int; let on = pres(ws, ops, n, c); let os = seen(out, out.len() as int, c); let label = c as i8;
    assert(cnt[c] > 0 <==> on); lemma_nx(ws, ops, out, c + 1, 128); lemma_nx(ws, ops, out, c, c);
    if on {
        lemma_lab_at(ops, ws, cnt, dims, c);
        if os { let j = choose|j: int| 0 <= j < out.len() && #[trigger] out[j] as int == c; assert(ol[j] as int == olab(out[j])); assert(ol[j] == label); assert(ol.contains(label)); }
        if ol.contains(label) { let j = choose|j: int| 0 <= j < ol.len() && ol[j] == label; assert(ol[j] as int == olab(out[j])); assert(out[j] as int == c); assert(os); }
    }
    if !(on && !os) {
        assert(nx(ws, ops, out, c + 1) == nx(ws, ops, out, c));
        assert forall|l: int| 0 <= l < c + 1 && #[trigger] pres(ws, ops, n, l) implies inl(itl(lab, nd), l) || seen(out, out.len() as int, l) by { if l < c { } else { assert(l == c); } }
    } else if nd < MAX_DIMS {
        let l2 = lab.update(nd, label); let nd2 = nd + 1;
        assert(nx(ws, ops, out, c + 1) == nx(ws, ops, out, c) + 1);
        assert forall|d: int| out.len() <= d < nd2 implies 0 < #[trigger] l2[d] && (l2[d] as int) < c + 1 && pres(ws, ops, n, l2[d] as int) && !seen(out, out.len() as int, l2[d] as int) by { if d < nd { assert(l2[d] == lab[d]); } }
        assert forall|d: int, e: int| out.len() <= d < e < nd2 implies #[trigger] l2[d] != #[trigger] l2[e] by { assert(l2[d] == lab[d]); if e < nd { assert(l2[e] == lab[e]); assert(lab[d] != lab[e]); } else { assert((lab[d] as int) < c); } }
        assert forall|j: int| 0 <= j < out.len() implies (#[trigger] l2[j]) as int == olab(out[j]) by { assert(lab[j] as int == olab(out[j])); }
        assert forall|l: int| 0 <= l < c + 1 && #[trigger] pres(ws, ops, n, l) implies inl(itl(l2, nd2), l) || seen(out, out.len() as int, l) by {
            if l < c { if inl(itl(lab, nd), l) { let d = choose|d: int| 0 <= d < nd && #[trigger] itl(lab, nd)[d] == l; assert(itl(l2, nd2)[d] == l); } } else { assert(itl(l2, nd2)[nd] == l); }
        }
    }
}
pub proof fn lemma_chosen_end(ws: Seq<&[u8]>, ops: Seq<&NdArray>, out: Seq<u8>, lab: Seq<i8>, nd: int, c: int)
    requires chosen(ws, ops, out, lab, nd, c),
    ensures nd <= MAX_DIMS, nd >= out.len(), lab.len() == MAX_DIMS, forall|d: int| 0 <= d < nd ==> #[trigger] lab[d] >= 0, nd == out.len() + nx(ws, ops, out, c), subs_ok(ops, ws, out) ==> forall|d: int| 0 <= d < nd ==> #[trigger] lab[d] != 0,
{
    if subs_ok(ops, ws, out) { assert forall|d: int| 0 <= d < nd implies #[trigger] lab[d] != 0 by { if d < out.len() { assert(letter(out[d])); } } }
    assert forall|d: int| 0 <= d < nd implies #[trigger] lab[d] >= 0 by { if d < out.len() { assert(lab[d] as int == olab(out[d])); } } }
pub proof fn lemma_merged_end(ops: Seq<&NdArray>, ws: Seq<&[u8]>, ra: NdArray, lab: Seq<i8>, k: int)
    requires merged(ra, lab, *ops[k], ws[k]@), 0 <= k < ops.len(), lbound(ops, ws),
    ensures ra.wf(), ra.sh().len() == ra.st().len(), lab_ok(lab, ra.sh().len() as int), forall|l: int| 0 < l ==> #[trigger] lsl(lab, ra.st(), ra.sh().len() as int, l) == lsum(ws[k]@, ops[k].st(), ops[k].sh().len() as int, l),
        forall|l: int| 0 < l ==> #[trigger] lsl(lab, ra.st(), ra.sh().len() as int, l) <= isize::MAX,
{ assert forall|l: int| 0 < l implies #[trigger] lsl(lab, ra.st(), ra.sh().len() as int, l) <= isize::MAX by { assert(lsum(ws[k]@, ops[k].st(), ops[k].sh().len() as int, l) <= isize::MAX); } }
pub proof fn lemma_merged_new(ra: NdArray, lab: Seq<i8>, op: NdArray, s: Seq<u8>, lab0: Seq<i8>)
    requires ra.wf(), ra.sh().len() == ra.st().len(), lab_ok(lab, ra.sh().len() as int), forall|l: int| 0 < l ==> #[trigger] lsl(lab, ra.st(), ra.sh().len() as int, l) == lsl(lab0, op.st(), op.sh().len() as int, l),
        forall|l: int| 0 < l ==> #[trigger] lsl(lab0, op.st(), op.sh().len() as int, l) == lsum(s, op.st(), op.sh().len() as int, l),
    ensures merged(ra, lab, op, s),
{ assert forall|l: int| 0 < l implies #[trigger] lsl(lab, ra.st(), ra.sh().len() as int, l) == lsum(s, op.st(), op.sh().len() as int, l) by { assert(lsl(lab0, op.st(), op.sh().len() as int, l) == lsum(s, op.st(), op.sh().len() as int, l)); } }
pub proof fn lemma_subs_ok(ws: Seq<&[u8]>, ops: Seq<&NdArray>, out: Seq<u8>, cnt: Seq<u32>, dims: Seq<usize>, lab: Seq<i8>, nd: int)
    requires pinv(ws, ops, ops.len() as int, cnt, dims), outs_ok(ws, ops, out), chosen(ws, ops, out, lab, nd, 128), ws.len() == ops.len(), ops.len() < MAX_ARGS,
    ensures subs_ok(ops, ws, out),
{ }
//@fn src/linalg/einsum.rs :: - :: prepare_einsum
//@sig pub fn prepare_einsum(operands: &[&NdArray], subscripts0: (&[&[u8]], &[u8]), strides: &mut [[usize; MAX_ARGS]; MAX_DIMS], iter_ndims: &mut usize, iter_shape: &mut Vec<usize>, output_shape: &mut Vec<usize>)
//@sigof prepare_einsum:p
//@call .as_ref => !id
//@requires eready(operands@, subscripts0.0@, subscripts0.1@)
//@panics !subs_ok(operands@, subscripts0.0@, subscripts0.1@)
//@ensures exists|ls: Seq<int>, ost: Seq<usize>| #[trigger] prepared(operands@, subscripts0.0@, subscripts0.1@, final(strides)@, *final(iter_ndims) as int, final(iter_shape)@, final(output_shape)@, ls, ost)
//@hide
    pinv chosen merged prepared small lbound lsl lsum nx oword_ok outs_ok agree cnt_ok dims_ok word_ok enc lab_ok rowmajor words_ok consistent
//@start
    let ghost ops = operands@; let ghost n = ops.len() as int; let ghost ws = subscripts0.0@; let ghost out = subscripts0.1@; let ghost good = subs_ok(ops, ws, out); let ghost z32 = Seq::new(MAX_DIMS as nat, |j: int| 0i8); let ghost zu = Seq::new(MAX_DIMS as nat, |j: int| 0usize);
//@loop 0 before
    proof { lemma_pinv0(ws, ops, label_counts@, label_dims@); assert forall|i: int| 0 <= i < MAX_ARGS implies (#[trigger] operand_labels@[i])@ == z32 by { assert(operand_labels@[i]@ =~= z32); } }
//@loop 0
    invariant operands@ == ops, subscripts.0@ == ws, n == n_operands, n == vxe0, n < MAX_ARGS, max_broadcast_dims == 0, pinv(ws, ops, vxc0 as int, label_counts@, label_dims@),
        forall|i: int| 0 <= i < vxc0 ==> enc((#[trigger] operand_labels@[i])@, ws[i]@, ops[i].sh().len() as int),
        forall|i: int| vxc0 <= i < MAX_ARGS ==> (#[trigger] operand_labels@[i])@ == z32,
//@loop 0 start
    let ghost k = vxc0 - 1; let ghost (cnt0, dims0) = (label_counts@, label_dims@);
    proof { lemma_pinv_next(ws, ops, out, k, cnt0, dims0); assert(operand_labels@[k]@ == z32); assert(plain(ws[k]@)); assert(ops[k].wf()); }
//@loop 0 end
    proof { lemma_pinv_step(ws, ops, k, cnt0, dims0, label_counts@, label_dims@); }
//@loop 0 after
    let ghost (cnt, dims) = (label_counts@, label_dims@); let ghost ol0 = operand_labels@;
    proof { lemma_pinv_out(ws, ops, out, cnt, dims); assert(ops[0].wf()); assert(enc(ol0[0]@, ws[0]@, ops[0].sh().len() as int)); lemma_lready(ops, ws, cnt, dims, ol0[0]@, 0); }
//@after parse_output_subscripts
    let ghost oa = output_labels@;
    proof { lemma_olab(out, cnt, oa); lemma_blank(ws, ops, out, oa); }
//@loop 1
    invariant operands@ == ops, vxe1 == n, reshaped_operands@.len() == vxc1, forall|i: int| vxc1 <= i < n ==> #[trigger] operand_labels@[i] == ol0[i],
        forall|i: int| 0 <= i < vxc1 ==> merged(#[trigger] reshaped_operands@[i], operand_labels@[i]@, *ops[i], ws[i]@),
//@loop 1 start
    let ghost k1 = vxc1 - 1; let ghost (ra1, ol1) = (reshaped_operands@, operand_labels@);
    proof { assert(operand_labels@[k1] == ol0[k1]); assert(ops[k1].wf()); assert(enc(ol0[k1]@, ws[k1]@, ops[k1].sh().len() as int)); lemma_lready(ops, ws, cnt, dims, ol0[k1]@, k1); }
//@loop 1 end
    proof {
        lemma_merged_new(reshaped_operands@[k1], operand_labels@[k1]@, *ops[k1], ws[k1]@, ol0[k1]@);
        assert forall|i: int| 0 <= i < vxc1 implies merged(#[trigger] reshaped_operands@[i], operand_labels@[i]@, *ops[i], ws[i]@) by { if i < k1 { assert(merged(ra1[i], ol1[i]@, *ops[i], ws[i]@)); assert(reshaped_operands@[i] == ra1[i]); assert(operand_labels@[i] == ol1[i]); } }
    }
//@loop 2
    invariant output_shape@.len() == vxc2, forall|j: int| 0 <= j < vxc2 ==> #[trigger] output_shape@[j] == dims[olab(out[j])], label_dims@ == dims, dims.len() == 128, output_labels@.len() == out.len(), forall|j: int| 0 <= j < out.len() ==> (#[trigger] output_labels@[j]) as int == olab(out[j]),
//@loop 3 before
    let ghost osh = output_shape@; let ghost oll = output_labels@;
    proof { lemma_chosen0(ws, ops, out, iter_labels@); }
//@loop 3
    invariant vxe3 == 128, vxs3 == 0, label_counts@ == cnt, label_dims@ == dims, cnt.len() == 128, dims.len() == 128, pinv(ws, ops, n, cnt, dims), chosen(ws, ops, out, iter_labels@, *iter_ndims as int, vxc3 as int), iter_shape@.len() == *iter_ndims, *iter_ndims >= out.len(), *iter_ndims <= MAX_DIMS, output_shape@ == osh, osh.len() == out.len(),
        forall|d: int| 0 <= d < osh.len() ==> #[trigger] iter_shape@[d] == osh[d], forall|d: int| osh.len() <= d < *iter_ndims ==> #[trigger] iter_shape@[d] == dims[iter_labels@[d] as int],
        output_labels@ == oll, oll.len() == out.len(), forall|j: int| 0 <= j < out.len() ==> (#[trigger] oll[j]) as int == olab(out[j]),
//@loop 3 start
    let ghost c = vxc3 - 1; let ghost (il3, nd3, is3) = (iter_labels@, *iter_ndims as int, iter_shape@);
    proof { lemma_chosen_at(ws, ops, out, cnt, dims, il3, nd3, oll, c); }
//@loop 3 end
    proof {
        assert(iter_labels@ =~= il3.update(nd3, label));
        assert forall|d: int| osh.len() <= d < *iter_ndims implies #[trigger] iter_shape@[d] == dims[iter_labels@[d] as int] by { if d < nd3 { assert(is3[d] == dims[il3[d] as int]); } }
    }
//@loop 3 after
    let ghost ila = iter_labels@; let ghost nda = *iter_ndims as int;
    proof { lemma_chosen_end(ws, ops, out, ila, nda, 128); }
//@loop 4 before
    proof { assert forall|i: int| 0 <= i < MAX_ARGS implies (#[trigger] tmp_strides@[i])@ == zu by { assert(tmp_strides@[i]@ =~= zu); } }
//@loop 4
    invariant vxe4 == n, nda <= MAX_DIMS, iter_labels@ == ila.subrange(0, nda), ila.len() == MAX_DIMS, reshaped_operands@.len() == n, n < MAX_ARGS,
        forall|d: int| 0 <= d < nda ==> #[trigger] ila[d] >= 0,
        forall|i: int| 0 <= i < n ==> merged(#[trigger] reshaped_operands@[i], operand_labels@[i]@, *ops[i], ws[i]@),
        forall|i: int| vxc4 <= i < MAX_ARGS ==> (#[trigger] tmp_strides@[i])@ == zu,
        vxc4 > 0 || good ==> forall|d: int| 0 <= d < nda ==> #[trigger] ila[d] != 0,
        forall|i: int, d: int| 0 <= i < vxc4 && 0 <= d < nda ==> #[trigger] tmp_strides@[i]@[d] == lsum(ws[i]@, ops[i].st(), ops[i].sh().len() as int, ila[d] as int),
        forall|i: int, d: int| 0 <= i < vxc4 && nda <= d < MAX_DIMS ==> #[trigger] tmp_strides@[i]@[d] == 0,
//@loop 4 start
    let ghost k4 = vxc4 - 1; let ghost t4 = tmp_strides@;
    proof { lemma_merged_end(ops, ws, reshaped_operands@[k4], operand_labels@[k4]@, k4); assert(tmp_strides@[k4]@ == zu); }
//@loop 4 end
    proof { assert forall|d: int| 0 <= d < nda implies #[trigger] ila[d] != 0 by { assert(iter_labels@[d] == ila[d]); } }
//@loop 4 after
    let ghost ish0 = iter_shape@;
    proof { lemma_outs(ops, ws, out, cnt, dims, ila, nda, osh); lemma_subs_ok(ws, ops, out, cnt, dims, ila, nda); }
//@after vx_copy_into
    let ghost tmp = tmp_strides@;
    proof { assert(exists|y: Seq<usize>| #[trigger] rowmajor(osh, y) && forall|j: int| 0 <= j < osh.len() ==> #[trigger] y[j] == tmp[n]@[j]); }
//@after transpose_2d_array
    let ghost smt = strides@; let ghost ost = choose|y: Seq<usize>| #[trigger] rowmajor(osh, y) && forall|j: int| 0 <= j < osh.len() ==> #[trigger] y[j] == tmp[n]@[j];
    let ghost nd = if nda == 0 { 1 } else { nda }; let ghost ls = if nda == 0 { seq![0int] } else { itl(ila, nda) }; let ghost ish1 = if nda == 0 { seq![1usize] } else { ish0 };
    proof {
        assert forall|d: int| 0 <= d < MAX_DIMS implies (#[trigger] smt[d])@[n] == (if d < out.len() { ost[d] } else { 0 }) by { assert(smt[d]@[n] == tmp[n]@[d]); }
        lemma_prep_end(ops, ws, out, cnt, dims, ila, nda, osh, ish0, ost, smt);
    }
//@after permute_array
    proof { let p = best_axis_ordering@; if iter_shape@.len() == nd && (forall|d: int| 0 <= d < nd ==> #[trigger] iter_shape@[d] == ish1[p[d] as int]) { lemma_prep_perm(ops, ws, out, smt, nd, ish1, osh, ls, ost, p, strides@, iter_shape@); } }
//@ret
    proof {
        if strides@ == smt && iter_shape@ =~= ish1 { assert(prepared(ops, ws, out, strides@, nd, iter_shape@, osh, ls, ost)); }
    }
//@end
