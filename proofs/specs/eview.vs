//@use core geom mem arr slice bcast iter heap kern ops fill red redax sop mat eloop mfig einl dotm esub eprep einsum
use vstd::arithmetic::mul::*;

// ===================================================================== einsum_view
pub open spec fn axes_agree(s: Seq<u8>, sh: Seq<usize>) -> bool { forall|i: int, j: int| 0 <= i < sh.len() && 0 <= j < sh.len() && s[i] == s[j] ==> #[trigger] sh[i] == #[trigger] sh[j] }
pub open spec fn vouts_ok(s: Seq<u8>, n: int, out: Seq<u8>) -> bool {
    (forall|j: int| 0 <= j < out.len() ==> letter(#[trigger] out[j])) && (forall|j: int| 0 <= j < out.len() ==> seen(s, n, #[trigger] out[j] as int)) && (forall|i: int, j: int| 0 <= i < j < out.len() ==> #[trigger] out[i] != #[trigger] out[j])
}
/// subscripts einsum_view accepts
pub open spec fn vsub_ok(sh: Seq<usize>, s: Seq<u8>, out: Seq<u8>) -> bool { word_ok(s, sh.len() as int) && axes_agree(s, sh) && vouts_ok(s, sh.len() as int, out) }
pub open spec fn vready(a: NdArray, s: Seq<u8>, out: Seq<u8>) -> bool {
    a.wf() && a.sh().len() <= MAX_DIMS && plain(s) && plain(out) && out.len() <= MAX_DIMS && forall|l: int| 0 < l ==> #[trigger] lsum(s, a.st(), a.sh().len() as int, l) <= isize::MAX
}
pub open spec fn ols(out: Seq<u8>) -> Seq<int> { Seq::new(out.len(), |j: int| out[j] as int) }
/// nothing is summed: every label of the operand is in the output
pub open spec fn no_sum(s: Seq<u8>, n: int, out: Seq<u8>) -> bool { forall|a: int| 0 <= a < n ==> inl(ols(out), #[trigger] s[a] as int) }
/// index jx of r is the operand's element whose axes have the values of their labels
pub open spec fn is_eview(r: NdArray, a: NdArray, s: Seq<u8>, out: Seq<u8>) -> bool {
    view_of(r, a, false) && r.sh().len() == out.len() && (forall|d: int, j: int| 0 <= d < out.len() && 0 <= j < a.sh().len() && out[d] == s[j] ==> #[trigger] r.sh()[d] == #[trigger] a.sh()[j])
    && (forall|ix: Seq<int>| inb(r.sh(), ix) ==> inb(a.sh(), proj(ols(out), s, a.sh().len() as int, ix)) && #[trigger] r.at_ix(ix) == a.at_ix(proj(ols(out), s, a.sh().len() as int, ix)))
}
/// layout of the view as reshape_shape_and_stride_for_einsum computes it
pub open spec fn relaid(lab: Seq<i8>, sh: Seq<usize>, st: Seq<usize>, ol: Seq<i8>, sh2: Seq<usize>, st2: Seq<usize>) -> bool {
    sh2.len() == ol.len() && st2.len() == ol.len() && (forall|j: int| 0 <= j < sh.len() ==> #[trigger] covers(ol, rl(lab, j)))
    && (forall|d: int| 0 <= d < ol.len() ==> #[trigger] st2[d] == lsl(lab, st, sh.len() as int, ol[d] as int))
    && (forall|d: int| 0 <= d < ol.len() ==> #[trigger] sh2[d] == lastdim(lab, sh, sh.len() as int, ol[d] as int))
}
/// extent of label l (1 when no axis has it)
pub open spec fn ld(s: Seq<u8>, sh: Seq<usize>, n: int, l: int) -> usize
    decreases n,
{ if n <= 0 { 1 } else if s[n - 1] as int == l { sh[n - 1] } else { ld(s, sh, n - 1, l) } }
pub open spec fn pe(s: Seq<u8>, sh: Seq<usize>, n: int, out: Seq<u8>) -> Seq<usize> { Seq::new(out.len(), |d: int| ld(s, sh, n, out[d] as int)) }
pub proof fn lemma_ld(s: Seq<u8>, sh: Seq<usize>, n: int, l: int)
    requires 0 <= n <= sh.len(), sh.len() <= s.len(), axes_agree(s, sh),
    ensures forall|j: int| 0 <= j < n && #[trigger] s[j] as int == l ==> ld(s, sh, n, l) == sh[j], !seen(s, n, l) ==> ld(s, sh, n, l) == 1,
    decreases n,
{
    if n > 0 {
        lemma_ld(s, sh, n - 1, l);
        if s[n - 1] as int == l { assert(seen(s, n, l)); assert forall|j: int| 0 <= j < n && #[trigger] s[j] as int == l implies ld(s, sh, n, l) == sh[j] by { assert(s[j] == s[n - 1]); assert(sh[j] == sh[n - 1]); } }
        else if seen(s, n - 1, l) { let j = choose|j: int| 0 <= j < n - 1 && #[trigger] s[j] as int == l; assert(seen(s, n, l)); }
    }
}
pub proof fn lemma_ones(s: Seq<usize>)
    requires forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == 1,
    ensures prod(s) == 1,
    decreases s.len(),
{ if s.len() > 0 { lemma_ones(s.drop_last()); } }
/// distinct labels: the view has no more elements than the operand
pub proof fn lemma_pe(s: Seq<u8>, sh: Seq<usize>, n: int, out: Seq<u8>)
    requires 0 <= n <= sh.len(), sh.len() <= s.len(), axes_agree(s, sh), forall|i: int| 0 <= i < sh.len() ==> #[trigger] sh[i] > 0, forall|i: int, j: int| 0 <= i < j < out.len() ==> #[trigger] out[i] != #[trigger] out[j],
    ensures 0 < prod(pe(s, sh, n, out)) <= prod(sh.subrange(0, n)),
    decreases n,
{
    let p = pe(s, sh, n, out);
    if n == 0 { lemma_ones(p); assert(sh.subrange(0, 0) =~= Seq::<usize>::empty()); } else {
        lemma_pe(s, sh, n - 1, out);
        let q = pe(s, sh, n - 1, out); let x = sh[n - 1];
        assert(sh.subrange(0, n).drop_last() =~= sh.subrange(0, n - 1)); assert(sh.subrange(0, n).last() == x);
        let b = prod(sh.subrange(0, n - 1)); assert(prod(sh.subrange(0, n)) == b * x);
        assert(b * x >= b) by (nonlinear_arith) requires b > 0, x > 0;
        if seen(out, out.len() as int, s[n - 1] as int) {
            let d = choose|d: int| 0 <= d < out.len() && #[trigger] out[d] as int == s[n - 1] as int;
            assert(p =~= q.update(d, x)) by { assert forall|e: int| 0 <= e < out.len() && e != d implies #[trigger] p[e] == q[e] by { if e < d { assert(out[e] != out[d]); } else { assert(out[d] != out[e]); } } }
            lemma_prod_update(q, d, x); lemma_ld(s, sh, n - 1, out[d] as int); lemma_prod_nonneg(q);
            if seen(s, n - 1, out[d] as int) { let j = choose|j: int| 0 <= j < n - 1 && #[trigger] s[j] as int == out[d] as int; assert(sh[j] == sh[n - 1]); assert(q[d] == x); assert(p =~= q); }
            else { assert(q[d] == 1); assert(prod(q.update(d, x)) * 1 == prod(q.update(d, x))); assert(prod(p) == prod(q) * x); assert(0 < prod(q) * x <= b * x) by (nonlinear_arith) requires 0 < prod(q) <= b, x > 0; }
        } else {
            assert(p =~= q) by { assert forall|e: int| 0 <= e < out.len() implies #[trigger] p[e] == q[e] by { assert(out[e] as int != s[n - 1] as int); } }
        }
    }
}
pub proof fn lemma_lastdim(lab: Seq<i8>, s: Seq<u8>, sh: Seq<usize>, n: int, l: int)
    requires 0 <= n, forall|j: int| 0 <= j < n ==> #[trigger] rl(lab, j) == s[j] as int,
    ensures seen(s, n, l) ==> lastdim(lab, sh, n, l) == ld(s, sh, n, l),
    decreases n,
{
    if n > 0 { lemma_lastdim(lab, s, sh, n - 1, l); assert(rl(lab, n - 1) == s[n - 1] as int);
        if s[n - 1] as int != l && seen(s, n, l) { let j = choose|j: int| 0 <= j < n && #[trigger] s[j] as int == l; assert(j < n - 1); assert(seen(s, n - 1, l)); } }
}
/// the layout is one of a view, and where its elements are
pub proof fn lemma_relaid(a: NdArray, s: Seq<u8>, out: Seq<u8>, lab: Seq<i8>, ol: Seq<i8>, sh2: Seq<usize>, st2: Seq<usize>)
    requires vready(a, s, out), vsub_ok(a.sh(), s, out), enc(lab, s, a.sh().len() as int), ol.len() == out.len(), forall|d: int| 0 <= d < out.len() ==> (#[trigger] ol[d]) as int == olab(out[d]), relaid(lab, a.sh(), a.st(), ol, sh2, st2),
    ensures wfl(sh2, st2), no_sum(s, a.sh().len() as int, out), forall|d: int, j: int| 0 <= d < out.len() && 0 <= j < a.sh().len() && out[d] == s[j] ==> #[trigger] sh2[d] == #[trigger] a.sh()[j],
        forall|ix: Seq<int>| #[trigger] inb(sh2, ix) ==> inb(a.sh(), proj(ols(out), s, a.sh().len() as int, ix)) && dotp(st2, ix) == dotp(a.st(), proj(ols(out), s, a.sh().len() as int, ix)),
{
    let (sh, st) = (a.sh(), a.st()); let n = sh.len() as int; let ls = ols(out);
    lemma_wfl(sh, st); lemma_enc(lab, s, n);
    assert forall|j: int| 0 <= j < n implies inl(ls, #[trigger] s[j] as int) by { assert(covers(ol, rl(lab, j))); let d = choose|d: int| 0 <= d < ol.len() && #[trigger] ol[d] as int == rl(lab, j); assert(ol[d] as int == olab(out[d])); assert(letter(out[d])); assert(ls[d] == s[j] as int); }
    assert forall|d: int| 0 <= d < out.len() implies #[trigger] sh2[d] == ld(s, sh, n, out[d] as int) by { assert(ol[d] as int == olab(out[d])); assert(letter(out[d])); assert(seen(s, n, out[d] as int)); lemma_lastdim(lab, s, sh, n, out[d] as int); }
    assert forall|d: int| 0 <= d < out.len() implies (#[trigger] st2[d]) as int == lsum(s, st, n, ls[d]) by { assert(ol[d] as int == olab(out[d])); assert(letter(out[d])); lemma_lsl_enc(lab, s, st, n, n, out[d] as int); }
    assert forall|d: int, j: int| 0 <= d < out.len() && 0 <= j < n && out[d] == s[j] implies #[trigger] sh2[d] == #[trigger] sh[j] by { lemma_ld(s, sh, n, out[d] as int); }
    assert(sh2 =~= pe(s, sh, n, out)); assert(sh.subrange(0, n) =~= sh);
    assert(uniq(ls)) by { assert forall|d: int, e: int| 0 <= d < e < ls.len() implies #[trigger] ls[d] != #[trigger] ls[e] by { assert(out[d] != out[e]); } }
    lemma_pe(s, sh, n, out);
    assert(fits_labels(ls, sh2, s, sh)) by { assert forall|j: int| 0 <= j < n implies sh2[pos(ls, #[trigger] s[j] as int)] == sh[j] by { assert(inl(ls, s[j] as int)); lemma_pos(ls, s[j] as int); let d = pos(ls, s[j] as int); assert(out[d] == s[j]); } }
    assert(inls(ls, s, n)); assert(st.len() == n);
    if out.len() > 0 { lemma_label_space(s, sh, st, ls, sh2, st2); } else { if n > 0 { assert(inl(ls, s[0] as int)); } assert(span(sh2, st2) == 0); }
    assert(span(sh2, st2) < isize::MAX);
    assert forall|ix: Seq<int>| #[trigger] inb(sh2, ix) implies inb(sh, proj(ls, s, n, ix)) && dotp(st2, ix) == dotp(st, proj(ls, s, n, ix)) by {
        lemma_label_dot(s, st, ls, st2, ix);
        assert forall|j: int| 0 <= j < n implies 0 <= #[trigger] proj(ls, s, n, ix)[j] < sh[j] by { assert(inl(ls, s[j] as int)); lemma_pos(ls, s[j] as int); let d = pos(ls, s[j] as int); assert(sh2[d] == sh[j]); assert(0 <= ix[d] < sh2[d]); }
    }
}
pub proof fn lemma_vstart(a: NdArray, s: Seq<u8>, out: Seq<u8>)
    requires vready(a, s, out),
    ensures a.wf(), a.sh().len() <= MAX_DIMS, plain(s), plain(out), out.len() <= MAX_DIMS,
        vsub_ok(a.sh(), s, out) ==> word_ok(s, a.sh().len() as int) && axes_agree(s, a.sh()),
{ }
pub proof fn lemma_vmid(a: NdArray, s: Seq<u8>, out: Seq<u8>, lab: Seq<i8>, cnt: Seq<u32>)
    requires vready(a, s, out), enc(lab, s, a.sh().len() as int), word_ok(s, a.sh().len() as int), axes_agree(s, a.sh()), cnt.len() == 128, forall|c: int| 0 <= c < 128 ==> (#[trigger] cnt[c] > 0 <==> seen(s, a.sh().len() as int, c)),
    ensures lab_ok(lab, a.sh().len() as int), forall|j: int| 0 <= j < a.sh().len() ==> #[trigger] lab[j] != 0, forall|l: int| 0 < l ==> #[trigger] lsl(lab, a.st(), a.sh().len() as int, l) <= isize::MAX,
        vsub_ok(a.sh(), s, out) ==> oword_ok(out, cnt),
{
    let n = a.sh().len() as int; lemma_enc(lab, s, n);
    assert forall|l: int| 0 < l implies #[trigger] lsl(lab, a.st(), n, l) <= isize::MAX by { lemma_lsl_enc(lab, s, a.st(), n, n, l); assert(lsum(s, a.st(), n, l) <= isize::MAX); }
    if vsub_ok(a.sh(), s, out) { assert forall|j: int| 0 <= j < out.len() && letter(out[j]) implies cnt[#[trigger] out[j] as int] > 0 by { assert(seen(s, n, out[j] as int)); } }
}
pub proof fn lemma_vend(a: NdArray, s: Seq<u8>, out: Seq<u8>, cnt: Seq<u32>, lab: Seq<i8>, oa: Seq<i8>)
    requires vready(a, s, out), enc(lab, s, a.sh().len() as int), word_ok(s, a.sh().len() as int), axes_agree(s, a.sh()), cnt.len() == 128, forall|c: int| 0 <= c < 128 ==> (#[trigger] cnt[c] > 0 <==> seen(s, a.sh().len() as int, c)),
        oword_ok(out, cnt), oa.len() == MAX_DIMS, out.len() <= MAX_DIMS, forall|j: int| 0 <= j < out.len() ==> (#[trigger] oa[j]) as int == olab(out[j]),
    ensures ({ let ol = oa.subrange(0, out.len() as int);
        (forall|i: int, j: int| 0 <= i < j < out.len() ==> #[trigger] ol[i] != #[trigger] ol[j] || ol[i] == 0) && (!blank(ol, out.len() as int) <==> vsub_ok(a.sh(), s, out))
        && (!blank(ol, out.len() as int) ==> forall|sh2: Seq<usize>, st2: Seq<usize>| #[trigger] relaid(lab, a.sh(), a.st(), ol, sh2, st2) ==> wfl(sh2, st2)) }),
{
    let ol = oa.subrange(0, out.len() as int); let n = a.sh().len() as int; lemma_olab(out, cnt, oa);
    assert forall|i: int, j: int| 0 <= i < j < out.len() implies #[trigger] ol[i] != #[trigger] ol[j] || ol[i] == 0 by { assert(oa[i] != oa[j] || oa[i] == 0); }
    if blank(ol, out.len() as int) { let d = choose|d: int| 0 <= d < out.len() && #[trigger] ol[d] == 0; assert(oa[d] as int == olab(out[d])); assert(!letter(out[d])); } else {
        assert forall|j: int| 0 <= j < out.len() implies letter(#[trigger] out[j]) by { assert(ol[j] != 0); assert(oa[j] as int == olab(out[j])); }
        assert forall|j: int| 0 <= j < out.len() implies seen(s, n, #[trigger] out[j] as int) by { assert(letter(out[j])); assert(cnt[out[j] as int] > 0); }
        assert(vsub_ok(a.sh(), s, out));
        assert forall|d: int| 0 <= d < out.len() implies (#[trigger] ol[d]) as int == olab(out[d]) by { assert(oa[d] as int == olab(out[d])); }
        assert forall|sh2: Seq<usize>, st2: Seq<usize>| #[trigger] relaid(lab, a.sh(), a.st(), ol, sh2, st2) implies wfl(sh2, st2) by { lemma_relaid(a, s, out, lab, ol, sh2, st2); }
    }
}
pub proof fn lemma_vret(a: NdArray, s: Seq<u8>, out: Seq<u8>, lab: Seq<i8>, ol: Seq<i8>, r: Option<NdArray>)
    requires vready(a, s, out), vsub_ok(a.sh(), s, out), enc(lab, s, a.sh().len() as int), ol.len() == out.len(), forall|d: int| 0 <= d < out.len() ==> (#[trigger] ol[d]) as int == olab(out[d]),
        r.is_some() ==> view_of(r.unwrap(), a, false) && relaid(lab, a.sh(), a.st(), ol, r.unwrap().sh(), r.unwrap().st()), r.is_none() ==> exists|j: int| 0 <= j < a.sh().len() && !(#[trigger] covers(ol, rl(lab, j))),
    ensures r.is_some() == no_sum(s, a.sh().len() as int, out), r.is_some() ==> is_eview(r.unwrap(), a, s, out),
{
    let n = a.sh().len() as int; lemma_enc(lab, s, n);
    if r.is_some() {
        let v = r.unwrap(); lemma_relaid(a, s, out, lab, ol, v.sh(), v.st());
        assert forall|ix: Seq<int>| inb(v.sh(), ix) implies inb(a.sh(), proj(ols(out), s, n, ix)) && #[trigger] v.at_ix(ix) == a.at_ix(proj(ols(out), s, n, ix)) by { }
    } else {
        let j = choose|j: int| 0 <= j < n && !(#[trigger] covers(ol, rl(lab, j)));
        assert(rl(lab, j) == s[j] as int); assert(letter(s[j]));
        if inl(ols(out), s[j] as int) { let d = choose|d: int| 0 <= d < ols(out).len() && #[trigger] ols(out)[d] == s[j] as int; assert(out[d] == s[j]); assert(ol[d] as int == olab(out[d])); assert(ol[d] as int == rl(lab, j)); assert(covers(ol, rl(lab, j))); }
    }
}
//@fn src/linalg/einsum.rs :: - :: try_reshape_for_einsum
//@sig pub fn try_reshape_for_einsum(operand: &NdArray, labels: &[i8; MAX_DIMS], output_dims: usize, output_labels: &[i8]) -> (r: Option<NdArray>)
//@sigof try_reshape_for_einsum:p
//@requires operand.wf(), lab_ok(labels@, operand.sh().len() as int), output_labels@.len() == output_dims, forall|j: int| 0 <= j < operand.sh().len() ==> #[trigger] labels@[j] != 0, forall|l: int| 0 < l ==> #[trigger] lsl(labels@, operand.st(), operand.sh().len() as int, l) <= isize::MAX,
    forall|i: int, j: int| 0 <= i < j < output_dims ==> #[trigger] output_labels@[i] != #[trigger] output_labels@[j] || output_labels@[i] == 0,
    !blank(output_labels@, output_labels@.len() as int) ==> forall|sh2: Seq<usize>, st2: Seq<usize>| relaid(labels@, operand.sh(), operand.st(), output_labels@, sh2, st2) ==> #[trigger] wfl(sh2, st2)
//@panics blank(output_labels@, output_labels@.len() as int)
//@ensures r.is_some() ==> view_of(r.unwrap(), *operand, false) && relaid(labels@, operand.sh(), operand.st(), output_labels@, r.unwrap().sh(), r.unwrap().st()),
    r.is_none() ==> exists|j: int| 0 <= j < operand.sh().len() && !(#[trigger] covers(output_labels@, rl(labels@, j)))
//@end
//@fn src/linalg/einsum.rs :: - :: einsum_view
//@sig pub fn einsum_view(operand: &NdArray, subscripts: (&[u8], &[u8])) -> (r: Option<NdArray>)
//@sigof einsum_view:p
//@requires vready(*operand, subscripts.0@, subscripts.1@)
//@panics !vsub_ok(operand.sh(), subscripts.0@, subscripts.1@)
//@ensures r.is_some() == no_sum(subscripts.0@, operand.sh().len() as int, subscripts.1@), r.is_some() ==> is_eview(r.unwrap(), *operand, subscripts.0@, subscripts.1@)
//@hide
    vready vsub_ok enc relaid is_eview no_sum lsl lsum lastdim
//@start
    let ghost s = subscripts.0@; let ghost out = subscripts.1@; let ghost n = operand.sh().len() as int;
    proof { lemma_vstart(*operand, s, out); }
//@after parse_operand_subscripts
    let ghost lab = labels@; let ghost cnt = label_counts@;
    proof { lemma_vmid(*operand, s, out, lab, cnt); }
//@after parse_output_subscripts
    proof { lemma_vend(*operand, s, out, cnt, lab, output_labels@); }
//@ret
    proof { lemma_vret(*operand, s, out, lab, output_labels@, vx_ret); }
//@end
