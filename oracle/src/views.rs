//! C01 C02 C03 C04 C05 C13 C14 C15 C19 C21
use crate::core::*;
use redstone_ml::*;

type R = Result<(), String>;
fn vi(i: usize) -> i32 { i as i32 + 1 }

fn big_dims(rng: &mut Rng) -> Vec<usize> {
    // up to 32 axes, few elements
    let nd = 8 + rng.below(25);
    let mut s = vec![1; nd];
    for _ in 0..5 { let d = rng.below(nd); s[d] = 1 + rng.below(3); }
    s
}

/// layouts used by the read-only view properties
fn layouts(cx: &mut Cx, quick: usize, f: &mut dyn FnMut(&mut Cx, &NdArray<i32>, &M, *const i32, &str)) {
    for s in shapes(cx.thorough) {
        for k in 0..KINDS {
            for _ in 0..2 {
                let mut rng = cx.rng.fork();
                with_layout(&mut rng, &s, k, &vi, |a, m, buf, _| f(cx, a, m, buf, &format!("shape{s:?} {}", KIND_NAMES[k])));
                if cx.over() { return; }
            }
        }
    }
    for _ in 0..cx.n(quick) {
        let base = if cx.rng.chance(1, 10) { big_dims(&mut cx.rng) } else { rand_shape(&mut cx.rng, 5, 6, 220) };
        let depth = 1 + cx.rng.below(4);
        let mut rng = cx.rng.fork();
        chain(&mut rng, &base, depth, true, &vi, &mut |a, m, buf, d| f(cx, a, m, buf, d));
        if cx.over() { return; }
    }
}

#[cfg(feature = "c01")]
pub fn c01(cx: &mut Cx) {
    layouts(cx, 1500, &mut |cx, a, m, buf, d| {
        cx.case(|| format!("flat traversal of {d}"), || {
            let mut it = a.flatiter_ptr();
            let mut got: Vec<isize> = vec![];
            let cap = m.ids.len() + 3;
            while let Some(p) = it.next() { got.push((p as isize - buf as isize) / 4); if got.len() > cap { break; } }
            eq("visited positions (flatiter_ptr)", got, m.ids.iter().map(|&x| x as isize).collect())?;
            eq("traversal stays ended", it.next().is_none(), true)?;
            let mut it = a.flatiter();
            let got: Vec<i32> = it.by_ref().take(cap).collect();
            eq("visited elements (flatiter)", got, m.ids.iter().map(|&i| vi(i)).collect())?;
            eq("traversal stays ended", it.next().is_none(), true)?;
            // partial consumption and combinators
            let got: Vec<i32> = a.flatiter().skip(m.ids.len() / 2).step_by(2).take(cap).collect();
            eq("traversal through skip/step_by", got, m.ids.iter().skip(m.ids.len() / 2).step_by(2).map(|&i| vi(i)).collect())?;
            eq("nth element", a.flatiter().nth(m.ids.len() - 1), Some(vi(m.ids[m.ids.len() - 1])))?;
            eq("count", a.flatiter().count(), m.ids.len())?;
            eq("last", a.flatiter().last(), Some(vi(m.ids[m.ids.len() - 1])))
        });
    });
    // long axes: every index type must hold them
    for n in [255usize, 256, 257, 32767, 32768, 65535, 65536, 65537, 70001] {
        cx.case(|| format!("flat traversal with an axis of length {n}"), || {
            let b = owned(&[2, n + 1], (0..2 * (n + 1) as i32).collect());
            let v = b.slice_along(Axis(1), 0..n);
            let mut it = v.flatiter();
            for r in 0..2 { for c in 0..n { if it.next() != Some((r * (n + 1) + c) as i32) { return Err(format!("wrong element at [{r}, {c}]")); } } }
            eq("ended", it.next(), None)?;
            let v = (&b).transpose(0, 1);
            let mut it = v.flatiter();
            for c in 0..n + 1 { for r in 0..2 { if it.next() != Some((r * (n + 1) + c) as i32) { return Err(format!("wrong element at [{c}, {r}] of the transpose")); } } }
            eq("ended", it.next(), None)
        });
    }
    // several arrays walked together stay aligned: elementwise combination of two / a product of several differently laid out arrays
    let val = |i: usize| ((i * 7 + 3) % 61) as i32 - 30;
    let ss: Vec<Vec<usize>> = shapes(cx.thorough).into_iter().filter(|s| s.len() >= 2 && prod(s) <= 600).collect();
    for s in &ss {
        for k1 in [2, 3, 6, 7, 9, 10] { for k2 in [1, 2, 3, 8, 9, 6] {
            if cx.over() { return; }
            let mut rng = cx.rng.fork();
            let mut rng2 = rng.fork();
            with_layout(&mut rng, s, k1, &val, |a, ma, _, _| with_layout(&mut rng2, s, k2, &val, |b, mb, _, _| {
                cx.case(|| format!("walk together shape{s:?} {} and {}", KIND_NAMES[k1], KIND_NAMES[k2]), || {
                    let c = &*a + &*b;
                    let want: Vec<i32> = ma.ids.iter().zip(&mb.ids).map(|(&x, &y)| val(x) + val(y)).collect();
                    eq("pairs", read(&c), want)?;
                    let labels: String = "abcdefghij".chars().take(s.len()).collect();
                    let l = labels.as_str();
                    let c = einsum([&*a, &*b, &*a], ([l, l, l], l));
                    let want: Vec<i32> = ma.ids.iter().zip(&mb.ids).map(|(&x, &y)| val(x) * val(y) * val(x)).collect();
                    eq("triples", read(&c), want)
                });
            }));
        } }
    }
}

pub fn neg(rng: &mut Rng, a: usize, nd: usize) -> isize { if rng.chance(1, 2) { a as isize } else { a as isize - nd as isize } }

#[cfg(feature = "c02")]
pub fn c02(cx: &mut Cx) {
    layouts(cx, 700, &mut |cx, a, m, buf, d| {
        let nd = m.shape.len();
        let contiguous = m.ids.windows(2).all(|w| w[1] == w[0] + 1);
        let mut rng = cx.rng.fork();
        let pairs: Vec<(usize, usize)> = if nd <= 4 { (0..nd).flat_map(|x| (0..nd).map(move |y| (x, y))).collect() }
            else { (0..6).map(|_| (rng.below(nd), rng.below(nd))).collect() };
        for (x, y) in pairs {
            let (ax, ay) = (neg(&mut rng, x, nd), neg(&mut rng, y, nd));
            cx.case(|| format!("transpose({ax},{ay}) of {d}"), || {
                check_view(&a.transpose(ax, ay), buf, &m.transpose(x, y))?;
                check_view(&a.transpose(Axis(ax), Axis(ay)), buf, &m.transpose(x, y))
            });
        }
        cx.case(|| format!("view/T/squeeze of {d}"), || {
            check_view(&a.view(), buf, m)?;
            check_view(&a.squeeze(), buf, &m.squeeze())?;
            if nd >= 2 { check_view(&a.T(), buf, &m.transpose(0, 1)) } else { must_panic("T of an array with fewer than 2 axes", || a.T()) }
        });
        if nd < 32 { for x in 0..=nd {
            let ax = neg(&mut rng, x, nd + 1);
            cx.case(|| format!("unsqueeze({ax}) of {d}"), || {
                let u = a.unsqueeze(ax);
                check_view(&u, buf, &m.unsqueeze(x))?;
                if contiguous && a.is_contiguous() {
                    match attempt(|| check_view(&(&u).reshape([1, m.ids.len()]), buf, &m.reshape(&[1, m.ids.len()]))) {
                        Ok(r) => r, Err(e) => Err(format!("reshape of an unsqueezed contiguous array rejected: {e}")) }
                } else { Ok(()) }
            });
        } }
        cx.case(|| format!("invalid axes of {d}"), || {
            let n = nd as isize;
            must_panic("unsqueeze beyond", || a.unsqueeze(n + 1))?;
            must_panic("unsqueeze below", || a.unsqueeze(-n - 2))?;
            must_panic("transpose beyond", || a.transpose(0, n))?;
            must_panic("transpose below", || a.transpose(-n - 1, 0))
        });
        let mut fs = factorizations(m.ids.len(), 4);
        if fs.len() > 8 { rng.shuffle(&mut fs); fs.truncate(8); }
        fs.push(vec![m.ids.len()]);
        fs.push(m.shape.clone());
        for f in fs {
            cx.case(|| format!("reshape({f:?}) of {d}"), || {
                match attempt(|| a.reshape(f.clone())) {
                    Ok(v) => check_view(&v, buf, &m.reshape(&f)),
                    Err(e) => if contiguous && a.is_contiguous() || f == m.shape { Err(format!("rejected: {e}")) } else { Ok(()) }
                }
            });
        }
        cx.case(|| format!("reshape to a wrong element count of {d}"), || {
            must_panic("reshape n+1", || a.reshape([m.ids.len() + 1]))?;
            must_panic("reshape 2n", || a.reshape([2, m.ids.len()]))?;
            if nd >= 1 { let mut s = m.shape.clone(); s[0] += 1; must_panic("reshape grown", || a.reshape(s))?; }
            must_panic("reshape 0", || a.reshape([0usize]))
        });
        // consuming forms on a fresh contiguous copy with the same shape
        if m.ids.len() <= 300 {
            cx.case(|| format!("consuming forms, shape{:?}", m.shape), || {
                let mk = || { let o = owned(&m.shape, (0..m.ids.len()).map(vi).collect()); let p = base_ptr(&o); (o, p) };
                let bm = M::base(&m.shape);
                let (o, p) = mk(); check_view(&o.reshape(vec![m.ids.len()]), p, &bm.reshape(&[m.ids.len()]))?;
                let (o, p) = mk(); check_view(&o.squeeze(), p, &bm.squeeze())?;
                let (o, p) = mk(); check_view(&o.view(), p, &bm)?;
                if nd < 32 { let (o, p) = mk(); check_view(&o.unsqueeze(-1), p, &bm.unsqueeze(nd))?; }
                if nd >= 2 {
                    let (o, p) = mk(); check_view(&o.T(), p, &bm.transpose(0, 1))?;
                    let (o, p) = mk(); let v = o.transpose(0, nd as isize - 1); check_view(&v, p, &bm.transpose(0, nd - 1))?;
                    let v = v.transpose(1, 0); check_view(&v, p, &bm.transpose(0, nd - 1).transpose(0, 1))?;
                }
                // tensors
                let tv: Vec<f32> = (0..m.ids.len()).map(|i| i as f32).collect();
                let t: Tensor<f32> = unsafe { Tensor::from_contiguous_owned_buffer(m.shape.clone(), tv.clone()) };
                let p = base_ptr(t.ndarray());
                check_view((&t).reshape(vec![m.ids.len()]).ndarray(), p, &bm.reshape(&[m.ids.len()]))?;
                check_view((&t).squeeze().ndarray(), p, &bm.squeeze())?;
                if nd < 32 { check_view((&t).unsqueeze(0).ndarray(), p, &bm.unsqueeze(0))?; }
                check_view((&t).view().ndarray(), p, &bm)?;
                if nd >= 2 { check_view((&t).transpose(0, -1).ndarray(), p, &bm.transpose(0, nd - 1))?; check_view((&t).T().ndarray(), p, &bm.transpose(0, 1))?; }
                let t = t.reshape(vec![m.ids.len()]);
                check_view(t.ndarray(), p, &bm.reshape(&[m.ids.len()]))
            });
        }
    });
}

fn sels(n: usize) -> Vec<Ix> {
    let mut v: Vec<Ix> = (0..n).map(Ix::I).collect();
    for a in 0..n { for b in a + 1..=n { v.push(Ix::R(a, b)); } }
    v
}

#[cfg(feature = "c03")]
pub fn c03(cx: &mut Cx) {
    // exhaustive on small shapes, every spelling of a range
    for s in [vec![1], vec![3], vec![2, 3], vec![3, 1], vec![2, 2, 2]] {
        let o = owned(&s, (0..prod(&s)).map(vi).collect());
        let buf = base_ptr(&o);
        let m = M::base(&s);
        let mut combos: Vec<Vec<Ix>> = vec![vec![]];
        let mut layer: Vec<Vec<Ix>> = vec![vec![]];
        for d in 0..s.len() {
            let mut next = vec![];
            for c in &layer { for x in sels(s[d]) { let mut c2 = c.clone(); c2.push(x); next.push(c2); } }
            combos.extend(next.clone()); layer = next;
        }
        for c in combos { for style in 0..6 {
            if c.is_empty() && style > 0 { break; }
            cx.case(|| format!("base{s:?}.slice({c:?}) spelling {style}"), || {
                let ix: Vec<_> = c.iter().enumerate().map(|(d, x)| to_index(x, style, s[d])).collect();
                check_view(&o.slice(ix), buf, &m.slice(&c))
            });
            if cx.over() { return; }
        } }
    }
    layouts(cx, 900, &mut |cx, a, m, buf, d| {
        let nd = m.shape.len();
        if nd == 0 { return; }
        let mut rng = cx.rng.fork();
        for _ in 0..3 {
            let k = 1 + rng.below(nd);
            let c: Vec<Ix> = (0..k).map(|d| if rng.chance(1, 3) { Ix::I(rng.below(m.shape[d])) } else { let (x, y) = rand_range(&mut rng, m.shape[d]); Ix::R(x, y) }).collect();
            let style = rng.below(6);
            cx.case(|| format!("slice({c:?}) spelling {style} of {d}"), || {
                let ix: Vec<_> = c.iter().enumerate().map(|(d, x)| to_index(x, style, m.shape[d])).collect();
                check_view(&a.slice(ix), buf, &m.slice(&c))
            });
        }
        for _ in 0..2 {
            let ax = rng.below(nd); let n = m.shape[ax];
            let i = rng.below(n); let (x, y) = rand_range(&mut rng, n);
            let sx = neg(&mut rng, ax, nd);
            cx.case(|| format!("slice_along({sx}, {i} / {x}..{y}) of {d}"), || {
                check_view(&a.slice_along(Axis(sx), i), buf, &m.slice_along(ax, Ix::I(i)))?;
                check_view(&a.slice_along(Axis(sx), x..y), buf, &m.slice_along(ax, Ix::R(x, y)))?;
                check_view(&a.slice_along(Axis(sx), x..=y - 1), buf, &m.slice_along(ax, Ix::R(x, y)))?;
                check_view(&a.slice_along(Axis(sx), x..), buf, &m.slice_along(ax, Ix::R(x, n)))?;
                check_view(&a.slice_along(Axis(sx), ..y), buf, &m.slice_along(ax, Ix::R(0, y)))?;
                check_view(&a.slice_along(Axis(sx), ..=y - 1), buf, &m.slice_along(ax, Ix::R(0, y)))?;
                check_view(&a.slice_along(Axis(sx), ..), buf, &m.slice_along(ax, Ix::R(0, n)))
            });
        }
        let bad = rng.below(nd);
        cx.case(|| format!("out-of-range slices on axis {bad} of {d}"), || {
            let n = m.shape[bad];
            let full = |x: redstone_ml::index::Index| -> Vec<redstone_ml::index::Index> {
                let mut v: Vec<_> = (0..bad).map(|_| redstone_ml::index::Index::from(..)).collect(); v.push(x); v };
            use redstone_ml::index::Index as X;
            for x in [X::from(n), X::from(n + 1), X::from(0..n + 1), X::from(n..n + 2), X::from(0..=n), X::from(..n + 1), X::from(..=n), X::from(n - 1..n + 1), X::from(n + 1..)] {
                must_panic("slice out of range", || a.slice(full(x.clone())))?;
                must_panic("slice_along out of range", || a.slice_along(Axis(bad as isize), x))?;
            }
            if n >= 2 { must_panic("reversed range", || a.slice(full(X::from(n - 1..n - 2 + 0 * n))))?; }
            must_panic("too many indices", || a.slice(vec![X::from(..); nd + 1]))?;
            must_panic("axis beyond", || a.slice_along(Axis(nd as isize), 0))?;
            must_panic("axis below", || a.slice_along(Axis(-(nd as isize) - 1), 0))
        });
        if nd >= 2 {
            for _ in 0..3 {
                let x = rng.below(nd); let mut y = rng.below(nd - 1); if y >= x { y += 1; }
                let (sx, sy) = (neg(&mut rng, x, nd), neg(&mut rng, y, nd));
                let off = rng.range(-(m.shape[x] as i64) - 1, m.shape[y] as i64 + 2) as isize;
                cx.case(|| format!("offset_diagonal_along({off},{sx},{sy}) of {d}"), || {
                    match m.diag(off, x, y) {
                        Some(w) => check_view(&a.offset_diagonal_along(off, sx, sy), buf, &w)?,
                        None => must_panic("offset out of range", || a.offset_diagonal_along(off, sx, sy))?,
                    }
                    check_view(&a.diagonal_along(sx, sy), buf, &m.diag(0, x, y).unwrap())?;
                    check_view(&a.diagonal(), buf, &m.diag(0, 0, 1).unwrap())?;
                    match m.diag(off, 0, 1) {
                        Some(w) => check_view(&a.offset_diagonal(off), buf, &w),
                        None => must_panic("offset out of range", || a.offset_diagonal(off)),
                    }
                });
            }
            cx.case(|| format!("invalid diagonal axes of {d}"), || {
                must_panic("same axis", || a.diagonal_along(0, -(nd as isize)))?;
                must_panic("axis beyond", || a.diagonal_along(0, nd as isize))
            });
        } else {
            cx.case(|| format!("diagonal of 1-axis {d}"), || must_panic("diagonal", || a.diagonal()));
        }
    });
}

macro_rules! wrong_arity { ($a:expr, $nd:expr, $($n:literal)*) => { $( if $nd != $n { must_panic("wrong number of indices", || $a[[0usize; $n]])?; } )* } }

#[cfg(feature = "c04")]
pub fn c04(cx: &mut Cx) {
    layouts(cx, 900, &mut |cx, a, m, _buf, d| {
        let nd = m.shape.len();
        let st = a.stride().to_vec();
        cx.case(|| format!("[] of {d}"), || {
            let p = a.flatiter_ptr().next().unwrap() as isize;
            let all = multi(&m.shape);
            for ix in all.iter().step_by(1 + all.len() / 200) {
                let want = p + 4 * ix.iter().zip(&st).map(|(i, s)| (i * s) as isize).sum::<isize>();
                eq(&format!("address of [{ix:?}]"), index_ref(a, ix) as *const i32 as isize, want)?;
            }
            if nd == 1 { for i in 0..m.shape[0] { eq("a[i]", a[i], vi(m.ids[i]))?; } must_panic("a[n]", || a[m.shape[0]])?; } else { must_panic("a[0] on non-vector", || a[0])?; }
            for bad in 0..nd {
                for extra in [0, 1, 1000, usize::MAX - m.shape[bad]] {
                    let mut ix: Vec<usize> = vec![0; nd]; ix[bad] = m.shape[bad] + extra;
                    must_panic(&format!("index {ix:?}"), || *index_ref(a, &ix))?;
                }
                // out of range along one axis although another index is small / the flat offset stays inside the buffer
                let mut ix: Vec<usize> = m.shape.iter().map(|n| n - 1).collect(); ix[bad] = m.shape[bad];
                must_panic(&format!("index {ix:?}"), || *index_ref(a, &ix))?;
            }
            wrong_arity!(a, nd, 0 1 2 3 4 5 6 7);
            Ok(())
        });
    });
    let ss = shapes(cx.thorough);
    for s in ss { for k in 0..KINDS {
        if cx.over() { return; }
        if s.len() > 8 || prod(&s) > 300 { continue; }
        let mut rng = cx.rng.fork();
        with_layout(&mut rng, &s, k, &vi, |a, m, buf, n| {
            let all = multi(&s);
            for t in 0..3.min(all.len()) {
                let ix = &all[(t * 7919 + n) % all.len()];
                cx.case(|| format!("write [{ix:?}] of shape{s:?} {}", KIND_NAMES[k]), || {
                    let before = snapshot(buf, n);
                    if !writable_kind(k) {
                        must_panic("write to a read-only view", || index_set(a, ix, -5))?;
                        return eq("buffer", snapshot(buf, n), before);
                    }
                    index_set(a, ix, -5);
                    let mut want = before.clone(); want[m.at(ix)] = -5;
                    eq("buffer after write", snapshot(buf, n), want)?;
                    if s.len() == 1 { a[ix[0]] = -6; let mut want = before.clone(); want[m.at(ix)] = -6; eq("buffer after a[i] = v", snapshot(buf, n), want)?; }
                    unsafe { *(buf as *mut i32).add(m.at(ix)) = before[m.at(ix)]; }
                    for bad in 0..s.len() {
                        let mut j = ix.clone(); j[bad] = s[bad];
                        must_panic("write out of range", || index_set(a, &j, 77))?;
                    }
                    let mut j = ix.clone(); j.push(0);
                    if j.len() <= 8 { must_panic("write with too many indices", || index_set(a, &j, 77))?; }
                    if !ix.is_empty() { must_panic("write with too few indices", || index_set(a, &ix[1..], 77))?; }
                    eq("buffer after rejected writes", snapshot(buf, n), before)
                });
            }
        });
    } }
}

pub fn bshape(a: &[usize], b: &[usize]) -> Option<Vec<usize>> {
    let n = a.len().max(b.len());
    let mut out = vec![0; n];
    for i in 0..n {
        let x = if i < a.len() { a[a.len() - 1 - i] } else { 1 };
        let y = if i < b.len() { b[b.len() - 1 - i] } else { 1 };
        out[n - 1 - i] = if x == y { x } else if x == 1 { y } else if y == 1 { x } else { return None };
    }
    Some(out)
}

#[cfg(feature = "c05")]
pub fn c05(cx: &mut Cx) {
    layouts(cx, 900, &mut |cx, a, m, buf, d| {
        let mut rng = cx.rng.fork();
        if m.ids.len() > 300 { return; }
        for _ in 0..3 {
            let mut t: Vec<usize> = m.shape.iter().map(|&n| if n == 1 || rng.chance(1, 12) { 1 + rng.below(4) } else { n }).collect();
            for _ in 0..rng.below(3) { if t.len() < 32 { t.insert(0, 1 + rng.below(3)); } }
            if rng.chance(1, 12) && !t.is_empty() { t.remove(0); }
            if prod(&t) > 4000 { continue; }
            cx.case(|| format!("broadcast_to({t:?}) of {d}"), || {
                if M::can_broadcast(&m.shape, &t) {
                    let v = a.broadcast_to(&t);
                    check_view(&v, buf, &m.broadcast(&t))?;
                    eq("is a view", v.is_view(), true)
                } else { must_panic("incompatible broadcast", || a.broadcast_to(&t)) }
            });
        }
    });
    // shapes of combined arrays, exhaustively for up to 3 axes of lengths 1..3 and randomly beyond
    let mut small: Vec<Vec<usize>> = vec![vec![]];
    for a in 1..=3 { small.push(vec![a]); for b in 1..=3 { small.push(vec![a, b]); for c in 1..=2 { small.push(vec![a, b, c]); } } }
    let mut pairs: Vec<(Vec<usize>, Vec<usize>)> = vec![];
    for x in &small { for y in &small { pairs.push((x.clone(), y.clone())); } }
    for _ in 0..cx.n(300) {
        let x = rand_shape(&mut cx.rng, 5, 5, 60);
        let mut y: Vec<usize> = x.iter().map(|&n| match cx.rng.below(8) { 0 | 1 => 1, 2 => 1 + cx.rng.below(5), _ => n }).collect();
        for _ in 0..cx.rng.below(3) { if !y.is_empty() && cx.rng.chance(1, 2) { y.remove(0); } else { y.insert(0, 1 + cx.rng.below(3)); } }
        if prod(&y) <= 200 { if cx.rng.chance(1, 2) { pairs.push((x, y)); } else { pairs.push((y, x)); } }
    }
    for (x, y) in pairs {
        if cx.over() { return; }
        cx.case(|| format!("{x:?} with {y:?}"), || {
            let a = owned(&x, (0..prod(&x)).map(|i| i as i64 + 1).collect());
            let b = owned(&y, (0..prod(&y)).map(|i| 1000 * i as i64).collect());
            let (ma, mb) = (M::base(&x), M::base(&y));
            match bshape(&x, &y) {
                None => { must_panic("incompatible shapes", || &a + &b)?; must_panic("incompatible shapes", || &a * &b) }
                Some(s) => {
                    let c = &a + &b;
                    eq("combined shape", c.shape().to_vec(), s.clone())?;
                    let (ia, ib) = (ma.broadcast(&s), mb.broadcast(&s));
                    eq("combined elements", read(&c), ia.ids.iter().zip(&ib.ids).map(|(&i, &j)| i as i64 + 1 + 1000 * j as i64).collect())
                }
            }
        });
        // read-only views
        if let Some(s) = bshape(&x, &y) { if M::can_broadcast(&x, &s) {
            cx.case(|| format!("{x:?} broadcast to {s:?} is read-only"), || {
                let a = owned(&x, (0..prod(&x)).map(|i| i as i32 + 1).collect());
                let buf = base_ptr(&a); let before = snapshot(buf, prod(&x));
                let mut v = a.broadcast_to(&s);
                let o = owned(&s, vec![3; prod(&s)]);
                must_panic("+= through a broadcast view", || { v += &o; })?;
                must_panic("*= through a broadcast view", || { v *= 2; })?;
                must_panic("fill through a broadcast view", || v.fill(9))?;
                must_panic("zero through a broadcast view", || v.zero())?;
                if s.len() <= 8 { must_panic("[]= through a broadcast view", || index_set(&mut v, &vec![0; s.len()], 9))?; }
                if !s.is_empty() {
                    let mut w = v.slice_along(Axis(0), 0..1);
                    must_panic("fill through a slice of a broadcast view", || w.fill(9))?;
                    let mut w = (&v).unsqueeze(0);
                    must_panic("-= through a view of a broadcast view", || { w -= 1; })?;
                }
                eq("source", snapshot(buf, prod(&x)), before)
            });
        } }
    }
}

#[cfg(feature = "c13")]
pub fn c13(cx: &mut Cx) {
    layouts(cx, 1200, &mut |cx, a, m, buf, d| {
        cx.case(|| format!("copies of {d}"), || {
            let want: Vec<i32> = m.ids.iter().map(|&i| vi(i)).collect();
            let row = M::base(&m.shape);
            let c = a.clone();
            let cp = base_ptr(&c);
            check_view(&c, cp, &row).map_err(|e| format!("clone is not row-major: {e}"))?;
            eq("clone elements", read(&c), want.clone())?;
            eq("clone owns its data", c.is_view(), false)?;
            eq("clone contiguous", c.is_contiguous(), true)?;
            eq("clone data_slice", c.data_slice().to_vec(), want.clone())?;
            let f = a.flatten();
            eq("flatten shape", f.shape().to_vec(), vec![m.ids.len()])?;
            check_view(&f, base_ptr(&f), &M::base(&[m.ids.len()]))?;
            eq("flatten elements", read(&f), want.clone())?;
            let g = a.astype::<f64>();
            check_view(&g, base_ptr(&g), &row)?;
            eq("astype f64", read(&g), want.iter().map(|&x| x as f64).collect())?;
            if want.iter().all(|&x| x >= 0 && (x as i64) < 65536) { let g = a.astype::<u16>();
            eq("astype u16", read(&g), want.iter().map(|&x| x as u16).collect())?; }
            eq("astype i64", read(&a.astype::<i64>()), want.iter().map(|&x| x as i64).collect())?;
            if a.is_contiguous() { eq("data_slice", a.data_slice().to_vec(), want.clone())?; } else { must_panic("data_slice of a strided view", || a.data_slice())?; }
            if m.ids.len() == 1 { eq("value", a.value(), want[0])?; } else { must_panic("value of many", || a.value())?; }
            // independence
            let mut c = c; c.fill(-1);
            let mut f = f; f.fill(-2);
            let maxid = *m.ids.iter().max().unwrap();
            for i in 0..=maxid { eq("source after writing to copies", unsafe { *buf.add(i) }, vi(i))?; }
            let c = a.clone();
            unsafe { for &i in &m.ids { *(buf as *mut i32).add(i) += 1000; } }
            let now = read(&c);
            let fnow = read(&f);
            let vec = { let c2 = c.clone(); c2.into_data_vector() };
            let back = c.into_data_vector();
            for i in 0..=maxid { unsafe { *(buf as *mut i32).add(i) = vi(i); } }
            eq("copy after writing to the source", now, want.clone())?;
            eq("copy of a copy", vec, want.clone())?;
            eq("into_data_vector", back, want.clone())?;
            eq("flat copy after writes", fnow, vec![-2; m.ids.len()])?;
            if a.is_view() { must_panic("into_data_vector of a view", || (&*a).view().into_data_vector())?; }
            Ok(())
        });
    });
    // other element types
    macro_rules! ty { ($($t:ty),*) => { $( {
        let val = |i: usize| (i % 100) as $t;
        for s in [vec![], vec![1], vec![5], vec![3, 4], vec![2, 3, 4], vec![70]] { for k in 0..KINDS {
            if cx.over() { return; }
            let mut rng = cx.rng.fork();
            with_layout(&mut rng, &s, k, &val, |a, m, _, _| cx.case(|| format!("copies of {} shape{s:?} {}", stringify!($t), KIND_NAMES[k]), || {
                let want: Vec<$t> = m.ids.iter().map(|&i| val(i)).collect();
                eq("clone", read(&a.clone()), want.clone())?;
                eq("flatten", read(&a.flatten()), want.clone())?;
                eq("astype f32", read(&a.astype::<f32>()), want.iter().map(|&x| x as f32).collect())?;
                eq("astype i8", read(&a.astype::<i8>()), want.iter().map(|&x| x as i8).collect())?;
                eq("astype u64", read(&a.astype::<u64>()), want.iter().map(|&x| x as u64).collect())?;
                eq("into_data_vector", a.clone().into_data_vector(), want)
            }));
        } }
    } )* } }
    ty!(f32, f64, i8, i16, i64, i128, isize, u8, u16, u32, u64, u128, usize);
    cx.case(|| "astype of fractional, negative and large values".into(), || {
        let a = owned(&[4], vec![-1.75f64, 2.5, 0.0, 1e6]);
        eq("f64 to i32 truncates", read(&a.astype::<i32>()), vec![-1, 2, 0, 1000000])?;
        eq("f64 to f32", read(&a.astype::<f32>()), vec![-1.75, 2.5, 0.0, 1e6])?;
        must_panic("negative to unsigned", || a.astype::<u8>())?;
        let b = owned(&[2], vec![(1i64 << 53) + 1, -(1 << 40)]);
        eq("i64 to i128", read(&b.astype::<i128>()), vec![(1i128 << 53) + 1, -(1 << 40)])
    });
}

#[cfg(feature = "c14")]
pub fn c14(cx: &mut Cx) {
    macro_rules! ty { ($t:ty, $v:expr, $z:expr, $reps:expr) => { {
        let val = |i: usize| (i % 50 + 1) as $t;
        for s in shapes(cx.thorough) { for k in 0..KINDS { for rep in 0..$reps {
            if cx.over() { return; }
            let mut rng = cx.rng.fork();
            with_layout(&mut rng, &s, k, &val, |a, m, buf, n| { let sa = a.stride().to_vec(); cx.case(|| format!("fill {} shape{s:?} {} #{rep} stride{:?}", stringify!($t), KIND_NAMES[k], sa), || {
                let before = snapshot(buf, n);
                if !writable_kind(k) {
                    must_panic("fill of a read-only view", || a.fill($v))?;
                    return eq("buffer", snapshot(buf, n), before);
                }
                let mut want = before.clone();
                for &i in &m.ids { want[i] = $v; }
                a.fill($v);
                eq("buffer after fill", snapshot(buf, n), want.clone())?;
                for &i in &m.ids { want[i] = $z; }
                a.zero();
                eq("buffer after zero", snapshot(buf, n), want)
            }) });
        } } }
    } } }
    ty!(i32, -7, 0, 3);
    ty!(f32, 2.5, 0.0, 1);
    ty!(f64, -2.5, 0.0, 1);
    ty!(u8, 9, 0, 1);
    ty!(i128, -9, 0, 1);
    // random chains
    for _ in 0..cx.n(1500) {
        if cx.over() { return; }
        let base = rand_shape(&mut cx.rng, 5, 6, 260);
        let depth = 1 + cx.rng.below(4);
        let mut rng = cx.rng.fork();
        let n = prod(&base);
        chain(&mut rng, &base, depth, false, &vi, &mut |a, m, buf, d| {
            let mut ids = m.ids.clone(); ids.sort(); ids.dedup();
            if ids.len() != m.ids.len() { return; }
            cx.case(|| format!("fill {d}"), || {
                let before = snapshot(buf, n);
                let mut want = before.clone();
                for &i in &m.ids { want[i] = -3; }
                let mut v = a.view();
                v.fill(-3);
                let got = snapshot(buf, n);
                for i in 0..n { unsafe { *(buf as *mut i32).add(i) = before[i]; } }
                eq("buffer after fill", got, want)
            });
        });
    }
}

#[cfg(feature = "c15")]
pub fn c15(cx: &mut Cx) {
    layouts(cx, 700, &mut |cx, a, m, _buf, d| {
        let nd = m.shape.len();
        if m.ids.len() > 400 { return; }
        let mut rng = cx.rng.fork();
        let sub = |axes: &[usize]| -> Vec<(Vec<usize>, Vec<i32>)> {
            let mut ax = axes.to_vec(); ax.sort();
            let sel: Vec<usize> = ax.iter().map(|&d| m.shape[d]).collect();
            multi(&sel).iter().map(|ix| {
                let s: Vec<Ix> = (0..nd).map(|d| match ax.iter().position(|&x| x == d) { Some(p) => Ix::I(ix[p]), None => Ix::R(0, m.shape[d]) }).collect();
                let mm = m.slice(&s);
                (mm.shape, mm.ids.iter().map(|&i| vi(i)).collect())
            }).collect()
        };
        let cap = m.ids.len() + 2;
        if nd == 0 { cx.case(|| format!("iter of {d}"), || must_panic("iter of a scalar", || a.iter().count())); return; }
        if nd > 10 { return; }
        for ax in 0..nd {
            let sx = neg(&mut rng, ax, nd);
            cx.case(|| format!("iter_along({sx}) of {d}"), || {
                let got: Vec<_> = a.iter_along(sx).take(cap).map(|v| (v.shape().to_vec(), read(&v))).collect();
                eq("sub-arrays", got, sub(&[ax]))?;
                let mut it = a.iter_along(Axis(sx));
                for _ in 0..m.shape[ax] { eq("not ended early", it.next().is_some(), true)?; }
                eq("ended", it.next().is_none() && it.next().is_none(), true)
            });
        }
        cx.case(|| format!("iter and errors of {d}"), || {
            let got: Vec<_> = a.iter().take(cap).map(|v| (v.shape().to_vec(), read(&v))).collect();
            eq("sub-arrays", got, sub(&[0]))?;
            must_panic("axis beyond", || a.iter_along(nd as isize).count())?;
            must_panic("axis below", || a.iter_along(-(nd as isize) - 1).count())?;
            must_panic("axis beyond", || a.nditer([nd]).count())?;
            must_panic("duplicate axes", || a.nditer(vec![0, 0]).count())?;
            if nd > 1 { must_panic("duplicate axes", || a.nditer(vec![1, 0, 1]).count())?; }
            Ok(())
        });
        for _ in 0..3 {
            let mut axes: Vec<usize> = (0..nd).collect();
            rng.shuffle(&mut axes);
            axes.truncate(1 + rng.below(nd));
            cx.case(|| format!("nditer({axes:?}) of {d}"), || {
                let got: Vec<_> = a.nditer(axes.clone()).take(cap).map(|v| (v.shape().to_vec(), read(&v))).collect();
                eq("sub-arrays", got, sub(&axes))
            });
        }
    });
}

#[cfg(feature = "c19")]
pub fn c19(cx: &mut Cx) {
    fn chk(a: &NdArray<i32>, m: &M) -> R {
        let consecutive = m.ids.windows(2).all(|w| w[1] == w[0] + 1);
        eq("ndims", a.ndims(), m.shape.len())?;
        eq("size", a.size(), m.ids.len())?;
        eq("len", a.len(), m.shape.first().copied().unwrap_or(0))?;
        eq("strides per axis", a.stride().len(), a.shape().len())?;
        if a.is_contiguous() { eq("reported contiguous; elements consecutive", consecutive, true)?;
            eq("contiguous arrays are uniformly strided", a.is_uniformly_strided(), true)?; }
        let st = a.stride().to_vec();
        let mut p = 1; let mut row_major = true;
        for d in (0..st.len()).rev() { if st[d] != p { row_major = false; } p *= m.shape[d]; }
        if row_major { eq("row-major array reports contiguous", a.is_contiguous(), true)?; }
        eq("is_uniformly_strided agrees with has_uniform_stride", a.is_uniformly_strided(), a.has_uniform_stride().is_some())?;
        if let Some(s) = a.has_uniform_stride() {
            for w in m.ids.windows(2) { eq(&format!("reported uniform stride {s}; distance"), w[1] as isize - w[0] as isize, s as isize)?; }
        }
        Ok(())
    }
    layouts(cx, 2500, &mut |cx, a, m, buf, d| {
        cx.case(|| format!("layout of {d}"), || {
            let o = !d.contains(".") && d.starts_with("base");
            if o { eq("owned array is not a view", a.is_view(), false)?; }
            if d.contains(".") { eq("derived view is a view", a.is_view(), true)?; }
            check_view(a, buf, m)?;
            chk(a, m)?;
            let nd = m.shape.len();
            if nd >= 2 { let v = a.transpose(0, -1); chk(&v, &m.transpose(0, nd - 1))?; eq("is_view", v.is_view(), true)?; }
            let v = a.unsqueeze(0); chk(&v, &m.unsqueeze(0))?; eq("is_view", v.is_view(), true)?;
            let v = a.squeeze(); chk(&v, &m.squeeze())?;
            let v = a.view(); chk(&v, m)?; eq("is_view", v.is_view(), true)?;
            let mut t = m.shape.clone(); t.insert(0, 2);
            if t.len() <= 32 { let v = a.broadcast_to(&t); chk(&v, &m.broadcast(&t))?; eq("is_view", v.is_view(), true)?; }
            for it in a.nditer([]).take(1) { chk(&it, &M::base(&m.shape))?; }
            let c = a.clone(); eq("copy is not a view", c.is_view(), false)?; chk(&c, &M::base(&m.shape))?;
            let t = c.view(); eq("consuming view keeps ownership", t.is_view(), false)?; chk(&t, &M::base(&m.shape))?;
            if nd >= 2 { let t = t.transpose(0, 1); chk(&t, &M::base(&m.shape).transpose(0, 1))?; eq("consuming transpose keeps ownership", t.is_view(), false)?; }
            let r = &*a + 1; chk(&r, &M::base(&m.shape))?; eq("results own their data", r.is_view(), false)?;
            Ok(())
        });
    });
    for s in shapes(cx.thorough) {
        cx.case(|| format!("tensor layout queries shape{s:?}"), || {
            let t: Tensor<f64> = Tensor::full(1.5, s.clone());
            eq("tensor shape", t.shape().to_vec(), s.clone())?;
            eq("tensor size/ndims/len", (t.size(), t.ndims(), t.len()), (prod(&s), s.len(), s.first().copied().unwrap_or(0)))?;
            eq("tensor contiguous, owned", (t.is_contiguous(), t.is_view(), t.is_uniformly_strided()), (true, false, true))?;
            eq("tensor stride", t.stride().to_vec(), t.ndarray().stride().to_vec())?;
            let v = (&t).view(); eq("tensor view", v.is_view(), true)
        });
    }
}

#[cfg(feature = "c21")]
pub fn c21(cx: &mut Cx) {
    let ss: Vec<Vec<usize>> = shapes(cx.thorough).into_iter().filter(|s| prod(s) <= 1200).collect();
    for s in &ss { for k1 in 0..KINDS { for k2 in 0..KINDS {
        if cx.over() { return; }
        if s.len() > 3 && (k1 + k2) % 3 != 0 && !cx.thorough { continue; }
        let mut rng = cx.rng.fork();
        let mut rng2 = rng.fork();
        let zero = |_: usize| 0i32;
        with_layout(&mut rng, s, k1, &zero, |a, ma, bufa, na| with_layout(&mut rng2, s, k2, &zero, |b, mb, bufb, nb| {
            cx.case(|| format!("== shape{s:?} {} vs {}", KIND_NAMES[k1], KIND_NAMES[k2]), || {
                // give both views the same logical contents where the layouts allow (elements outside differ)
                unsafe {
                    for i in 0..na { *(bufa as *mut i32).add(i) = -1; }
                    for i in 0..nb { *(bufb as *mut i32).add(i) = -2; }
                    for (p, &i) in ma.ids.iter().enumerate() { *(bufa as *mut i32).add(i) = p as i32; }
                    for _ in 0..3 {
                        for (p, &i) in mb.ids.iter().enumerate() { *(bufb as *mut i32).add(i) = *bufa.add(ma.ids[p]); }
                        for (p, &i) in mb.ids.iter().enumerate() { *(bufa as *mut i32).add(ma.ids[p]) = *bufb.add(i); }
                    }
                }
                let truth = |a: &NdArray<i32>, b: &NdArray<i32>| a.shape() == b.shape() && read(a) == read(b);
                let want = truth(a, b);
                eq("a == b", *a == *b, want)?; eq("b == a", *b == *a, want)?;
                eq("&a == b", &*a == *b, want)?; eq("a == &b", *a == &*b, want)?; eq("a != b", *a != *b, !want)?;
                // change exactly one element
                let n = ma.ids.len();
                for p in [0, n / 2, n - 1, n / 3] {
                    let pa = unsafe { &mut *(bufa as *mut i32).add(ma.ids[p]) };
                    let old = *pa; *pa = 1_000_000;
                    let want = truth(a, b);
                    let got = (*a == *b, *b == *a, *a == &*b);
                    *pa = old;
                    eq(&format!("a == b after changing element {p}"), got, (want, want, want))?;
                }
                let mut e = s.clone(); e.push(1);
                eq("different rank", *a == (&*a).unsqueeze(s.len() as isize), false)?;
                let z = owned(&[n + 1], vec![0; n + 1]);
                eq("different size", *a == z, false)?;
                if s.len() >= 2 && s[0] != s[1] { eq("transposed shape", *a == (&*a).transpose(0, 1), false)?; }
                Ok(())
            });
        }));
    } } }
    macro_rules! ty { ($($t:ty),*) => { $(
        cx.case(|| format!("== {} and tensors", stringify!($t)), || {
            for n in [1usize, 2, 7, 64, 513] {
                let v: Vec<$t> = (0..n).map(|i| (i % 100) as $t).collect();
                let a = owned(&[n], v.clone());
                eq("equal copies", a == owned(&[n], v.clone()), true)?;
                for p in [0, n - 1, n / 2] { let mut w = v.clone(); w[p] = 111 as $t; eq("one element differs", a == owned(&[n], w), false)?; }
                eq("prefix", a == owned(&[n + 1], { let mut w = v.clone(); w.push(0 as $t); w }), false)?;
            }
            Ok(())
        }); )* } }
    ty!(i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize, f32, f64);
    cx.case(|| "== bool, special floats, tensors".into(), || {
        eq("bool", owned(&[3], vec![true, false, true]) == owned(&[3], vec![true, false, true]), true)?;
        eq("bool", owned(&[3], vec![true, false, true]) == owned(&[3], vec![true, true, true]), false)?;
        eq("0.0 == -0.0", owned(&[1], vec![0.0f64]) == owned(&[1], vec![-0.0f64]), true)?;
        eq("NaN", owned(&[1], vec![f64::NAN]) == owned(&[1], vec![f64::NAN]), false)?;
        let t = |s: &[usize], v: Vec<f32>| -> Tensor<f32> { unsafe { Tensor::from_contiguous_owned_buffer(s.to_vec(), v) } };
        let (x, y, z) = (t(&[2, 2], vec![1., 2., 3., 4.]), t(&[2, 2], vec![1., 2., 3., 4.]), t(&[2, 2], vec![1., 3., 2., 4.]));
        eq("tensor == tensor", x == y, true)?;
        eq("tensor != tensor", x == z, false)?;
        let data: Vec<f32> = (0..24).map(|i| i as f32).collect();
        let ss: Vec<Vec<usize>> = vec![vec![24], vec![4, 6], vec![6, 4], vec![2, 3, 4], vec![3, 2, 4], vec![4, 3, 2], vec![1, 24], vec![24, 1], vec![2, 12], vec![1, 2, 12]];
        for s in &ss { for u in &ss {
            let (p, q) = (owned(s, data.clone()), owned(u, data.clone()));
            let w = s == u;
            eq(&format!("{s:?} == {u:?}"), (p == q, &p == q, p == &q, p != q), (w, w, w, !w))?;
            let (tp, tq) = (t(s, data.clone()), t(u, data.clone()));
            eq(&format!("tensors {s:?} == {u:?}"), (tp == tq, tp == q, p == tq, p == &tq, &p == tq), (w, w, w, w, w))?;
        } }
        eq("tensor transposed", x == (&z).transpose(0, 1), true)?;
        eq("tensor shape", x == t(&[4], vec![1., 2., 3., 4.]), false)?;
        let o = owned(&[2, 2], vec![1f32, 2., 3., 4.]);
        eq("tensor == array", x == o, true)?; eq("array == tensor", o == x, true)?; eq("array == &tensor", o == &x, true)?; eq("&array == tensor", &o == x, true)?;
        eq("tensor != array", z == o, false)?; eq("array != tensor", o == z, false)?; eq("array != &tensor", o == &z, false)?; eq("&array != tensor", &o == z, false)
    });
}
