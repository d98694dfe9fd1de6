//! C06 C07 C08 C09 C10 C11
use crate::core::*;
use crate::views::{bshape, neg};
use redstone_ml::*;

fn sub_shape(rng: &mut Rng, s: &[usize]) -> Vec<usize> {
    let lead = if rng.chance(1, 2) { rng.below(s.len() + 1) } else { 0 };
    s[lead..].iter().map(|&n| if rng.chance(1, 4) { 1 } else { n }).collect()
}

macro_rules! binop_check {
    ($what:expr, $a:expr, $b:expr, $ma:expr, $mb:expr, $s:expr, $va:expr, $vb:expr, $op:tt) => { {
        let c = &*$a $op &*$b;
        eq(concat!("shape of a ", stringify!($op), " b"), c.shape().to_vec(), $s.clone())?;
        check_view(&c, base_ptr(&c), &M::base(&$s))?;
        let (ia, ib) = ($ma.broadcast(&$s), $mb.broadcast(&$s));
        eq(concat!("a ", stringify!($op), " b"), read(&c), ia.ids.iter().zip(&ib.ids).map(|(&i, &j)| $va(i) $op $vb(j)).collect())?;
    } }
}
macro_rules! scalar_check {
    ($a:expr, $ma:expr, $va:expr, $k:expr, $op:tt) => { {
        let c = &*$a $op $k;
        eq(concat!("shape of a ", stringify!($op), " scalar"), c.shape().to_vec(), $ma.shape.clone())?;
        check_view(&c, base_ptr(&c), &M::base(&$ma.shape))?;
        eq(concat!("a ", stringify!($op), " scalar"), read(&c), $ma.ids.iter().map(|&i| $va(i) $op $k).collect())?;
    } }
}

macro_rules! c06_type {
    ($cx:ident, $t:ty, $va:expr, $vb:expr, $shapes:expr, $every:expr, [$($op:tt)*], $neg:tt) => { {
        let (va, vb) = ($va, $vb);
        let mut counter = 0usize;
        for s in $shapes.iter() { for k1 in 0..KINDS { for k2 in 0..KINDS {
            counter += 1;
            if counter % $every != 0 { continue; }
            if $cx.over() { return; }
            let mut rng = $cx.rng.fork();
            let mut r2 = rng.fork();
            let (s1, s2) = match rng.below(6) { 0 => (sub_shape(&mut rng, s), s.clone()), 1 => (s.clone(), sub_shape(&mut rng, s)), 2 => (sub_shape(&mut rng, s), sub_shape(&mut rng, s)), _ => (s.clone(), s.clone()) };
            let bs = match bshape(&s1, &s2) { Some(b) => b, None => continue };
            with_layout(&mut rng, &s1, k1, &va, |a, ma, bufa, na| with_layout(&mut r2, &s2, k2, &vb, |b, mb, bufb, nb| {
                $cx.case(|| format!("{} {s1:?} {} stride{:?} op {s2:?} {} stride{:?}", stringify!($t), KIND_NAMES[k1], a.stride(), KIND_NAMES[k2], b.stride()), || {
                    let (ba, bb) = (snapshot(bufa, na), snapshot(bufb, nb));
                    $( binop_check!("", a, b, ma, mb, bs, va, vb, $op); )*
                    if k2 == 0 { for kk in [1usize, 3] { let k = vb(kk); $( scalar_check!(a, ma, va, k, $op); )* } c06_neg!($neg, a, ma, va); }
                    eq("left operand unchanged", snapshot(bufa, na), ba)?;
                    eq("right operand unchanged", snapshot(bufb, nb), bb)
                });
            }));
        } } }
    } }
}
macro_rules! c06_neg {
    (neg, $a:expr, $ma:expr, $va:expr) => { {
        let c = -&*$a;
        check_view(&c, base_ptr(&c), &M::base(&$ma.shape))?;
        eq("-a", read(&c), $ma.ids.iter().map(|&i| -$va(i)).collect())?;
    } };
    (noneg, $a:expr, $ma:expr, $va:expr) => {};
}

#[cfg(feature = "c06")]
pub fn c06(cx: &mut Cx) {
    let all: Vec<Vec<usize>> = shapes(cx.thorough);
    let few: Vec<Vec<usize>> = vec![vec![], vec![1], vec![3], vec![17], vec![65], vec![2, 3], vec![4, 1], vec![1, 4], vec![5, 7], vec![2, 3, 4], vec![2, 1, 3, 2], vec![130]];
    c06_type!(cx, i32, |i: usize| (i as i32 * 37) % 211 - 60, |i: usize| (i as i32 * 13) % 23 + 1, all, 1, [+ - * % & | << >>], neg);
    c06_type!(cx, f64, |i: usize| ((i * 37) % 211) as f64 - 60.5, |i: usize| ((i * 13) % 23) as f64 + 0.75, all, 3, [+ - * / %], neg);
    c06_type!(cx, f32, |i: usize| ((i * 37) % 211) as f32 - 60.5, |i: usize| ((i * 13) % 23) as f32 + 0.75, all, 3, [+ - * / %], neg);
    macro_rules! ints { ($($t:ty, $n:tt);*) => { $(
        c06_type!(cx, $t, |i: usize| 8 as $t + (i % 7) as $t, |i: usize| 1 as $t + (i % 5) as $t, few, 5, [+ - * % & | << >>], $n);
    )* } }
    ints!(i8, neg; i16, neg; i64, neg; i128, neg; isize, neg; u8, noneg; u16, noneg; u32, noneg; u64, noneg; u128, noneg; usize, noneg);
    // consuming forms, extreme values, incompatible shapes
    cx.case(|| "consuming operand forms".into(), || {
        let mk = |k: i32| owned(&[2, 3], (0..6).map(|i| i * 3 + k).collect());
        let want: Vec<i32> = (0..6).map(|i| i * 3 + 1 - (i * 3 + 50)).collect();
        eq("a - b", read(&(mk(1) - mk(50))), want.clone())?;
        eq("a - &b", read(&(mk(1) - &mk(50))), want.clone())?;
        eq("&a - b", read(&(&mk(1) - mk(50))), want.clone())?;
        eq("a - 2", read(&(mk(1) - 2)), (0..6).map(|i| i * 3 - 1).collect())?;
        eq("-a", read(&(-mk(1))), (0..6).map(|i| -(i * 3 + 1)).collect())?;
        let f = |k: f32| owned(&[3], vec![k, k + 1.0, k + 2.0]);
        eq("a / b", read(&(f(1.0) / f(2.0))), vec![1.0 / 2.0, 2.0 / 3.0, 3.0 / 4.0])?;
        eq("a / 2", read(&(f(1.0) / 2.0)), vec![0.5, 1.0, 1.5])?;
        let t = |k: f32| -> Tensor<f32> { unsafe { Tensor::from_contiguous_owned_buffer(vec![3], vec![k, k + 1.0, k + 2.0]) } };
        eq("tensor +", read((&t(1.0) + &t(4.0)).ndarray()), vec![5.0, 7.0, 9.0])?;
        eq("tensor -", read((t(1.0) - &t(4.5)).ndarray()), vec![-3.5, -3.5, -3.5])?;
        eq("tensor *", read((&t(1.0) * t(4.0)).ndarray()), vec![4.0, 10.0, 18.0])?;
        eq("tensor /", read((t(1.0) / t(2.0)).ndarray()), vec![1.0 / 2.0, 2.0 / 3.0, 3.0 / 4.0])?;
        eq("tensor neg", read((-t(1.0)).ndarray()), vec![-1.0, -2.0, -3.0])?;
        eq("tensor scalar", (read((&t(1.0) + 2.0).ndarray()), read((&t(1.0) - 2.0).ndarray()), read((t(1.0) * 2.0).ndarray()), read((&t(1.0) / 2.0).ndarray())),
           (vec![3.0, 4.0, 5.0], vec![-1.0, 0.0, 1.0], vec![2.0, 4.0, 6.0], vec![0.5, 1.0, 1.5]))
    });
    cx.case(|| "special float values".into(), || {
        let v = [0.0f64, -0.0, 1.0, -1.5, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 1e308, 5e-324];
        let n = v.len();
        let mut x = vec![]; let mut y = vec![];
        for &a in &v { for &b in &v { x.push(a); y.push(b); } }
        let (a, b) = (owned(&[n * n], x.clone()), owned(&[n * n], y.clone()));
        let bits = |v: Vec<f64>| v.into_iter().map(|x| if x.is_nan() { 1 } else { x.to_bits() }).collect::<Vec<_>>();
        macro_rules! one { ($op:tt) => { eq(stringify!($op), bits(read(&(&a $op &b))), bits(x.iter().zip(&y).map(|(p, q)| p $op q).collect()))?; } }
        one!(+); one!(-); one!(*); one!(/); one!(%);
        eq("neg", bits(read(&-&a)), bits(x.iter().map(|p| -p).collect()))
    });
}

macro_rules! iop_check {
    ($a:expr, $ma:expr, $buf:expr, $n:expr, $b:expr, $ib:expr, $va:expr, $vb:expr, $t:ty, $op:tt, $iop:tt) => { {
        let before = snapshot($buf, $n);
        let mut want = before.clone();
        for (p, &i) in $ma.ids.iter().enumerate() { want[i] = before[i] $op $vb($ib.ids[p]); }
        *$a $iop &*$b;
        let got = snapshot($buf, $n);
        for i in 0..$n { unsafe { *($buf as *mut $t).add(i) = before[i]; } }
        eq(concat!("buffer of the target after a ", stringify!($iop), " b"), got, want)?;
    } }
}
macro_rules! iop_scalar_check {
    ($a:expr, $ma:expr, $buf:expr, $n:expr, $k:expr, $t:ty, $op:tt, $iop:tt) => { {
        let before = snapshot($buf, $n);
        let mut want = before.clone();
        for &i in $ma.ids.iter() { want[i] = before[i] $op $k; }
        *$a $iop $k;
        let got = snapshot($buf, $n);
        for i in 0..$n { unsafe { *($buf as *mut $t).add(i) = before[i]; } }
        eq(concat!("buffer of the target after a ", stringify!($iop), " scalar"), got, want)?;
    } }
}
macro_rules! c07_type {
    ($cx:ident, $t:ty, $va:expr, $vb:expr, $shapes:expr, $every:expr, [$($op:tt $iop:tt),*]) => { {
        let (va, vb) = ($va, $vb);
        let mut counter = 0usize;
        for s in $shapes.iter() { for k1 in 0..KINDS { for k2 in 0..KINDS {
            counter += 1;
            if counter % $every != 0 { continue; }
            if $cx.over() { return; }
            let mut rng = $cx.rng.fork();
            let mut r2 = rng.fork();
            let s2 = if rng.chance(1, 2) { s.clone() } else { sub_shape(&mut rng, s) };
            with_layout(&mut rng, s, k1, &va, |a, ma, bufa, na| with_layout(&mut r2, &s2, k2, &vb, |b, mb, bufb, nb| {
                let sa = a.stride().to_vec();
                $cx.case(|| format!("{} {s:?} {} stride{:?} op= {s2:?} {} stride{:?}", stringify!($t), KIND_NAMES[k1], sa, KIND_NAMES[k2], b.stride()), || {
                    let bb = snapshot(bufb, nb);
                    let ba = snapshot(bufa, na);
                    if !writable_kind(k1) {
                        $( must_panic("read-only target", || { *a $iop &*b; })?; must_panic("read-only target", || { *a $iop vb(0); })?; )*
                        return eq("read-only target unchanged", snapshot(bufa, na), ba);
                    }
                    let ib = mb.broadcast(s);
                    $( iop_check!(a, ma, bufa, na, b, ib, va, vb, $t, $op, $iop); )*
                    if k2 == 0 { let k = vb(2); $( iop_scalar_check!(a, ma, bufa, na, k, $t, $op, $iop); )* }
                    eq("operand unchanged", snapshot(bufb, nb), bb)?;
                    // incompatible operands
                    let mut bad: Vec<Vec<usize>> = vec![];
                    let mut x = s.clone(); x.insert(0, 2); bad.push(x);
                    if !s.is_empty() { let mut x = s.clone(); let l = x.len() - 1; x[l] += 1; bad.push(x); }
                    let mut x = s.clone(); x.insert(0, 1); if x != *s { bad.push(x); }
                    for x in bad {
                        let o = owned(&x, (0..prod(&x)).map(|i| vb(i)).collect());
                        $( must_panic("operand not broadcastable to the target", || { *a $iop &o; })?; )*
                    }
                    eq("target after rejected operations", snapshot(bufa, na), ba)
                });
            }));
        } } }
    } }
}

#[cfg(feature = "c07")]
pub fn c07(cx: &mut Cx) {
    let all: Vec<Vec<usize>> = shapes(cx.thorough).into_iter().filter(|s| s.len() <= 6).collect();
    let few: Vec<Vec<usize>> = vec![vec![], vec![1], vec![3], vec![17], vec![65], vec![2, 3], vec![4, 1], vec![1, 4], vec![5, 7], vec![2, 3, 4], vec![2, 1, 3, 2]];
    c07_type!(cx, i32, |i: usize| (i as i32 * 37) % 211 - 60, |i: usize| (i as i32 * 13) % 23 + 1, all, 1, [+ +=, - -=, * *=, % %=, & &=, | |=, << <<=, >> >>=]);
    c07_type!(cx, f64, |i: usize| ((i * 37) % 211) as f64 - 60.5, |i: usize| ((i * 13) % 23) as f64 + 0.75, all, 5, [+ +=, - -=, * *=, / /=, % %=]);
    c07_type!(cx, f32, |i: usize| ((i * 37) % 211) as f32 - 60.5, |i: usize| ((i * 13) % 23) as f32 + 0.75, all, 5, [+ +=, - -=, * *=, / /=, % %=]);
    macro_rules! ints { ($($t:ty),*) => { $(
        c07_type!(cx, $t, |i: usize| 8 as $t + (i % 7) as $t, |i: usize| 1 as $t + (i % 5) as $t, few, 7, [+ +=, - -=, * *=, % %=, & &=, | |=, << <<=, >> >>=]);
    )* } }
    ints!(i8, i16, i64, i128, isize, u8, u16, u32, u64, u128, usize);
    cx.case(|| "consuming operand".into(), || {
        let mut a = owned(&[2, 2], vec![1, 2, 3, 4]);
        a += owned(&[2], vec![10, 20]);
        eq("a += b", read(&a), vec![11, 22, 13, 24])?;
        a *= 2; eq("a *= 2", read(&a), vec![22, 44, 26, 48])
    });
    // sequences of in-place updates through overlapping views of one buffer, in random order
    for _ in 0..cx.n(400) {
        if cx.over() { return; }
        let base = rand_shape(&mut cx.rng, 4, 5, 120);
        let n = prod(&base);
        let mut rng = cx.rng.fork();
        chain(&mut rng, &base, 3, false, &|i| i as i64, &mut |a, m, buf, d| {
            let mut ids = m.ids.clone(); ids.sort(); ids.dedup();
            if ids.len() != m.ids.len() { return; }
            cx.case(|| format!("view += {d}"), || {
                let before = snapshot(buf, n);
                let mut want = before.clone();
                for (p, &i) in m.ids.iter().enumerate() { want[i] += 100 + p as i64; }
                let o = owned(&m.shape, (0..m.ids.len()).map(|p| 100 + p as i64).collect());
                let mut v = a.view();
                v += &o;
                eq("buffer", snapshot(buf, n), want)
            });
        });
    }
}

// ------------------------------------------------------------------------------------------------------- reductions
trait Num: NumericDataType + PartialOrd { fn of(x: f64) -> Self; fn f(self) -> f64; }
macro_rules! num_impl { ($($t:ty),*) => { $( impl Num for $t { fn of(x: f64) -> Self { x as $t } fn f(self) -> f64 { self as f64 } } )* } }
num_impl!(f32, f64, i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize);

const REDS: [&str; 6] = ["sum", "product", "min", "max", "min_magnitude", "max_magnitude"];
fn fold(r: usize, v: &[f64]) -> f64 {
    match r {
        0 => v.iter().sum(), 1 => v.iter().product(),
        2 => v.iter().copied().fold(f64::INFINITY, f64::min), 3 => v.iter().copied().fold(f64::NEG_INFINITY, f64::max),
        4 => v.iter().map(|x| x.abs()).fold(f64::INFINITY, f64::min), _ => v.iter().map(|x| x.abs()).fold(0.0, f64::max),
    }
}
fn whole<T: Num>(a: &NdArray<T>, r: usize) -> NdArray<'static, T> {
    match r { 0 => a.sum(), 1 => a.product(), 2 => a.min(), 3 => a.max(), 4 => a.min_magnitude(), _ => a.max_magnitude() }
}
fn along<T: Num>(a: &NdArray<T>, r: usize, ax: Vec<isize>) -> NdArray<'static, T> {
    match r { 0 => a.sum_along(ax), 1 => a.product_along(ax), 2 => a.min_along(ax), 3 => a.max_along(ax), 4 => a.min_magnitude_along(ax), _ => a.max_magnitude_along(ax) }
}
/// integer-valued data keep every accumulation order exact; product data contain few values other than +-1
fn data(style: usize, prodstyle: bool, signed: bool, small: bool, i: usize) -> f64 {
    let h = (i.wrapping_mul(2654435761) >> 7) ^ i;
    if prodstyle { return if h % 11 == 3 && !small { 2.0 } else if signed && h % 5 == 1 { -1.0 } else { 1.0 }; }
    let lim = if small { 3 } else { 50 };
    let x = (h % lim) as f64;
    match style % 4 {
        0 => if signed { x - lim as f64 / 2.0 + 0.5 * (lim % 2) as f64 } else { x },
        1 => if signed { -x - 1.0 } else { x + 1.0 },
        2 => x + 2.0,
        _ => if signed && i % 2 == 0 { -x - 3.0 } else { x + 3.0 },
    }
}

fn c08_type<T: Num>(cx: &mut Cx, name: &str, signed: bool, small: bool, ss: &[Vec<usize>], reps: usize) {
    for s in ss { for k in 0..KINDS { for rep in 0..reps {
        if cx.over() { return; }
        if small && prod(s) > 10 { continue; }
        for r in 0..6 {
            let style = cx.rng.below(4);
            let val = |i: usize| T::of(data(style, r == 1, signed, small, i));
            let mut rng = cx.rng.fork();
            with_layout(&mut rng, s, k, &val, |a, m, buf, n| cx.case(|| format!("{name} {} style{style} of {s:?} {} #{rep} stride{:?}", REDS[r], KIND_NAMES[k], a.stride()), || {
                // exact products stay representable
                let els: Vec<f64> = m.ids.iter().map(|&i| val(i).f()).collect();
                let want = fold(r, &els);
                if r == 1 && want.abs() > if std::mem::size_of::<T>() >= 4 { 1e6 } else if std::mem::size_of::<T>() == 2 { 30000.0 } else { 100.0 } { return Ok(()); }
                let before = snapshot(buf, n);
                let o = whole(a, r);
                eq("result is a scalar", o.shape().to_vec(), vec![])?;
                eq(REDS[r], o.value(), T::of(want))?;
                eq("operand unchanged", snapshot(buf, n) == before, true)
            }));
        }
    } } }
}

#[cfg(feature = "c08")]
pub fn c08(cx: &mut Cx) {
    let all = shapes(cx.thorough);
    c08_type::<i32>(cx, "i32", true, false, &all, 2);
    c08_type::<f32>(cx, "f32", true, false, &all, 1);
    c08_type::<f64>(cx, "f64", true, false, &all, 1);
    let few: Vec<Vec<usize>> = vec![vec![], vec![1], vec![3], vec![8], vec![2, 3], vec![3, 1], vec![2, 2, 2], vec![1, 3, 2], vec![100], vec![5, 7]];
    c08_type::<i64>(cx, "i64", true, false, &few, 1);
    c08_type::<i128>(cx, "i128", true, false, &few, 1);
    c08_type::<isize>(cx, "isize", true, false, &few, 1);
    c08_type::<u32>(cx, "u32", false, false, &few, 1);
    c08_type::<u64>(cx, "u64", false, false, &few, 1);
    c08_type::<u128>(cx, "u128", false, false, &few, 1);
    c08_type::<usize>(cx, "usize", false, false, &few, 1);
    c08_type::<i16>(cx, "i16", true, false, &few, 1);
    c08_type::<u16>(cx, "u16", false, false, &few, 1);
    c08_type::<i8>(cx, "i8", true, true, &few, 1);
    c08_type::<u8>(cx, "u8", false, true, &few, 1);
    // extremes
    macro_rules! ext { ($($t:ty),*) => { $(
        for k in 0..KINDS { for s in [vec![4usize], vec![2, 3], vec![1], vec![9]] {
            let mut rng = cx.rng.fork();
            let val = |i: usize| [<$t>::MAX, <$t>::MAX - 1, <$t>::MAX][i % 3];
            with_layout(&mut rng, &s, k, &val, |a, m, _, _| cx.case(|| format!("{} near the maximum {s:?} {}", stringify!($t), KIND_NAMES[k]), || {
                let v: Vec<$t> = m.ids.iter().map(|&i| val(i)).collect();
                eq("min", a.min().value(), *v.iter().min().unwrap())?; eq("max", a.max().value(), *v.iter().max().unwrap())?;
                eq("min_magnitude", a.min_magnitude().value(), *v.iter().min().unwrap())?; eq("max_magnitude", a.max_magnitude().value(), *v.iter().max().unwrap())
            }));
            let val = |i: usize| [<$t>::MIN, <$t>::MIN + 1, <$t>::MIN][i % 3];
            with_layout(&mut rng, &s, k, &val, |a, m, _, _| cx.case(|| format!("{} near the minimum {s:?} {}", stringify!($t), KIND_NAMES[k]), || {
                let v: Vec<$t> = m.ids.iter().map(|&i| val(i)).collect();
                eq("min", a.min().value(), *v.iter().min().unwrap())?; eq("max", a.max().value(), *v.iter().max().unwrap())
            }));
        } }
    )* } }
    ext!(i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize);
    macro_rules! fext { ($($t:ty),*) => { $(
        for k in 0..KINDS { for s in [vec![4usize], vec![2, 3], vec![1], vec![9], vec![]] { for pat in 0..5 {
            let pats: [[$t; 3]; 5] = [[<$t>::INFINITY; 3], [<$t>::NEG_INFINITY; 3], [<$t>::NEG_INFINITY, 1.5, 2.0], [<$t>::MAX, <$t>::MAX, 3.0], [-<$t>::MAX, -1.0, <$t>::NEG_INFINITY]];
            let mut rng = cx.rng.fork();
            let val = |i: usize| pats[pat][i % 3];
            with_layout(&mut rng, &s, k, &val, |a, m, _, _| cx.case(|| format!("{} extreme pattern {pat} {s:?} {}", stringify!($t), KIND_NAMES[k]), || {
                let v: Vec<$t> = m.ids.iter().map(|&i| val(i)).collect();
                for r in 2..6 { eq(REDS[r], whole(a, r).value() as f64, fold(r, &v.iter().map(|&x| x as f64).collect::<Vec<_>>()))?; }
                Ok(())
            }));
        } } }
        // fractional data: any accumulation order stays close to the exact sum
        for s in shapes(cx.thorough) { for k in 0..KINDS {
            if cx.over() { return; }
            let mut rng = cx.rng.fork();
            let val = |i: usize| ((i * 7919 % 1000) as $t) / 1000.0 - 0.3;
            with_layout(&mut rng, &s, k, &val, |a, m, _, _| cx.case(|| format!("{} mean and fractional sum of {s:?} {}", stringify!($t), KIND_NAMES[k]), || {
                let v: Vec<f64> = m.ids.iter().map(|&i| val(i) as f64).collect();
                let (sum, n) = (v.iter().sum::<f64>(), v.len() as f64);
                let tol = 4.0 * n * n.max(8.0) * <$t>::EPSILON as f64;
                let got = a.sum().value() as f64;
                if !((got - sum).abs() <= tol) { return Err(format!("sum {got} expected {sum}")); }
                let got = a.mean().value() as f64;
                if !((got - sum / n).abs() <= tol / n + 4.0 * <$t>::EPSILON as f64) { return Err(format!("mean {got} expected {}", sum / n)); }
                eq("mean shape", a.mean().shape().to_vec(), vec![])
            }));
        } }
    )* } }
    fext!(f32, f64);
    // integer-valued means are exact
    for n in 1..cx.n(60) { cx.case(|| format!("mean of 1..={n}"), || {
        let a = owned(&[n], (1..=n).map(|x| x as f64).collect());
        eq("mean", a.mean().value(), (n * (n + 1) / 2) as f64 / n as f64)
    }); }
}

#[cfg(feature = "c09")]
pub fn c09(cx: &mut Cx) {
    fn one<T: Num>(cx: &mut Cx, name: &str, signed: bool, small: bool, s: &[usize], k: usize, axes: &[usize], mean: Option<fn(&NdArray<T>, Vec<isize>) -> NdArray<'static, T>>) {
        let nd = s.len();
        let r = cx.rng.below(6);
        let style = cx.rng.below(4);
        let val = |i: usize| T::of(data(style, r == 1, signed, small, i));
        let mut rng = cx.rng.fork();
        let ax: Vec<isize> = axes.iter().map(|&a| neg(&mut rng, a, nd)).collect();
        with_layout(&mut rng, s, k, &val, |a, m, buf, n| cx.case(|| format!("{name} {}_along({ax:?}) style{style} of {s:?} {} stride{:?}", REDS[r], KIND_NAMES[k], a.stride()), || {
            let kept: Vec<usize> = (0..nd).filter(|d| !axes.contains(d)).collect();
            let os: Vec<usize> = kept.iter().map(|&d| s[d]).collect();
            let mut acc: Vec<Vec<f64>> = vec![vec![]; prod(&os)];
            for (p, ix) in multi(s).iter().enumerate() {
                let o: Vec<usize> = kept.iter().map(|&d| ix[d]).collect();
                acc[rank(&os, &o)].push(val(m.ids[p]).f());
            }
            let before = snapshot(buf, n);
            let want: Vec<f64> = acc.iter().map(|v| fold(r, v)).collect();
            let lim = if std::mem::size_of::<T>() >= 4 { 1e6 } else { 100.0 };
            if want.iter().all(|x| x.abs() < lim) {
                let got = along(a, r, ax.clone());
                eq("shape", got.shape().to_vec(), os.clone())?;
                check_view(&got, base_ptr(&got), &M::base(&os))?;
                eq("elements", read(&got), want.iter().map(|&x| T::of(x)).collect())?;
                if axes.len() == nd { eq("agrees with the whole-array reduction", read(&got), vec![whole(a, r).value()])?; }
                if axes.len() == 1 && r == 0 { eq("single axis argument", read(&a.sum_along(ax[0])), read(&got))?; eq("Axis argument", read(&a.sum_along(Axis(ax[0]))), read(&got))?; }
            }
            if let Some(mf) = mean {
                let got = mf(a, axes.iter().map(|&x| x as isize).collect());
                eq("mean shape", got.shape().to_vec(), os.clone())?;
                for (g, v) in read(&got).iter().zip(&acc) {
                    let w = v.iter().sum::<f64>() / v.len() as f64;
                    if !((g.f() - w).abs() <= 1e-5 * (1.0 + w.abs())) { return Err(format!("mean_along: got {} expected {w}", g.f())); }
                }
            }
            eq("operand unchanged", snapshot(buf, n) == before, true)?;
            let ndi = nd as isize;
            must_panic("axis beyond", || along(a, r, vec![ndi]))?;
            must_panic("axis below", || along(a, r, vec![-ndi - 1]))?;
            if nd > 0 { must_panic("duplicate axes", || along(a, r, vec![0, 0]))?; must_panic("duplicate axes, one negative", || along(a, r, vec![0, -ndi]))?;
                must_panic("mixed valid and invalid axes", || along(a, r, vec![0, ndi]))?; }
            Ok(())
        }));
    }
    let mut counter = 0;
    for s in shapes(cx.thorough) {
        let nd = s.len();
        let mut subsets: Vec<Vec<usize>> = vec![];
        if nd <= 4 { for mask in 0..1usize << nd { subsets.push((0..nd).filter(|d| mask >> d & 1 == 1).collect()); } }
        else { for _ in 0..6 { let mut v: Vec<usize> = (0..nd).collect(); cx.rng.shuffle(&mut v); v.truncate(cx.rng.below(nd + 1)); subsets.push(v); } }
        for mut ax in subsets { for k in 0..KINDS {
            if cx.over() { return; }
            cx.rng.shuffle(&mut ax);
            counter += 1;
            one::<i32>(cx, "i32", true, false, &s, k, &ax, None);
            one::<f64>(cx, "f64", true, false, &s, k, &ax, Some(|a, x| a.mean_along(x)));
            match counter % 13 {
                0 => one::<f32>(cx, "f32", true, false, &s, k, &ax, Some(|a, x| a.mean_along(x))),
                1 => one::<i64>(cx, "i64", true, false, &s, k, &ax, None),
                2 => one::<u32>(cx, "u32", false, false, &s, k, &ax, None),
                3 => one::<i16>(cx, "i16", true, true, &s, k, &ax, None),
                4 => one::<u8>(cx, "u8", false, true, &s, k, &ax, None),
                5 => one::<i8>(cx, "i8", true, true, &s, k, &ax, None),
                6 => one::<u16>(cx, "u16", false, true, &s, k, &ax, None),
                7 => one::<u64>(cx, "u64", false, false, &s, k, &ax, None),
                8 => one::<i128>(cx, "i128", true, false, &s, k, &ax, None),
                9 => one::<u128>(cx, "u128", false, false, &s, k, &ax, None),
                10 => one::<usize>(cx, "usize", false, false, &s, k, &ax, None),
                11 => one::<isize>(cx, "isize", true, false, &s, k, &ax, None),
                _ => {}
            }
        } }
    }
    macro_rules! fext { ($($t:ty),*) => { $( cx.case(|| format!("infinite and extreme {}", stringify!($t)), || {
        let inf = <$t>::INFINITY; let big = <$t>::MAX;
        let a = owned(&[4, 2], vec![inf, inf, -inf, -inf, big, inf, -big, -inf]);
        eq("min", read(&a.min_along(1)), vec![inf, -inf, big, -inf])?;
        eq("max", read(&a.max_along(1)), vec![inf, -inf, inf, -big])?;
        eq("min_magnitude", read(&a.min_magnitude_along(-1)), vec![inf, inf, big, big])?;
        eq("max_magnitude", read(&a.max_magnitude_along(-1)), vec![inf, inf, inf, inf])
    }); )* } }
    fext!(f32, f64);
    macro_rules! iext { ($($t:ty),*) => { $( cx.case(|| format!("extreme {}", stringify!($t)), || {
        let (lo, hi) = (<$t>::MIN, <$t>::MAX);
        let a = owned(&[3, 2], vec![hi, hi, lo, lo, hi - 1, lo + 1]);
        eq("min", read(&a.min_along(1)), vec![hi, lo, lo + 1])?;
        eq("max", read(&a.max_along(1)), vec![hi, lo, hi - 1])?;
        let b = owned(&[2, 2], vec![hi, hi, hi - 1, hi]);
        eq("min_magnitude", read(&b.min_magnitude_along(1)), vec![hi, hi - 1])?;
        eq("max_magnitude", read(&b.max_magnitude_along(1)), vec![hi, hi])
    }); )* } }
    iext!(i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize);
}

// --------------------------------------------------------------------------------------------------------- products
macro_rules! c10_type {
    ($cx:ident, $t:ty, $every:expr, $sizes:expr, $v:expr) => { {
        let v = $v;
        let mut counter = 0;
        for &(i, j, k) in $sizes.iter() { for k1 in 0..KINDS { for k2 in 0..KINDS {
            counter += 1;
            if counter % $every != 0 { continue; }
            if $cx.over() { return; }
            let mut rng = $cx.rng.fork();
            let mut r2 = rng.fork();
            let get = |m: &M, ix: &[usize]| -> $t { v(m.at(ix)) };
            with_layout(&mut rng, &[i, j], k1, &v, |a, ma, bufa, na| {
                with_layout(&mut r2, &[j, k], k2, &v, |b, mb, bufb, nb| $cx.case(|| format!("{} matmul {i}x{j} {} stride{:?} by {j}x{k} {} stride{:?}", stringify!($t), KIND_NAMES[k1], a.stride(), KIND_NAMES[k2], b.stride()), || {
                    let (ba, bb) = (snapshot(bufa, na), snapshot(bufb, nb));
                    let c = a.matmul(&*b);
                    eq("shape", c.shape().to_vec(), vec![i, k])?;
                    let mut want = vec![];
                    for x in 0..i { for z in 0..k { want.push((0..j).map(|y| get(ma, &[x, y]) * get(mb, &[y, z])).sum::<$t>()); } }
                    check_view(&c, base_ptr(&c), &M::base(&[i, k]))?;
                    eq("elements", read(&c), want)?;
                    eq("operands unchanged", (snapshot(bufa, na), snapshot(bufb, nb)), (ba, bb))?;
                    if j + 1 != j { let o = owned(&[j + 1, k], vec![1 as $t; (j + 1) * k]); must_panic("mismatched matrices", || a.matmul(&o))?; }
                    if i != j { must_panic("mismatched matrix itself", || a.matmul(&owned(&[i, 2], vec![1 as $t; 2 * i])))?; }
                    Ok(())
                }));
                with_layout(&mut r2, &[j], k2, &v, |b, mb, bufb, nb| $cx.case(|| format!("{} matrix-vector {i}x{j} {} stride{:?} by {} stride{:?}", stringify!($t), KIND_NAMES[k1], a.stride(), KIND_NAMES[k2], b.stride()), || {
                    let bb = snapshot(bufb, nb);
                    let c = a.matmul(&*b);
                    eq("shape", c.shape().to_vec(), vec![i])?;
                    eq("elements", read(&c), (0..i).map(|x| (0..j).map(|y| get(ma, &[x, y]) * get(mb, &[y])).sum::<$t>()).collect())?;
                    eq("operand unchanged", snapshot(bufb, nb), bb)?;
                    must_panic("mismatched vector", || a.matmul(&owned(&[j + 1], vec![1 as $t; j + 1])))
                }));
            });
            with_layout(&mut rng, &[j], k1, &v, |a, ma, _, _| with_layout(&mut r2, &[j], k2, &v, |b, mb, _, _| $cx.case(|| format!("{} dot {j} {} stride{:?} by {} stride{:?}", stringify!($t), KIND_NAMES[k1], a.stride(), KIND_NAMES[k2], b.stride()), || {
                let w: $t = (0..j).map(|y| get(ma, &[y]) * get(mb, &[y])).sum();
                eq("dot shape", a.dot(&*b).shape().to_vec(), vec![])?;
                eq("dot", a.dot(&*b).value(), w)?;
                eq("matmul of vectors", a.matmul(&*b).value(), w)?;
                must_panic("mismatched lengths", || a.dot(&owned(&[j + 1], vec![1 as $t; j + 1])))?;
                must_panic("mismatched lengths in matmul", || a.matmul(&owned(&[j + 1], vec![1 as $t; j + 1])))?;
                must_panic("dot with a matrix", || a.dot(&owned(&[1, j], vec![1 as $t; j])))
            })));
            let nb_ = 1 + (counter % 3);
            with_layout(&mut rng, &[nb_, i, j], k1, &v, |a, ma, _, _| with_layout(&mut r2, &[nb_, j, k], k2, &v, |b, mb, _, _| $cx.case(|| format!("{} bmm {nb_}x{i}x{j} {} stride{:?} by {j}x{k} {} stride{:?}", stringify!($t), KIND_NAMES[k1], a.stride(), KIND_NAMES[k2], b.stride()), || {
                let c = a.bmm(&*b);
                eq("shape", c.shape().to_vec(), vec![nb_, i, k])?;
                let mut want = vec![];
                for n in 0..nb_ { for x in 0..i { for z in 0..k { want.push((0..j).map(|y| get(ma, &[n, x, y]) * get(mb, &[n, y, z])).sum::<$t>()); } } }
                eq("elements", read(&c), want)?;
                must_panic("mismatched batch", || a.bmm(&owned(&[nb_ + 1, j, k], vec![1 as $t; (nb_ + 1) * j * k])))?;
                must_panic("mismatched inner dimension", || a.bmm(&owned(&[nb_, j + 1, k], vec![1 as $t; nb_ * (j + 1) * k])))?;
                must_panic("2D operand", || a.bmm(&owned(&[j, k], vec![1 as $t; j * k])))
            })));
            if k2 % 3 == 0 {
                let s3 = if counter % 2 == 0 { vec![i, j] } else { vec![i, k, j] };
                let nd = s3.len();
                with_layout(&mut rng, &s3, k1, &v, |a, ma, _, _| {
                    let x = r2.below(nd); let mut y = r2.below(nd - 1); if y >= x { y += 1; }
                    let off = r2.range(-(s3[x] as i64) + 1, s3[y] as i64) as isize;
                    $cx.case(|| format!("{} trace of {s3:?} {} axes {x},{y} offset {off}", stringify!($t), KIND_NAMES[k1]), || {
                        let tr = |d: M| -> (Vec<usize>, Vec<$t>) {
                            let n = d.shape[d.shape.len() - 1]; let os = d.shape[..d.shape.len() - 1].to_vec();
                            (os, d.ids.chunks(n).map(|c| c.iter().map(|&i| v(i)).sum::<$t>()).collect())
                        };
                        let g = |a: NdArray<$t>| (a.shape().to_vec(), read(&a));
                        eq("trace", g(a.trace()), tr(ma.diag(0, 0, 1).unwrap()))?;
                        eq("trace_along", g(a.trace_along(neg(&mut r2, x, nd), neg(&mut r2, y, nd))), tr(ma.diag(0, x, y).unwrap()))?;
                        eq("offset_trace_along", g(a.offset_trace_along(off, x as isize, y as isize)), tr(ma.diag(off, x, y).unwrap()))?;
                        match ma.diag(off, 0, 1) { Some(d) => eq("offset_trace", g(a.offset_trace(off)), tr(d)), None => must_panic("offset", || a.offset_trace(off)) }
                    });
                });
            }
        } } }
    } }
}

#[cfg(feature = "c10")]
pub fn c10(cx: &mut Cx) {
    let sizes = [(1, 1, 1), (2, 3, 4), (3, 2, 1), (1, 4, 3), (4, 1, 2), (3, 3, 3), (5, 4, 7), (2, 17, 3), (9, 8, 5), (1, 1, 5), (1, 6, 1)];
    let mut big = sizes.to_vec(); big.push((16, 33, 9)); big.push((3, 70, 2));
    if cx.thorough { big.push((33, 40, 20)); }
    c10_type!(cx, i32, 1, big, |i: usize| (i as i32 * 37) % 23 - 9);
    c10_type!(cx, f32, 3, big, |i: usize| ((i * 37) % 23) as f32 - 9.0);
    c10_type!(cx, f64, 3, big, |i: usize| ((i * 37) % 23) as f64 - 9.0);
    let small = [(1, 1, 1), (2, 3, 2), (3, 2, 1), (1, 3, 3), (2, 1, 2), (3, 3, 3)];
    c10_type!(cx, i64, 5, small, |i: usize| ((i * 7) % 5) as i64 - 2);
    c10_type!(cx, i8, 5, small, |i: usize| ((i * 7) % 5) as i8 - 2);
    c10_type!(cx, u8, 5, small, |i: usize| ((i * 7) % 5) as u8);
    c10_type!(cx, i16, 11, small, |i: usize| ((i * 7) % 5) as i16 - 2);
    c10_type!(cx, u16, 11, small, |i: usize| ((i * 7) % 5) as u16);
    c10_type!(cx, u32, 11, small, |i: usize| ((i * 7) % 5) as u32);
    c10_type!(cx, u64, 11, small, |i: usize| ((i * 7) % 5) as u64);
    c10_type!(cx, i128, 11, small, |i: usize| ((i * 7) % 5) as i128 - 2);
    c10_type!(cx, u128, 11, small, |i: usize| ((i * 7) % 5) as u128);
    c10_type!(cx, isize, 11, small, |i: usize| ((i * 7) % 5) as isize - 2);
    c10_type!(cx, usize, 11, small, |i: usize| ((i * 7) % 5) as usize);
    cx.case(|| "operand ranks and tensors".into(), || {
        let (v, m, c) = (owned(&[2], vec![1, 2]), owned(&[2, 2], vec![1, 2, 3, 4]), owned(&[1, 2, 2], vec![1, 2, 3, 4]));
        must_panic("vector-matrix", || v.matmul(&m))?;
        must_panic("3D matmul", || c.matmul(&m))?;
        must_panic("matmul 3D", || m.matmul(&c))?;
        must_panic("scalar dot", || owned(&[], vec![1]).dot(owned(&[], vec![1])))?;
        must_panic("trace of a vector", || v.trace())?;
        must_panic("same axes", || m.trace_along(1, -1))?;
        let t = |s: &[usize], v: Vec<f64>| -> Tensor<f64> { unsafe { Tensor::from_contiguous_owned_buffer(s.to_vec(), v) } };
        eq("tensor dot", t(&[2], vec![1., 2.]).dot(t(&[2], vec![3., 5.])).value(), 13.0)?;
        eq("tensor matmul", read(t(&[2, 2], vec![1., 2., 3., 4.]).matmul(&t(&[2, 2], vec![1., 0., 2., 1.])).ndarray()), vec![5., 2., 11., 4.])?;
        eq("tensor matrix-vector", read(t(&[2, 2], vec![1., 2., 3., 4.]).matmul(&t(&[2], vec![1., 10.])).ndarray()), vec![21., 43.])?;
        eq("tensor bmm", read(t(&[2, 1, 2], vec![1., 2., 3., 4.]).bmm(&t(&[2, 2, 1], vec![1., 10., 2., 5.])).ndarray()), vec![21., 26.])
    });
}

// ----------------------------------------------------------------------------------------------------------- einsum
#[cfg(feature = "c11")]
pub fn c11(cx: &mut Cx) {
    fn reference(ops: &[(M, &str)], out: &str, dims: &dyn Fn(char) -> usize, val: &dyn Fn(usize) -> i64) -> (Vec<usize>, Vec<i64>) {
        let mut labels: Vec<char> = vec![];
        for (_, s) in ops { for c in s.chars() { if !labels.contains(&c) { labels.push(c); } } }
        let outl: Vec<char> = out.chars().collect();
        let rest: Vec<char> = labels.iter().copied().filter(|c| !outl.contains(c)).collect();
        let os: Vec<usize> = outl.iter().map(|&c| dims(c)).collect();
        let rs: Vec<usize> = rest.iter().map(|&c| dims(c)).collect();
        let mut res = vec![];
        let rix = multi(&rs);
        for o in multi(&os) {
            let mut t = 0i64;
            for r in &rix {
                let look = |c: char| match outl.iter().position(|&x| x == c) { Some(p) => o[p], None => r[rest.iter().position(|&x| x == c).unwrap()] };
                let mut p = 1i64;
                for (m, s) in ops { let ix: Vec<usize> = s.chars().map(|c| look(c)).collect(); p *= val(m.at(&ix)); }
                t += p;
            }
            res.push(t);
        }
        (os, res)
    }
    let val = |i: usize| ((i * 37) % 7) as i64 - 2;
    let fval = |i: usize| ((i * 37) % 7) as f64 - 2.0;
    let n = cx.n(5000);
    let known: Vec<(Vec<&str>, &str)> = vec![(vec!["ij", "jk"], "ik"), (vec!["ij", "jk"], "ki"), (vec!["ij", "kj"], "ik"), (vec!["ii"], ""), (vec!["ii"], "i"), (vec!["ij"], "ji"), (vec!["ij"], ""),
        (vec!["i", "i"], ""), (vec!["i", "j"], "ij"), (vec!["i", "j"], "ji"), (vec!["ijk", "ikl"], "ijl"), (vec!["ij", "kj", "i"], "ik"), (vec!["iij"], "j"), (vec!["iji"], "ij"), (vec!["ijj", "jk"], "ik"),
        (vec!["", "i"], "i"), (vec!["", ""], ""), (vec![""], ""), (vec!["i", "", "j"], "j"), (vec!["abc"], "b"), (vec!["abc"], "cab"), (vec!["ij", "ij"], ""), (vec!["ij", "ji"], ""), (vec!["ij", "ij", "ij"], "i"),
        (vec!["i", "ij", "j"], ""), (vec!["a", "b", "c", "d"], "dbca"), (vec!["aab", "bcc"], "ac"), (vec!["ijkl", "lkji"], ""), (vec!["ijkl"], "ki"), (vec!["i", "ij"], "j"), (vec!["ij", "i"], "ij"), (vec!["ij", "j"], "ij")];
    for it in 0..n {
        if cx.over() { return; }
        // subscripts
        let alphabet: Vec<char> = if cx.rng.chance(1, 6) { "aZbYzA".chars().collect() } else { "ijklmn".chars().collect() };
        let (subs, out): (Vec<String>, String) = if it < known.len() * 8 {
            let k = &known[it % known.len()];
            (k.0.iter().map(|s| s.to_string()).collect(), k.1.to_string())
        } else {
            let nl = 1 + cx.rng.below(5);
            let nops = match cx.rng.below(12) { 0..=3 => 1, 4..=8 => 2, 9 => 4 + cx.rng.below(3), 10 => if cx.rng.chance(1, 5) { 15 } else { 3 }, _ => 3 };
            let subs: Vec<String> = (0..nops).map(|_| { let l = cx.rng.below(if nops > 3 { 3 } else { 5 }); (0..l).map(|_| alphabet[cx.rng.below(nl)]).collect() }).collect();
            let mut used: Vec<char> = vec![];
            for s in &subs { for c in s.chars() { if !used.contains(&c) { used.push(c); } } }
            cx.rng.shuffle(&mut used);
            let keep = cx.rng.below(used.len() + 1);
            (subs, used[..keep].iter().collect())
        };
        let maxd = if subs.len() > 2 { 3 } else { 5 };
        let mut dim: std::collections::BTreeMap<char, usize> = Default::default();
        let mut total = 1;
        for s in &subs { for c in s.chars() { if !dim.contains_key(&c) { let mut d = 1 + cx.rng.below(maxd); if cx.rng.chance(1, 25) { d += 12; } if total * d > 3000 { d = 1; } total *= d; dim.insert(c, d); } } }
        // operands, one after the other with random layouts
        let mut rngs: Vec<Rng> = (0..subs.len()).map(|_| cx.rng.fork()).collect();
        let kinds: Vec<usize> = (0..subs.len()).map(|_| cx.rng.below(KINDS)).collect();
        let shapes_: Vec<Vec<usize>> = subs.iter().map(|s| s.chars().map(|c| dim[&c]).collect()).collect();
        let float = it % 4 == 3;
        let dimsf = |c: char| dim[&c];
        macro_rules! run { ($t:ty, $v:expr) => { {
            fn rec<'x, 'y>(i: usize, shapes_: &[Vec<usize>], kinds: &[usize], rngs: &mut [Rng], v: &dyn Fn(usize) -> $t, acc: &mut Vec<(*const NdArray<'static, $t>, M, String)>, f: &mut dyn FnMut(&[(*const NdArray<'static, $t>, M, String)])) {
                if i == shapes_.len() { f(acc); return; }
                let mut k = kinds[i];
                loop {
                    let mut r = rngs[i].clone();
                    let ok = with_layout(&mut r, &shapes_[i], k, v, |a, m, _, _| {
                        acc.push((a as *const NdArray<$t> as *const NdArray<'static, $t>, m.clone(), format!("{:?} {} stride{:?}", a.shape(), KIND_NAMES[k], a.stride())));
                        rec(i + 1, shapes_, kinds, rngs, v, acc, f);
                        acc.pop();
                    });
                    if ok.is_some() || k == 0 { return; }
                    k = 0;
                }
            }
            let mut f = |ops: &[(*const NdArray<'static, $t>, M, String)]| {
                cx.case(|| format!("{} einsum {subs:?}->{out:?} {:?}", stringify!($t), ops.iter().map(|o| o.2.clone()).collect::<Vec<_>>()), || {
                    let refs: Vec<&NdArray<'static, $t>> = ops.iter().map(|o| unsafe { &*o.0 }).collect();
                    let rops: Vec<(M, &str)> = ops.iter().zip(&subs).map(|(o, s)| (o.1.clone(), s.as_str())).collect();
                    let before: Vec<Vec<$t>> = refs.iter().map(|r| read(*r)).collect();
                    let (os, want) = reference(&rops, &out, &dimsf, &val);
                    let want: Vec<$t> = want.iter().map(|&x| x as $t).collect();
                    let c = einsum(&refs[..], (&subs[..], out.as_str()));
                    eq("shape", c.shape().to_vec(), os.clone())?;
                    check_view(&c, base_ptr(&c), &M::base(&os))?;
                    eq("elements", read(&c), want.clone())?;
                    eq("operands unchanged", refs.iter().map(|r| read(*r)).collect::<Vec<_>>() == before, true)?;
                    if refs.len() == 1 {
                        let sums = subs[0].chars().any(|c| !out.contains(c));
                        match einsum_view(refs[0], (subs[0].as_str(), out.as_str())) {
                            Some(w) => { eq("einsum_view only without summation", sums, false)?; eq("view shape", w.shape().to_vec(), os.clone())?; eq("view elements", read(&w), want)?; }
                            None => eq("einsum_view without summation exists", sums, true)?,
                        }
                    }
                    // malformed requests
                    must_panic("more strings than operands", || { let mut s = subs.clone(); s.push("i".into()); einsum(&refs[..], (&s[..], out.as_str())) })?;
                    must_panic("fewer strings than operands", || einsum(&refs[..], (&subs[1..], "")))?;
                    must_panic("unknown output label", || einsum(&refs[..], (&subs[..], format!("{out}Q").as_str())))?;
                    if !out.is_empty() { must_panic("repeated output label", || einsum(&refs[..], (&subs[..], format!("{out}{}", out.chars().next().unwrap()).as_str())))?; }
                    must_panic("too many labels", || { let mut s = subs.clone(); s[0].push('i'); einsum(&refs[..], (&s[..], "")) })?;
                    if !subs[0].is_empty() { must_panic("too few labels", || { let mut s = subs.clone(); s[0].pop(); einsum(&refs[..], (&s[..], "")) })?; }
                    // inconsistent sizes: one axis longer
                    if let Some(p) = subs[0].chars().position(|c| subs.iter().map(|s| s.matches(c).count()).sum::<usize>() > 1) {
                        let mut s = ops[0].1.shape.clone(); s[p] += 1;
                        let o = owned(&s, vec![0 as $t; prod(&s)]);
                        let mut r2 = refs.clone(); r2[0] = unsafe { std::mem::transmute(&o) };
                        must_panic("inconsistent label sizes", || einsum(&r2[..], (&subs[..], out.as_str())))?;
                    }
                    Ok(())
                });
            };
            rec(0, &shapes_, &kinds, &mut rngs, &$v, &mut vec![], &mut f);
        } } }
        if float { run!(f64, fval); } else { run!(i64, val); }
    }
    cx.case(|| "rejected subscripts".into(), || {
        let a = owned(&[2, 2], vec![1, 2, 3, 4]);
        must_panic("non-letter", || einsum([&a], (["i1"], "")))?;
        must_panic("non-letter", || einsum([&a], (["i*"], "")))?;
        must_panic("non-ascii", || einsum([&a], (["i\u{e9}"], "")))?;
        must_panic("output non-letter", || einsum([&a], (["ij"], "i2")))?;
        let many: Vec<&NdArray<i32>> = (0..16).map(|_| &a).collect();
        let subs = vec!["ij"; 16];
        must_panic("more than 15 operands", || einsum(&many[..], (&subs[..], "")))
    });
}
