//! C12 C20 C22
use crate::core::*;
use redstone_ml::*;

fn content<T: RawDataType>(a: &NdArray<T>, shape: &[usize], want: Vec<T>) -> Result<(), String> {
    eq("shape", a.shape().to_vec(), shape.to_vec())?;
    check_view(a, base_ptr(a), &M::base(shape))?;
    eq("elements", read(a), want)?;
    eq("contiguous", a.is_contiguous(), true)?;
    eq("size", a.size(), prod(shape))?;
    eq("len", a.len(), shape.first().copied().unwrap_or(0))?;
    eq("data", a.data_slice().to_vec(), read(a))
}

/// nested data from a shape and a numbering
trait Build<T> { fn build(shape: &[usize], next: &mut dyn FnMut() -> T) -> Self; }
macro_rules! base_build { ($($t:ty),*) => { $(
    impl Build<$t> for $t { fn build(_: &[usize], next: &mut dyn FnMut() -> $t) -> Self { next() } }
)* } }
base_build!(i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize, f32, f64, bool);
impl<T, X: Build<T>> Build<T> for Vec<X> {
    fn build(s: &[usize], next: &mut dyn FnMut() -> T) -> Self { (0..s[0]).map(|_| X::build(&s[1..], next)).collect() }
}
impl<T, X: Build<T>, const N: usize> Build<T> for [X; N] {
    fn build(s: &[usize], next: &mut dyn FnMut() -> T) -> Self { assert_eq!(s[0], N); std::array::from_fn(|_| X::build(&s[1..], next)) }
}

macro_rules! nest {
    ($cx:ident, $t:ty, $conv:expr; $($ty:ty => $shape:expr;)*) => { $( {
        let shape: Vec<usize> = $shape.to_vec();
        $cx.case(|| format!("{} {shape:?}", stringify!($ty)), || {
            let conv = $conv;
            let mut k = 0usize;
            let data = <$ty as Build<$t>>::build(&shape, &mut || { k += 1; conv(k - 1) });
            let a = NdArray::<$t>::new(data);
            content(&a, &shape, (0..prod(&shape)).map(conv).collect())
        });
    } )* }
}
macro_rules! nest_tensor {
    ($cx:ident, $t:ty; $($ty:ty => $shape:expr;)*) => { $( {
        let shape: Vec<usize> = $shape.to_vec();
        $cx.case(|| format!("Tensor {} {shape:?}", stringify!($ty)), || {
            let mut k = 0usize;
            let data = <$ty as Build<$t>>::build(&shape, &mut || { k += 1; (k - 1) as $t });
            let a = Tensor::<$t>::new(data);
            content(a.ndarray(), &shape, (0..prod(&shape)).map(|i| i as $t).collect())
        });
    } )* }
}

fn rand_dims(rng: &mut Rng, n: usize) -> Vec<usize> { (0..n).map(|_| 1 + rng.below(3)).collect() }

macro_rules! nested_vecs {
    ($cx:ident, $rng:ident, $($n:literal $ty:ty),*) => { $(
        for _ in 0..$cx.n(40) {
            let s = rand_dims(&mut $rng, $n);
            nest!($cx, i32, |i: usize| i as i32 * 3 - 5; $ty => s;);
        }
        // one leaf row, one inner vector or one outer element of another length
        for lvl in 1..$n { for which in 0..3usize {
            let mut s = rand_dims(&mut $rng, $n);
            for x in s.iter_mut() { if *x == 1 { *x = 2; } }
            $cx.case(|| format!("ragged at level {lvl} position {which} in {} {s:?}", stringify!($ty)), || {
                let mut k = 0i32;
                // lengths used at nesting level `lvl`: exactly one of them differs
                let total: usize = prod(&s[..lvl]);
                let target = match which { 0 => 0, 1 => total - 1, _ => total / 2 };
                let mut seen = 0usize;
                let data = <$ty as Ragged>::ragged(&s, 0, lvl, target, &mut seen, &mut k);
                must_panic("ragged nested data", || NdArray::<i32>::new(data))
            });
        } }
    )* }
}
trait Ragged { fn ragged(s: &[usize], depth: usize, lvl: usize, target: usize, seen: &mut usize, k: &mut i32) -> Self; }
impl Ragged for i32 { fn ragged(_: &[usize], _: usize, _: usize, _: usize, _: &mut usize, k: &mut i32) -> Self { *k += 1; *k } }
impl<X: Ragged> Ragged for Vec<X> {
    fn ragged(s: &[usize], depth: usize, lvl: usize, target: usize, seen: &mut usize, k: &mut i32) -> Self {
        let mut n = s[depth];
        if depth == lvl { if *seen == target { n += 1; } *seen += 1; }
        (0..n).map(|_| X::ragged(s, depth + 1, lvl, target, seen, k)).collect()
    }
}
type V<T> = Vec<T>;

#[cfg(feature = "c12")]
pub fn c12(cx: &mut Cx) {
    let mut rng = cx.rng.clone();
    nested_vecs!(cx, rng, 1 V<i32>, 2 V<V<i32>>, 3 V<V<V<i32>>>, 4 V<V<V<V<i32>>>>, 5 V<V<V<V<V<i32>>>>>, 6 V<V<V<V<V<V<i32>>>>>>);
    macro_rules! each { ($($t:ty, $c:expr);*) => { $( nest!(cx, $t, $c;
        V<$t> => [1]; V<$t> => [5]; V<V<$t>> => [2, 3]; V<V<V<$t>>> => [2, 1, 3]; V<V<V<V<$t>>>> => [2, 3, 1, 2]; V<V<V<V<V<$t>>>>> => [1, 2, 2, 1, 2];
        [$t; 1] => [1]; [$t; 7] => [7]; [[$t; 3]; 2] => [2, 3]; [[[$t; 2]; 3]; 2] => [2, 3, 2]; [[[[$t; 1]; 2]; 3]; 2] => [2, 3, 2, 1]; [[[[[$t; 2]; 1]; 2]; 2]; 3] => [3, 2, 2, 1, 2];
        V<[$t; 3]> => [4, 3]; [V<$t>; 3] => [3, 2]; V<[V<$t>; 2]> => [3, 2, 4]; [V<[$t; 2]>; 2] => [2, 3, 2]; [[V<$t>; 2]; 2] => [2, 2, 3]; V<V<[[$t; 2]; 2]>> => [1, 2, 2, 2];
        [[[[[[$t; 2]; 1]; 2]; 1]; 2]; 1] => [1, 2, 1, 2, 1, 2];
    ); )* } }
    each!(i8, |i: usize| i as i8; i16, |i: usize| i as i16 - 7; i32, |i: usize| i as i32 * 5; i64, |i: usize| i as i64; i128, |i: usize| i as i128; isize, |i: usize| i as isize;
          u8, |i: usize| i as u8; u16, |i: usize| i as u16; u32, |i: usize| i as u32; u64, |i: usize| i as u64; u128, |i: usize| i as u128; usize, |i: usize| i;
          f32, |i: usize| i as f32 + 0.5; f64, |i: usize| i as f64 - 0.25; bool, |i: usize| i % 3 == 1);
    nest_tensor!(cx, f32; V<f32> => [5]; V<V<f32>> => [2, 3]; [[f32; 3]; 2] => [2, 3]; [V<V<f32>>; 2] => [2, 3, 1];);
    nest_tensor!(cx, f64; V<f64> => [5]; V<V<f64>> => [2, 3]; [[f64; 3]; 2] => [2, 3]; V<[V<f64>; 2]> => [3, 2, 2];);
    cx.case(|| "ragged arrays of vectors".into(), || {
        must_panic("[vec;2] ragged", || NdArray::<i32>::new([vec![1, 2], vec![3]]))?;
        must_panic("[vec;2] ragged, last longer", || NdArray::<i32>::new([vec![1], vec![3], vec![4, 5]]))?;
        must_panic("vec of [vec;2] ragged inside", || NdArray::<i32>::new(vec![[vec![1, 2], vec![3, 4]], [vec![1, 2], vec![3]]]))?;
        must_panic("[[vec;2];2] ragged across", || NdArray::<i32>::new([[vec![1, 2], vec![3, 4]], [vec![1], vec![3]]]))?;
        must_panic("vec of vec of [_;1] ragged", || NdArray::<i32>::new(vec![vec![[1]], vec![[1], [2]]]))?;
        must_panic("same total, other lengths", || NdArray::<i32>::new(vec![vec![vec![1, 2], vec![3]], vec![vec![1], vec![2, 3]]]))?;
        must_panic("compensating lengths", || NdArray::<i32>::new(vec![vec![1, 2, 3], vec![1], vec![2, 3]]))?;
        must_panic("empty row", || NdArray::<i32>::new(vec![vec![1], vec![]]))?;
        must_panic("empty", || NdArray::<i32>::new(Vec::<i32>::new()))?;
        must_panic("tensor ragged", || Tensor::<f32>::new(vec![vec![1.0f32, 2.0], vec![3.0]]))
    });
    // fill values
    for _ in 0..cx.n(300) {
        let s = rand_shape(&mut cx.rng, 6, 5, 600);
        let v = cx.rng.range(-100, 100);
        cx.case(|| format!("full/zeros/ones {s:?} value {v}"), || {
            let n = prod(&s);
            content(&NdArray::<i32>::full(v as i32, s.clone()), &s, vec![v as i32; n])?;
            content(&NdArray::<f64>::full(v as f64, &s), &s, vec![v as f64; n])?;
            content(&NdArray::<u8>::zeros(s.clone()), &s, vec![0u8; n])?;
            content(&NdArray::<f32>::ones(s.clone()), &s, vec![1f32; n])?;
            content(&NdArray::<bool>::ones(s.clone()), &s, vec![true; n])?;
            content(&NdArray::<bool>::zeros(s.clone()), &s, vec![false; n])?;
            content(&NdArray::<i128>::zeros(&s), &s, vec![0i128; n])?;
            content(Tensor::<f32>::full(v as f32, s.clone()).ndarray(), &s, vec![v as f32; n])?;
            content(Tensor::<f64>::zeros(s.clone()).ndarray(), &s, vec![0f64; n])?;
            content(Tensor::<f64>::ones(s.clone()).ndarray(), &s, vec![1f64; n])
        });
    }
    cx.case(|| "scalars".into(), || {
        macro_rules! sc { ($($t:ty: $($v:expr),*);*) => { $( $( content(&NdArray::<$t>::scalar($v), &[], vec![$v])?; eq("value", NdArray::<$t>::scalar($v).value(), $v)?; )* )* } }
        sc!(i8: -128, 127, 0; u8: 255, 0; i16: -300; u16: 65535; i32: -7; u32: 9; i64: i64::MIN; u64: u64::MAX; i128: -1; u128: 1; isize: 5; usize: 6; f32: -0.5, f32::MAX; f64: 1e300; bool: true, false);
        must_panic("empty shape entry", || NdArray::<i32>::full(1, [2, 0]))?;
        must_panic("empty shape entry", || NdArray::<i32>::zeros(vec![0]))
    });
    cx.rng = rng;
}

// ------------------------------------------------------------------------------------------------------------ ranges
macro_rules! arange_int {
    ($cx:ident, $($t:ty, $lo:expr, $hi:expr);*) => { $(
        let (lo, hi): (i64, i64) = ($lo, $hi);
        for _ in 0..$cx.n(500) {
            let a = $cx.rng.range(lo, hi);
            let w = [3i64, 20, 400, 100000][$cx.rng.below(4)];
            let b = (a + 1 + $cx.rng.range(0, w)).min(hi);
            let ws = [2i64, 9, 130, 40000][$cx.rng.below(4)]; let mut step = 1 + $cx.rng.range(0, ws);
            if step > <$t>::MAX as i64 || (<$t>::MAX as i64) < 0 { step = 3; }
            if b <= a || (b - a) > (<$t>::MAX as u64).min(1 << 40) as i64 { continue; }
            if (b - a) / step > 50000 { continue; }
            // every product i*step and the sum must be representable
            let n = (b - a + step - 1) / step;
            if n > (<$t>::MAX as u64).min(1 << 40) as i64 || (n - 1) * step > (<$t>::MAX as u64).min(1 << 60) as i64 { continue; }
            $cx.case(|| format!("{} arange_with_step({a}, {b}, {step})", stringify!($t)), || {
                let r = NdArray::<$t>::arange_with_step(a as $t, b as $t, step as $t);
                let want: Vec<$t> = (0..n).map(|i| (a + i * step) as $t).collect();
                eq("shape", r.shape().to_vec(), vec![want.len()])?;
                eq("values", read(&r), want)?;
                if step == 1 || n < 100 {
                    let r = NdArray::<$t>::arange(a as $t, b as $t);
                    if (b - a) < 5000 { eq("arange", read(&r), (a..b).map(|x| x as $t).collect())?; }
                }
                Ok(())
            });
        }
    )* }
}

#[cfg(feature = "c20")]
pub fn c20(cx: &mut Cx) {
    arange_int!(cx, i8, -128, 127; u8, 0, 255; i16, -32768, 32767; u16, 0, 65535; i32, -2147483648, 2147483647; u32, 0, 4294967295; isize, -(1 << 52), 1 << 52;
                i64, -(1 << 52), 1 << 52; u64, 0, 1 << 52; i128, -(1 << 52), 1 << 52; u128, 0, 1 << 52; usize, 0, 1 << 52);
    // long ranges: the count must be exact
    cx.case(|| "long integer ranges".into(), || {
        for n in [16777217usize, 20000001] { eq("length", NdArray::<i32>::arange(0, n as i32).shape().to_vec(), vec![n])?; }
        eq("length", NdArray::<i64>::arange_with_step(0, 16777217 * 3, 3).shape().to_vec(), vec![16777217])?;
        eq("length", NdArray::<u32>::arange_with_step(5, 16777217 * 2 + 5, 2).shape().to_vec(), vec![16777217])
    });
    for _ in 0..cx.n(1500) {
        // float ranges with exactly representable values
        let k = cx.rng.below(4);
        let q = [1.0, 0.5, 0.25, 8.0][k];
        let a = cx.rng.range(-2000, 2000); let len = 1 + cx.rng.range(0, 3000); let step = 1 + cx.rng.range(0, 40);
        let b = a + len;
        cx.case(|| format!("float arange_with_step({}, {}, {})", a as f64 * q, b as f64 * q, step as f64 * q), || {
            let n = (len + step - 1) / step;
            let want: Vec<f64> = (0..n).map(|i| (a + i * step) as f64 * q).collect();
            eq("f64", read(&NdArray::<f64>::arange_with_step(a as f64 * q, b as f64 * q, step as f64 * q)), want.clone())?;
            eq("f32", read(&NdArray::<f32>::arange_with_step(a as f32 * q as f32, b as f32 * q as f32, step as f32 * q as f32)), want.iter().map(|&x| x as f32).collect())?;
            eq("tensor", read(Tensor::<f64>::arange_with_step(a as f64 * q, b as f64 * q, step as f64 * q).ndarray()), want)
        });
    }
    for i in 0..cx.n(1500) {
        let num = if i < 70 { 1 + i } else { { let w = [10, 200, 4000][cx.rng.below(3)]; 1 + cx.rng.below(w) } };
        let a = cx.rng.range(-1000, 1000); let b = a + 1 + cx.rng.range(0, 5000);
        cx.case(|| format!("linspace({a}, {b}, {num})"), || {
            macro_rules! one { ($t:ty) => {
                let eps = <$t>::EPSILON as f64 * 8.0 * (a.abs().max(b.abs()) as f64 + 1.0);
                let near = |g: &[$t], step: f64| -> Result<(), String> {
                    for (i, &x) in g.iter().enumerate() {
                        let w = a as f64 + i as f64 * step;
                        if !((x as f64 - w).abs() <= eps) { return Err(format!("element {i} is {x}, expected {w}")); }
                    }
                    Ok(())
                };
                let r = NdArray::<$t>::linspace(a as $t, b as $t, num);
                eq("linspace shape", r.shape().to_vec(), vec![num])?;
                near(&read(&r), if num > 1 { (b - a) as f64 / (num as f64 - 1.0) } else { 0.0 })?;
                eq("first", read(&r)[0], a as $t)?;
                let r = NdArray::<$t>::linspace_exclusive(a as $t, b as $t, num);
                eq("linspace_exclusive shape", r.shape().to_vec(), vec![num])?;
                near(&read(&r), (b - a) as f64 / num as f64)?;
                eq("first", read(&r)[0], a as $t)?;
            } }
            one!(f32); one!(f64);
            let r = Tensor::<f64>::linspace(a as f64, b as f64, num);
            eq("tensor linspace shape", r.shape().to_vec(), vec![num])?;
            let r = Tensor::<f32>::linspace_exclusive(a as f32, b as f32, num);
            eq("tensor linspace_exclusive shape", r.shape().to_vec(), vec![num])
        });
    }
    cx.case(|| "linspace with 0 points".into(), || {
        must_panic("linspace(_, _, 0)", || NdArray::<f32>::linspace(0.0, 1.0, 0))?;
        must_panic("linspace_exclusive(_, _, 0)", || NdArray::<f32>::linspace_exclusive(0.0, 1.0, 0))
    });
}

// ------------------------------------------------------------------------------------------------------------ random
#[cfg(feature = "c22")]
pub fn c22(cx: &mut Cx) {
    for _ in 0..cx.n(300) {
        let s = rand_shape(&mut cx.rng, 5, 6, 800);
        let lo = cx.rng.range(-1000, 1000); let w = 1 + cx.rng.range(0, 50);
        cx.case(|| format!("shape {s:?} range [{lo}, {})", lo + w), || {
            macro_rules! one { ($t:ty, $A:ident) => { {
                let (l, h) = (lo as $t, (lo + w) as $t);
                let get = |a: &$A<$t>| -> Result<Vec<$t>, String> { eq("shape", a.shape().to_vec(), s.clone())?; Ok(one!(@read $A a)) };
                for x in get(&$A::<$t>::rand(s.clone()))? { if !(x >= 0.0 && x < 1.0) { return Err(format!("rand gave {x}")); } }
                for x in get(&$A::<$t>::uniform(s.clone(), l, h))? { if !(x >= l && x < h) { return Err(format!("uniform({l}, {h}) gave {x}")); } }
                for x in get(&$A::<$t>::randn(s.clone()))? { if !x.is_finite() || x.abs() > 40.0 { return Err(format!("randn gave {x}")); } }
                for x in get(&$A::<$t>::randint(s.clone(), l - 0.5, h + 0.25))? { if !(x >= l && x <= h && x == x.floor()) { return Err(format!("randint({}, {}) gave {x}", l - 0.5, h + 0.25)); } }
                for x in get(&$A::<$t>::randint(s.clone(), l, h))? { if !(x >= l && x < h && x == x.floor()) { return Err(format!("randint({l}, {h}) gave {x}")); } }
            } };
                (@read NdArray $a:ident) => { read($a) };
                (@read Tensor $a:ident) => { read($a.ndarray()) };
            }
            one!(f32, NdArray); one!(f64, NdArray); one!(f32, Tensor); one!(f64, Tensor);
            Ok(())
        });
    }
    macro_rules! ints { ($($t:ty, $signed:literal);*) => { $(
        for w in 1..=6i64 { for base in 0..4 {
            let tmax = (<$t>::MAX as u128).min(1 << 126) as i128; let tmin = if $signed { -(tmax) - 1 } else { 0 };
            let lo = match base { 0 => 0, 1 => if $signed { -(w as i128) / 2 - 3 } else { 5 }, 2 => tmax - w as i128, _ => tmin };
            cx.case(|| format!("{} randint [{lo}, {})", stringify!($t), lo + w as i128), || {
                let (l, h) = (lo as $t, (lo + w as i128) as $t);
                let v = read(&NdArray::<$t>::randint([700usize], l, h));
                for x in &v { if !(*x >= l && *x < h) { return Err(format!("randint({l}, {h}) gave {x}")); } }
                for k in 0..w as i128 { let x = (lo + k) as $t; if !v.contains(&x) { return Err(format!("randint({l}, {h}): {x} did not occur in 700 draws")); } }
                Ok(())
            });
        } }
        cx.case(|| format!("{} randint with low >= high", stringify!($t)), || { must_panic("low == high", || NdArray::<$t>::randint([3usize], 5 as $t, 5 as $t))?; must_panic("low > high", || NdArray::<$t>::randint([3usize], 6 as $t, 5 as $t)) });
    )* } }
    ints!(i8, true; i16, true; i32, true; i64, true; i128, true; isize, true; u8, false; u16, false; u32, false; u64, false; u128, false; usize, false);
    // coarse check of the distributions: every tenth of the range occurs, both signs and all magnitudes of the normal
    cx.case(|| "distribution support".into(), || {
        let v = read(&NdArray::<f32>::rand([40000usize]));
        for k in 0..10 { if !v.iter().any(|&x| (x * 10.0) as usize == k) { return Err(format!("rand: no value in tenth {k}")); } }
        let v = read(&NdArray::<f64>::uniform([40000usize], -3.0, 7.0));
        for k in -3..7 { if !v.iter().any(|&x| x.floor() as i64 == k) { return Err(format!("uniform(-3, 7): no value in [{k}, {})", k + 1)); } }
        let v = read(&NdArray::<f64>::randn([40000usize]));
        let mean = v.iter().sum::<f64>() / 40000.0; let var = v.iter().map(|x| x * x).sum::<f64>() / 40000.0;
        if mean.abs() > 0.06 || (var - 1.0).abs() > 0.15 { return Err(format!("randn mean {mean} variance {var}")); }
        Ok(())
    });
}
