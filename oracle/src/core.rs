//! Case driver, view model and layout generator shared by all property oracles.
use redstone_ml::*;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

pub static CUR_START: AtomicU64 = AtomicU64::new(0);
pub static CUR_DESC: Mutex<String> = Mutex::new(String::new());

pub fn now_ms() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64
}

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn fork(&mut self) -> Rng { Rng(self.next() ^ 0x5851f42d4c957f2d) }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn range(&mut self, a: i64, b: i64) -> i64 { a + (self.next() % (b - a) as u64) as i64 }
    pub fn shuffle<X>(&mut self, v: &mut [X]) {
        for i in (1..v.len()).rev() { let j = self.below(i + 1); v.swap(i, j); }
    }
}

pub struct Cx {
    pub rng: Rng,
    pub thorough: bool,
    pub evals: u64,
    pub only: Option<u64>,
    pub trace: bool,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub fails: Vec<(u64, String, String)>,
    pub deadline_ms: u64,
}

impl Cx {
    /// scales a count of random cases by tier
    pub fn n(&self, quick: usize) -> usize { if self.thorough { quick * 12 } else { quick } }
    pub fn over(&self) -> bool { self.fails.len() >= 3 || now_ms() > self.deadline_ms }
    pub fn case(&mut self, desc: impl Fn() -> String, f: impl FnOnce() -> Result<(), String>) {
        let id = self.evals;
        self.evals += 1;
        if let Some(o) = self.only { if o != id { return; } }
        if self.fails.len() >= 3 { return; }
        let d = desc();
        if self.trace { eprintln!("CASE {id} {d}"); }
        let mut h = std::collections::hash_map::DefaultHasher::new();
        d.hash(&mut h);
        self.distinct.insert(h.finish());
        if self.samples.len() < 4 || (id.is_power_of_two() && self.samples.len() < 12) { self.samples.push(d.clone()); }
        { *CUR_DESC.lock().unwrap() = format!("{id} {d}"); }
        CUR_START.store(now_ms(), Ordering::SeqCst);
        let r = catch_unwind(AssertUnwindSafe(f));
        CUR_START.store(0, Ordering::SeqCst);
        let r = match r {
            Ok(r) => r,
            Err(e) => Err(format!("unexpected panic: {}", panic_text(&e))),
        };
        if let Err(m) = r { self.fails.push((id, d, m)); }
    }
}

pub fn panic_text(e: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<String>() { s.clone() }
    else if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else { "?".into() }
}

/// runs f, Err(text) if it panicked
pub fn attempt<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| panic_text(&e))
}

pub fn must_panic<R>(what: &str, f: impl FnOnce() -> R) -> Result<(), String> {
    match attempt(f) { Err(_) => Ok(()), Ok(_) => Err(format!("{what}: accepted, but must panic")) }
}

pub fn eq<X: PartialEq + std::fmt::Debug>(what: &str, got: X, want: X) -> Result<(), String> {
    if got == want { Ok(()) } else {
        let (g, w) = (format!("{got:?}"), format!("{want:?}"));
        let cut = |s: String| if s.len() > 600 { format!("{}...", s.chars().take(600).collect::<String>()) } else { s };
        Err(format!("{what}: got {} expected {}", cut(g), cut(w)))
    }
}

pub fn prod(s: &[usize]) -> usize { s.iter().product() }

/// all multi-indices of a shape in row-major order
pub fn multi(shape: &[usize]) -> Vec<Vec<usize>> {
    let n = prod(shape);
    let mut out = Vec::with_capacity(n);
    for mut k in 0..n {
        let mut ix = vec![0; shape.len()];
        for d in (0..shape.len()).rev() { ix[d] = k % shape[d]; k /= shape[d]; }
        out.push(ix);
    }
    out
}

pub fn rank(shape: &[usize], ix: &[usize]) -> usize {
    let mut r = 0;
    for d in 0..shape.len() { r = r * shape[d] + ix[d]; }
    r
}

/// Model of a view: its shape and, per logical element in row-major order, the position in the base buffer.
#[derive(Clone, Debug, PartialEq)]
pub struct M { pub shape: Vec<usize>, pub ids: Vec<usize> }

#[derive(Clone, Debug)]
pub enum Ix { I(usize), R(usize, usize) }

impl M {
    pub fn base(shape: &[usize]) -> M { M { shape: shape.to_vec(), ids: (0..prod(shape)).collect() } }
    pub fn at(&self, ix: &[usize]) -> usize { self.ids[rank(&self.shape, ix)] }
    pub fn from_fn(shape: Vec<usize>, f: impl Fn(&[usize]) -> usize) -> M {
        let ids = multi(&shape).iter().map(|i| f(i)).collect();
        M { shape, ids }
    }
    pub fn transpose(&self, a: usize, b: usize) -> M {
        let mut s = self.shape.clone(); s.swap(a, b);
        M::from_fn(s, |ix| { let mut j = ix.to_vec(); j.swap(a, b); self.at(&j) })
    }
    pub fn slice(&self, sel: &[Ix]) -> M {
        let mut s = vec![];
        for d in 0..self.shape.len() {
            match sel.get(d) { Some(Ix::I(_)) => {}, Some(Ix::R(a, b)) => s.push(b - a), None => s.push(self.shape[d]) }
        }
        M::from_fn(s, |ix| {
            let mut k = 0; let mut j = vec![];
            for d in 0..self.shape.len() {
                match sel.get(d) {
                    Some(Ix::I(i)) => j.push(*i),
                    Some(Ix::R(a, _)) => { j.push(a + ix[k]); k += 1 }
                    None => { j.push(ix[k]); k += 1 }
                }
            }
            self.at(&j)
        })
    }
    pub fn slice_along(&self, axis: usize, sel: Ix) -> M {
        let mut v: Vec<Ix> = self.shape.iter().map(|&n| Ix::R(0, n)).collect();
        v[axis] = sel;
        self.slice(&v)
    }
    pub fn diag(&self, off: isize, a: usize, b: usize) -> Option<M> {
        let (oa, ob) = if off >= 0 { (0, off as usize) } else { ((-off) as usize, 0) };
        if oa >= self.shape[a] || ob >= self.shape[b] { return None; }
        let n = (self.shape[a] - oa).min(self.shape[b] - ob);
        let rest: Vec<usize> = (0..self.shape.len()).filter(|d| *d != a && *d != b).collect();
        let mut s: Vec<usize> = rest.iter().map(|&d| self.shape[d]).collect();
        s.push(n);
        Some(M::from_fn(s, |ix| {
            let mut j = vec![0; self.shape.len()];
            for (k, &d) in rest.iter().enumerate() { j[d] = ix[k]; }
            let t = ix[ix.len() - 1];
            j[a] = oa + t; j[b] = ob + t;
            self.at(&j)
        }))
    }
    pub fn reshape(&self, s: &[usize]) -> M { assert_eq!(prod(s), self.ids.len()); M { shape: s.to_vec(), ids: self.ids.clone() } }
    pub fn squeeze(&self) -> M { let s: Vec<usize> = self.shape.iter().copied().filter(|&n| n != 1).collect(); self.reshape(&s) }
    pub fn unsqueeze(&self, a: usize) -> M { let mut s = self.shape.clone(); s.insert(a, 1); self.reshape(&s) }
    pub fn can_broadcast(from: &[usize], to: &[usize]) -> bool {
        to.len() >= from.len() && from.iter().rev().zip(to.iter().rev()).all(|(a, b)| *a == 1 || a == b)
    }
    pub fn broadcast(&self, to: &[usize]) -> M {
        let k = to.len() - self.shape.len();
        M::from_fn(to.to_vec(), |ix| {
            let j: Vec<usize> = (0..self.shape.len()).map(|d| if self.shape[d] == 1 { 0 } else { ix[k + d] }).collect();
            self.at(&j)
        })
    }
}

macro_rules! dims_match {
    ($a:expr, $ix:expr, $($n:literal)*) => { match $ix.len() { $( $n => &$a[<[usize; $n]>::try_from($ix).unwrap()], )* _ => unreachable!() } }
}
/// address of the element at a multi-index through the public `[]`
pub fn index_ref<'x, T: RawDataType>(a: &'x NdArray<'_, T>, ix: &[usize]) -> &'x T {
    dims_match!(a, ix, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32)
}
macro_rules! dims_match_mut {
    ($a:expr, $ix:expr, $v:expr, $($n:literal)*) => { match $ix.len() { $( $n => { $a[<[usize; $n]>::try_from($ix).unwrap()] = $v; }, )* _ => unreachable!() } }
}
pub fn index_set<T: RawDataType>(a: &mut NdArray<'_, T>, ix: &[usize], v: T) {
    dims_match_mut!(a, ix, v, 0 1 2 3 4 5 6 7 8)
}

/// pointer to logical element (0, .., 0)
pub fn base_ptr<T: RawDataType>(a: &NdArray<T>) -> *const T {
    index_ref(a, &vec![0; a.shape().len()]) as *const T
}

/// positions (relative to `buf`, in elements) of all logical elements by shape and stride; reads no element
pub fn geom<T: RawDataType>(a: &NdArray<T>, buf: *const T) -> Vec<isize> {
    let off = (base_ptr(a) as isize - buf as isize) / std::mem::size_of::<T>() as isize;
    let (sh, st) = (a.shape().to_vec(), a.stride().to_vec());
    multi(&sh).iter().map(|ix| off + ix.iter().zip(st.iter()).map(|(i, s)| (i * s) as isize).sum::<isize>()).collect()
}

/// does the view have exactly the model's geometry over `buf`?
pub fn check_view<T: RawDataType>(a: &NdArray<T>, buf: *const T, m: &M) -> Result<(), String> {
    eq("shape", a.shape().to_vec(), m.shape.clone())?;
    eq("number of strides", a.stride().len(), m.shape.len())?;
    eq("element positions in the source buffer", geom(a, buf), m.ids.iter().map(|&x| x as isize).collect())
}

/// logical elements by shape and stride (geometry must have been checked)
pub fn read<T: RawDataType>(a: &NdArray<T>) -> Vec<T> {
    let p = base_ptr(a);
    geom(a, p).iter().map(|&o| unsafe { *p.offset(o) }).collect()
}

pub fn owned<T: RawDataType>(shape: &[usize], data: Vec<T>) -> NdArray<'static, T> {
    assert_eq!(prod(shape), data.len());
    unsafe { NdArray::from_contiguous_owned_buffer(shape.to_vec(), data) }
}

pub fn snapshot<T: Copy>(p: *const T, n: usize) -> Vec<T> { (0..n).map(|i| unsafe { *p.add(i) }).collect() }

// ---------------------------------------------------------------------------------------------------------------
// layouts

#[derive(Clone, Debug)]
pub enum Op { T(usize, usize), S(Vec<Ix>), D(isize, usize, usize), U(usize), Q, R(Vec<usize>), B(Vec<usize>) }

pub fn to_index(x: &Ix, style: usize, n: usize) -> redstone_ml::index::Index {
    use redstone_ml::index::Index as X;
    match x {
        Ix::I(i) => X::from(*i),
        Ix::R(a, b) => {
            let mut c = vec![X::from(*a..*b)];
            if *b >= *a + 1 { c.push(X::from(*a..=(*b - 1))); }
            if *b == n { c.push(X::from(*a..)); }
            if *a == 0 { c.push(X::from(..*b)); if *b >= 1 { c.push(X::from(..=(*b - 1))); } }
            if *a == 0 && *b == n { c.push(X::from(..)); }
            c.swap_remove(style % c.len())
        }
    }
}

pub fn apply<'a, T: RawDataType>(a: &'a NdArray<'a, T>, op: &Op, style: usize) -> NdArray<'a, T> {
    match op {
        Op::T(x, y) => a.transpose(*x as isize, *y as isize),
        Op::S(v) => {
            let ix: Vec<_> = v.iter().enumerate().map(|(d, x)| to_index(x, style, a.shape()[d])).collect();
            a.slice(ix)
        }
        Op::D(o, x, y) => a.offset_diagonal_along(*o, *x as isize, *y as isize),
        Op::U(x) => a.unsqueeze(*x as isize),
        Op::Q => a.squeeze(),
        Op::R(s) => a.reshape(s.clone()),
        Op::B(s) => a.broadcast_to(s),
    }
}
pub fn model_apply(m: &M, op: &Op) -> M {
    match op {
        Op::T(x, y) => m.transpose(*x, *y),
        Op::S(v) => m.slice(v),
        Op::D(o, x, y) => m.diag(*o, *x, *y).unwrap(),
        Op::U(x) => m.unsqueeze(*x),
        Op::Q => m.squeeze(),
        Op::R(s) => m.reshape(s),
        Op::B(s) => m.broadcast(s),
    }
}

pub fn factorizations(n: usize, max_len: usize) -> Vec<Vec<usize>> {
    let mut out = vec![];
    fn go(n: usize, left: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if n == 1 { out.push(cur.clone()); }
        if left == 0 { return; }
        for d in 1..=n { if n % d == 0 { if d == 1 && cur.iter().filter(|x| **x == 1).count() >= 1 { continue; }
            cur.push(d); go(n / d, left - 1, cur, out); cur.pop(); } }
    }
    go(n, max_len, &mut vec![], &mut out);
    out
}

pub fn rand_range(rng: &mut Rng, n: usize) -> (usize, usize) {
    let a = rng.below(n); let b = a + 1 + rng.below(n - a); (a, b)
}

/// random view operations applicable to shape `s` (broadcast and reshape only if allowed)
pub fn rand_op(rng: &mut Rng, m: &M, contiguous: bool, broadcast: bool) -> Option<Op> {
    let s = &m.shape;
    let nd = s.len();
    match rng.below(8) {
        0 if nd >= 2 => { let a = rng.below(nd); let b = rng.below(nd); Some(Op::T(a, b)) }
        1 | 2 if nd >= 1 => {
            let k = 1 + rng.below(nd);
            Some(Op::S((0..k).map(|d| match rng.below(5) {
                0 => Ix::I(rng.below(s[d])),
                1 => Ix::R(0, s[d]),
                _ => { let (a, b) = rand_range(rng, s[d]); Ix::R(a, b) }
            }).collect()))
        }
        3 if nd >= 2 => {
            let a = rng.below(nd); let mut b = rng.below(nd - 1); if b >= a { b += 1; }
            let off = if rng.chance(1, 2) { 0 } else { rng.range(-(s[a] as i64) + 1, s[b] as i64) as isize };
            Some(Op::D(off, a, b))
        }
        4 if nd < 7 => Some(Op::U(rng.below(nd + 1))),
        5 => Some(Op::Q),
        6 if contiguous => { let f = factorizations(prod(s), 4); let i = rng.below(f.len()); Some(Op::R(f[i].clone())) }
        7 if broadcast && nd < 6 && prod(s) <= 64 => {
            let mut t: Vec<usize> = s.iter().map(|&n| if n == 1 { 1 + rng.below(3) } else { n }).collect();
            for _ in 0..rng.below(2) { t.insert(0, 1 + rng.below(3)); }
            Some(Op::B(t))
        }
        _ => None,
    }
}

pub fn rand_shape(rng: &mut Rng, max_dims: usize, max_len: usize, max_size: usize) -> Vec<usize> {
    let nd = rng.below(max_dims + 1);
    let mut s = vec![]; let mut p = 1;
    for _ in 0..nd {
        let mut n = if rng.chance(1, 5) { 1 } else { 1 + rng.below(max_len) };
        if p * n > max_size { n = 1; }
        p *= n; s.push(n);
    }
    s
}

/// Applies a random chain of view operations to a fresh base array and calls f(view, model, base pointer, description).
/// Steps whose result does not match the model are only passed to `bad` (the view properties), never to f.
pub fn chain<T: RawDataType>(rng: &mut Rng, base: &[usize], depth: usize, broadcast: bool,
                             val: &dyn Fn(usize) -> T,
                             f: &mut dyn FnMut(&NdArray<T>, &M, *const T, &str)) {
    let m = M::base(base);
    let a = owned(base, m.ids.iter().map(|&i| val(i)).collect());
    let buf = base_ptr(&a);
    step(rng, &a, &m, buf, depth, broadcast, &format!("base{base:?}"), f);
}
fn step<T: RawDataType>(rng: &mut Rng, a: &NdArray<T>, m: &M, buf: *const T, depth: usize, broadcast: bool, d: &str,
                        f: &mut dyn FnMut(&NdArray<T>, &M, *const T, &str)) {
    f(a, m, buf, d);
    if depth == 0 { return; }
    for _ in 0..6 {
        let contiguous = m.ids.windows(2).all(|w| w[1] == w[0] + 1);
        if let Some(op) = rand_op(rng, m, contiguous, broadcast) {
            let style = rng.below(7);
            let m2 = model_apply(m, &op);
            if m2.ids.is_empty() { continue; }
            if let Ok(v) = attempt(|| apply(a, &op, style)) {
                if check_view(&v, buf, &m2).is_ok() {
                    step(rng, &v, &m2, buf, depth - 1, broadcast, &format!("{d}.{op:?}"), f);
                }
            }
            return;
        }
    }
}

pub const KINDS: usize = 12;
pub const KIND_NAMES: [&str; KINDS] = ["contiguous", "reversed-axes", "permuted", "inner-slice", "uniform-strided", "leading-slice",
    "broadcast", "diagonal", "last-axis-slice", "permuted-slice", "strided-broadcast", "unsqueezed-slice"];
pub fn writable_kind(k: usize) -> bool { k != 6 && k != 10 }

/// calls f(view of exactly `shape` with a layout of kind k, model, base pointer, buffer length); returns false if the kind
/// does not apply or the library did not produce the expected view
pub fn with_layout<T: RawDataType, R>(rng: &mut Rng, shape: &[usize], kind: usize, val: &dyn Fn(usize) -> T,
                                      f: impl FnOnce(&mut NdArray<T>, &M, *const T, usize) -> R) -> Option<R> {
    let nd = shape.len();
    let mut ops: Vec<Op> = vec![];
    let mut base = shape.to_vec();
    let permute = |rng: &mut Rng, base: &mut Vec<usize>, ops: &mut Vec<Op>| {
        // ops take the permuted base to `shape`: build by applying swaps backwards
        let mut sw = vec![];
        for _ in 0..nd { let a = rng.below(nd); let b = rng.below(nd); if a != b { sw.push((a, b)); } }
        if sw.is_empty() { sw.push((0, nd - 1)); }
        for &(a, b) in sw.iter().rev() { base.swap(a, b); }
        for &(a, b) in &sw { ops.push(Op::T(a, b)); }
    };
    match kind {
        0 => {}
        1 => { if nd < 2 { return None; } base.reverse(); for d in 0..nd / 2 { ops.push(Op::T(d, nd - 1 - d)); } }
        2 => { if nd < 2 { return None; } permute(rng, &mut base, &mut ops); }
        3 => {
            if nd < 1 { return None; }
            let mut sel = vec![];
            for d in 0..nd { let lo = rng.below(3); let hi = rng.below(3); base[d] += lo + hi; sel.push(Ix::R(lo, lo + shape[d])); }
            ops.push(Op::S(sel));
        }
        4 => {
            let k = 2 + rng.below(3); base.push(k);
            let mut sel: Vec<Ix> = shape.iter().map(|&n| Ix::R(0, n)).collect();
            sel.push(Ix::I(rng.below(k))); ops.push(Op::S(sel));
        }
        5 => {
            if nd < 1 { return None; }
            let lo = rng.below(3); let hi = rng.below(3); base[0] += lo + hi; ops.push(Op::S(vec![Ix::R(lo, lo + shape[0])]));
        }
        6 | 10 => {
            if nd < 1 { return None; }
            let lead = rng.below(nd + 1);
            let mut any = lead > 0;
            base = shape[lead..].to_vec();
            for d in 0..base.len() { if rng.chance(1, 2) { any = true; base[d] = 1; } }
            if !any { let l = base.len() - 1; base[l] = 1; }
            if kind == 10 {
                let inner = base.clone();
                base.push(2);
                let mut sel: Vec<Ix> = inner.iter().map(|&n| Ix::R(0, n)).collect();
                sel.push(Ix::I(rng.below(2))); ops.push(Op::S(sel));
            }
            ops.push(Op::B(shape.to_vec()));
        }
        7 => {
            if nd < 1 { return None; }
            let off = rng.below(3) as isize - 1;
            let n = shape[nd - 1];
            let a = rng.below(nd); // where the two axes sit before: keep simple, last two
            let _ = a;
            base.pop();
            if off >= 0 { base.push(n); base.push(n + off as usize); } else { base.push(n + 1); base.push(n + rng.below(2)); }
            ops.push(Op::D(off, nd - 1, nd));
        }
        8 => {
            if nd < 1 { return None; }
            let lo = rng.below(3); let hi = 1 + rng.below(3); base[nd - 1] += lo + hi;
            let mut sel: Vec<Ix> = shape.iter().map(|&n| Ix::R(0, n)).collect();
            sel[nd - 1] = Ix::R(lo, lo + shape[nd - 1]); ops.push(Op::S(sel));
        }
        9 => {
            if nd < 2 { return None; }
            permute(rng, &mut base, &mut ops);
            let mut sel = vec![];
            for d in 0..nd { let n = base[d]; let lo = rng.below(2); let hi = rng.below(2); base[d] += lo + hi; sel.push(Ix::R(lo, lo + n)); }
            ops.insert(0, Op::S(sel));
        }
        11 => {
            if nd < 1 || !shape.contains(&1) { return None; }
            let d = shape.iter().position(|&n| n == 1).unwrap();
            base.remove(d); base.push(2);
            let mut sel: Vec<Ix> = base[..base.len() - 1].iter().map(|&n| Ix::R(0, n)).collect();
            sel.push(Ix::I(1)); ops.push(Op::S(sel)); ops.push(Op::U(d));
        }
        _ => return None,
    }
    let m = M::base(&base);
    let n = prod(&base);
    let mut a = owned(&base, m.ids.iter().map(|&i| val(i)).collect());
    let buf = base_ptr(&a);
    fn go<T: RawDataType, R>(a: &mut NdArray<T>, m: &M, buf: *const T, n: usize, ops: &[Op], shape: &[usize], style: usize,
                             f: impl FnOnce(&mut NdArray<T>, &M, *const T, usize) -> R) -> Option<R> {
        match ops.split_first() {
            None => { if m.shape != shape { return None; } Some(f(a, m, buf, n)) }
            Some((op, rest)) => {
                let m2 = model_apply(m, op);
                let mut v = match attempt(|| apply(a, op, style)) { Ok(v) => v, Err(_) => return None };
                if check_view(&v, buf, &m2).is_err() { return None; }
                go(&mut v, &m2, buf, n, rest, shape, style, f)
            }
        }
    }
    let style = rng.below(7);
    go(&mut a, &m, buf, n, &ops, shape, style, f)
}

/// a list of shapes: all tiny ones, then selected larger/odd ones
pub fn shapes(thorough: bool) -> Vec<Vec<usize>> {
    let mut v: Vec<Vec<usize>> = vec![vec![]];
    for a in 1..=4 { v.push(vec![a]); }
    for a in 1..=3 { for b in 1..=3 { v.push(vec![a, b]); } }
    for a in 1..=3 { for b in 1..=2 { for c in 1..=3 { v.push(vec![a, b, c]); } } }
    v.extend([vec![2, 2, 2, 2], vec![3, 1, 2, 2], vec![1, 2, 1, 3], vec![2, 3, 1, 2], vec![2, 1, 2, 1, 3], vec![1, 1, 1], vec![1, 1, 4],
        vec![2, 2, 1, 2, 2, 2], vec![7], vec![8], vec![9], vec![16], vec![17], vec![33], vec![65], vec![5, 7], vec![8, 8], vec![16, 3],
        vec![4, 5, 6], vec![1, 16], vec![16, 1], vec![130], vec![2, 2, 2, 2, 2, 2, 2, 2]]);
    if thorough { v.extend([vec![257], vec![1030], vec![33, 31], vec![9, 10, 11], vec![3, 4, 5, 6], vec![6, 1, 7, 1, 2], vec![4099]]); }
    else { v.extend([vec![1030], vec![19, 23], vec![3, 4, 5, 2]]); }
    v
}
