//! C16 C17: random expression graphs and histories against a reference reverse-mode evaluation
use crate::core::*;
use redstone_ml::*;

pub trait Fl: TensorDataType { fn of(x: f64) -> Self; fn f(self) -> f64; const EPS: f64; }
impl Fl for f32 { fn of(x: f64) -> f32 { x as f32 } fn f(self) -> f64 { self as f64 } const EPS: f64 = 2e-4; }
impl Fl for f64 { fn of(x: f64) -> f64 { x } fn f(self) -> f64 { self } const EPS: f64 = 1e-11; }

/// reference tensor
#[derive(Clone, Debug, PartialEq)]
struct R { s: Vec<usize>, d: Vec<f64> }
impl R {
    fn map(&self, f: impl Fn(f64) -> f64) -> R { R { s: self.s.clone(), d: self.d.iter().map(|&x| f(x)).collect() } }
    fn max(&self) -> f64 { self.d.iter().fold(0.0, |m, x| m.max(x.abs())) }
    fn zip(&self, o: &R, f: impl Fn(f64, f64) -> f64) -> R {
        let s = crate::views::bshape(&self.s, &o.s).unwrap();
        let (a, b) = (M::base(&self.s).broadcast(&s), M::base(&o.s).broadcast(&s));
        R { d: a.ids.iter().zip(&b.ids).map(|(&i, &j)| f(self.d[i], o.d[j])).collect(), s }
    }
    /// adds up over repeated axes until the shape is `s`
    fn unbroadcast(&self, s: &[usize]) -> R {
        let m = M::base(s).broadcast(&self.s);
        let mut d = vec![0.0; prod(s)];
        for (p, &i) in m.ids.iter().enumerate() { d[i] += self.d[p]; }
        R { s: s.to_vec(), d }
    }
    fn transpose(&self, a: usize, b: usize) -> R { let m = M::base(&self.s).transpose(a, b); R { d: m.ids.iter().map(|&i| self.d[i]).collect(), s: m.shape } }
    fn reshape(&self, s: &[usize]) -> R { R { s: s.to_vec(), d: self.d.clone() } }
}
/// batched product with all operands as [b, i, k] x [b, k, j]
fn mm(a: &R, b: &R) -> R {
    let (n, i, k, j) = (a.s[0], a.s[1], a.s[2], b.s[2]);
    let mut d = vec![0.0; n * i * j];
    for x in 0..n { for p in 0..i { for q in 0..j { for r in 0..k { d[(x * i + p) * j + q] += a.d[(x * i + p) * k + r] * b.d[(x * k + r) * j + q]; } } } }
    R { s: vec![n, i, j], d }
}

#[derive(Clone, Debug)]
enum N { Leaf(Option<usize>), Add(usize, usize), Sub(usize, usize), Mul(usize, usize), Div(usize, usize), Neg(usize), AddS(usize, f64), SubS(usize, f64), MulS(usize, f64), DivS(usize, f64),
         Dot(usize, usize), MatVec(usize, usize), MatMul(usize, usize), Bmm(usize, usize), Reshape(usize), Transpose(usize, usize, usize), View(usize) }

struct G<T: Fl + 'static> { n: Vec<N>, v: Vec<R>, t: Vec<*mut Tensor<'static, T>>, grad: Vec<bool>, leafs: Vec<usize>, text: Vec<String> }

impl<T: Fl + 'static> G<T> {
    fn new() -> Self { G { n: vec![], v: vec![], t: vec![], grad: vec![], leafs: vec![], text: vec![] } }
    fn get(&self, i: usize) -> &'static Tensor<'static, T> { unsafe { &*self.t[i] } }
    fn push(&mut self, n: N, v: R, t: Tensor<'static, T>, grad: bool, text: String) -> usize {
        self.n.push(n); self.v.push(v); self.t.push(Box::into_raw(Box::new(t))); self.grad.push(grad); self.text.push(text);
        self.n.len() - 1
    }
    /// cotangents of every accumulator for cotangent g at node i
    fn vjp(&self, i: usize, g: R, acc: &mut Vec<R>) {
        if !self.grad[i] { return; }
        let v = |k: usize| &self.v[k];
        match &self.n[i] {
            N::Leaf(Some(k)) => { acc[*k] = acc[*k].zip(&g, |a, b| a + b); }
            N::Leaf(None) => {}
            N::Add(a, b) => { self.vjp(*a, g.unbroadcast(&v(*a).s), acc); self.vjp(*b, g.unbroadcast(&v(*b).s), acc); }
            N::Sub(a, b) => { self.vjp(*a, g.unbroadcast(&v(*a).s), acc); self.vjp(*b, g.map(|x| -x).unbroadcast(&v(*b).s), acc); }
            N::Mul(a, b) => { self.vjp(*a, g.zip(v(*b), |x, y| x * y).unbroadcast(&v(*a).s), acc); self.vjp(*b, g.zip(v(*a), |x, y| x * y).unbroadcast(&v(*b).s), acc); }
            N::Div(a, b) => {
                self.vjp(*a, g.zip(v(*b), |x, y| x / y).unbroadcast(&v(*a).s), acc);
                self.vjp(*b, g.zip(v(*a), |x, y| -x * y).zip(v(*b), |x, y| x / (y * y)).unbroadcast(&v(*b).s), acc);
            }
            N::Neg(a) => self.vjp(*a, g.map(|x| -x), acc),
            N::AddS(a, _) | N::SubS(a, _) | N::View(a) => self.vjp(*a, g, acc),
            N::MulS(a, k) => self.vjp(*a, g.map(|x| x * k), acc),
            N::DivS(a, k) => self.vjp(*a, g.map(|x| x / k), acc),
            N::Dot(a, b) => { let x = g.d[0]; self.vjp(*a, v(*b).map(|y| x * y), acc); self.vjp(*b, v(*a).map(|y| x * y), acc); }
            N::MatVec(a, b) => {
                let (i, k) = (v(*a).s[0], v(*a).s[1]);
                let (am, bm, gm) = (v(*a).reshape(&[1, i, k]), v(*b).reshape(&[1, k, 1]), g.reshape(&[1, i, 1]));
                self.vjp(*a, mm(&gm, &bm.transpose(1, 2)).reshape(&[i, k]), acc);
                self.vjp(*b, mm(&am.transpose(1, 2), &gm).reshape(&[k]), acc);
            }
            N::MatMul(a, b) => {
                let (i, k, j) = (v(*a).s[0], v(*a).s[1], v(*b).s[1]);
                let (am, bm, gm) = (v(*a).reshape(&[1, i, k]), v(*b).reshape(&[1, k, j]), g.reshape(&[1, i, j]));
                self.vjp(*a, mm(&gm, &bm.transpose(1, 2)).reshape(&[i, k]), acc);
                self.vjp(*b, mm(&am.transpose(1, 2), &gm).reshape(&[k, j]), acc);
            }
            N::Bmm(a, b) => { self.vjp(*a, mm(&g, &v(*b).transpose(1, 2)), acc); self.vjp(*b, mm(&v(*a).transpose(1, 2), &g), acc); }
            N::Reshape(a) => self.vjp(*a, g.reshape(&v(*a).s), acc),
            N::Transpose(a, x, y) => self.vjp(*a, g.transpose(*x, *y), acc),
        }
    }
    fn paths(&self, i: usize) -> usize {
        match &self.n[i] {
            N::Leaf(_) => 1,
            N::Add(a, b) | N::Sub(a, b) | N::Mul(a, b) | N::Div(a, b) | N::Dot(a, b) | N::MatVec(a, b) | N::MatMul(a, b) | N::Bmm(a, b) => self.paths(*a) + self.paths(*b),
            N::Neg(a) | N::AddS(a, _) | N::SubS(a, _) | N::MulS(a, _) | N::DivS(a, _) | N::Reshape(a) | N::Transpose(a, _, _) | N::View(a) => self.paths(*a),
        }
    }
    fn free(&mut self) {
        // views first: they were created after what they view
        while let Some(p) = self.t.pop() { unsafe { drop(Box::from_raw(p)); } }
    }
}

fn small(rng: &mut Rng, den: bool) -> f64 {
    let v = [1.0, -1.0, 2.0, -2.0, 0.5, 3.0, -3.0, 1.5, 4.0, -0.5];
    if !den && rng.chance(1, 8) { return 0.0; }
    v[rng.below(v.len())]
}
fn rand_r(rng: &mut Rng, s: &[usize]) -> R { R { s: s.to_vec(), d: (0..prod(s)).map(|_| small(rng, true)).collect() } }

fn close(what: &str, got: &[f64], want: &[f64], eps: f64, scale: f64) -> Result<(), String> {
    if got.len() != want.len() { return Err(format!("{what}: {} elements, expected {}", got.len(), want.len())); }
    for i in 0..got.len() {
        let tol = eps * (scale.max(1.0) + want[i].abs());
        if !((got[i] - want[i]).abs() <= tol) { return Err(format!("{what}: element {i} is {}, expected {} (got {:?} expected {:?})", got[i], want[i], &got[..got.len().min(12)], &want[..want.len().min(12)])); }
    }
    Ok(())
}
fn tens<T: Fl>(r: &R) -> Tensor<'static, T> { unsafe { Tensor::from_contiguous_owned_buffer(r.s.clone(), r.d.iter().map(|&x| T::of(x)).collect()) } }
fn as_f<T: Fl>(a: &NdArray<T>) -> Vec<f64> { read(a).into_iter().map(|x| x.f()).collect() }

/// appends one random operation; None if it did not apply
fn grow<T: Fl + 'static>(g: &mut G<T>, rng: &mut Rng) -> Option<usize> {
    let nn = g.n.len();
    // prefer recent nodes
    let pick = |rng: &mut Rng| if rng.chance(1, 2) { nn - 1 - rng.below(nn.min(3)) } else { rng.below(nn) };
    let a = pick(rng);
    let b = pick(rng);
    let (va, vb) = (g.v[a].clone(), g.v[b].clone());
    let (ta, tb) = (g.get(a), g.get(b));
    let (ga, gb) = (g.grad[a], g.grad[b]);
    let bin_ok = crate::views::bshape(&va.s, &vb.s).map_or(false, |s| prod(&s) <= 200);
    let owned_form = rng.below(4);
    // an owned tensor with the same value and gradient flow as operand x
    let own = |t: &'static Tensor<'static, T>| -> Tensor<'static, T> { t + T::of(0.0) };
    macro_rules! bin { ($op:tt) => { match owned_form { 0 => own(ta) $op tb, 1 => ta $op own(tb), 2 => own(ta) $op own(tb), _ => ta $op tb } } }
    let k = small(rng, true);
    let (n, v, t, gr) = match rng.below(20) {
        0 | 1 if bin_ok => (N::Add(a, b), va.zip(&vb, |x, y| x + y), bin!(+), ga || gb),
        2 | 3 if bin_ok => (N::Sub(a, b), va.zip(&vb, |x, y| x - y), bin!(-), ga || gb),
        4 | 5 | 6 if bin_ok => (N::Mul(a, b), va.zip(&vb, |x, y| x * y), bin!(*), ga || gb),
        7 | 8 if bin_ok && vb.d.iter().all(|x| x.abs() >= 0.25) => (N::Div(a, b), va.zip(&vb, |x, y| x / y), bin!(/), ga || gb),
        9 => (N::Neg(a), va.map(|x| -x), if owned_form == 0 { -own(ta) } else { -ta }, ga),
        10 => (N::AddS(a, k), va.map(|x| x + k), if owned_form == 0 { own(ta) + T::of(k) } else { ta + T::of(k) }, ga),
        11 => (N::SubS(a, k), va.map(|x| x - k), if owned_form == 0 { own(ta) - T::of(k) } else { ta - T::of(k) }, ga),
        12 => (N::MulS(a, k), va.map(|x| x * k), if owned_form == 0 { own(ta) * T::of(k) } else { ta * T::of(k) }, ga),
        13 => (N::DivS(a, k), va.map(|x| x / k), if owned_form == 0 { own(ta) / T::of(k) } else { ta / T::of(k) }, ga),
        14 => {
            // products: find shapes that fit
            if va.s.len() == 1 && vb.s == va.s {
                let d = va.d.iter().zip(&vb.d).map(|(x, y)| x * y).sum::<f64>();
                let t = if owned_form == 0 { ta.matmul(tb) } else { ta.dot(tb) };
                (N::Dot(a, b), R { s: vec![], d: vec![d] }, t, ga || gb)
            } else if va.s.len() == 2 && vb.s.len() == 1 && va.s[1] == vb.s[0] {
                let r = mm(&va.reshape(&[1, va.s[0], va.s[1]]), &vb.reshape(&[1, vb.s[0], 1])).reshape(&[va.s[0]]);
                (N::MatVec(a, b), r, ta.matmul(tb), ga || gb)
            } else if va.s.len() == 2 && vb.s.len() == 2 && va.s[1] == vb.s[0] {
                let r = mm(&va.reshape(&[1, va.s[0], va.s[1]]), &vb.reshape(&[1, vb.s[0], vb.s[1]])).reshape(&[va.s[0], vb.s[1]]);
                (N::MatMul(a, b), r, ta.matmul(tb), ga || gb)
            } else if va.s.len() == 3 && vb.s.len() == 3 && va.s[2] == vb.s[1] && va.s[0] == vb.s[0] {
                (N::Bmm(a, b), mm(&va, &vb), ta.bmm(tb), ga || gb)
            } else { return None; }
        }
        15 if ta.is_contiguous() => {
            let f = factorizations(prod(&va.s), 3); let s = f[rng.below(f.len())].clone();
            let t = if owned_form == 0 { own(ta).reshape(s.clone()) } else { ta.reshape(s.clone()) };
            (N::Reshape(a), va.reshape(&s), t, ga)
        }
        16 if va.s.len() >= 2 => {
            let (x, y) = (rng.below(va.s.len()), rng.below(va.s.len()));
            let nd = va.s.len() as isize;
            let (ax, ay) = if rng.chance(1, 3) { (x as isize - nd, y as isize - nd) } else { (x as isize, y as isize) };
            let t = if owned_form == 0 { own(ta).transpose(ax, ay) } else if owned_form == 1 && nd == 2 && x != y { ta.T() } else { ta.transpose(ax, ay) };
            (N::Transpose(a, x, y), va.transpose(x, y), t, ga)
        }
        17 => { let t = if owned_form == 0 { own(ta).view() } else { ta.view() }; (N::View(a), va.clone(), t, ga) }
        18 if va.s.len() < 5 => {
            let x = rng.below(va.s.len() + 1);
            let mut s = va.s.clone(); s.insert(x, 1);
            let t = if owned_form == 0 { own(ta).unsqueeze(x as isize) } else { ta.unsqueeze(x as isize) };
            (N::Reshape(a), va.reshape(&s), t, ga)
        }
        19 => {
            let s: Vec<usize> = va.s.iter().copied().filter(|&n| n != 1).collect();
            let t = if owned_form == 0 { own(ta).squeeze() } else { ta.squeeze() };
            (N::Reshape(a), va.reshape(&s), t, ga)
        }
        _ => return None,
    };
    if v.max() > 1e4 || g.paths(a) + g.paths(b) > 200 { return None; }
    let text = format!("{:?}", n);
    Some(g.push(n, v, t, gr, text))
}

fn with_cotangent<T: Fl + 'static>(rng: &mut Rng, r: &R, f: impl FnOnce(&NdArray<'static, T>)) {
    // an arbitrary layout of the incoming gradient: transposed or strided copies
    let kind = [0, 0, 1, 2, 3, 4, 9][rng.below(7)];
    let s = r.s.clone();
    let mut done = false;
    let mut f = Some(f);
    if kind != 0 {
        with_layout(rng, &s, kind, &|_| T::of(0.0), |a, m, buf, _| {
            for (p, &i) in m.ids.iter().enumerate() { unsafe { *(buf as *mut T).add(i) = T::of(r.d[p]); } }
            done = true;
            (f.take().unwrap())(unsafe { std::mem::transmute::<&NdArray<T>, &NdArray<'static, T>>(&*a) })
        });
    }
    if !done { let a = owned(&s, r.d.iter().map(|&x| T::of(x)).collect()); (f.take().unwrap())(&a); }
}

fn base_shapes(rng: &mut Rng) -> Vec<Vec<usize>> {
    let (n, m, k) = (1 + rng.below(3), 1 + rng.below(4), 1 + rng.below(3));
    let fam = match rng.below(5) {
        0 => vec![vec![n, m], vec![m], vec![n, 1], vec![1, m], vec![], vec![n, m]],
        1 => vec![vec![n, m], vec![m, k], vec![k], vec![m], vec![n]],
        2 => vec![vec![2, n, m], vec![2, m, k], vec![m, k], vec![n, m], vec![1]],
        3 => vec![vec![m], vec![m], vec![1], vec![], vec![m]],
        _ => vec![vec![n, 1, k], vec![m, 1], vec![n, m, k], vec![k], vec![1, m, 1]],
    };
    fam
}

fn c16_one<T: Fl + 'static>(cx: &mut Cx, name: &str) {
    let mut rng = cx.rng.fork();
    let mut g: G<T> = G::new();
    let mut acc: Vec<R> = vec![];
    let fam = base_shapes(&mut rng);
    for s in &fam {
        let v = rand_r(&mut rng, s);
        let mut t = tens::<T>(&v);
        let req = rng.chance(4, 5);
        if req { t.set_requires_grad(true); acc.push(R { s: s.clone(), d: vec![0.0; prod(s)] }); }
        let n = N::Leaf(if req { Some(acc.len() - 1) } else { None });
        let i = g.push(n, v, t, req, format!("{} {s:?}", if req { "leaf" } else { "const" }));
        g.leafs.push(i);
    }
    let steps = 2 + rng.below(9);
    let shared = std::cell::RefCell::new((g, acc));
    let mut r2 = rng.clone();
    let seedtxt = rng.0;
    cx.case(|| format!("{name} graph over leaves {fam:?} with {steps} operations (generator state {seedtxt:x})"), || {
        let (g, acc) = &mut *shared.borrow_mut();
        for _ in 0..steps { for _ in 0..8 { if grow(g, &mut r2).is_some() { break; } } }
        let last = g.n.len() - 1;
        let before: Vec<Vec<f64>> = (0..g.n.len()).map(|i| as_f(g.get(i).ndarray())).collect();
        for i in 0..g.n.len() {
            eq("shape of a node", g.get(i).shape().to_vec(), g.v[i].s.clone()).map_err(|e| format!("node {i} {:?}: {e}", g.text))?;
        }
        let mut scale = 1.0f64;
        let what = |g: &G<T>| format!("{}", g.text.join("; "));
        for pass in 0..2 {
            let root = if pass == 0 { last } else { g.leafs.len().min(last) + r2.below(last + 1 - g.leafs.len().min(last)) };
            if !g.grad[root] { continue; }
            let ct = if r2.chance(1, 4) { R { s: g.v[root].s.clone(), d: vec![1.0; g.v[root].d.len()] } } else { rand_r(&mut r2, &g.v[root].s) };
            if ct.d.iter().all(|&x| x == 1.0) && r2.chance(1, 2) { g.get(root).backward(); }
            else { with_cotangent::<T>(&mut r2, &ct, |c| g.get(root).backward_with(c)); }
            g.vjp(root, ct, acc);
            // a stored gradient is itself a cotangent, by its value before the pass
            if pass == 1 && scale < 1e4 && r2.chance(1, 2) {
                let fits = g.leafs.iter().copied().find(|&l| matches!(g.n[l], N::Leaf(Some(_))) && g.v[l].s == g.v[root].s);
                if let Some(l) = fits {
                    let k = match g.n[l] { N::Leaf(Some(k)) => k, _ => unreachable!() };
                    let ct = acc[k].clone();
                    if ct.max() < 1e4 { g.get(root).backward_with(g.get(l).gradient().unwrap()); g.vjp(root, ct, acc); }
                }
            }
            for r in acc.iter() { scale = scale.max(r.max()); }
            for &l in &g.leafs {
                let t = g.get(l);
                match (&g.n[l], t.gradient()) {
                    (N::Leaf(Some(k)), Some(gr)) => {
                        eq("gradient shape", gr.shape().to_vec(), acc[*k].s.clone()).map_err(|e| format!("leaf {l} after pass {pass} from node {root} of [{}]: {e}", what(g)))?;
                        close("gradient", &as_f(&gr), &acc[*k].d, T::EPS, scale).map_err(|e| format!("leaf {l} after pass {pass} from node {root} of [{}]: {e}", what(g)))?;
                    }
                    (N::Leaf(Some(_)), None) => return Err(format!("leaf {l} has no gradient")),
                    (N::Leaf(None), Some(_)) => return Err(format!("constant {l} has a gradient")),
                    _ => {}
                }
            }
        }
        for i in 0..g.n.len() { eq("values unchanged by backward", as_f(g.get(i).ndarray()), before[i].clone())?; }
        Ok(())
    });
    if cx.fails.is_empty() { shared.borrow_mut().0.free(); }
}

/// every single differentiable operation, exhaustively over operand forms and small shapes
fn c16_ops<T: Fl + 'static>(cx: &mut Cx, name: &str) {
    let ss: Vec<Vec<usize>> = vec![vec![], vec![1], vec![3], vec![2, 3], vec![1, 3], vec![2, 1], vec![2, 1, 3], vec![2, 2, 3], vec![1, 1]];
    for s1 in &ss { for s2 in &ss { for op in 0..4 { for req in 1..4 {
        if cx.over() { return; }
        let bs = match crate::views::bshape(s1, s2) { Some(b) => b, None => continue };
        let mut rng = cx.rng.fork();
        cx.case(|| format!("{name} {s1:?} {} {s2:?} requires_grad ({}, {})", ["+", "-", "*", "/"][op], req & 1 != 0, req & 2 != 0), || {
            let (va, vb, ct) = (rand_r(&mut rng, s1), rand_r(&mut rng, s2), rand_r(&mut rng, &bs));
            let (mut a, mut b) = (tens::<T>(&va), tens::<T>(&vb));
            a.set_requires_grad(req & 1 != 0); b.set_requires_grad(req & 2 != 0);
            let c = match op { 0 => &a + &b, 1 => &a - &b, 2 => &a * &b, _ => &a / &b };
            eq("requires_grad", (c.requires_grad(), c.is_leaf()), (true, false))?;
            with_cotangent::<T>(&mut rng, &ct, |x| c.backward_with(x));
            let wa = match op { 0 | 1 => ct.clone(), 2 => ct.zip(&vb, |x, y| x * y), _ => ct.zip(&vb, |x, y| x / y) }.unbroadcast(s1);
            let wb = match op { 0 => ct.clone(), 1 => ct.map(|x| -x), 2 => ct.zip(&va, |x, y| x * y), _ => ct.zip(&va, |x, y| -x * y).zip(&vb, |x, y| x / (y * y)) }.unbroadcast(s2);
            if req & 1 != 0 { let g = a.gradient().unwrap(); eq("shape", g.shape().to_vec(), s1.clone())?; close("lhs gradient", &as_f(&g), &wa.d, T::EPS, wa.max())?; } else { eq("lhs", a.gradient().is_none(), true)?; }
            if req & 2 != 0 { let g = b.gradient().unwrap(); eq("shape", g.shape().to_vec(), s2.clone())?; close("rhs gradient", &as_f(&g), &wb.d, T::EPS, wb.max())?; } else { eq("rhs", b.gradient().is_none(), true)?; }
            Ok(())
        });
    } } } }
    // products
    for n in 1..4usize { for k in 1..4usize { for m in 1..4usize { for kind in 0..4 { for req in 1..4 {
        if cx.over() { return; }
        let mut rng = cx.rng.fork();
        let bt = 1 + rng.below(3);
        cx.case(|| format!("{name} {} n={n} k={k} m={m} batch={bt} requires_grad ({}, {})", ["dot", "matrix-vector", "matmul", "bmm"][kind], req & 1 != 0, req & 2 != 0), || {
            let bb = if kind == 3 { bt } else { 1 };
            let (n, m) = match kind { 0 => (1, 1), 1 => (n, 1), _ => (n, m) };
            let (ra, rb, rc) = (rand_r(&mut rng, &[bb, n, k]), rand_r(&mut rng, &[bb, k, m]), rand_r(&mut rng, &[bb, n, m]));
            let (s1, s2, s3) = match kind { 0 => (vec![k], vec![k], vec![]), 1 => (vec![n, k], vec![k], vec![n]), 2 => (vec![n, k], vec![k, m], vec![n, m]), _ => (vec![bb, n, k], vec![bb, k, m], vec![bb, n, m]) };
            let (mut a, mut b) = (tens::<T>(&ra.reshape(&s1)), tens::<T>(&rb.reshape(&s2)));
            a.set_requires_grad(req & 1 != 0); b.set_requires_grad(req & 2 != 0);
            let c = match kind { 0 => a.dot(&b), 3 => a.bmm(&b), _ => a.matmul(&b) };
            eq("shape", c.shape().to_vec(), s3.clone())?;
            with_cotangent::<T>(&mut rng, &rc.reshape(&s3), |x| c.backward_with(x));
            let (wa, wb) = (mm(&rc, &rb.transpose(1, 2)), mm(&ra.transpose(1, 2), &rc));
            if req & 1 != 0 { let g = a.gradient().unwrap(); eq("shape", g.shape().to_vec(), s1.clone())?; close("lhs gradient", &as_f(&g), &wa.d, T::EPS, wa.max())?; }
            if req & 2 != 0 { let g = b.gradient().unwrap(); eq("shape", g.shape().to_vec(), s2.clone())?; close("rhs gradient", &as_f(&g), &wb.d, T::EPS, wb.max())?; }
            Ok(())
        });
    } } } } }
}

#[cfg(feature = "c16")]
pub fn c16(cx: &mut Cx) {
    c16_ops::<f64>(cx, "f64");
    c16_ops::<f32>(cx, "f32");
    for _ in 0..cx.n(2500) { if cx.over() { return; } c16_one::<f64>(cx, "f64"); }
    for _ in 0..cx.n(400) { if cx.over() { return; } c16_one::<f32>(cx, "f32"); }
}

#[cfg(feature = "c17")]
pub fn c17(cx: &mut Cx) {
    for _ in 0..cx.n(1800) { if cx.over() { return; } c17_one::<f64>(cx, "f64"); }
    for _ in 0..cx.n(200) { if cx.over() { return; } c17_one::<f32>(cx, "f32"); }
}

fn c17_one<T: Fl + 'static>(cx: &mut Cx, name: &str) {
    let mut rng = cx.rng.fork();
    let seedtxt = rng.0;
    let steps = 4 + rng.below(14);
    let hist = std::cell::RefCell::new(String::new());
    cx.case(|| format!("{name} history of {steps} steps (generator state {seedtxt:x})"), || {
        let r = (|| -> Result<(), String> {
        let mut g: G<T> = G::new();
        let mut acc: Vec<R> = vec![];
        let fam = base_shapes(&mut rng);
        for s in fam.iter().take(4) {
            let v = rand_r(&mut rng, s);
            let t = tens::<T>(&v);
            let i = g.push(N::Leaf(None), v, t, false, "leaf".into());
            g.leafs.push(i);
        }
        // current graph node that stands for each leaf tensor (toggling creates a new one)
        let mut scale = 1.0f64;
        let fresh: Vec<Vec<f64>> = (0..g.n.len()).map(|i| as_f(g.get(i).ndarray())).collect();
        let mut values = fresh;
        // cur[l] = accumulator index of leaf l
        let mut cur: Vec<Option<usize>> = vec![None; g.leafs.len()];
        // snapshots of the graph: nodes refer to leaves by index, so toggling clones the leaf node
        let mut alias: Vec<usize> = g.leafs.clone(); // node index standing for leaf l now
        for _ in 0..steps {
            match rng.below(10) {
                0 | 1 => {
                    let l = rng.below(g.leafs.len());
                    let on = rng.chance(2, 3);
                    hist.borrow_mut().push_str(&format!("set_requires_grad(leaf {l}, {on}); "));
                    let node = g.leafs[l];
                    let t = unsafe { &mut *g.t[node] };
                    t.set_requires_grad(on);
                    if on && cur[l].is_none() {
                        acc.push(R { s: g.v[node].s.clone(), d: vec![0.0; g.v[node].d.len()] });
                        cur[l] = Some(acc.len() - 1);
                    } else if !on { cur[l] = None; }
                    eq("requires_grad as set", t.requires_grad(), on)?;
                    eq("user-created tensor is a leaf", t.is_leaf(), true)?;
                    // a fresh reference node for what is built from now on; it shares the tensor
                    let (v, p) = (g.v[node].clone(), g.t[node]);
                    g.n.push(N::Leaf(cur[l])); g.v.push(v); g.t.push(p); g.grad.push(on); g.text.push("leaf".into());
                    values.push(values[node].clone());
                    alias[l] = g.n.len() - 1;
                }
                2..=5 => {
                    // operands: leaves in their current state or results
                    let before = g.n.len();
                    let stale: Vec<usize> = (0..before).filter(|i| matches!(g.n[*i], N::Leaf(_)) && !alias.contains(i)).collect();
                    // hide stale leaf nodes: the same tensor now behaves as the current node
                    let mut made = None;
                    for _ in 0..10 {
                        let mut r3 = rng.fork();
                        if let Some(i) = grow(&mut g, &mut r3) {
                            let uses: Vec<usize> = match &g.n[i] {
                                N::Add(a, b) | N::Sub(a, b) | N::Mul(a, b) | N::Div(a, b) | N::Dot(a, b) | N::MatVec(a, b) | N::MatMul(a, b) | N::Bmm(a, b) => vec![*a, *b],
                                N::Neg(a) | N::AddS(a, _) | N::SubS(a, _) | N::MulS(a, _) | N::DivS(a, _) | N::Reshape(a) | N::Transpose(a, _, _) | N::View(a) => vec![*a],
                                N::Leaf(_) => vec![],
                            };
                            if uses.iter().any(|u| stale.contains(u)) { g.n.pop(); g.v.pop(); g.t.pop(); g.grad.pop(); g.text.pop(); continue; }
                            made = Some(i); break;
                        }
                    }
                    if let Some(i) = made {
                        hist.borrow_mut().push_str(&format!("node {i} = {:?}; ", g.n[i]));
                        let t = g.get(i);
                        eq("requires_grad of a result", t.requires_grad(), g.grad[i])?;
                        eq("is_leaf of a result", t.is_leaf(), !g.grad[i])?;
                        values.push(as_f(t.ndarray()));
                        if matches!(g.n[i], N::Mul(..) | N::Div(..) | N::Add(..) | N::Sub(..) | N::Dot(..) | N::Neg(..) | N::MulS(..) | N::DivS(..) | N::MatMul(..) | N::MatVec(..) | N::Bmm(..) | N::Transpose(..)) {
                            eq("a result stores no gradient", t.gradient().is_none(), true)?;
                        }
                        if !g.grad[i] { eq("gradient of a constant result", t.gradient().is_none(), true)?; }
                    }
                }
                6 | 7 => {
                    // old results and current leaves only
                    let cands: Vec<usize> = (0..g.n.len()).filter(|i| alias.contains(i) || !matches!(g.n[*i], N::Leaf(_))).collect();
                    let i = cands[cands.len() - 1 - rng.below(cands.len().min(6))];
                    hist.borrow_mut().push_str(&format!("backward(node {i}); "));
                    let ct = rand_r(&mut rng, &g.v[i].s);
                    with_cotangent::<T>(&mut rng, &ct, |c| g.get(i).backward_with(c));
                    g.vjp(i, ct, &mut acc);
                }
                8 => {
                    let l = rng.below(g.leafs.len());
                    hist.borrow_mut().push_str(&format!("zero_gradient(leaf {l}); "));
                    g.get(g.leafs[l]).zero_gradient();
                    if let Some(k) = cur[l] { for x in acc[k].d.iter_mut() { *x = 0.0; } }
                }
                _ => {
                    let i = rng.below(g.n.len());
                    hist.borrow_mut().push_str(&format!("detach(node {i}) used as an operand; "));
                    let d = g.get(i).detach();
                    eq("detached values", as_f(&d), values[i].clone())?;
                    eq("detached shape", d.shape().to_vec(), g.v[i].s.clone())?;
                    eq("detached array owns its memory", (d.is_view(), base_ptr(&d) == base_ptr(g.get(i).ndarray())), (false, false))?;
                    let t: Tensor<'static, T> = unsafe { Tensor::from_contiguous_owned_buffer(d.shape().to_vec(), read(&d)) };
                    eq("detached tensor", (t.requires_grad(), t.is_leaf(), t.gradient().is_none()), (false, true, true))?;
                    let v = g.v[i].clone();
                    g.push(N::Leaf(None), v, t, false, "detached".into());
                    values.push(as_f(&d));
                    alias.push(g.n.len() - 1);
                }
            }
            for r in acc.iter() { scale = scale.max(r.max()); }
            if scale > 1e9 { break; }
            for (l, &node) in g.leafs.iter().enumerate() {
                let t = g.get(node);
                match (cur[l], t.gradient()) {
                    (Some(k), Some(gr)) => {
                        eq("gradient shape", gr.shape().to_vec(), acc[k].s.clone())?;
                        close(&format!("gradient of leaf {l}"), &as_f(&gr), &acc[k].d, T::EPS, scale)?;
                    }
                    (None, None) => {}
                    (a, b) => return Err(format!("leaf {l}: requires_grad {}, gradient present {}", a.is_some(), b.is_some())),
                }
            }
            for i in 0..g.n.len() { eq("values never change", as_f(g.get(i).ndarray()), values[i].clone())?; }
        }
        Ok(())
        })();
        r.map_err(|e| format!("after [{}]: {e}", hist.borrow()))
    });
}
