//! C18: allocator that checks every deallocation, and random programs over array ownership
use crate::core::*;
use redstone_ml::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicUsize, Ordering::SeqCst};

pub struct Track;
static ON: AtomicBool = AtomicBool::new(false);
static LIVE: AtomicI64 = AtomicI64::new(0);
static ERR: AtomicUsize = AtomicUsize::new(0);
static ERR_GOT: AtomicUsize = AtomicUsize::new(0);
static ERR_WANT: AtomicUsize = AtomicUsize::new(0);

const MAGIC: u64 = 0x5afe_a110_c8ed_0001;
const DEAD: u64 = 0xdead_a110_c8ed_0002;
#[repr(C)]
struct Head { magic: u64, size: u64, align: u64, tracked: u64 }
const H: usize = 64;

fn pad(l: &Layout) -> usize { H.max(l.align()) }

unsafe impl GlobalAlloc for Track {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = pad(&l);
        let full = Layout::from_size_align_unchecked(l.size() + p, p);
        let b = System.alloc(full);
        if b.is_null() { return b; }
        let u = b.add(p);
        let on = ON.load(SeqCst);
        if on { std::ptr::write_bytes(u, 0xA5, l.size()); LIVE.fetch_add(1, SeqCst); }
        *(u.sub(H) as *mut Head) = Head { magic: MAGIC, size: l.size() as u64, align: l.align() as u64, tracked: on as u64 };
        u
    }
    unsafe fn dealloc(&self, u: *mut u8, l: Layout) {
        let h = u.sub(H) as *mut Head;
        if (*h).magic == DEAD { ERR.compare_exchange(0, 2, SeqCst, SeqCst).ok(); return; }
        if (*h).magic != MAGIC { ERR.compare_exchange(0, 1, SeqCst, SeqCst).ok(); return; }
        if (*h).size != l.size() as u64 || (*h).align != l.align() as u64 {
            if ERR.compare_exchange(0, 3, SeqCst, SeqCst).is_ok() { ERR_GOT.store(l.size(), SeqCst); ERR_WANT.store((*h).size as usize, SeqCst); }
        }
        let real = Layout::from_size_align_unchecked((*h).size as usize, (*h).align as usize);
        let tracked = (*h).tracked != 0;
        if tracked { LIVE.fetch_sub(1, SeqCst); }
        (*h).magic = DEAD;
        if tracked && ON.load(SeqCst) {
            // quarantined and poisoned: later uses and frees are visible
            std::ptr::write_bytes(u, 0xDE, real.size());
            return;
        }
        let p = pad(&real);
        System.dealloc(u.sub(p), Layout::from_size_align_unchecked(real.size() + p, p));
    }
}

fn alloc_size(p: *const u8) -> Option<usize> {
    unsafe { let h = p.sub(H) as *const Head; if (*h).magic == MAGIC { Some((*h).size as usize) } else { None } }
}
fn alloc_error() -> Option<String> {
    match ERR.swap(0, SeqCst) {
        0 => None,
        1 => Some("memory freed that was never allocated (or not from its start)".into()),
        2 => Some("memory freed twice".into()),
        _ => Some(format!("buffer of {} bytes freed with a layout of {} bytes", ERR_WANT.load(SeqCst), ERR_GOT.load(SeqCst))),
    }
}
/// runs f with tracking; Err on any allocator error or on memory left behind
pub fn tracked(f: impl FnOnce() -> Result<(), String>) -> Result<(), String> {
    ERR.store(0, SeqCst);
    let start = LIVE.load(SeqCst);
    ON.store(true, SeqCst);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    ON.store(false, SeqCst);
    let r = match r { Ok(r) => r, Err(e) => Err(format!("unexpected panic: {}", panic_text(&e))) };
    let left = LIVE.load(SeqCst) - start;
    let failed = r.is_err();
    // the error text itself was allocated inside
    if let Some(e) = alloc_error() { return Err(e); }
    r?;
    if !failed && left != 0 { return Err(format!("{left} allocations never freed")); }
    Ok(())
}

trait El: NumericDataType { fn of(x: usize) -> Self; }
macro_rules! el { ($($t:ty),*) => { $( impl El for $t { fn of(x: usize) -> $t { (x % 100) as $t } } )* } }
el!(i8, u8, i16, u16, i32, u32, i64, u64, i128, u128, isize, usize, f32, f64);

struct Obj<T: El + 'static> { a: Box<NdArray<'static, T>>, m: M, root: usize, parent: Option<usize>, children: usize, vals: Vec<T>, owner: bool }

fn check<T: El>(o: &Obj<T>, roots: &[(*const T, usize)]) -> Result<(), String> {
    let (buf, _) = roots[o.root];
    let bytes = alloc_size(buf as *const u8).ok_or("the buffer of a live array was freed")?;
    let n = bytes / std::mem::size_of::<T>();
    eq("shape", o.a.shape().to_vec(), o.m.shape.clone())?;
    let g = geom(&o.a, buf);
    if let Some(x) = g.iter().find(|&&x| x < 0 || x as usize >= n) { return Err(format!("element at position {x} of a buffer of {n} elements")); }
    if o.a.is_view() == o.owner { return Err(format!("is_view() is {} for {}", o.a.is_view(), if o.owner { "the owner" } else { "a view" })); }
    if o.a.is_contiguous() {
        let s = o.a.data_slice();
        let off = (s.as_ptr() as isize - buf as isize) / std::mem::size_of::<T>() as isize;
        if off < 0 || off as usize + s.len() > n { return Err(format!("data slice {}..{} of a buffer of {n} elements", off, off + s.len() as isize)); }
        eq("data slice length", s.len(), o.a.size())?;
    }
    eq("elements", read(&o.a), o.vals.clone())
}

fn program<T: El + 'static>(rng: &mut Rng, steps: usize, log: &std::cell::RefCell<String>) -> Result<(), String> {
    let mut objs: Vec<Option<Obj<T>>> = vec![];
    let mut roots: Vec<(*const T, usize)> = vec![];
    let mut vecs: Vec<Vec<T>> = vec![];
    let mut k = 0usize;
    let add_owned = |a: NdArray<'static, T>, objs: &mut Vec<Option<Obj<T>>>, roots: &mut Vec<(*const T, usize)>| {
        let shape = a.shape().to_vec();
        let p = base_ptr(&a);
        roots.push((p, prod(&shape)));
        let vals = read(&a);
        objs.push(Some(Obj { a: Box::new(a), m: M::base(&shape), root: roots.len() - 1, parent: None, children: 0, vals, owner: true }));
    };
    let live = |objs: &Vec<Option<Obj<T>>>| -> Vec<usize> { (0..objs.len()).filter(|&i| objs[i].is_some()).collect() };
    for _ in 0..steps {
        let l = live(&objs);
        let act = if l.is_empty() { 0 } else { rng.below(16) };
        let pick = if l.is_empty() { 0 } else { l[rng.below(l.len())] };
        match act {
            0 | 1 => {
                let s = rand_shape(rng, 4, 4, 60);
                let n = prod(&s);
                let how = rng.below(6);
                log.borrow_mut().push_str(&format!("#{} = create {s:?} ({how}); ", objs.len()));
                k += 1;
                let a: NdArray<'static, T> = match how {
                    0 => { let mut v = Vec::with_capacity(n + 1 + rng.below(9)); for i in 0..n { v.push(T::of(i + k)); } unsafe { NdArray::from_contiguous_owned_buffer(s.clone(), v) } }
                    1 => NdArray::full(T::of(k), s.clone()),
                    2 => NdArray::arange(T::of(0), T::of(n.min(90))),
                    3 => { let mut v: Vec<T> = vec![]; for i in 0..n { v.push(T::of(i * 3 + k)); } unsafe { NdArray::from_contiguous_owned_buffer(s.clone(), v) } }
                    _ => unsafe { NdArray::from_contiguous_owned_buffer(s.clone(), (0..n).map(|i| T::of(i + k)).collect()) },
                };
                add_owned(a, &mut objs, &mut roots);
            }
            2..=6 => {
                // view by reference
                let (m, root, vals) = { let o = objs[pick].as_ref().unwrap(); (o.m.clone(), o.root, o.vals.clone()) };
                let contiguous = m.ids.windows(2).all(|w| w[1] == w[0] + 1);
                let op = match rand_op(rng, &m, contiguous, true) { Some(op) => op, None => continue };
                let pm = M { shape: m.shape.clone(), ids: (0..m.ids.len()).collect() };
                let sel = model_apply(&pm, &op);
                if sel.ids.is_empty() { continue; }
                log.borrow_mut().push_str(&format!("#{} = #{pick}.{op:?}; ", objs.len()));
                let a: &'static NdArray<'static, T> = unsafe { &*(objs[pick].as_ref().unwrap().a.as_ref() as *const _) };
                if matches!(op, Op::R(_)) && !a.is_uniformly_strided() { continue; }
                let v = apply(a, &op, rng.below(7));
                let nm = M { shape: sel.shape.clone(), ids: sel.ids.iter().map(|&i| m.ids[i]).collect() };
                let nv = sel.ids.iter().map(|&i| vals[i]).collect();
                objs[pick].as_mut().unwrap().children += 1;
                objs.push(Some(Obj { a: Box::new(v), m: nm, root, parent: Some(pick), children: 0, vals: nv, owner: false }));
            }
            7 | 8 => {
                // consuming view operation
                if objs[pick].as_ref().unwrap().children > 0 { continue; }
                let Obj { a, m, root, parent, children, vals, owner } = objs[pick].take().unwrap();
                let contiguous = m.ids.windows(2).all(|w| w[1] == w[0] + 1);
                let pm = M { shape: m.shape.clone(), ids: (0..m.ids.len()).collect() };
                let nd = m.shape.len();
                let a = *a;
                let (sel, v): (M, NdArray<'static, T>) = match rng.below(6) {
                    0 if nd >= 2 => { let (x, y) = (rng.below(nd), rng.below(nd)); log.borrow_mut().push_str(&format!("#{pick} = #{pick}.into transpose({x},{y}); ")); (pm.transpose(x, y), a.transpose(x as isize, y as isize)) }
                    1 => { log.borrow_mut().push_str(&format!("#{pick} = #{pick}.into squeeze(); ")); (pm.squeeze(), a.squeeze()) }
                    2 if nd < 6 => { let x = rng.below(nd + 1); log.borrow_mut().push_str(&format!("#{pick} = #{pick}.into unsqueeze({x}); ")); (pm.unsqueeze(x), a.unsqueeze(x as isize)) }
                    3 if contiguous && a.is_uniformly_strided() => { let f = factorizations(m.ids.len(), 3); let s = f[rng.below(f.len())].clone(); log.borrow_mut().push_str(&format!("#{pick} = #{pick}.into reshape({s:?}); ")); (pm.reshape(&s), a.reshape(s)) }
                    _ => { log.borrow_mut().push_str(&format!("#{pick} = #{pick}.into view(); ")); (pm.clone(), a.view()) }
                };
                let nm = M { shape: sel.shape.clone(), ids: sel.ids.iter().map(|&i| m.ids[i]).collect() };
                let nv = sel.ids.iter().map(|&i| vals[i]).collect();
                objs[pick] = Some(Obj { a: Box::new(v), m: nm, root, parent, children, vals: nv, owner });
            }
            9 => {
                let o = objs[pick].as_ref().unwrap();
                log.borrow_mut().push_str(&format!("#{} = copy of #{pick}; ", objs.len()));
                let c: NdArray<'static, T> = match rng.below(5) { 0 => o.a.clone(), 1 => o.a.flatten(), 2 => o.a.astype::<T>(), 3 => { let _ = o.a.astype::<f64>(); let _ = o.a.astype::<i16>(); o.a.clone() } _ => o.a.as_ref() + T::of(0) };
                if o.m.shape != c.shape() && c.shape() != [o.m.ids.len()] { return Err(format!("copy has shape {:?}", c.shape())); }
                eq("copied elements", read(&c), o.vals.clone())?;
                add_owned(c, &mut objs, &mut roots);
            }
            10 => {
                let o = objs[pick].as_ref().unwrap();
                if o.children > 0 { continue; }
                let contiguous = o.a.is_contiguous();
                let Obj { a, parent, vals, owner, .. } = objs[pick].take().unwrap();
                log.borrow_mut().push_str(&format!("#{pick}.into_data_vector(); "));
                if let Some(p) = parent { objs[p].as_mut().unwrap().children -= 1; }
                let r = attempt(move || a.into_data_vector());
                match (r, owner && contiguous) {
                    (Ok(v), true) => { eq("data vector", v.clone(), vals)?; vecs.push(v); }
                    (Err(_), false) => {}
                    (Ok(_), false) => return Err("into_data_vector accepted for a view or non-contiguous array".into()),
                    (Err(e), true) => return Err(format!("into_data_vector panicked: {e}")),
                }
            }
            11 => {
                // sub-array iteration: items are dropped in random order
                let o = objs[pick].as_ref().unwrap();
                if o.m.shape.is_empty() { continue; }
                let ax = rng.below(o.m.shape.len());
                log.borrow_mut().push_str(&format!("iterate #{pick} along {ax}; "));
                let a: &'static NdArray<'static, T> = unsafe { &*(o.a.as_ref() as *const _) };
                let mut items: Vec<_> = a.iter_along(ax as isize).collect();
                rng.shuffle(&mut items);
                let (buf, _) = roots[o.root];
                let n = alloc_size(buf as *const u8).ok_or("freed")? / std::mem::size_of::<T>();
                for i in &items { let own = !i.is_view(); let buf = if own { base_ptr(i) } else { buf }; let n = if own { alloc_size(buf as *const u8).ok_or("item without buffer")? / std::mem::size_of::<T>() } else { n };
                    if let Some(x) = geom(i, buf).iter().find(|&&x| x < 0 || x as usize >= n) { return Err(format!("iteration item has an element at {x} of {n}")); } }
                while let Some(x) = items.pop() { drop(x); }
                let _: Vec<T> = o.a.flatiter().collect();
            }
            12 => {
                let o = objs[pick].as_ref().unwrap();
                log.borrow_mut().push_str(&format!("reduce and combine #{pick}; "));
                let _ = o.a.max(); let _ = o.a.min();
                if !o.m.shape.is_empty() { let _ = o.a.max_along([rng.below(o.m.shape.len()) as isize]); }
                let z = o.a.as_ref() * T::of(0); drop(z);
            }
            _ => {
                // drop something nothing depends on
                let c: Vec<usize> = live(&objs).into_iter().filter(|&i| objs[i].as_ref().unwrap().children == 0).collect();
                if c.is_empty() { continue; }
                let i = c[rng.below(c.len())];
                log.borrow_mut().push_str(&format!("drop #{i}; "));
                let o = objs[i].take().unwrap();
                let (buf, _) = roots[o.root];
                if let Some(p) = o.parent { objs[p].as_mut().unwrap().children -= 1; }
                let owner = o.owner;
                drop(o.a);
                let freed = alloc_size(buf as *const u8).is_none();
                if owner != freed { return Err(format!("after dropping {}: buffer {}freed", if owner { "the owner" } else { "a view" }, if freed { "" } else { "not " })); }
            }
        }
        if let Some(e) = { let x = ERR.load(SeqCst); if x != 0 { alloc_error() } else { None } } { return Err(e); }
        for i in live(&objs) { check(objs[i].as_ref().unwrap(), &roots).map_err(|e| format!("array #{i}: {e}"))?; }
    }
    // views die before what they view
    while let Some(o) = objs.pop() { drop(o); }
    Ok(())
}

fn tensors(rng: &mut Rng, log: &std::cell::RefCell<String>) -> Result<(), String> {
    let s = rand_shape(rng, 3, 4, 40);
    let n = prod(&s);
    let mut v: Vec<f64> = Vec::with_capacity(n + rng.below(7));
    for i in 0..n { v.push(i as f64 + 1.0); }
    let mut a: Tensor<'static, f64> = unsafe { Tensor::from_contiguous_owned_buffer(s.clone(), v) };
    if rng.chance(2, 3) { a.set_requires_grad(true); }
    let want: Vec<f64> = (0..n).map(|i| i as f64 + 1.0).collect();
    log.borrow_mut().push_str(&format!("tensor {s:?} grad {}; ", a.requires_grad()));
    let scenario = rng.below(9);
    log.borrow_mut().push_str(&format!("scenario {scenario}; "));
    match scenario {
        0 => { let x = a.into_ndarray(); eq("into_ndarray", read(&x), want) }
        1 => { let rc = a.get_ndarray(); let x = a.into_ndarray(); eq("both", (read(&x), read(&rc)), (want.clone(), want)) }
        2 => { // expression outlives its operands
            let c = { let v = &a * &a; let w = v + 1.0; drop(a); w };
            c.backward();
            eq("value", read(c.ndarray()), want.iter().map(|x| x * x + 1.0).collect())
        }
        3 => { // expression over a view outlives the viewed tensor
            let c = { let v = (&a).reshape([n]); let c = &v * &v; drop(v); drop(a); c };
            let junk: Vec<Vec<f64>> = (0..4).map(|_| vec![9e9; n]).collect();
            c.backward();
            drop(junk);
            eq("value", read(c.ndarray()), want.iter().map(|x| x * x).collect())
        }
        4 => { let x = { let v = (&a).reshape([n]); let x = v.into_ndarray(); x }; drop(a); eq("array taken out of a view", read(&x), want) }
        5 => { let t = a.view(); let u = t.reshape([n]); let w = u.squeeze(); let z = w.unsqueeze(0); let y = z.into_ndarray(); eq("consumed chain", read(&y), want) }
        6 => { // consuming operations on a shared array
            let c = &a * 2.0; let d = &a * &a; let b = a.reshape([n]); let r = (read(b.ndarray()), read(c.ndarray()), read(d.ndarray())); d.backward(); drop(c);
            eq("shared", r, (want.clone(), want.iter().map(|x| 2.0 * x).collect(), want.iter().map(|x| x * x).collect()))
        }
        7 => { // transposed, shared, then consumed
            if s.len() < 2 { return Ok(()); }
            let b = a.transpose(0, 1); let d = &b * &b; let w = read(b.ndarray()); let sh = b.shape().iter().copied().filter(|&k| k != 1).collect::<Vec<_>>();
            let q = b.squeeze();
            let r = eq("squeezed", (q.shape().to_vec(), read(q.ndarray())), (sh, w));
            if d.requires_grad() { d.backward(); }
            r
        }
        _ => { let d = a.detach(); a.backward(); if a.requires_grad() { let g = a.gradient().unwrap(); eq("gradient", read(&g), vec![1.0; n])?; } drop(a); eq("detached", read(&d), want) }
    }
}

#[cfg(feature = "c18")]
pub fn c18(cx: &mut Cx) {
    for i in 0..cx.n(1600) {
        if cx.over() { return; }
        let mut rng = cx.rng.fork();
        let seedtxt = rng.0;
        let steps = 3 + rng.below(28);
        let log = std::cell::RefCell::new(String::new());
        cx.case(|| format!("ownership program {i}, {steps} steps (generator state {seedtxt:x})"), || {
            let mut r = Ok(());
            let t = tracked(|| {
                let l = std::cell::RefCell::new(String::new());
                let x = match i % 5 { 0 => program::<i32>(&mut rng, steps, &l), 1 => program::<u8>(&mut rng, steps, &l), 2 => program::<i128>(&mut rng, steps, &l), 3 => program::<f32>(&mut rng, steps, &l), _ => program::<f64>(&mut rng, steps, &l) };
                if let Err(e) = &x { ON.store(false, SeqCst); log.borrow_mut().push_str(&l.borrow()); r = Err(e.clone()); ON.store(true, SeqCst); }
                Ok(())
            });
            match (r, t) { (Err(e), _) => Err(format!("[{}]: {e}", log.borrow())), (_, Err(e)) => Err(format!("{e} (steps with --trace)")), _ => Ok(()) }
        });
    }
    for i in 0..cx.n(500) {
        if cx.over() { return; }
        let mut rng = cx.rng.fork();
        let seedtxt = rng.0;
        cx.case(|| format!("tensor ownership program {i} (generator state {seedtxt:x})"), || {
            let mut r = Ok(());
            let mut r2 = rng.clone();
            let t = tracked(|| {
                let l = std::cell::RefCell::new(String::new());
                if let Err(e) = tensors(&mut rng, &l) { ON.store(false, SeqCst); r = Err(format!("[{}]: {e}", l.borrow())); ON.store(true, SeqCst); }
                Ok(())
            });
            r?;
            if t.is_err() { let l = std::cell::RefCell::new(String::new()); let _ = tensors(&mut r2, &l); return t.map_err(|e| format!("[{}]: {e}", l.borrow())); }
            Ok(())
        });
    }
}
