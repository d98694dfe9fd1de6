#![allow(dead_code, unused_imports, unused_macros, unreachable_code, unused_variables, unused_mut)]
mod core;
mod ctor;
mod grad;
mod mem;
mod num;
mod views;
use crate::core::*;
use std::sync::atomic::Ordering;

#[global_allocator]
static ALLOC: mem::Track = mem::Track;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push(' '), c => o.push(c) } }
    o.push('"'); o
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let prop = args[1].clone();
    let (mut tier, mut seed, mut only, mut trace, mut budget) = ("quick".to_string(), 1u64, None, false, 60u64);
    let mut i = 2;
    while i < args.len() {
        match args[i].as_str() {
            "--tier" => { tier = args[i + 1].clone(); i += 1; }
            "--seed" => { seed = args[i + 1].parse().unwrap_or(1); i += 1; }
            "--only-case" => { only = Some(args[i + 1].parse().unwrap()); i += 1; }
            "--budget" => { budget = args[i + 1].parse().unwrap(); i += 1; }
            "--trace" => trace = true,
            x => panic!("unknown argument {x}"),
        }
        i += 1;
    }
    std::panic::set_hook(Box::new(|_| {}));
    // a single case that never ends is itself a failure
    std::thread::spawn(|| loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        let s = CUR_START.load(Ordering::SeqCst);
        if s != 0 && now_ms() > s + 40_000 {
            let d = CUR_DESC.lock().unwrap().clone();
            println!("FAIL case {d} :: does not terminate within 40 s");
            println!("RESULT {{\"evals\":1,\"distinct\":1,\"samples\":[],\"fails\":[{{\"case\":0,\"input\":{},\"what\":\"does not terminate within 40 s\"}}]}}", esc(&d));
            std::process::exit(1);
        }
    });
    let mut cx = Cx { rng: Rng(seed.wrapping_mul(0x1234567)), thorough: tier == "thorough", evals: 0, only, trace, distinct: Default::default(), samples: vec![], fails: vec![], deadline_ms: now_ms() + budget * 1000 };
    let f: fn(&mut Cx) = match prop.as_str() {
        #[cfg(feature = "c01")] "C01" => views::c01,
        #[cfg(feature = "c02")] "C02" => views::c02,
        #[cfg(feature = "c03")] "C03" => views::c03,
        #[cfg(feature = "c04")] "C04" => views::c04,
        #[cfg(feature = "c05")] "C05" => views::c05,
        #[cfg(feature = "c06")] "C06" => num::c06,
        #[cfg(feature = "c07")] "C07" => num::c07,
        #[cfg(feature = "c08")] "C08" => num::c08,
        #[cfg(feature = "c09")] "C09" => num::c09,
        #[cfg(feature = "c10")] "C10" => num::c10,
        #[cfg(feature = "c11")] "C11" => num::c11,
        #[cfg(feature = "c12")] "C12" => ctor::c12,
        #[cfg(feature = "c13")] "C13" => views::c13,
        #[cfg(feature = "c14")] "C14" => views::c14,
        #[cfg(feature = "c15")] "C15" => views::c15,
        #[cfg(feature = "c16")] "C16" => grad::c16,
        #[cfg(feature = "c17")] "C17" => grad::c17,
        #[cfg(feature = "c18")] "C18" => mem::c18,
        #[cfg(feature = "c19")] "C19" => views::c19,
        #[cfg(feature = "c20")] "C20" => ctor::c20,
        #[cfg(feature = "c21")] "C21" => views::c21,
        #[cfg(feature = "c22")] "C22" => ctor::c22,
        x => panic!("oracle for {x} not built in"),
    };
    f(&mut cx);
    for (id, d, m) in &cx.fails { println!("FAIL case {id} {d} :: {m}"); }
    println!("RESULT {{\"evals\":{},\"distinct\":{},\"samples\":[{}],\"fails\":[{}]}}", cx.evals, cx.distinct.len(),
        cx.samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","),
        cx.fails.iter().map(|(i, d, m)| format!("{{\"case\":{i},\"input\":{},\"what\":{}}}", esc(d), esc(m))).collect::<Vec<_>>().join(","));
    std::process::exit(if cx.fails.is_empty() { 0 } else { 1 });
}
