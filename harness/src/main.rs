//! vh <PROP> --secs N --seed S --repo DIR --out FILE [--journal FILE] | vh replay <PROP> <hexfile>
#![allow(unexpected_cfgs, dead_code)]
mod corpus;
mod gen;
#[cfg(feature = "lrp")]
mod props;
#[cfg(feature = "lrp")]
mod props2;
#[cfg(feature = "stacks")]
#[path = "props12.rs"]
mod props;
#[cfg(feature = "chars")]
#[path = "props17.rs"]
mod props;
#[cfg(feature = "chars")]
#[path = "/repo/src/lex_state.rs"]
mod lex_state;
#[cfg(feature = "chars")]
#[path = "/repo/src/maybe_byte.rs"]
mod maybe_byte;
#[cfg(feature = "chars")]
#[path = "/repo/src/token_buf.rs"]
mod token_buf;
#[cfg(feature = "chars")]
pub use lib_ruby_parser::Bytes;
use gen::*;
use std::cell::RefCell;
use std::collections::HashSet;
use std::panic;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

thread_local! { pub static PANIC: RefCell<Option<(String, String)>> = RefCell::new(None); }

/// Ok(()) / Err(what)
pub fn eval(p: &dyn props::Prop, input: &[u8]) -> Result<(), String> {
    let r = panic::catch_unwind(panic::AssertUnwindSafe(|| p.check(input)));
    match r {
        Ok(r) => r,
        Err(_) => {
            let (loc, msg) = PANIC.with(|x| x.borrow_mut().take()).unwrap_or_default();
            p.on_panic(&loc, &msg)
        }
    }
}
fn shrink(p: &dyn props::Prop, input: Vec<u8>) -> Vec<u8> {
    let mut cur = input;
    let t0 = Instant::now();
    let mut step = (cur.len() / 2).max(1);
    while step >= 1 && t0.elapsed() < Duration::from_secs(10) {
        let mut i = 0;
        let mut changed = false;
        while i < cur.len() {
            let mut c = cur.clone();
            c.drain(i..(i + step).min(c.len()));
            if eval(p, &c).is_err() { cur = c; changed = true } else { i += step }
            if t0.elapsed() > Duration::from_secs(10) { break }
        }
        if !changed { if step == 1 { break } step /= 2 }
    }
    cur
}
pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
fn unhex(s: &str) -> Vec<u8> { let s = s.trim(); (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 || (c as u32) > 126 => { for u in c.encode_utf16(&mut [0; 2]) { o.push_str(&format!("\\u{:04x}", u)) } } c => o.push(c) }
    }
    o.push('"');
    o
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        PANIC.with(|x| *x.borrow_mut() = Some((loc, msg)));
    }));
    if a[1] == "replay" {
        let p = props::get(&a[2]);
        let t = std::fs::read_to_string(&a[3]).unwrap();
        match eval(&*p, &unhex(&t)) {
            Ok(()) => eprintln!("holds"),
            Err(e) => { eprintln!("violated: {}", e); std::process::exit(1) }
        }
        return;
    }
    let arg = |n: &str, d: &str| a.iter().position(|x| x == n).map(|i| a[i + 1].clone()).unwrap_or(d.to_string());
    let secs: f64 = arg("--secs", "10").parse().unwrap();
    let seed: u64 = arg("--seed", "1").parse().unwrap();
    let depth: usize = arg("--depth", "0").parse().unwrap();
    let out = arg("--out", "/dev/null");
    let journal = arg("--journal", "");
    let threads: usize = arg("--threads", "8").parse().unwrap();
    let known: HashSet<String> = arg("--known", "").split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    let mut cx = Ctx { dict: vec![], nums: vec![], corpus: corpus::all() };
    scan_sources(&std::path::PathBuf::from(arg("--repo", "/repo")).join("src"), &mut cx);
    let prop: Arc<dyn props::Prop> = props::get(&a[1]).into();
    let cx = Arc::new(cx);
    let known = Arc::new(known);
    let stop = Arc::new(AtomicBool::new(false));
    let evals = Arc::new(AtomicU64::new(0));
    let fails: Arc<Mutex<Vec<(Vec<u8>, String)>>> = Arc::new(Mutex::new(vec![]));
    let knownhits: Arc<Mutex<HashSet<String>>> = Arc::new(Mutex::new(HashSet::new()));
    let cur: Arc<Vec<Mutex<(Vec<u8>, Instant)>>> = Arc::new((0..threads).map(|_| Mutex::new((vec![], Instant::now()))).collect());
    // exhaustive part, sharded
    let t0 = Instant::now();
    let done = Arc::new(AtomicUsize::new(0));
    let exh = Arc::new(AtomicU64::new(0));
    let mut hs = vec![];
    for t in 0..threads {
        let journal = journal.clone();
        let (prop, cx, stop, evals, fails, cur, done, exh, known, knownhits) = (prop.clone(), cx.clone(), stop.clone(), evals.clone(), fails.clone(), cur.clone(), done.clone(), exh.clone(), known.clone(), knownhits.clone());
        hs.push(std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
            let run1 = |v: Vec<u8>| {
                { let mut c = cur[t].lock().unwrap(); c.0.clear(); c.0.extend_from_slice(&v); c.1 = Instant::now(); }
                evals.fetch_add(1, Ordering::Relaxed);
                if !journal.is_empty() { let _ = std::fs::write(format!("{}.{}", journal, t), hex(&v)); }
                if let Err(e) = eval(&*prop, &v) {
                    if let Some(k) = prop.known_class(&e).filter(|k| known.contains(k)) { knownhits.lock().unwrap().insert(k); return }
                    let mut f = fails.lock().unwrap();
                    f.push((v, e));
                    stop.store(true, Ordering::Relaxed);
                }
            };
            let mut n = 0u64;
            prop.exhaustive(&cx, depth, &mut |v| {
                n += 1;
                if n % threads as u64 == t as u64 && !stop.load(Ordering::Relaxed) { exh.fetch_add(1, Ordering::Relaxed); run1(v) }
            });
            let mut r = Rng(seed.wrapping_mul(1000003).wrapping_add(t as u64));
            while !stop.load(Ordering::Relaxed) && t0.elapsed().as_secs_f64() < secs {
                for _ in 0..16 { run1(prop.random(&mut r, &cx)) }
            }
            done.fetch_add(1, Ordering::Relaxed);
        }).unwrap());
    }
    // watchdog
    let mut hung: Option<Vec<u8>> = None;
    while done.load(Ordering::Relaxed) < threads {
        std::thread::sleep(Duration::from_millis(50));
        for c in cur.iter() {
            let c = c.lock().unwrap();
            if c.1.elapsed() > Duration::from_secs(20) && !c.0.is_empty() && done.load(Ordering::Relaxed) < threads { hung = Some(c.0.clone()) }
        }
        if hung.is_some() { break }
    }
    let mut js_f = String::from("null");
    if let Some(h) = hung {
        let e = "does not return within 20 s".to_string();
        if prop.hang_is_violation() { js_f = format!("{{\"hex\":{},\"text\":{},\"what\":{}}}", js(&hex(&h)), js(&prop.show(&h)), js(&e)); }
    } else {
        for h in hs { let _ = h.join(); }
        let f = fails.lock().unwrap();
        if let Some((v, _)) = f.iter().min_by_key(|x| x.0.len()) {
            let v = shrink(&*prop, v.clone());
            let e = eval(&*prop, &v).err().unwrap_or_default();
            js_f = format!("{{\"hex\":{},\"text\":{},\"what\":{}}}", js(&hex(&v)), js(&prop.show(&v)), js(&e));
        }
    }
    let kh: Vec<String> = knownhits.lock().unwrap().iter().map(|s| js(s)).collect();
    let s = format!("{{\"evals\":{},\"exhaustive\":{},\"bound\":{},\"seconds\":{:.1},\"dict\":{},\"known\":[{}],\"failure\":{}}}\n", evals.load(Ordering::Relaxed), exh.load(Ordering::Relaxed), js(&prop.bound(depth)), t0.elapsed().as_secs_f64(), cx.dict.len(), kh.join(","), js_f);
    std::fs::write(&out, s).unwrap();
    std::process::exit(0);
}
