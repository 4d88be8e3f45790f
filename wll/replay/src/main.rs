//! Native replay of a model found by the symbolic executor, against the real
//! crate (no stubs). Usage: replay ENTRY MODEL-FILE, where the model file holds
//! "params: …", "bytes: …", "words: …" lines of decimal numbers.
//! Exit status: 0 all checks held, 10 a check failed, 101 panic (Rust's own).
#![allow(dead_code)]
use std::sync::Mutex;
#[path = "../../../harness/src/sym.rs"]
mod sym;
#[path = "../../../harness/src/util.rs"]
mod util;
#[macro_use]
#[path = "../../harness/src/props.rs"]
mod props;

#[derive(Default)]
struct M { params: Vec<u64>, bytes: Vec<u64>, words: Vec<u64>, failed: Vec<u64>, assumed: bool, logs: Vec<u64> }
static MODEL: Mutex<M> = Mutex::new(M { params: Vec::new(), bytes: Vec::new(), words: Vec::new(), failed: Vec::new(), assumed: true, logs: Vec::new() });
#[no_mangle] extern "C" fn sym_byte(i: u64) -> u8 { MODEL.lock().unwrap().bytes.get(i as usize).copied().unwrap_or(0) as u8 }
#[no_mangle] extern "C" fn sym_word(i: u64, w: u64) -> u64 { let v = MODEL.lock().unwrap().words.get(i as usize).copied().unwrap_or(0); if w < 64 { v & ((1 << w) - 1) } else { v } }
#[no_mangle] extern "C" fn sym_assume(c: bool) { if !c { let m = MODEL.lock().unwrap(); report(&m, "assume-failed"); std::process::exit(11) } }
#[no_mangle] extern "C" fn sym_check(c: bool, id: u64) { if !c { MODEL.lock().unwrap().failed.push(id) } }
#[no_mangle] extern "C" fn sym_reach(_: u64) {}
#[no_mangle] extern "C" fn sym_param(i: u64) -> u64 { MODEL.lock().unwrap().params.get(i as usize).copied().unwrap_or(0) }
#[no_mangle] extern "C" fn sym_log(v: u64) { MODEL.lock().unwrap().logs.push(v) }
#[no_mangle] extern "C" fn sym_conc(v: u64) -> u64 { v }

fn report(m: &M, end: &str) {
    let j = |v: &[u64]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
    println!("end: {end}\nfailed: {}\nlogs: {}", j(&m.failed), j(&m.logs));
}
/// One record per line triple in the model file; runs each in a child thread so a panic ends only that record.
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&a[1]).expect("model file");
    let nums = |s: &str| s.split_whitespace().filter_map(|x| x.parse().ok()).collect::<Vec<u64>>();
    let mut bad = 0;
    let mut params: Vec<u64> = vec![];
    for rec in text.split("---\n") {
        let mut m = M { assumed: true, ..M::default() };
        let mut entry = String::new();
        for l in rec.lines() {
            let Some((k, v)) = l.split_once(':') else { continue };
            match k { "entry" => entry = v.trim().to_string(), "params" => params = nums(v), "bytes" => m.bytes = nums(v), "words" => m.words = nums(v), _ => () }
        }
        if entry.is_empty() { continue; }
        m.params = params.clone();
        *MODEL.lock().unwrap_or_else(|e| e.into_inner()) = m;
        let e2 = entry.clone();
        let r = std::thread::Builder::new().stack_size(256 << 20).spawn(move || props::run(&e2)).unwrap().join();
        let m = MODEL.lock().unwrap_or_else(|e| e.into_inner());
        match r {
            Err(_) => { report(&m, "panic"); bad += 1 },
            Ok(false) => { report(&m, "no-such-entry"); bad += 1 },
            Ok(true) => { report(&m, if m.failed.is_empty() { "ok" } else { "check-failed" }); if !m.failed.is_empty() { bad += 1 } },
        }
    }
    std::process::exit(if bad > 0 { 10 } else { 0 });
}
