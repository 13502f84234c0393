//! Runs harness entries natively on recorded inputs. stdin: one case per line,
//! `entry<TAB>tag=value<TAB>tag=value...`; stdout: one line per case.
use std::cell::RefCell;
use std::io::{BufRead, Write};
use std::panic;

#[derive(Default)]
struct Case { inputs: Vec<(String, u64)>, next: usize, obs: u64, fails: Vec<String>, covers: Vec<String>, verbose: bool }
thread_local! { static C: RefCell<Case> = RefCell::new(Case::default()); }
enum Stop { Fail(String), Assume, Mismatch(String) }
unsafe fn s<'a>(p: *const u8, l: usize) -> &'a str { std::str::from_utf8(std::slice::from_raw_parts(p, l)).unwrap() }

#[no_mangle] pub extern "C-unwind" fn sym_val(t: *const u8, l: usize, _bits: u32, max: u64) -> u64 {
    let tag = unsafe { s(t, l) };
    let r = C.with(|c| { let mut c = c.borrow_mut(); let i = c.next; c.next += 1;
        match c.inputs.get(i) { Some((n, v)) if n == tag && *v <= max => Ok(*v), Some((n, v)) => Err(format!("input {} is {}={} but the harness asks for {}<={}", i, n, v, tag, max)), None => Err(format!("input {} ({}) missing", i, tag)) } });
    match r { Ok(v) => v, Err(m) => panic::panic_any(Stop::Mismatch(m)) }
}
#[no_mangle] pub extern "C-unwind" fn sym_assume(b: bool) { if !b { panic::panic_any(Stop::Assume) } }
#[no_mangle] pub extern "C-unwind" fn sym_fail(t: *const u8, l: usize) -> ! { panic::panic_any(Stop::Fail(unsafe { s(t, l) }.to_string())) }
#[no_mangle] pub extern "C-unwind" fn sym_check(b: bool, t: *const u8, l: usize) { if !b { sym_fail(t, l) } }
#[no_mangle] pub extern "C-unwind" fn sym_cover(t: *const u8, l: usize) { C.with(|c| c.borrow_mut().covers.push(unsafe { s(t, l) }.to_string())) }
#[no_mangle] pub extern "C-unwind" fn sym_observe(v: u64) { C.with(|c| { let mut c = c.borrow_mut(); for i in 0..8 { c.obs ^= (v >> (8 * i)) & 255; c.obs = c.obs.wrapping_mul(1099511628211); } }) }
#[no_mangle] pub extern "C-unwind" fn sym_native() -> bool { C.with(|c| c.borrow().verbose) }
#[no_mangle] pub extern "C-unwind" fn sym_pin(v: u64) -> u64 { v }

fn main() {
    let verbose = std::env::args().any(|a| a == "-v");
    let loc = std::sync::Arc::new(std::sync::Mutex::new(String::new()));
    let l2 = loc.clone();
    panic::set_hook(Box::new(move |i| { *l2.lock().unwrap() = format!("{}:{} {}", i.location().map_or("?", |l| l.file()), i.location().map_or(0, |l| l.line()),
        i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default()); }));
    let out = std::io::stdout();
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap(); if line.is_empty() { continue; }
        let mut it = line.split('\t'); let entry = it.next().unwrap().to_string();
        let inputs: Vec<(String, u64)> = it.map(|p| { let k = p.rfind('=').unwrap(); (p[..k].to_string(), p[k + 1..].parse().unwrap()) }).collect();
        C.with(|c| *c.borrow_mut() = Case { inputs, obs: 1469598103934665603, verbose, ..Case::default() });
        let f = harness::ENTRIES.iter().find(|e| e.0 == entry).unwrap_or_else(|| { println!("NOENTRY {}", entry); std::process::exit(3) }).1;
        let r = panic::catch_unwind(f);
        let (obs, next, n) = C.with(|c| { let c = c.borrow(); (c.obs, c.next, c.inputs.len()) });
        let mut o = out.lock();
        match r {
            Ok(()) if next != n => writeln!(o, "MISMATCH {} of {} inputs used", next, n),
            Ok(()) => writeln!(o, "OK {}", obs),
            Err(e) => match e.downcast_ref::<Stop>() {
                Some(Stop::Fail(m)) => writeln!(o, "FAIL {}", m),
                Some(Stop::Assume) => writeln!(o, "ASSUME"),
                Some(Stop::Mismatch(m)) => writeln!(o, "MISMATCH {}", m),
                None => writeln!(o, "PANIC {}", loc.lock().unwrap().replace('\n', " ")),
            },
        }.unwrap();
        o.flush().unwrap();
    }
}
