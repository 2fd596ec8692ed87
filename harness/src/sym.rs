//! Primitives shared by all harnesses.  Under the symbolic executor every
//! `vf_*` function is intercepted; in the native build the same functions read
//! the recorded values of a counterexample back, so one harness source serves
//! both the symbolic run and the replay on the real code.
#![allow(static_mut_refs)]

struct Replay {
    vals: Vec<(String, u64)>,
    pos: usize,
}
static mut REPLAY: Replay = Replay { vals: Vec::new(), pos: 0 };

pub fn load_replay(path: &str) {
    let s = std::fs::read_to_string(path).expect("replay file");
    for l in s.lines() {
        if let Some(rest) = l.strip_prefix("in ") {
            let mut it = rest.rsplitn(2, ' ');
            let v: u64 = it.next().unwrap().parse().unwrap();
            let n = it.next().unwrap().to_string();
            unsafe { REPLAY.vals.push((n, v)) }
        }
    }
}

fn tag_str(p: *const u8, n: usize) -> &'static str {
    unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)) }
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn vf_sym(bits: u32, p: *const u8, n: usize) -> u64 {
    let r = unsafe { &mut REPLAY };
    if r.pos >= r.vals.len() {
        println!("REPLAY-END");
        std::process::exit(4);
    }
    let (name, v) = &r.vals[r.pos];
    r.pos += 1;
    if name != tag_str(p, n) {
        println!("REPLAY-MISMATCH want {} got {}", tag_str(p, n), name);
        std::process::exit(5);
    }
    if bits >= 64 { *v } else { *v & ((1u64 << bits) - 1) }
}
/// A value below `n`, forked into concrete cases.
#[no_mangle]
#[inline(never)]
pub extern "C" fn vf_choose(k: u64, p: *const u8, n: usize) -> u64 {
    let v = vf_sym(64, p, n);
    if v >= k {
        std::process::exit(6);
    }
    v
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn vf_assume(c: bool) {
    if !c {
        println!("REPLAY-ASSUME");
        std::process::exit(7);
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn vf_check(c: bool, p: *const u8, n: usize) {
    if !c {
        // only what the check is about
        if let Ok(l) = std::env::var("VH_PROP") {
            if !tag_str(p, n).starts_with(&l) {
                return;
            }
        }
        println!("REPRODUCED {}", tag_str(p, n));
        std::process::exit(10);
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn vf_reach(_p: *const u8, _n: usize) {
    if std::env::var("VF_TRACE").is_ok() {
        println!("reach {}", tag_str(_p, _n));
    }
}
/// Makes the value concrete on this path (forking over its feasible values).
#[no_mangle]
#[inline(never)]
pub extern "C" fn vf_concrete(v: u64) -> u64 {
    v
}
/// Ends the path quietly (outside the stated bounds).
#[no_mangle]
#[inline(never)]
pub extern "C" fn vf_done() -> ! {
    println!("REPLAY-DONE");
    std::process::exit(0);
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn vf_note(p: *const u8, n: usize, v: u64) {
    println!("note {} = {}", tag_str(p, n), v);
}
/// While set, a panic in the code under test is what the harness looks for.
#[no_mangle]
#[inline(never)]
pub extern "C" fn vf_panic_mode(_on: bool) {}

pub fn u64_(t: &'static str) -> u64 { vf_sym(64, t.as_ptr(), t.len()) }
pub fn u32_(t: &'static str) -> u32 { vf_sym(32, t.as_ptr(), t.len()) as u32 }
pub fn u8_(t: &'static str) -> u8 { vf_sym(8, t.as_ptr(), t.len()) as u8 }
pub fn bool_(t: &'static str) -> bool { vf_sym(1, t.as_ptr(), t.len()) != 0 }
pub fn choose(n: u64, t: &'static str) -> u64 {
    if let Some(v) = taped() {
        return v;
    }
    let v = vf_choose(n, t.as_ptr(), t.len());
    tape_put(v)
}
pub fn flip(t: &'static str) -> bool { choose(2, t) == 1 }
pub fn assume(c: bool) { vf_assume(c) }
pub fn check(c: bool, t: &'static str) { vf_check(c, t.as_ptr(), t.len()) }
pub fn reach(t: &'static str) { vf_reach(t.as_ptr(), t.len()) }
pub fn note(t: &'static str, v: u64) { vf_note(t.as_ptr(), t.len(), v) }
pub fn concrete(v: u64) -> u64 { vf_concrete(v) }
/// symbolic value below n, not forked
pub fn below(n: u64, t: &'static str) -> u64 {
    if let Some(v) = taped() {
        return v;
    }
    let bits = 64 - (n - 1).leading_zeros();
    let v = vf_sym(bits, t.as_ptr(), t.len());
    if !n.is_power_of_two() {
        assume(v < n);
    }
    tape_put(v)
}

/// Choices made while recording are made again in the same order while
/// playing back, so that two runs can be compared.
struct Tape {
    vals: Vec<u64>,
    pos: usize,
    mode: u8, // 0 off, 1 recording, 2 playing
}
static mut TAPE: Tape = Tape { vals: Vec::new(), pos: 0, mode: 0 };
fn taped() -> Option<u64> {
    let t = unsafe { &mut TAPE };
    if t.mode != 2 {
        return None;
    }
    t.pos += 1;
    Some(t.vals[t.pos - 1])
}
fn tape_put(v: u64) -> u64 {
    let t = unsafe { &mut TAPE };
    if t.mode == 1 {
        t.vals.push(v);
    }
    v
}
pub fn tape_record() {
    unsafe { TAPE.mode = 1 }
}
pub fn tape_play() {
    unsafe {
        TAPE.mode = 2;
        TAPE.pos = 0;
    }
}
pub fn tape_off() {
    unsafe { TAPE.mode = 0 }
}
/// Goes on where it was interrupted.
pub fn tape_resume(playing: bool) {
    unsafe { TAPE.mode = if playing { 2 } else { 1 } }
}
