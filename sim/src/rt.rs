//! Per-run context and the small global API the rest of the simulator uses.
//! A run's context is shared by all simulated threads of that run; only the
//! thread that holds the scheduler token touches it.
use crate::choice::*;
use crate::disk::Disk;
use std::any::Any;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub msg: String,
}

pub struct Ctx {
    pub ch: Choices,
    pub trace_on: bool,
    pub trace: Vec<String>,
    pub hash: u64,
    pub counters: BTreeMap<&'static str, u64>,
    pub disk: Disk,
    pub clock_ns: u64,
    pub key_seed: u64,
    pub stderr: StdErr,
    /// what library code asked of the world (call, path), if it is wanted
    pub looked: Option<Vec<(&'static str, Vec<u8>)>>,
    /// what was written to standard error, then
    pub said: Vec<u8>,
    /// value every environment variable has for library code
    pub env: Option<&'static std::ffi::CStr>,
    pub viol: Option<Violation>,
    pub sched: Option<Box<crate::sched::Sched>>,
    pub sample: Option<String>,
    pub nontrivial: bool,
    pub steps: u64,
    /// goes into every generated name and value
    pub salt: String,
}

#[derive(Default)]
pub struct StdErr {
    pub bytes: u64,
    pub writes: u64,
    /// 0 = healthy, else errno
    pub errno: i32,
    /// healthy for this many writes first
    pub after: u64,
    pub short: bool,
}

thread_local! {
    static CTX: Cell<*mut Ctx> = const { Cell::new(std::ptr::null_mut()) };
    static IN_LIB: Cell<u32> = const { Cell::new(0) };
    static PAUSE: Cell<i32> = const { Cell::new(0) };
    static KEY_DRAWS: Cell<u64> = const { Cell::new(0) };
    static TID: Cell<u32> = const { Cell::new(0) };
    static SUB: Cell<Option<u64>> = const { Cell::new(None) };
    static LAST_PANIC: Cell<Option<Box<PanicInfo>>> = const { Cell::new(None) };
}

pub struct PanicInfo {
    pub loc: String,
    pub msg: String,
    pub in_lib: bool,
}

impl Ctx {
    pub fn new(ch: Choices, trace_on: bool) -> Ctx {
        Ctx {
            ch,
            trace_on,
            trace: vec![],
            hash: 0xcbf2_9ce4_8422_2325,
            counters: BTreeMap::new(),
            disk: Disk::new(),
            clock_ns: 1_000_000_000,
            key_seed: 1,
            stderr: StdErr::default(),
            looked: None,
            said: vec![],
            env: None,
            viol: None,
            sched: None,
            sample: None,
            nontrivial: false,
            steps: 0,
            salt: String::new(),
        }
    }
}

#[no_mangle]
pub extern "C" fn kxsim_pause(delta: i32) {
    let _ = PAUSE.try_with(|p| p.set(p.get() + delta));
}

pub struct Paused;
impl Drop for Paused {
    fn drop(&mut self) {
        kxsim_pause(-1)
    }
}
pub fn pause() -> Paused {
    kxsim_pause(1);
    Paused
}

pub fn set_ctx(p: *mut Ctx) {
    CTX.with(|c| c.set(p));
}
pub fn ctx_ptr() -> *mut Ctx {
    CTX.try_with(|c| c.get()).unwrap_or(std::ptr::null_mut())
}
/// true when system calls of this thread belong to the simulated world
pub fn active() -> bool {
    !ctx_ptr().is_null() && PAUSE.try_with(|p| p.get() == 0).unwrap_or(false)
}
pub fn in_lib() -> bool {
    IN_LIB.try_with(|c| c.get() > 0).unwrap_or(false)
}
#[allow(clippy::mut_from_ref)]
pub fn cx() -> &'static mut Ctx {
    let p = ctx_ptr();
    assert!(!p.is_null(), "no simulation context");
    unsafe { &mut *p }
}
pub fn tid() -> u32 {
    TID.try_with(|t| t.get()).unwrap_or(0)
}
pub fn set_tid(t: u32) {
    TID.with(|c| c.set(t));
}
pub fn next_key_word() -> u64 {
    let n = KEY_DRAWS.with(|k| {
        let v = k.get();
        k.set(v + 1);
        v
    });
    mix(&[cx().key_seed, tid() as u64, n])
}

pub fn draw(n: u32) -> u32 {
    if let Some(st) = SUB.with(|s| s.get()) {
        let mut r = Rng(st);
        let v = r.below(n as u64) as u32;
        SUB.with(|s| s.set(Some(r.0)));
        return v;
    }
    cx().ch.draw(n)
}
/// true when the run has used up its draws (every further draw is 0)
pub fn exhausted() -> bool {
    SUB.with(|s| s.get()).is_none() && cx().ch.rec.len() >= MAX_DRAWS
}
/// a draw of the run itself, even inside with_sub
pub fn main_draw(n: u32) -> u32 {
    cx().ch.draw(n)
}
/// runs f with draws of its own, so that they do not depend on the schedule
pub fn with_sub<R>(seed: u64, f: impl FnOnce() -> R) -> R {
    struct G(Option<u64>);
    impl Drop for G {
        fn drop(&mut self) {
            SUB.with(|s| s.set(self.0));
        }
    }
    let _g = G(SUB.with(|s| s.replace(Some(seed))));
    f()
}
/// true with probability num/den; false is the simple outcome
pub fn chance(num: u32, den: u32) -> bool {
    if num == 0 {
        return false;
    }
    draw(den) >= den - num
}
pub fn pick<'a, T>(xs: &'a [T]) -> &'a T {
    &xs[draw(xs.len() as u32) as usize]
}
pub fn range(lo: u32, hi: u32) -> u32 {
    lo + draw(hi - lo + 1)
}
/// small numbers likely, up to max
pub fn small(max: u32) -> u32 {
    match draw(8) {
        0 => 0,
        1 | 2 => draw(max.min(2) + 1),
        3..=5 => draw(max.min(4) + 1),
        6 => draw(max.min(9) + 1),
        _ => draw(max + 1),
    }
}
pub fn seed64() -> u64 {
    let a = draw(1 << 30) as u64;
    let b = draw(1 << 30) as u64;
    (a << 30) | b
}
pub fn span<R>(f: impl FnOnce() -> R) -> R {
    struct G;
    impl Drop for G {
        fn drop(&mut self) {
            let p = ctx_ptr();
            if !p.is_null() {
                unsafe { (*p).ch.close() }
            }
        }
    }
    if SUB.with(|s| s.get()).is_some() {
        return f();
    }
    cx().ch.open();
    let _g = G;
    f()
}

/// adds an event to the run's hash
pub fn ev(tag: &str, v: u64) {
    let c = cx();
    let mut h = c.hash;
    for b in tag.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    h = (h ^ v).wrapping_mul(0x100_0000_01b3);
    h = (h ^ (v >> 32) ^ (h >> 29)).wrapping_mul(0x100_0000_01b3);
    c.hash = h;
    c.steps += 1;
}
pub fn note(f: impl FnOnce() -> String) {
    if cx().trace_on {
        let _p = pause();
        let mut s = f();
        if s.len() > 600 {
            let mut k = 400;
            while !s.is_char_boundary(k) {
                k -= 1;
            }
            let n = s.len();
            s.truncate(k);
            s.push_str(&format!("… ({n} bytes)"));
        }
        crate::driver::stream_trace(&s);
        cx().trace.push(s);
    }
}
pub fn count(name: &'static str) {
    add(name, 1)
}
pub fn add(name: &'static str, n: u64) {
    let _p = pause();
    *cx().counters.entry(name).or_insert(0) += n;
}
pub fn delay(ns: u64) {
    let c = cx();
    c.clock_ns += ns;
    *c.counters.entry("sim_ns").or_insert(0) += ns;
}
/// describes this run for the evidence file
pub fn sample(f: impl FnOnce() -> String) {
    if cx().sample.is_none() {
        let _p = pause();
        let mut s = f();
        if s.len() > 1500 {
            let mut k = 1500;
            while !s.is_char_boundary(k) {
                k -= 1;
            }
            s.truncate(k);
            s.push('…');
        }
        cx().sample = Some(s);
    }
}

/// payload that ends a run after a violation was recorded
pub struct SimStop;
/// payload of a panic injected into a callback
pub struct Injected;

pub fn fail(class: &str, msg: impl Into<String>) -> ! {
    IN_LIB.with(|c| c.set(0));
    let c = cx();
    if c.viol.is_none() {
        c.viol = Some(Violation { class: class.to_string(), msg: msg.into() });
    }
    resume_unwind(Box::new(SimStop))
}
pub fn check(ok: bool, class: &str, msg: impl FnOnce() -> String) {
    if !ok {
        fail(class, msg())
    }
}

struct LibGuard(u32);
impl Drop for LibGuard {
    fn drop(&mut self) {
        IN_LIB.with(|c| c.set(self.0));
    }
}
/// runs library code
pub fn lib<R>(f: impl FnOnce() -> R) -> R {
    let g = LibGuard(IN_LIB.with(|c| c.replace(c.get() + 1)));
    let r = f();
    drop(g);
    r
}
/// runs harness code called back from the library
pub fn cb<R>(f: impl FnOnce() -> R) -> R {
    let _g = LibGuard(IN_LIB.with(|c| c.replace(0)));
    f()
}
/// raises the panic a faulty callback raises
pub fn inject_panic() -> ! {
    resume_unwind(Box::new(Injected))
}
/// runs library code whose callback may panic; None if that injected panic came back out
pub fn lib_catch<R>(f: impl FnOnce() -> R) -> Option<R> {
    match catch_unwind(AssertUnwindSafe(|| lib(f))) {
        Ok(r) => Some(r),
        Err(p) => {
            if p.is::<Injected>() {
                None
            } else {
                resume_unwind(p)
            }
        }
    }
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let _p = pause();
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        if std::env::var_os("KXSIM_BT").is_some() {
            eprintln!("panic at {loc}: {msg} (in_lib={})\n{}", in_lib(), std::backtrace::Backtrace::force_capture());
        }
        let pi = Box::new(PanicInfo { loc, msg, in_lib: in_lib() });
        let _ = LAST_PANIC.try_with(|l| {
            // keep the first one
            let old = l.take();
            l.set(Some(old.unwrap_or(pi)));
        });
    }));
}
pub fn take_panic() -> Option<Box<PanicInfo>> {
    LAST_PANIC.with(|l| l.take())
}

pub enum Ended {
    Ok,
    Violation(Violation),
    Harness(String),
}

/// turns the outcome of a simulated thread's body into a verdict
pub fn verdict(r: Result<(), Box<dyn Any + Send>>) -> Ended {
    let pi = take_panic();
    let v = cx().viol.clone();
    if let Some(v) = v {
        return Ended::Violation(v);
    }
    match r {
        Ok(()) => Ended::Ok,
        Err(p) => {
            if p.is::<SimStop>() {
                return Ended::Ok;
            }
            match pi {
                Some(pi) if pi.in_lib => Ended::Violation(Violation {
                    class: "panic".into(),
                    msg: format!("the library panicked at {}: {}", pi.loc, pi.msg),
                }),
                Some(pi) => Ended::Harness(format!("harness panic at {}: {}", pi.loc, pi.msg)),
                None => Ended::Harness("unexpected unwind".into()),
            }
        }
    }
}
/// marks the run as one that exercised what its property is about
pub fn nontrivial() {
    cx().nontrivial = true;
}
