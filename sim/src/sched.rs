//! Deterministic scheduler for real threads: exactly one runs; it gives up the
//! token only at points the scheduler chose (allocations inside library code,
//! callbacks, system calls, lock waits).
use crate::rt::*;
use std::cell::Cell;
use std::sync::{Condvar, Mutex};

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Ready,
    /// waiting on a futex word, with an optional deadline
    Wait(usize, Option<u64>),
    Done,
}

pub struct Sched {
    st: Vec<St>,
    woken_by_timeout: Vec<bool>,
    cur: usize,
    budget: u64,
    style: u32,
    pub switches: u64,
    gate: &'static (Mutex<usize>, Condvar),
}

thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
}

impl Sched {
    pub fn new(n: usize, style: u32) -> Sched {
        let gate: &'static _ = Box::leak(Box::new((Mutex::new(usize::MAX), Condvar::new())));
        Sched {
            st: vec![St::Ready; n],
            woken_by_timeout: vec![false; n],
            cur: usize::MAX,
            budget: 0,
            style,
            switches: 0,
            gate,
        }
    }
    fn ready(&self) -> Vec<usize> {
        (0..self.st.len()).filter(|i| self.st[*i] == St::Ready).collect()
    }
}

fn sched() -> Option<&'static mut Sched> {
    let p = ctx_ptr();
    if p.is_null() {
        return None;
    }
    unsafe { (*p).sched.as_deref_mut() }
}

fn draw_budget(style: u32) -> u64 {
    // 0 = run until it blocks or ends
    match style {
        0 => u64::MAX,
        1 => match main_draw(6) {
            0 => u64::MAX,
            1 => 1 + main_draw(4) as u64,
            2 => 1 + main_draw(20) as u64,
            3 => 1 + main_draw(100) as u64,
            4 => 1 + main_draw(600) as u64,
            _ => 1 + main_draw(4000) as u64,
        },
        2 => match main_draw(4) {
            0 => u64::MAX,
            _ => 1 + main_draw(12) as u64,
        },
        _ => match main_draw(3) {
            0 => u64::MAX,
            _ => 1 + main_draw(3000) as u64,
        },
    }
}

/// picks the next thread to run, hands it the token and returns it; does not
/// wait. The scheduler's state must not be read after this without the token.
fn dispatch(s: &mut Sched) -> usize {
    let mut ready = s.ready();
    if ready.is_empty() {
        // let simulated time pass until a timed wait expires
        let mut best: Option<(u64, usize)> = None;
        for (i, st) in s.st.iter().enumerate() {
            if let St::Wait(_, Some(t)) = st {
                if best.is_none_or(|b| *t < b.0) {
                    best = Some((*t, i));
                }
            }
        }
        match best {
            Some((t, i)) => {
                let now = cx().clock_ns;
                if t > now {
                    delay(t - now);
                }
                s.st[i] = St::Ready;
                s.woken_by_timeout[i] = true;
                ready.push(i);
            }
            None => {
                if s.st.iter().all(|x| *x == St::Done) {
                    release(s, usize::MAX - 1);
                    return usize::MAX - 1;
                }
                // every live thread waits for another: deadlock
                crate::driver::die_with(
                    "deadlock",
                    &format!("every running session waits for another: {:?}", s.st),
                );
            }
        }
    }
    let next = ready[main_draw(ready.len() as u32) as usize];
    if next != s.cur {
        s.switches += 1;
    }
    s.cur = next;
    s.budget = draw_budget(s.style);
    ev("run", next as u64);
    note(|| format!("-- thread {next} runs (for {} points)", if s.budget == u64::MAX { "all".into() } else { s.budget.to_string() }));
    release(s, next);
    next
}

fn release(s: &Sched, to: usize) {
    let mut g = s.gate.0.lock().unwrap();
    *g = to;
    s.gate.1.notify_all();
}

fn wait_turn(gate: &'static (Mutex<usize>, Condvar), me: usize) {
    let mut g = gate.0.lock().unwrap();
    while *g != me {
        g = gate.1.wait(g).unwrap();
    }
}

fn switch(me: usize) {
    let gate = sched().unwrap().gate;
    if dispatch(sched().unwrap()) != me {
        wait_turn(gate, me);
    }
}

fn me() -> usize {
    ME.try_with(|m| m.get()).unwrap_or(usize::MAX)
}

/// a scheduling point of the given weight
pub fn point(w: u64) {
    let me = me();
    if me == usize::MAX {
        return;
    }
    let _p = pause();
    if let Some(s) = sched() {
        if s.budget != u64::MAX {
            s.budget = s.budget.saturating_sub(w);
            if s.budget == 0 {
                add("preemptions", 1);
                switch(me);
            }
        }
    }
}
/// an allocation by library code
#[inline]
pub fn alloc_point() {
    if me() != usize::MAX && active() && in_lib() {
        point(1);
    }
}
pub fn yield_now() {
    let me = me();
    if me == usize::MAX {
        return;
    }
    let _p = pause();
    if sched().is_some() {
        switch(me);
    }
}

/// Some(result) if the simulated scheduler handled it
pub fn futex(addr: *const u32, op: i32, val: u32, timeout: *const libc::timespec) -> Option<i64> {
    let me = me();
    let cmd = op & 0x7f & !libc::FUTEX_CLOCK_REALTIME;
    if me == usize::MAX {
        if cmd == libc::FUTEX_WAIT || cmd == libc::FUTEX_WAIT_BITSET {
            // a lone simulated thread waits: nobody can wake it
            let now = unsafe { (*(addr as *const std::sync::atomic::AtomicU32)).load(std::sync::atomic::Ordering::SeqCst) };
            if now != val {
                return Some(-(libc::EAGAIN as i64));
            }
            let _p = pause();
            if timeout.is_null() {
                crate::driver::die_with("deadlock", "a single thread waits for a lock only it could release");
            }
            delay(1_000_000);
            return Some(-(libc::ETIMEDOUT as i64));
        }
        return Some(0);
    }
    let _p = pause();
    let s = sched()?;
    match cmd {
        libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
            let now = unsafe { (*(addr as *const std::sync::atomic::AtomicU32)).load(std::sync::atomic::Ordering::SeqCst) };
            if now != val {
                return Some(-(libc::EAGAIN as i64));
            }
            let deadline = if timeout.is_null() {
                None
            } else {
                let t = unsafe { (*timeout).tv_sec as u64 * 1_000_000_000 + (*timeout).tv_nsec as u64 };
                Some(if cmd == libc::FUTEX_WAIT { cx().clock_ns + t } else { t.max(cx().clock_ns) })
            };
            s.st[me] = St::Wait(addr as usize, deadline);
            s.woken_by_timeout[me] = false;
            add("lock_waits", 1);
            ev("wait", me as u64);
            note(|| format!("-- thread {me} waits for a lock"));
            switch(me);
            let s = sched()?;
            if s.woken_by_timeout[me] {
                return Some(-(libc::ETIMEDOUT as i64));
            }
            Some(0)
        }
        libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
            let mut n = 0;
            for st in s.st.iter_mut() {
                if let St::Wait(a, _) = st {
                    if *a == addr as usize && n < val as i64 {
                        *st = St::Ready;
                        n += 1;
                    }
                }
            }
            point(1);
            Some(n)
        }
        _ => None,
    }
}

/// runs the bodies as simulated threads under the scheduler; returns the panics
pub fn run_threads(style: u32, bodies: Vec<Box<dyn FnOnce() + Send>>) {
    let ctx = ctx_ptr() as usize;
    let n = bodies.len();
    let _p = pause();
    cx().sched = Some(Box::new(Sched::new(n, style)));
    let base = tid() * 16 + 1;
    let gate = sched().unwrap().gate;
    let mut hs = vec![];
    for (i, b) in bodies.into_iter().enumerate() {
        hs.push(
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn(move || {
                    set_ctx(ctx as *mut Ctx);
                    set_tid(base + i as u32);
                    let r = {
                        {
                            let _p = pause();
                            wait_turn(gate, i);
                        }
                        ME.with(|m| m.set(i));
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(b));
                        ME.with(|m| m.set(usize::MAX));
                        r
                    };
                    // still holding the token
                    let _p = pause();
                    match verdict(r) {
                        Ended::Ok => {}
                        Ended::Violation(v) => {
                            if cx().viol.is_none() {
                                cx().viol = Some(v);
                            }
                        }
                        Ended::Harness(m) => {
                            crate::driver::die_with("harness", &m);
                        }
                    }
                    let s = sched().unwrap();
                    s.st[i] = St::Done;
                    ev("done", i as u64);
                    dispatch(s);
                    set_ctx(std::ptr::null_mut());
                })
                .unwrap(),
        );
    }
    dispatch(sched().unwrap());
    for h in hs {
        let _ = h.join();
    }
    let s = cx().sched.take().unwrap();
    add("context_switches", s.switches);
}
