//! Runs many seeded simulations in forked workers, minimises the first
//! violation, writes the replay file and the evidence.
use crate::choice::*;
use crate::rt::*;
use std::collections::{BTreeMap, HashSet};
use std::io::Write as _;
use std::sync::atomic::{AtomicPtr, AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub run: fn(),
    /// runs one after the other in one process, at most
    pub batch: u64,
    /// how cases are made and what makes one non-trivial
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
    /// probes run once, before the seeded runs; (what, known-finding key)
    pub probe: Option<fn() -> Vec<Probe>>,
}

pub struct Probe {
    pub key: &'static str,
    pub what: String,
    pub failed: bool,
}

// ---------------------------------------------------------------- shared memory

const SHM: usize = 8 << 20;
const OFF_CHOICES: usize = 4096;
const OFF_VIOL: usize = 2 << 20;
const OFF_TRACE: usize = 3 << 20;

static SHM_PTR: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());

struct Shm(*mut u8);
impl Shm {
    fn new() -> Shm {
        unsafe {
            let p = libc::mmap(
                std::ptr::null_mut(),
                SHM,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS,
                -1,
                0,
            );
            assert!(p != libc::MAP_FAILED, "mmap");
            Shm(p as *mut u8)
        }
    }
    fn word(&self, i: usize) -> &AtomicU64 {
        unsafe { &*(self.0.add(i * 8) as *const AtomicU64) }
    }
    fn clear(&self) {
        for i in 0..8 {
            self.word(i).store(0, SeqCst);
        }
    }
    fn choices(&self) -> Vec<u32> {
        let n = (self.word(1).load(SeqCst) as usize).min(MAX_DRAWS);
        unsafe { std::slice::from_raw_parts(self.0.add(OFF_CHOICES) as *const u32, n).to_vec() }
    }
    fn viol(&self) -> Option<Violation> {
        let n = self.word(2).load(SeqCst) as usize;
        if n == 0 {
            return None;
        }
        let b = unsafe { std::slice::from_raw_parts(self.0.add(OFF_VIOL), n.min(1 << 19)) };
        let s = String::from_utf8_lossy(b).into_owned();
        let (c, m) = s.split_once('\n').unwrap_or((&s, ""));
        Some(Violation { class: c.into(), msg: m.into() })
    }
    fn trace(&self) -> Vec<String> {
        let n = (self.word(3).load(SeqCst) as usize).min(4 << 20);
        let b = unsafe { std::slice::from_raw_parts(self.0.add(OFF_TRACE), n) };
        String::from_utf8_lossy(b).lines().map(|s| s.to_string()).collect()
    }
}

fn shm() -> Option<Shm> {
    let p = SHM_PTR.load(SeqCst);
    if p.is_null() {
        None
    } else {
        Some(Shm(p))
    }
}
pub fn shm_choice(at: usize, v: u32) {
    let p = SHM_PTR.load(SeqCst);
    if !p.is_null() && at < MAX_DRAWS {
        unsafe {
            *(p.add(OFF_CHOICES) as *mut u32).add(at) = v;
            (*(p.add(8) as *const AtomicU64)).store(at as u64 + 1, SeqCst);
        }
    }
}
pub fn stream_trace(s: &str) {
    if let Some(m) = shm() {
        let at = m.word(3).load(SeqCst) as usize;
        if at + s.len() + 1 < 4 << 20 {
            unsafe {
                std::ptr::copy_nonoverlapping(s.as_ptr(), m.0.add(OFF_TRACE + at), s.len());
                *m.0.add(OFF_TRACE + at + s.len()) = b'\n';
            }
            m.word(3).store((at + s.len() + 1) as u64, SeqCst);
        }
    }
}
/// ends the process with a violation that cannot be unwound (a deadlock)
pub fn die_with(class: &str, msg: &str) -> ! {
    if let Some(m) = shm() {
        let s = format!("{class}\n{msg}");
        let n = s.len().min(1 << 19);
        unsafe { std::ptr::copy_nonoverlapping(s.as_ptr(), m.0.add(OFF_VIOL), n) };
        m.word(2).store(n as u64, SeqCst);
    } else {
        eprintln!("{class}: {msg}");
    }
    unsafe { libc::_exit(42) }
}

// ---------------------------------------------------------------- one run

pub struct Outcome {
    pub end: Ended,
    pub rec: Vec<u32>,
    pub spans: Vec<(u32, u32)>,
    pub hash: u64,
    pub steps: u64,
    pub nontrivial: bool,
    pub counters: BTreeMap<&'static str, u64>,
    pub sample: Option<String>,
    pub trace: Vec<String>,
}

struct Sendable(*mut Ctx);
unsafe impl Send for Sendable {}

pub fn run_one(run: fn(), ch: Choices, trace: bool) -> Outcome {
    cpu_limit(20);
    let mut ctx = Box::new(Ctx::new(ch, trace));
    let p = Sendable(&mut *ctx);
    let h = std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            let p = p;
            set_ctx(p.0);
            set_tid(1);
            let r = std::panic::catch_unwind(|| {
                cx().key_seed = seed64();
                run()
            });
            let e = verdict(r);
            set_ctx(std::ptr::null_mut());
            e
        })
        .expect("spawn");
    let end = match h.join() {
        Ok(e) => e,
        Err(_) => Ended::Harness("run thread died".into()),
    };
    Outcome {
        end,
        hash: ctx.hash,
        steps: ctx.steps,
        nontrivial: ctx.nontrivial,
        counters: std::mem::take(&mut ctx.counters),
        sample: ctx.sample.take(),
        trace: std::mem::take(&mut ctx.trace),
        spans: std::mem::take(&mut ctx.ch.spans),
        rec: std::mem::take(&mut ctx.ch.rec),
    }
}

fn cpu_limit(secs: u64) {
    unsafe {
        let mut u: libc::rusage = std::mem::zeroed();
        libc::getrusage(libc::RUSAGE_SELF, &mut u);
        let used = (u.ru_utime.tv_sec + u.ru_stime.tv_sec) as u64;
        let l = libc::rlimit { rlim_cur: used + secs, rlim_max: libc::RLIM_INFINITY };
        libc::setrlimit(libc::RLIMIT_CPU, &l);
    }
}

// ---------------------------------------------------------------- blobs

#[derive(Default)]
struct Out(Vec<u8>);
impl Out {
    fn u(&mut self, v: u64) {
        self.0.extend_from_slice(&v.to_le_bytes());
    }
    fn s(&mut self, s: &str) {
        self.u(s.len() as u64);
        self.0.extend_from_slice(s.as_bytes());
    }
    fn v(&mut self, v: &[u32]) {
        self.u(v.len() as u64);
        for x in v {
            self.0.extend_from_slice(&x.to_le_bytes());
        }
    }
}
struct In<'a>(&'a [u8]);
impl In<'_> {
    fn u(&mut self) -> Option<u64> {
        if self.0.len() < 8 {
            return None;
        }
        let (a, b) = self.0.split_at(8);
        self.0 = b;
        Some(u64::from_le_bytes(a.try_into().unwrap()))
    }
    fn s(&mut self) -> Option<String> {
        let n = self.u()? as usize;
        if self.0.len() < n {
            return None;
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Some(String::from_utf8_lossy(a).into_owned())
    }
    fn v(&mut self) -> Option<Vec<u32>> {
        let n = self.u()? as usize;
        if self.0.len() < n * 4 {
            return None;
        }
        let (a, b) = self.0.split_at(n * 4);
        self.0 = b;
        Some(a.chunks(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect())
    }
}

fn write_all(fd: i32, mut b: &[u8]) {
    while !b.is_empty() {
        let n = unsafe { libc::write(fd, b.as_ptr() as *const _, b.len()) };
        if n <= 0 {
            break;
        }
        b = &b[n as usize..];
    }
}

struct Child {
    pid: i32,
    fd: i32,
    shm: Shm,
    buf: Vec<u8>,
    start: u64,
    n: u64,
    last: (u64, Instant),
}

fn spawn_child(shm: Shm, start: u64, n: u64, body: impl FnOnce() -> Vec<u8>) -> Child {
    shm.clear();
    shm.word(0).store(start, SeqCst);
    let mut fds = [0i32; 2];
    unsafe {
        assert!(libc::pipe(fds.as_mut_ptr()) == 0, "pipe");
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::close(fds[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let l = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &l);
            SHM_PTR.store(shm.0, SeqCst);
            let b = body();
            write_all(fds[1], &b);
            libc::close(fds[1]);
            libc::_exit(0);
        }
        libc::close(fds[1]);
        Child { pid, fd: fds[0], shm, buf: vec![], start, n, last: (start, Instant::now()) }
    }
}

enum Exit {
    Done,
    Fatal(Violation),
    /// by the operating system, or for lack of progress
    Killed,
    Harness(String),
}

fn reap(c: &Child) -> Exit {
    let mut st = 0;
    unsafe { libc::waitpid(c.pid, &mut st, 0) };
    if libc::WIFEXITED(st) {
        match libc::WEXITSTATUS(st) {
            0 => Exit::Done,
            42 => match c.shm.viol() {
                Some(v) if v.class == "harness" => Exit::Harness(v.msg),
                Some(v) => Exit::Fatal(v),
                None => Exit::Harness("worker gave no reason".into()),
            },
            x => Exit::Harness(format!("worker exited with {x}")),
        }
    } else {
        let s = libc::WTERMSIG(st);
        match s {
            libc::SIGXCPU => Exit::Fatal(Violation {
                class: "hang".into(),
                msg: "the run used 20 s of CPU without ending".into(),
            }),
            libc::SIGSEGV | libc::SIGABRT | libc::SIGBUS | libc::SIGILL | libc::SIGFPE | libc::SIGTRAP => {
                Exit::Fatal(Violation { class: "crash".into(), msg: format!("the process died with signal {s}") })
            }
            libc::SIGKILL => Exit::Killed,
            _ => Exit::Harness(format!("worker was killed by signal {s}")),
        }
    }
}

/// waits until some child has data or ended; returns the index of one that closed its pipe
fn pump(cs: &mut [Child], ms: i32) -> Option<usize> {
    let mut p: Vec<libc::pollfd> =
        cs.iter().map(|c| libc::pollfd { fd: c.fd, events: libc::POLLIN, revents: 0 }).collect();
    unsafe { libc::poll(p.as_mut_ptr(), p.len() as u64, ms) };
    for (i, f) in p.iter().enumerate() {
        if f.revents != 0 {
            let mut b = [0u8; 65536];
            let n = unsafe { libc::read(f.fd, b.as_mut_ptr() as *mut _, b.len()) };
            if n > 0 {
                cs[i].buf.extend_from_slice(&b[..n as usize]);
            } else {
                unsafe { libc::close(f.fd) };
                return Some(i);
            }
        }
    }
    // a worker that makes no progress in real time
    for c in cs.iter_mut() {
        let r = c.shm.word(0).load(SeqCst);
        if r != c.last.0 {
            c.last = (r, Instant::now());
        } else if c.last.1.elapsed() > Duration::from_secs(100) {
            unsafe { libc::kill(c.pid, libc::SIGKILL) };
            c.last.1 = Instant::now();
        }
    }
    None
}

const STALL: &str = "the run waits for something that never happens (no progress for 100 s, twice)";

/// the result of one run in a process of its own
struct Solo {
    class: Option<String>,
    msg: String,
    rec: Vec<u32>,
    spans: Vec<(u32, u32)>,
    trace: Vec<String>,
    hash: u64,
}

fn solo(run: fn(), prefix: &[u64], ch: Choices, trace: bool) -> Result<Solo, String> {
    let c = spawn_child(Shm::new(), 0, 1, || {
        for s in prefix {
            run_one(run, Choices::from_seed(*s), false);
        }
        if let Some(m) = shm() {
            m.word(1).store(0, SeqCst);
        }
        let o = run_one(run, ch, trace);
        let mut b = Out::default();
        match &o.end {
            Ended::Ok => b.u(0),
            Ended::Violation(v) => {
                b.u(1);
                b.s(&v.class);
                b.s(&v.msg);
            }
            Ended::Harness(m) => {
                b.u(2);
                b.s(m);
            }
        }
        b.u(o.hash);
        b.v(&o.rec);
        b.v(&o.spans.iter().flat_map(|s| [s.0, s.1]).collect::<Vec<_>>());
        b.u(o.trace.len() as u64);
        for t in &o.trace {
            b.s(t);
        }
        b.0
    });
    let mut cs = [c];
    while pump(&mut cs, 1000).is_none() {}
    let c = &cs[0];
    let r = match reap(c) {
        Exit::Fatal(v) => Ok(Solo {
            class: Some(v.class),
            msg: v.msg,
            rec: c.shm.choices(),
            spans: vec![],
            trace: c.shm.trace(),
            hash: 0,
        }),
        Exit::Harness(m) => Err(m),
        Exit::Killed => Ok(Solo {
            class: Some("stall".into()),
            msg: STALL.into(),
            rec: c.shm.choices(),
            spans: vec![],
            trace: c.shm.trace(),
            hash: 0,
        }),
        Exit::Done => (|| {
            let mut i = In(&c.buf);
            let (class, msg) = match i.u()? {
                0 => (None, String::new()),
                1 => (Some(i.s()?), i.s()?),
                _ => return Some(Err(i.s()?)),
            };
            let hash = i.u()?;
            let rec = i.v()?;
            let spans = i.v()?.chunks(2).map(|c| (c[0], c[1])).collect();
            let n = i.u()?;
            let mut trace = vec![];
            for _ in 0..n {
                trace.push(i.s()?);
            }
            Some(Ok(Solo { class, msg, rec, spans, trace, hash }))
        })()
        .unwrap_or_else(|| Err("worker's answer is cut short".into())),
    };
    unsafe { libc::munmap(c.shm.0 as *mut _, SHM) };
    r
}

// ---------------------------------------------------------------- exploration

#[derive(Default)]
pub struct Totals {
    runs: u64,
    steps: u64,
    nontrivial: HashSet<u64>,
    hashes: HashSet<u64>,
    counters: BTreeMap<String, u64>,
    samples: Vec<String>,
}

pub struct Found {
    run: u64,
    batch_start: u64,
    v: Violation,
    rec: Vec<u32>,
}

fn batch(run: fn(), base: u64, start: u64, n: u64, deadline: Instant, want_samples: bool) -> Vec<u8> {
    let mut b = Out::default();
    let mut counters: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut hashes = vec![];
    let mut samples = vec![];
    let mut steps = 0;
    let mut viol = None;
    let slow: Option<u128> = std::env::var("KXSIM_SLOW").ok().and_then(|s| s.parse().ok());
    for k in 0..n {
        let idx = start + k;
        if let Some(m) = shm() {
            m.word(1).store(0, SeqCst);
            m.word(0).store(idx, SeqCst);
        }
        let t0 = Instant::now();
        let o = run_one(run, Choices::from_seed(run_seed(base, idx)), false);
        if slow.is_some_and(|ms| t0.elapsed().as_millis() >= ms) {
            eprintln!("slow: run {idx} took {} ms", t0.elapsed().as_millis());
        }
        steps += o.steps;
        for (n, v) in &o.counters {
            *counters.entry(n).or_insert(0) += v;
        }
        hashes.push((o.hash, o.nontrivial));
        if want_samples && samples.len() < 3 {
            if let Some(s) = o.sample {
                samples.push(s);
            }
        }
        match o.end {
            Ended::Ok => {}
            Ended::Violation(v) => {
                viol = Some((idx, v, o.rec));
                break;
            }
            Ended::Harness(m) => die_with("harness", &format!("run {idx}: {m}")),
        }
        if Instant::now() >= deadline {
            break;
        }
    }
    b.u(hashes.len() as u64);
    for (h, nt) in hashes {
        b.u(h);
        b.u(nt as u64);
    }
    b.u(steps);
    b.u(counters.len() as u64);
    for (n, v) in counters {
        b.s(n);
        b.u(v);
    }
    b.u(samples.len() as u64);
    for s in samples {
        b.s(&s);
    }
    match viol {
        None => b.u(0),
        Some((i, v, rec)) => {
            b.u(1);
            b.u(i);
            b.s(&v.class);
            b.s(&v.msg);
            b.v(&rec);
        }
    }
    b.0
}

pub fn run_seed(base: u64, idx: u64) -> u64 {
    mix(&[base, idx])
}

fn absorb(buf: &[u8], t: &mut Totals) -> Option<Option<(u64, Violation, Vec<u32>)>> {
    let mut i = In(buf);
    let n = i.u()?;
    for _ in 0..n {
        let h = i.u()?;
        let nt = i.u()?;
        t.hashes.insert(h);
        if nt != 0 {
            t.nontrivial.insert(h);
        }
        t.runs += 1;
    }
    t.steps += i.u()?;
    for _ in 0..i.u()? {
        let n = i.s()?;
        *t.counters.entry(n).or_insert(0) += i.u()?;
    }
    for _ in 0..i.u()? {
        let s = i.s()?;
        if t.samples.len() < 5 {
            t.samples.push(s);
        }
    }
    if i.u()? == 0 {
        return Some(None);
    }
    let idx = i.u()?;
    let v = Violation { class: i.s()?, msg: i.s()? };
    Some(Some((idx, v, i.v()?)))
}

fn explore(p: &Prop, base: u64, secs: f64, min_runs: u64, max_runs: u64, t: &mut Totals) -> Result<Option<Found>, String> {
    let workers = std::env::var("KXSIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8usize);
    let t0 = Instant::now();
    let end = t0 + Duration::from_secs_f64(secs);
    let hard = t0 + Duration::from_secs_f64(secs * 3.0 + 120.0);
    let mut next = 0u64;
    let mut free: Vec<Shm> = (0..workers).map(|_| Shm::new()).collect();
    let mut cs: Vec<Child> = vec![];
    let mut found: Option<Found> = None;
    let mut bn = 25u64;
    let mut err = None;
    // runs at which a worker was killed, and batches to repeat
    let mut killed: Vec<u64> = vec![];
    let mut again: Vec<(u64, u64)> = vec![];
    loop {
        let now = Instant::now();
        let more = err.is_none()
            && found.is_none()
            && next < max_runs
            && now < hard
            && (now < end || next < min_runs);
        if (more || (!again.is_empty() && err.is_none() && found.is_none())) && !free.is_empty() {
            let s = free.pop().unwrap();
            let (start, n) = again.pop().unwrap_or_else(|| {
                let n = bn.min(max_runs - next);
                next += n;
                (next - n, n)
            });
            let run = p.run;
            // below the minimum the time limit does not cut a batch short
            let dl = if start < min_runs { hard } else { end };
            cs.push(spawn_child(s, start, n, || batch(run, base, start, n, dl, start < 100)));
            continue;
        }
        if cs.is_empty() {
            break;
        }
        if let Some(i) = pump(&mut cs, 1000) {
            let c = cs.swap_remove(i);
            let dur = c.last.1.elapsed();
            let _ = dur;
            match reap(&c) {
                Exit::Done => match absorb(&c.buf, t) {
                    None => err = Some("a worker's answer is cut short".into()),
                    Some(None) => {}
                    Some(Some((run, v, rec))) => {
                        if found.as_ref().is_none_or(|f| run < f.run) {
                            found = Some(Found { run, batch_start: c.start, v, rec });
                        }
                    }
                },
                Exit::Fatal(v) => {
                    let run = c.shm.word(0).load(SeqCst);
                    if found.as_ref().is_none_or(|f| run < f.run) {
                        found = Some(Found { run, batch_start: c.start, v, rec: c.shm.choices() });
                    }
                }
                Exit::Killed => {
                    let run = c.shm.word(0).load(SeqCst);
                    eprintln!("note: a worker was killed in run {run}");
                    if killed.contains(&run) {
                        let v = Violation { class: "stall".into(), msg: STALL.into() };
                        found = Some(Found { run, batch_start: c.start, v, rec: c.shm.choices() });
                    } else if killed.len() >= 6 {
                        err = Some("workers are killed again and again".into());
                    } else {
                        killed.push(run);
                        again.push((c.start, c.n));
                    }
                }
                Exit::Harness(m) => err = Some(m),
            }
            free.push(c.shm);
            // aim at batches of about a second
            let rate = t.runs as f64 / t0.elapsed().as_secs_f64().max(0.01) / workers as f64;
            bn = (rate as u64).clamp(10, p.batch);
        }
    }
    for s in free {
        unsafe { libc::munmap(s.0 as *mut _, SHM) };
    }
    match (found, err) {
        (Some(f), _) => Ok(Some(f)),
        (None, Some(e)) => Err(e),
        (None, None) => Ok(None),
    }
}

// ---------------------------------------------------------------- minimisation

fn shrink(run: fn(), class: &str, start: Solo, secs: u64) -> (Solo, u64) {
    let end = Instant::now() + Duration::from_secs(secs);
    let mut best = start;
    let mut tries = 0u64;
    let costly = class == "hang" || class == "stall";
    let attempt = |cand: &[u32], best: &mut Solo, tries: &mut u64| -> bool {
        if Instant::now() >= end || (costly && *tries > if class == "stall" { 0 } else { 6 }) {
            return false;
        }
        *tries += 1;
        match solo(run, &[], Choices::from_list(cand), false) {
            Ok(s) if s.class.as_deref() == Some(class) => {
                let better = s.rec.len() < best.rec.len() || (s.rec.len() == best.rec.len() && s.rec < best.rec);
                if better {
                    *best = s;
                    return true;
                }
                false
            }
            _ => false,
        }
    };
    loop {
        let before = best.rec.clone();
        // shorten the tail
        let mut cut = best.rec.len() / 2;
        while cut > 0 {
            let n = best.rec.len().saturating_sub(cut);
            let c = best.rec[..n].to_vec();
            if !attempt(&c, &mut best, &mut tries) {
                cut /= 2;
            }
            cut = cut.min(best.rec.len());
        }
        // drop whole spans, the longest first
        let mut tried: HashSet<(u32, u32, usize)> = HashSet::new();
        loop {
            let mut sp = best.spans.clone();
            sp.sort_by_key(|s| std::cmp::Reverse(s.1 - s.0));
            let mut hit = false;
            for s in sp {
                if !tried.insert((s.0, s.1, best.rec.len())) {
                    continue;
                }
                if (s.1 as usize) > best.rec.len() {
                    continue;
                }
                let mut c = best.rec[..s.0 as usize].to_vec();
                c.extend_from_slice(&best.rec[s.1 as usize..]);
                if attempt(&c, &mut best, &mut tries) {
                    hit = true;
                    break;
                }
                let mut c = best.rec.clone();
                for x in &mut c[s.0 as usize..s.1 as usize] {
                    *x = 0;
                }
                if c != best.rec && attempt(&c, &mut best, &mut tries) {
                    hit = true;
                    break;
                }
            }
            if !hit || Instant::now() >= end {
                break;
            }
        }
        // drop and zero chunks
        for size in [32usize, 8, 3, 2, 1] {
            let mut i = 0;
            while i < best.rec.len() && Instant::now() < end {
                let j = (i + size).min(best.rec.len());
                let mut c = best.rec[..i].to_vec();
                c.extend_from_slice(&best.rec[j..]);
                if attempt(&c, &mut best, &mut tries) {
                    continue;
                }
                if best.rec[i..j].iter().any(|x| *x != 0) {
                    let mut c = best.rec.clone();
                    for x in &mut c[i..j] {
                        *x = 0;
                    }
                    attempt(&c, &mut best, &mut tries);
                }
                i += size;
            }
        }
        // lower single values
        let mut i = 0;
        while i < best.rec.len() && Instant::now() < end {
            let mut lo = 0;
            while i < best.rec.len() && best.rec[i] > lo {
                let v = best.rec[i];
                let m = lo + (v - lo) / 2;
                let mut c = best.rec.clone();
                c[i] = m;
                if !attempt(&c, &mut best, &mut tries) {
                    lo = m + 1;
                }
                if Instant::now() >= end {
                    break;
                }
            }
            i += 1;
        }
        if best.rec == before || Instant::now() >= end || (costly && tries > 6) {
            break;
        }
    }
    (best, tries)
}

// ---------------------------------------------------------------- replay files

struct Replay {
    prop: String,
    class: String,
    msg: String,
    seed: u64,
    run: u64,
    prefix: Vec<u64>,
    choices: Option<Vec<u32>>,
}

fn save_replay(path: &str, r: &Replay, trace: &[String], note: &str) {
    let mut s = String::new();
    s.push_str("kxsim replay 1\n");
    s.push_str(&format!("property={}\nclass={}\nmessage={}\n", r.prop, r.class, r.msg.replace('\n', "\\n")));
    s.push_str(&format!("seed={}\nrun={}\n", r.seed, r.run));
    if !note.is_empty() {
        s.push_str(&format!("note={note}\n"));
    }
    if !r.prefix.is_empty() {
        s.push_str(&format!(
            "prefix={}\n",
            r.prefix.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
        ));
    }
    if let Some(c) = &r.choices {
        s.push_str(&format!("choices={}\n", c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")));
    }
    s.push_str("--- trace\n");
    for t in trace {
        s.push_str(t);
        s.push('\n');
    }
    s.push_str(&format!("violated: {}: {}\n", r.class, r.msg));
    let _ = std::fs::create_dir_all(std::path::Path::new(path).parent().unwrap());
    std::fs::write(path, s).expect("write replay file");
}

fn load_replay(path: &str) -> Option<Replay> {
    let s = std::fs::read_to_string(path).ok()?;
    let mut r = Replay {
        prop: String::new(),
        class: String::new(),
        msg: String::new(),
        seed: 0,
        run: 0,
        prefix: vec![],
        choices: None,
    };
    for l in s.lines() {
        if l.starts_with("---") {
            break;
        }
        if let Some((k, v)) = l.split_once('=') {
            match k {
                "property" => r.prop = v.into(),
                "class" => r.class = v.into(),
                "message" => r.msg = v.into(),
                "seed" => r.seed = v.parse().ok()?,
                "run" => r.run = v.parse().ok()?,
                "prefix" => r.prefix = v.split(',').filter_map(|x| x.parse().ok()).collect(),
                "choices" => {
                    r.choices = Some(v.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect())
                }
                _ => {}
            }
        }
    }
    Some(r)
}

fn replay_run(p: &Prop, r: &Replay) -> Result<Solo, String> {
    let base = base_seed(r.seed, p.id);
    let prefix: Vec<u64> = r.prefix.iter().map(|i| run_seed(base, *i)).collect();
    let ch = match &r.choices {
        Some(c) => Choices::from_list(c),
        None => Choices::from_seed(run_seed(base, r.run)),
    };
    solo(p.run, &prefix, ch, true)
}

pub fn replay(props: &[Prop], path: &str) -> i32 {
    let Some(r) = load_replay(path) else {
        println!("cannot read replay file {path}");
        return 2;
    };
    let Some(p) = props.iter().find(|p| p.id == r.prop) else {
        println!("unknown property {}", r.prop);
        return 2;
    };
    match replay_run(p, &r) {
        Err(m) => {
            println!("simulator error: {m}");
            2
        }
        Ok(s) => {
            for t in &s.trace {
                println!("{t}");
            }
            match s.class {
                Some(c) if c == r.class => {
                    println!("violated: {c}: {}", s.msg);
                    println!("trace hash {:016x}", s.hash);
                    println!("VIOLATION property={} replay={path}", p.id);
                    1
                }
                Some(c) => {
                    println!("a different violation: {c}: {}", s.msg);
                    println!("VIOLATION property={} replay={path}", p.id);
                    1
                }
                None => {
                    println!("no violation: the run in {path} passes");
                    0
                }
            }
        }
    }
}

fn base_seed(seed: u64, id: &str) -> u64 {
    mix(&[seed, hash_str(id)])
}

// ---------------------------------------------------------------- check

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn known(root: &str, prop: &str) -> Vec<(String, String)> {
    let s = std::fs::read_to_string(format!("{root}/KNOWN_FINDINGS.txt")).unwrap_or_default();
    let mut out = vec![];
    for l in s.lines() {
        // known: property=<id> key=<key> <what>
        if let Some(r) = l.strip_prefix("known: ") {
            let mut it = r.splitn(3, ' ');
            let a = it.next().unwrap_or("");
            let b = it.next().unwrap_or("");
            let c = it.next().unwrap_or("");
            if a == format!("property={prop}") {
                out.push((b.trim_start_matches("key=").to_string(), c.to_string()));
            }
        }
    }
    out
}

pub fn check(props: &[Prop], id: &str, tier: &str, root: &str) -> i32 {
    let Some(p) = props.iter().find(|p| p.id == id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let quick = tier != "thorough";
    let envf = |n: &str| std::env::var(n).ok().and_then(|s| s.parse::<f64>().ok());
    let secs = envf("KXSIM_SECS").unwrap_or(if quick { 25.0 } else { 480.0 });
    let min_runs = envf("KXSIM_MIN").unwrap_or(if quick { 3000.0 } else { 30000.0 }) as u64;
    let max_runs = envf("KXSIM_MAX").unwrap_or(1e15) as u64;
    let base = base_seed(seed, id);
    let t0 = Instant::now();
    let mut probe_fail: Option<Probe> = None;
    let mut probes = 0;
    let mut known_lines = vec![];
    if let Some(f) = p.probe {
        let kf = known(root, id);
        for pr in f() {
            probes += 1;
            if pr.failed {
                match kf.iter().find(|k| k.0 == pr.key) {
                    Some(k) => {
                        let l = format!("KNOWN-FINDING: property={id} {}", k.1);
                        println!("{l}");
                        known_lines.push(l);
                    }
                    None => probe_fail = Some(pr),
                }
            }
        }
    }
    let mut t = Totals::default();
    let found = match explore(p, base, secs, min_runs, max_runs, &mut t) {
        Ok(f) => f,
        Err(m) => {
            eprintln!("simulator error: {m}");
            return 2;
        }
    };
    let explored = t0.elapsed().as_secs_f64();
    // the same seeds again, in another order and in another process
    let again: Vec<u64> = (0..20.min(t.runs)).collect();
    let mut same = 0;
    if found.is_none() {
        for i in again.iter().rev() {
            if let Ok(s) = solo(p.run, &[], Choices::from_seed(run_seed(base, *i)), false) {
                if t.hashes.contains(&s.hash) {
                    same += 1;
                }
            }
        }
        if same != again.len() {
            eprintln!("note: {} of {} repeated seeds took another course", again.len() - same, again.len());
        }
    }
    let mut code = 0;
    let mut nviol = 0;
    let mut extra = String::new();
    if let Some(pr) = probe_fail {
        let path = format!("{root}/replays/{id}.txt");
        let r = Replay {
            prop: id.into(),
            class: "probe".into(),
            msg: pr.what.clone(),
            seed,
            run: 0,
            prefix: vec![],
            choices: None,
        };
        save_replay(&path, &r, &[], "a fixed probe, run again by the check");
        println!("{}", pr.what);
        println!("VIOLATION property={id} replay={path}");
        code = 1;
        nviol = 1;
    } else if let Some(f) = found {
        nviol = 1;
        code = 1;
        println!("run {} (seed {}): {}: {}", f.run, seed, f.v.class, first_line(&f.v.msg));
        let path = format!("{root}/replays/{id}.txt");
        let full = solo(p.run, &[], Choices::from_list(&f.rec), false);
        let mut r = Replay {
            prop: id.into(),
            class: f.v.class.clone(),
            msg: f.v.msg.clone(),
            seed,
            run: f.run,
            prefix: vec![],
            choices: Some(f.rec.clone()),
        };
        let mut note = String::new();
        let mut trace = vec![];
        let mut tries = 0;
        let full_len = f.rec.len();
        match full {
            Ok(s) if s.class.as_deref() == Some(f.v.class.as_str()) => {
                let lim = if quick { 30 } else { 60 };
                let s = if s.spans.is_empty() && f.v.class != "hang" {
                    s
                } else {
                    let (b, n) = shrink(p.run, &f.v.class, s, lim);
                    tries = n;
                    b
                };
                r.choices = Some(s.rec.clone());
                r.msg = s.msg.clone();
                if let Ok(s) = solo(p.run, &[], Choices::from_list(&s.rec), true) {
                    trace = s.trace;
                }
            }
            _ => {
                // depends on what ran before it in the same process
                r.choices = None;
                let all: Vec<u64> = (f.batch_start..f.run).collect();
                r.prefix = all.clone();
                let repro = |pre: &[u64]| -> Option<Solo> {
                    let q = Replay {
                        prop: id.into(),
                        class: String::new(),
                        msg: String::new(),
                        seed,
                        run: f.run,
                        prefix: pre.to_vec(),
                        choices: None,
                    };
                    replay_run(p, &q).ok().filter(|s| s.class.as_deref() == Some(f.v.class.as_str()))
                };
                if let Some(s) = repro(&all) {
                    trace = s.trace;
                    r.msg = s.msg;
                    // fewer runs before it
                    let mut pre = all;
                    let end = Instant::now() + Duration::from_secs(40);
                    let mut size = pre.len().div_ceil(2).max(1);
                    while !pre.is_empty() && Instant::now() < end {
                        let mut hit = false;
                        let mut i = 0;
                        while i < pre.len() && Instant::now() < end {
                            let mut c = pre[..i].to_vec();
                            c.extend_from_slice(&pre[(i + size).min(pre.len())..]);
                            tries += 1;
                            if let Some(s) = repro(&c) {
                                pre = c;
                                trace = s.trace;
                                r.msg = s.msg;
                                hit = true;
                            } else {
                                i += size;
                            }
                        }
                        if !hit {
                            if size == 1 {
                                break;
                            }
                            size = size.div_ceil(2);
                        }
                    }
                    r.prefix = pre;
                    note = "this run fails only after the runs listed as prefix, in the same process".into();
                } else {
                    note = "did not fail again when repeated: the code under test keeps state or races in a way the simulator does not control".into();
                }
            }
        }
        save_replay(&path, &r, &trace, &note);
        // confirm from the file, in a fresh process
        let ok = std::env::current_exe()
            .ok()
            .and_then(|e| std::process::Command::new(e).arg("replay").arg(&path).output().ok())
            .map(|o| o.status.code() == Some(1))
            .unwrap_or(false);
        if let Some(c) = &r.choices {
            println!("minimised from {full_len} to {} decisions in {tries} tries; replay confirmed: {ok}", c.len());
        } else {
            println!("replay with {} earlier runs; replay confirmed: {ok}", r.prefix.len());
        }
        println!("{}: {}", r.class, r.msg);
        println!("VIOLATION property={id} replay={path}");
        extra = format!(", \"violation\": {{\"class\": {}, \"message\": {}, \"replay_confirmed\": {ok}}}", json_str(&r.class), json_str(&r.msg));
    }
    // evidence
    let wall = t0.elapsed().as_secs_f64();
    let per_hour = t.runs as f64 / explored * 3600.0;
    let mut faults = vec![];
    let mut other = vec![];
    for (k, v) in &t.counters {
        if let Some(n) = k.strip_prefix("fault:") {
            faults.push(format!("{}: {v}", json_str(n)));
        } else if k != "sim_ns" {
            other.push(format!("{}: {v}", json_str(k)));
        }
    }
    let sim_s = t.counters.get("sim_ns").copied().unwrap_or(0) as f64 / 1e9;
    let samples = t.samples.iter().take(3).map(|s| json_str(s)).collect::<Vec<_>>().join(", ");
    let ev = format!(
        "{{\"property\": {}, \"tier\": {}, \"seed\": {seed}, \"level\": {}, \"wall_s\": {wall:.1}, \"violations\": {nviol},\n\
         \"assumptions\": [\"one seed is one execution: {same} of {} repeated seeds gave the same trace hash\", {}],\n\
         \"coverage\": {{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"rule\": {},\n\
         \"simulated_runs\": {}, \"runs_per_hour\": {per_hour:.0}, \"seeds_per_hour\": {per_hour:.0}, \"simulated_seconds\": {sim_s:.3},\n\
         \"steps\": {}, \"distinct_trace_hashes\": {}, \"distinct_measure\": \"hash over the run's events: every operation with its observed result, every system call and fault, every context switch\",\n\
         \"faults_injected\": {{{}}},\n\"events\": {{{}}},\n\"fixed_probes\": {probes}, \"known_findings\": {},\n\
         \"real_components\": {}, \"stub_components\": {}{extra},\n\"samples\": [{samples}]}}}}\n",
        json_str(id),
        json_str(if quick { "quick" } else { "thorough" }),
        json_str(p.level),
        again.len(),
        json_str("regex patterns are compiled once per process and matched by the real engine; one worker process executes many runs one after another"),
        t.runs,
        t.nontrivial.len(),
        json_str(p.rule),
        t.runs,
        t.steps,
        t.hashes.len(),
        faults.join(", "),
        other.join(", "),
        format!("[{}]", known_lines.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", ")),
        json_str(p.real),
        json_str(p.stub),
    );
    let _ = std::fs::create_dir_all(format!("{root}/evidence"));
    std::fs::write(format!("{root}/evidence/{id}.json"), ev).expect("write evidence");
    println!(
        "{id}: {} runs, {} distinct, {:.0} runs/s, {} steps, {wall:.1} s",
        t.runs,
        t.hashes.len(),
        t.runs as f64 / explored,
        t.steps
    );
    let _ = std::io::stdout().flush();
    code
}

fn first_line(s: &str) -> &str {
    s.lines().next().unwrap_or("")
}

/// prints the trace of single runs (development)
pub fn show(props: &[Prop], id: &str, from: u64, n: u64) -> i32 {
    let p = props.iter().find(|p| p.id == id).expect("property");
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    for i in from..from + n {
        match solo(p.run, &[], Choices::from_seed(run_seed(base_seed(seed, id), i)), true) {
            Ok(s) => {
                println!("== run {i} hash {:016x} choices {}", s.hash, s.rec.len());
                for t in s.trace {
                    println!("{t}");
                }
                if let Some(c) = s.class {
                    println!("VIOLATED {c}: {}", s.msg);
                }
            }
            Err(m) => println!("== run {i}: {m}"),
        }
    }
    0
}
