//! Simulated peers: a stream that delivers bytes on its own schedule and a
//! sink that accepts them on its own schedule.
use crate::rt::*;
use crate::sched;
use std::io::{Error, ErrorKind, Read, Write};

/// how a stream delivers
#[derive(Clone, Debug)]
pub struct Delivery {
    /// 0 = as much as asked for, else upper bound of a piece
    pub piece: u32,
    pub fixed: bool,
    pub intr: u32,
    pub late: bool,
    /// so many interruptions in a row, once
    pub burst: u32,
}

pub fn delivery() -> Delivery {
    span(|| Delivery {
        piece: match draw(6) {
            0 => 0,
            1 => 1,
            2 => range(2, 5),
            3 => range(6, 40),
            4 => range(41, 700),
            _ => range(701, 9000),
        },
        fixed: chance(1, 2),
        intr: if chance(1, 2) { range(2, 6) } else { 0 },
        late: chance(1, 2),
        burst: if chance(1, 12) { range(5, 200) } else { 0 },
    })
}

#[derive(Clone, Debug)]
pub enum Src {
    /// end of file after the data
    Eof,
    /// fail with this error once this many bytes were delivered; then end, or go on
    Fail { at: usize, err: ErrSpec, then_data: bool, keep: bool },
}

#[derive(Clone, Debug, PartialEq)]
pub enum ErrSpec {
    Kind(ErrorKind),
    Os(i32),
    Msg(ErrorKind, String),
}
impl ErrSpec {
    pub fn make(&self) -> Error {
        match self {
            ErrSpec::Kind(k) => Error::from(*k),
            ErrSpec::Os(n) => Error::from_raw_os_error(*n),
            ErrSpec::Msg(k, m) => Error::new(*k, m.clone()),
        }
    }
    /// is this the error that was raised?
    pub fn same(&self, e: &Error) -> bool {
        match self {
            ErrSpec::Kind(k) => e.kind() == *k,
            ErrSpec::Os(n) => e.raw_os_error() == Some(*n),
            ErrSpec::Msg(k, m) => e.kind() == *k && e.to_string().contains(m.as_str()),
        }
    }
}
const KINDS: &[ErrorKind] = &[
    ErrorKind::ConnectionReset,
    ErrorKind::UnexpectedEof,
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::BrokenPipe,
    ErrorKind::InvalidData,
    ErrorKind::InvalidInput,
    ErrorKind::Other,
    ErrorKind::ConnectionAborted,
    ErrorKind::NotConnected,
    ErrorKind::PermissionDenied,
    ErrorKind::NotFound,
    ErrorKind::AlreadyExists,
    ErrorKind::AddrInUse,
    ErrorKind::WriteZero,
    ErrorKind::OutOfMemory,
    ErrorKind::Unsupported,
    ErrorKind::StorageFull,
];
pub fn err_spec() -> ErrSpec {
    span(|| match draw(3) {
        0 => ErrSpec::Kind(*pick(KINDS)),
        1 => ErrSpec::Os(*pick(&[libc::EIO, libc::ECONNRESET, libc::EPIPE, libc::ETIMEDOUT, libc::ENOSPC, libc::EAGAIN, libc::EBADF, libc::ESTALE])),
        _ => ErrSpec::Msg(*pick(KINDS), format!("marker-{}", draw(1000))),
    })
}

pub struct SimReader<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub d: Delivery,
    pub src: Src,
    pub failed: u32,
    n: u32,
    in_burst: bool,
    pub hook: Option<Box<dyn FnMut(usize) + 'a>>,
}
impl<'a> SimReader<'a> {
    pub fn new(data: &'a [u8], d: Delivery, src: Src) -> SimReader<'a> {
        SimReader { data, pos: 0, d, src, failed: 0, n: 0, in_burst: false, hook: None }
    }
}
impl Read for SimReader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        cb(|| {
            sched::point(1);
            self.n += 1;
            if let Some(h) = &mut self.hook {
                h(self.pos);
            }
            if self.d.late {
                delay(1_000 + self.pos as u64 % 7_000);
            }
            if self.d.burst > 0 && (self.in_burst || chance(1, 3)) {
                self.in_burst = true;
                self.d.burst -= 1;
                count("fault:interruption_burst");
                return Err(ErrorKind::Interrupted.into());
            }
            if self.d.intr > 0 && (self.n % self.d.intr == 0 || (self.d.intr < 4 && chance(1, 8))) {
                count("fault:stream_interrupted");
                note(|| "  read -> Interrupted".into());
                return Err(ErrorKind::Interrupted.into());
            }
            let mut max = buf.len();
            if self.d.piece > 0 {
                let p = if self.d.fixed { self.d.piece } else { range(1, self.d.piece) } as usize;
                if p < max {
                    max = p;
                    count("fault:stream_split");
                }
            }
            let mut end = self.data.len();
            if let Src::Fail { at, err, then_data, keep } = &self.src {
                let at = *at;
                if self.pos >= at && (self.failed == 0 || *keep) && !buf.is_empty() {
                    self.failed += 1;
                    count("fault:stream_error");
                    note(|| format!("  read at byte {} -> {err:?}", self.pos));
                    return Err(err.make());
                }
                if self.failed == 0 {
                    end = end.min(at);
                } else if !then_data {
                    end = self.pos;
                }
            }
            let n = max.min(end.saturating_sub(self.pos));
            buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
            self.pos += n;
            ev("rd", n as u64);
            if n > 0 || self.n < 50 {
                note(|| format!("  read -> {n} (at {})", self.pos));
            }
            Ok(n)
        })
    }
}

#[derive(Clone, Debug)]
pub enum SinkEnd {
    Never,
    /// fail at this byte
    Fail { at: usize, err: ErrSpec, once: bool },
    /// accept no more bytes from here (Ok(0))
    Full { at: usize },
    /// panic at this byte
    Panic { at: usize },
}

pub struct SimWriter<'a> {
    pub got: Vec<u8>,
    pub d: Delivery,
    pub end: SinkEnd,
    pub failed: u32,
    pub flushes: u32,
    pub after_fail: usize,
    n: u32,
    in_burst: bool,
    pub hook: Option<Box<dyn FnMut(usize) + 'a>>,
}
impl SimWriter<'_> {
    pub fn new(d: Delivery, end: SinkEnd) -> Self {
        SimWriter { got: vec![], d, end, failed: 0, flushes: 0, after_fail: 0, n: 0, in_burst: false, hook: None }
    }
}
impl Write for SimWriter<'_> {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        cb(|| {
            sched::point(1);
            self.n += 1;
            if let Some(h) = &mut self.hook {
                h(self.got.len());
            }
            if self.d.late {
                delay(1_000);
            }
            if buf.is_empty() {
                return Ok(0);
            }
            if self.d.burst > 0 && (self.in_burst || chance(1, 3)) {
                self.in_burst = true;
                self.d.burst -= 1;
                count("fault:interruption_burst");
                return Err(ErrorKind::Interrupted.into());
            }
            if self.d.intr > 0 && (self.n % self.d.intr == 0 || (self.d.intr < 4 && chance(1, 8))) {
                count("fault:sink_interrupted");
                note(|| "  write -> Interrupted".into());
                return Err(ErrorKind::Interrupted.into());
            }
            let mut n = buf.len();
            if self.d.piece > 0 {
                let p = if self.d.fixed { self.d.piece } else { range(1, self.d.piece) } as usize;
                if p < n {
                    n = p;
                    count("fault:sink_short");
                }
            }
            let at = self.got.len();
            match &self.end {
                SinkEnd::Never => {}
                SinkEnd::Fail { at: f, err, once } => {
                    if at >= *f && (self.failed == 0 || !once) {
                        self.failed += 1;
                        count("fault:sink_error");
                        note(|| format!("  write at byte {at} -> {err:?}"));
                        return Err(err.make());
                    }
                    if self.failed == 0 {
                        n = n.min(*f - at);
                    }
                }
                SinkEnd::Full { at: f } => {
                    if at >= *f {
                        self.failed += 1;
                        count("fault:sink_full");
                        note(|| format!("  write at byte {at} -> 0"));
                        return Ok(0);
                    }
                    n = n.min(*f - at);
                }
                SinkEnd::Panic { at: f } => {
                    if at >= *f {
                        self.failed += 1;
                        count("fault:sink_panic");
                        note(|| format!("  write at byte {at} -> panic"));
                        inject_panic();
                    }
                    n = n.min(*f - at);
                }
            }
            if self.failed > 0 {
                self.after_fail += n;
            }
            self.got.extend_from_slice(&buf[..n]);
            ev("wr", n as u64);
            note(|| format!("  write {} bytes -> {n}", buf.len()));
            Ok(n)
        })
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.flushes += 1;
        Ok(())
    }
}
