//! Simulated disk and file descriptors behind the libc calls std makes.
use crate::rt::*;
use libc::*;
use std::collections::BTreeMap;

pub type R<T> = Result<T, i32>;

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Dir(BTreeMap<Vec<u8>, u64>),
    File(Vec<u8>),
    Link(Vec<u8>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Inode {
    pub kind: Kind,
    pub ro: bool,
}

/// the durable state: what is left after a crash
#[derive(Clone, Debug, PartialEq)]
pub struct Image {
    pub inodes: BTreeMap<u64, Inode>,
    pub next: u64,
    pub cwd: u64,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Call {
    Open,
    Read,
    Write,
    Seek,
    Stat,
    Mkdir,
    Unlink,
    Rename,
    Trunc,
    Sync,
    Close,
    Link,
    Other,
}

#[derive(Clone, Copy, Debug)]
pub enum Fault {
    /// the call fails with this errno, nothing happens
    Errno(i32),
    /// the call is interrupted
    Intr,
    /// at most this many bytes are transferred
    Short(usize),
    /// this many bytes are transferred, later transfers fail with the errno
    PartThen(usize, i32),
    /// nothing is transferred, without an error
    Zero,
    /// someone else creates the directory first
    Race,
    /// stat reports a wrong size
    LieSize(u64),
}

#[derive(Clone, Debug, Default)]
pub struct Plan {
    /// faults by (kind of call, how many-th call of that kind)
    pub at: Vec<(Call, u32, Fault)>,
    /// every read/write moves at most this many bytes (0 = no limit)
    pub max_xfer: usize,
    /// every n-th read/write/open is interrupted (0 = never)
    pub intr_every: u32,
    /// so many interruptions in a row at the first read or write
    pub burst: u32,
    /// number of bytes the disk can still store (full after that)
    pub space: Option<usize>,
    /// stat reports this size for regular files
    pub lie_size: Option<u64>,
    /// read errors from this offset of any file on
    pub bad_sector: Option<(u64, i32)>,
    /// on the n-th mkdir the directory appears just before (concurrent creator)
    pub mkdir_race: Vec<u32>,
    /// after the first look at a path (stat, mkdir) someone else creates this
    /// file with this content, if it is missing and there is room for it
    pub file_race: Option<(Vec<u8>, Vec<u8>)>,
}

struct Fd {
    ino: u64,
    pos: u64,
    append: bool,
    wr: bool,
    rd: bool,
}

pub struct Disk {
    pub img: Image,
    fds: BTreeMap<i32, Fd>,
    next_fd: i32,
    pub plan: Plan,
    counts: [u32; 16],
    intr_n: u32,
    pending: Option<i32>,
    /// mutation steps so far (each byte written counts one)
    pub steps: u64,
    pub crash_at: Option<u64>,
    pub frozen: Option<Image>,
    /// calls made since the last reset
    pub calls: Vec<String>,
    pub hard: u32,
    pub hard_errno: Vec<i32>,
    pub soft: u32,
    pub leaked: bool,
    /// someone else created the file
    pub arrived: bool,
}

const FD0: i32 = 1_000_000;

impl Default for Image {
    fn default() -> Self {
        let mut inodes = BTreeMap::new();
        inodes.insert(1, Inode { kind: Kind::Dir(BTreeMap::new()), ro: false });
        Image { inodes, next: 2, cwd: 1 }
    }
}

impl Image {
    pub fn mkdirs(&mut self, path: &str) -> u64 {
        let mut cur = 1;
        for c in path.split('/').filter(|c| !c.is_empty()) {
            let next = match &self.inodes[&cur].kind {
                Kind::Dir(d) => d.get(c.as_bytes()).copied(),
                _ => panic!("mkdirs through a file"),
            };
            cur = match next {
                Some(n) => n,
                None => self.add(cur, c.as_bytes(), Kind::Dir(BTreeMap::new())),
            };
        }
        cur
    }
    pub fn add(&mut self, dir: u64, name: &[u8], kind: Kind) -> u64 {
        let ino = self.next;
        self.next += 1;
        self.inodes.insert(ino, Inode { kind, ro: false });
        match &mut self.inodes.get_mut(&dir).unwrap().kind {
            Kind::Dir(d) => {
                d.insert(name.to_vec(), ino);
            }
            _ => panic!("add to a non-directory"),
        }
        ino
    }
    /// writes a file directly (test set-up)
    pub fn put(&mut self, path: &str, data: &[u8]) -> u64 {
        let (d, f) = path.rsplit_once('/').unwrap();
        let dir = self.mkdirs(d);
        if let Some(ino) = self.lookup(path) {
            self.inodes.get_mut(&ino).unwrap().kind = Kind::File(data.to_vec());
            return ino;
        }
        self.add(dir, f.as_bytes(), Kind::File(data.to_vec()))
    }
    pub fn lookup(&self, path: &str) -> Option<u64> {
        self.resolve(path.as_bytes(), true).ok()
    }
    pub fn file(&self, path: &[u8]) -> Option<&[u8]> {
        let ino = self.resolve(path, true).ok()?;
        match &self.inodes[&ino].kind {
            Kind::File(d) => Some(d),
            _ => None,
        }
    }
    pub fn is_dir(&self, path: &[u8]) -> bool {
        match self.resolve(path, true) {
            Ok(i) => matches!(self.inodes[&i].kind, Kind::Dir(_)),
            Err(_) => false,
        }
    }
    pub fn resolve(&self, path: &[u8], follow: bool) -> R<u64> {
        match self.walk(path, follow, 0)? {
            (_, _, Some(i)) => Ok(i),
            _ => Err(ENOENT),
        }
    }
    /// (parent inode, last name, inode if it exists)
    pub fn walk(&self, path: &[u8], follow: bool, depth: u32) -> R<(u64, Vec<u8>, Option<u64>)> {
        if depth > 20 {
            return Err(ELOOP);
        }
        if path.is_empty() {
            return Err(ENOENT);
        }
        if path.len() >= 4096 {
            return Err(ENAMETOOLONG);
        }
        let mut stack: Vec<u64> = if path[0] == b'/' { vec![1] } else { self.path_to(self.cwd) };
        let trailing = path.len() > 1 && path.ends_with(b"/");
        let comps: Vec<&[u8]> = path.split(|b| *b == b'/').filter(|c| !c.is_empty()).collect();
        if comps.is_empty() {
            return Ok((1, b"".to_vec(), Some(1)));
        }
        let n = comps.len();
        for (k, c) in comps.iter().enumerate() {
            let last = k + 1 == n;
            let cur = *stack.last().unwrap();
            let dir = match &self.inodes[&cur].kind {
                Kind::Dir(d) => d,
                _ => return Err(ENOTDIR),
            };
            if c.len() > 255 {
                return Err(ENAMETOOLONG);
            }
            if *c == b"." {
                if last {
                    return Ok((cur, b".".to_vec(), Some(cur)));
                }
                continue;
            }
            if *c == b".." {
                if stack.len() > 1 {
                    stack.pop();
                }
                if last {
                    let t = *stack.last().unwrap();
                    return Ok((t, b"..".to_vec(), Some(t)));
                }
                continue;
            }
            match dir.get(*c) {
                None => {
                    return if last {
                        Ok((cur, c.to_vec(), None))
                    } else {
                        Err(ENOENT)
                    };
                }
                Some(i) => {
                    if let Kind::Link(t) = &self.inodes[i].kind {
                        if !last || follow || trailing {
                            // restart at the link's target
                            let mut p = if t.starts_with(b"/") { vec![] } else { self.abs(cur) };
                            if !t.starts_with(b"/") {
                                p.push(b'/');
                            }
                            p.extend_from_slice(t);
                            for r in &comps[k + 1..] {
                                p.push(b'/');
                                p.extend_from_slice(r);
                            }
                            if trailing {
                                p.push(b'/');
                            }
                            return self.walk(&p, follow, depth + 1);
                        }
                    }
                    if last {
                        if trailing && !matches!(self.inodes[i].kind, Kind::Dir(_)) {
                            return Err(ENOTDIR);
                        }
                        return Ok((cur, c.to_vec(), Some(*i)));
                    }
                    stack.push(*i);
                }
            }
        }
        unreachable!()
    }
    fn path_to(&self, ino: u64) -> Vec<u64> {
        fn go(im: &Image, at: u64, want: u64, st: &mut Vec<u64>) -> bool {
            st.push(at);
            if at == want {
                return true;
            }
            if let Kind::Dir(d) = &im.inodes[&at].kind {
                for i in d.values() {
                    if go(im, *i, want, st) {
                        return true;
                    }
                }
            }
            st.pop();
            false
        }
        let mut st = vec![];
        if go(self, 1, ino, &mut st) {
            st
        } else {
            vec![1]
        }
    }
    pub fn abs(&self, ino: u64) -> Vec<u8> {
        let chain = self.path_to(ino);
        let mut p = vec![];
        for w in chain.windows(2) {
            if let Kind::Dir(d) = &self.inodes[&w[0]].kind {
                for (n, i) in d {
                    if *i == w[1] {
                        p.push(b'/');
                        p.extend_from_slice(n);
                        break;
                    }
                }
            }
        }
        p
    }
    /// every path with what it holds
    pub fn listing(&self) -> BTreeMap<Vec<u8>, Inode> {
        fn go(im: &Image, at: u64, p: &[u8], out: &mut BTreeMap<Vec<u8>, Inode>) {
            let n = &im.inodes[&at];
            match &n.kind {
                Kind::Dir(d) => {
                    out.insert(p.to_vec(), Inode { kind: Kind::Dir(BTreeMap::new()), ro: n.ro });
                    for (name, i) in d {
                        let mut q = p.to_vec();
                        q.push(b'/');
                        q.extend_from_slice(name);
                        go(im, *i, &q, out);
                    }
                }
                _ => {
                    out.insert(p.to_vec(), n.clone());
                }
            }
        }
        let mut out = BTreeMap::new();
        go(self, 1, b"", &mut out);
        out
    }
}

impl Disk {
    pub fn new() -> Disk {
        Disk {
            img: Image::default(),
            fds: BTreeMap::new(),
            next_fd: FD0,
            plan: Plan::default(),
            counts: [0; 16],
            intr_n: 0,
            pending: None,
            steps: 0,
            crash_at: None,
            frozen: None,
            calls: vec![],
            hard: 0,
            hard_errno: vec![],
            soft: 0,
            leaked: false,
            arrived: false,
        }
    }
    pub fn owns(&self, fd: i32) -> bool {
        fd >= FD0
    }
    /// arms a plan and clears what was recorded
    pub fn arm(&mut self, plan: Plan) {
        self.plan = plan;
        self.counts = [0; 16];
        self.intr_n = 0;
        self.pending = None;
        self.steps = 0;
        self.crash_at = None;
        self.frozen = None;
        self.calls.clear();
        self.hard = 0;
        self.hard_errno.clear();
        self.soft = 0;
        self.arrived = false;
    }
    pub fn disarm(&mut self) {
        self.arm(Plan::default());
    }
    pub fn open_fds(&self) -> usize {
        self.fds.len()
    }
    /// a restart: open descriptors are gone, the image is what is given
    pub fn reboot(&mut self, img: Image) {
        self.img = img;
        self.fds.clear();
        self.disarm();
    }

    fn log(&mut self, s: String) {
        note(|| format!("  sys {s}"));
        if self.calls.len() < 400 {
            self.calls.push(s);
        }
    }
    fn hardf(&mut self, e: i32) {
        self.hard += 1;
        self.hard_errno.push(e);
    }
    /// the fault for this call, if any
    fn fault(&mut self, c: Call) -> Option<Fault> {
        delay(20_000);
        let k = c as usize;
        let n = self.counts[k];
        self.counts[k] += 1;
        ev("sys", (k as u64) << 32 | n as u64);
        if self.frozen.is_some() {
            // the process is dead; nothing it still "does" matters
            return Some(Fault::Errno(EIO));
        }
        if matches!(c, Call::Read | Call::Write | Call::Open) && self.plan.intr_every > 0 {
            self.intr_n += 1;
            if self.intr_n % self.plan.intr_every == 0 {
                return Some(Fault::Intr);
            }
        }
        if matches!(c, Call::Read | Call::Write) && self.plan.burst > 0 {
            self.plan.burst -= 1;
            return Some(Fault::Intr);
        }
        if c == Call::Mkdir && self.plan.mkdir_race.contains(&n) {
            return Some(Fault::Race);
        }
        self.plan.at.iter().find(|f| f.0 == c && f.1 == n).map(|f| f.2)
    }
    /// counts a mutation; true if it still happens before the crash
    fn step(&mut self) -> bool {
        if self.frozen.is_some() {
            return false;
        }
        if self.crash_at == Some(self.steps) {
            self.freeze();
            return false;
        }
        self.steps += 1;
        true
    }
    pub fn freeze(&mut self) {
        if self.frozen.is_none() {
            ev("crash", self.steps);
            count("fault:crash");
            note(|| format!("  CRASH at disk step {}", self.steps));
            self.frozen = Some(self.img.clone());
        }
    }
    fn errno(&mut self, c: &str, e: i32, name: &'static str) -> i32 {
        if self.frozen.is_none() {
            count(name);
            self.hardf(e);
            self.log(format!("{c} -> errno {e} (injected)"));
        }
        e
    }

    pub fn open(&mut self, path: &[u8], flags: i32) -> R<i32> {
        let r = self.open_now(path, flags);
        if r.is_err() {
            self.someone_else();
        }
        r
    }
    fn open_now(&mut self, path: &[u8], flags: i32) -> R<i32> {
        let p = String::from_utf8_lossy(path).into_owned();
        match self.fault(Call::Open) {
            Some(Fault::Errno(e)) => return Err(self.errno(&format!("open {p:?}"), e, "fault:open_errno")),
            Some(Fault::Intr) => {
                count("fault:eintr");
                self.soft += 1;
                return Err(EINTR);
            }
            _ => {}
        }
        let (dir, name, ino) = self.img.walk(path, flags & O_NOFOLLOW == 0, 0)?;
        let acc = flags & O_ACCMODE;
        let wr = acc == O_WRONLY || acc == O_RDWR;
        let ino = match ino {
            Some(i) => {
                if flags & O_CREAT != 0 && flags & O_EXCL != 0 {
                    return Err(EEXIST);
                }
                let n = &self.img.inodes[&i];
                match &n.kind {
                    Kind::Dir(_) => {
                        if wr || flags & O_CREAT != 0 {
                            self.log(format!("open {p:?} -> EISDIR"));
                            return Err(EISDIR);
                        }
                    }
                    Kind::Link(_) => return Err(ELOOP),
                    Kind::File(_) => {
                        if flags & O_DIRECTORY != 0 {
                            return Err(ENOTDIR);
                        }
                    }
                }
                if wr && n.ro {
                    self.log(format!("open {p:?} -> EACCES"));
                    return Err(EACCES);
                }
                if flags & O_TRUNC != 0 && wr {
                    if !self.step() {
                        return Err(EIO);
                    }
                    if let Kind::File(d) = &mut self.img.inodes.get_mut(&i).unwrap().kind {
                        d.clear();
                    }
                }
                i
            }
            None => {
                if flags & O_CREAT == 0 {
                    self.log(format!("open {p:?} -> ENOENT"));
                    return Err(ENOENT);
                }
                if path.ends_with(b"/") {
                    return Err(EISDIR);
                }
                if self.img.inodes[&dir].ro {
                    self.log(format!("create {p:?} -> EACCES"));
                    return Err(EACCES);
                }
                if !self.step() {
                    return Err(EIO);
                }
                self.img.add(dir, &name, Kind::File(vec![]))
            }
        };
        let fd = self.next_fd;
        self.next_fd += 1;
        self.fds.insert(
            fd,
            Fd { ino, pos: 0, append: flags & O_APPEND != 0, wr, rd: acc != O_WRONLY },
        );
        self.log(format!("open {p:?} flags {flags:#o} -> {}", fd - FD0));
        Ok(fd)
    }

    pub fn read(&mut self, fd: i32, buf: &mut [u8], at: Option<u64>) -> R<usize> {
        let mut max = buf.len();
        match self.fault(Call::Read) {
            Some(Fault::Errno(e)) => return Err(self.errno("read", e, "fault:read_errno")),
            Some(Fault::Intr) => {
                count("fault:eintr");
                self.soft += 1;
                return Err(EINTR);
            }
            Some(Fault::Short(n)) => {
                count("fault:short_read");
                self.soft += 1;
                max = max.min(n.max(1));
            }
            _ => {}
        }
        if self.plan.max_xfer > 0 && max > self.plan.max_xfer {
            count("fault:short_read");
            self.soft += 1;
            max = self.plan.max_xfer;
        }
        let f = self.fds.get_mut(&fd).ok_or(EBADF)?;
        if !f.rd {
            return Err(EBADF);
        }
        let data = match &self.img.inodes[&f.ino].kind {
            Kind::File(d) => d,
            _ => return Err(EISDIR),
        };
        let pos = at.unwrap_or(f.pos);
        let mut n = (data.len() as u64).saturating_sub(pos).min(max as u64) as usize;
        if let Some((off, e)) = self.plan.bad_sector {
            if pos >= off {
                count("fault:bad_sector");
                self.hardf(e);
                self.log(format!("read at {pos} -> errno {e} (injected)"));
                return Err(e);
            }
            n = n.min((off - pos) as usize);
        }
        let pos = pos as usize;
        buf[..n].copy_from_slice(&data[pos..pos + n]);
        if at.is_none() {
            f.pos += n as u64;
        }
        self.log(format!("read {} -> {n}", fd - FD0));
        Ok(n)
    }

    pub fn write(&mut self, fd: i32, buf: &[u8], at: Option<u64>) -> R<usize> {
        if let Some(e) = self.pending.take() {
            self.fault(Call::Write);
            return Err(self.errno("write", e, "fault:write_errno"));
        }
        let mut max = buf.len();
        match self.fault(Call::Write) {
            Some(Fault::Errno(e)) => return Err(self.errno("write", e, "fault:write_errno")),
            Some(Fault::Intr) => {
                count("fault:eintr");
                self.soft += 1;
                return Err(EINTR);
            }
            Some(Fault::Short(n)) => {
                if max > n.max(1) {
                    count("fault:short_write");
                    self.soft += 1;
                    max = n.max(1);
                }
            }
            Some(Fault::Zero) if max > 0 => {
                count("fault:zero_write");
                // no errno explains it; any report will do
                self.hardf(-1);
                self.log("write -> 0".into());
                return Ok(0);
            }
            Some(Fault::PartThen(n, e)) => {
                if n == 0 || buf.len() <= 1 {
                    return Err(self.errno("write", e, "fault:write_errno"));
                }
                max = max.min(n).min(buf.len() - 1);
                self.pending = Some(e);
            }
            _ => {}
        }
        if self.plan.max_xfer > 0 && max > self.plan.max_xfer {
            count("fault:short_write");
            self.soft += 1;
            max = self.plan.max_xfer;
        }
        if let Some(space) = &mut self.plan.space {
            if *space == 0 && max > 0 {
                count("fault:disk_full");
                self.hardf(ENOSPC);
                self.log("write -> ENOSPC (disk full)".into());
                return Err(ENOSPC);
            }
            max = max.min(*space);
            *space -= max;
        }
        let f = self.fds.get(&fd).ok_or(EBADF)?;
        if !f.wr {
            return Err(EBADF);
        }
        let (ino, append, fpos) = (f.ino, f.append, f.pos);
        let len = match &self.img.inodes[&ino].kind {
            Kind::File(d) => d.len() as u64,
            _ => return Err(EISDIR),
        };
        let pos = at.unwrap_or(if append { len } else { fpos }) as usize;
        // bytes reach the file one by one as far as a crash is concerned
        let mut n = max;
        let mut crash = false;
        if let Some(c) = self.crash_at {
            if self.frozen.is_none() && c < self.steps + n as u64 {
                n = (c - self.steps) as usize;
                crash = true;
            }
        }
        if let Kind::File(d) = &mut self.img.inodes.get_mut(&ino).unwrap().kind {
            if d.len() < pos + n {
                d.resize(pos + n, 0);
            }
            d[pos..pos + n].copy_from_slice(&buf[..n]);
        }
        self.steps += n as u64;
        if crash {
            self.freeze();
            return Err(EIO);
        }
        if at.is_none() {
            self.fds.get_mut(&fd).unwrap().pos = (pos + n) as u64;
        }
        self.log(format!("write {} {} bytes at {pos} -> {n}", fd - FD0, buf.len()));
        Ok(n)
    }

    pub fn seek(&mut self, fd: i32, off: i64, whence: i32) -> R<u64> {
        if let Some(Fault::Errno(e)) = self.fault(Call::Seek) {
            return Err(self.errno("lseek", e, "fault:seek_errno"));
        }
        let f = self.fds.get_mut(&fd).ok_or(EBADF)?;
        let len = match &self.img.inodes[&f.ino].kind {
            Kind::File(d) => d.len() as i64,
            _ => 0,
        };
        let base = match whence {
            SEEK_SET => 0,
            SEEK_CUR => f.pos as i64,
            SEEK_END => len,
            _ => return Err(EINVAL),
        };
        let np = base + off;
        if np < 0 {
            return Err(EINVAL);
        }
        f.pos = np as u64;
        Ok(f.pos)
    }

    /// (mode, size, inode)
    fn meta(&self, ino: u64) -> (u32, u64, u64) {
        let n = &self.img.inodes[&ino];
        let ro = n.ro;
        match &n.kind {
            Kind::Dir(_) => (S_IFDIR | if ro { 0o555 } else { 0o755 }, 4096, ino),
            Kind::File(d) => (S_IFREG | if ro { 0o444 } else { 0o644 }, d.len() as u64, ino),
            Kind::Link(t) => (S_IFLNK | 0o777, t.len() as u64, ino),
        }
    }
    pub fn stat(&mut self, path: Option<&[u8]>, fd: i32, follow: bool) -> R<(u32, u64, u64)> {
        let r = self.stat_now(path, fd, follow);
        if path.is_some() {
            self.someone_else();
        }
        r
    }
    fn someone_else(&mut self) {
        if self.frozen.is_some() {
            return;
        }
        let Some((path, data)) = self.plan.file_race.clone() else { return };
        if let Ok((dir, name, None)) = self.img.walk(&path, true, 0) {
            if !name.is_empty() && !self.img.inodes[&dir].ro {
                self.plan.file_race = None;
                self.arrived = true;
                count("fault:file_race");
                self.soft += 1;
                note(|| format!("  (someone else creates {:?} with {} bytes)", String::from_utf8_lossy(&path), data.len()));
                self.img.add(dir, &name, Kind::File(data));
            }
        }
    }
    fn stat_now(&mut self, path: Option<&[u8]>, fd: i32, follow: bool) -> R<(u32, u64, u64)> {
        match self.fault(Call::Stat) {
            Some(Fault::Errno(e)) => return Err(self.errno("stat", e, "fault:stat_errno")),
            Some(Fault::LieSize(s)) => {
                count("fault:stat_lies");
                self.soft += 1;
                let ino = self.stat_ino(path, fd, follow)?;
                let mut m = self.meta(ino);
                if m.0 & S_IFMT == S_IFREG {
                    m.1 = s;
                }
                return Ok(m);
            }
            _ => {}
        }
        let ino = self.stat_ino(path, fd, follow)?;
        let mut m = self.meta(ino);
        if let Some(s) = self.plan.lie_size {
            if m.0 & S_IFMT == S_IFREG {
                count("fault:stat_lies");
                m.1 = s;
            }
        }
        Ok(m)
    }
    fn stat_ino(&self, path: Option<&[u8]>, fd: i32, follow: bool) -> R<u64> {
        match path {
            Some(p) => self.img.resolve(p, follow),
            None => self.fds.get(&fd).map(|f| f.ino).ok_or(EBADF),
        }
    }

    pub fn mkdir(&mut self, path: &[u8]) -> R<()> {
        let r = self.mkdir_now(path);
        self.someone_else();
        r
    }
    fn mkdir_now(&mut self, path: &[u8]) -> R<()> {
        let p = String::from_utf8_lossy(path).into_owned();
        match self.fault(Call::Mkdir) {
            Some(Fault::Errno(e)) => return Err(self.errno(&format!("mkdir {p:?}"), e, "fault:mkdir_errno")),
            Some(Fault::Race) => {
                if let Ok((dir, name, None)) = self.img.walk(path, true, 0) {
                    if !self.img.inodes[&dir].ro {
                        count("fault:mkdir_race");
                        self.soft += 1;
                        note(|| format!("  (someone else creates {p:?})"));
                        self.img.add(dir, &name, Kind::Dir(BTreeMap::new()));
                    }
                }
            }
            _ => {}
        }
        let (dir, name, ino) = self.img.walk(path, false, 0)?;
        if ino.is_some() {
            self.log(format!("mkdir {p:?} -> EEXIST"));
            return Err(EEXIST);
        }
        if self.img.inodes[&dir].ro {
            return Err(EACCES);
        }
        if !self.step() {
            return Err(EIO);
        }
        self.img.add(dir, &name, Kind::Dir(BTreeMap::new()));
        self.log(format!("mkdir {p:?}"));
        Ok(())
    }

    pub fn unlink(&mut self, path: &[u8], rmdir: bool) -> R<()> {
        let p = String::from_utf8_lossy(path).into_owned();
        if let Some(Fault::Errno(e)) = self.fault(Call::Unlink) {
            return Err(self.errno(&format!("unlink {p:?}"), e, "fault:unlink_errno"));
        }
        let (dir, name, ino) = self.img.walk(path, false, 0)?;
        let ino = ino.ok_or(ENOENT)?;
        match &self.img.inodes[&ino].kind {
            Kind::Dir(d) => {
                if !rmdir {
                    return Err(EISDIR);
                }
                if !d.is_empty() {
                    return Err(ENOTEMPTY);
                }
            }
            _ => {
                if rmdir {
                    return Err(ENOTDIR);
                }
            }
        }
        if self.img.inodes[&dir].ro {
            return Err(EACCES);
        }
        if !self.step() {
            return Err(EIO);
        }
        if let Kind::Dir(d) = &mut self.img.inodes.get_mut(&dir).unwrap().kind {
            d.remove(&name);
        }
        self.log(format!("unlink {p:?}"));
        Ok(())
    }

    pub fn rename(&mut self, from: &[u8], to: &[u8]) -> R<()> {
        let s = format!("rename {:?} -> {:?}", String::from_utf8_lossy(from), String::from_utf8_lossy(to));
        if let Some(Fault::Errno(e)) = self.fault(Call::Rename) {
            return Err(self.errno(&s, e, "fault:rename_errno"));
        }
        let (d1, n1, i1) = self.img.walk(from, false, 0)?;
        let i1 = i1.ok_or(ENOENT)?;
        let (d2, n2, i2) = self.img.walk(to, false, 0)?;
        if self.img.inodes[&d1].ro || self.img.inodes[&d2].ro {
            return Err(EACCES);
        }
        if let Some(i2) = i2 {
            let a = matches!(self.img.inodes[&i1].kind, Kind::Dir(_));
            match (&self.img.inodes[&i2].kind, a) {
                (Kind::Dir(_), false) => return Err(EISDIR),
                (Kind::Dir(d), true) if !d.is_empty() => return Err(ENOTEMPTY),
                (Kind::File(_), true) => return Err(ENOTDIR),
                _ => {}
            }
        }
        if !self.step() {
            return Err(EIO);
        }
        if let Kind::Dir(d) = &mut self.img.inodes.get_mut(&d1).unwrap().kind {
            d.remove(&n1);
        }
        if let Kind::Dir(d) = &mut self.img.inodes.get_mut(&d2).unwrap().kind {
            d.insert(n2, i1);
        }
        self.log(s);
        Ok(())
    }

    pub fn link(&mut self, from: &[u8], to: &[u8]) -> R<()> {
        if let Some(Fault::Errno(e)) = self.fault(Call::Link) {
            return Err(self.errno("link", e, "fault:link_errno"));
        }
        let i1 = self.img.resolve(from, false)?;
        let (d2, n2, i2) = self.img.walk(to, false, 0)?;
        if i2.is_some() {
            return Err(EEXIST);
        }
        if !self.step() {
            return Err(EIO);
        }
        if let Kind::Dir(d) = &mut self.img.inodes.get_mut(&d2).unwrap().kind {
            d.insert(n2, i1);
        }
        Ok(())
    }

    pub fn symlink(&mut self, target: &[u8], path: &[u8]) -> R<()> {
        if let Some(Fault::Errno(e)) = self.fault(Call::Link) {
            return Err(self.errno("symlink", e, "fault:link_errno"));
        }
        let (d, n, i) = self.img.walk(path, false, 0)?;
        if i.is_some() {
            return Err(EEXIST);
        }
        if !self.step() {
            return Err(EIO);
        }
        self.img.add(d, &n, Kind::Link(target.to_vec()));
        Ok(())
    }

    pub fn readlink(&mut self, path: &[u8]) -> R<Vec<u8>> {
        self.fault(Call::Other);
        let i = self.img.resolve(path, false)?;
        match &self.img.inodes[&i].kind {
            Kind::Link(t) => Ok(t.clone()),
            _ => Err(EINVAL),
        }
    }

    pub fn truncate(&mut self, path: Option<&[u8]>, fd: i32, len: u64) -> R<()> {
        if let Some(Fault::Errno(e)) = self.fault(Call::Trunc) {
            return Err(self.errno("truncate", e, "fault:trunc_errno"));
        }
        let ino = self.stat_ino(path, fd, true)?;
        if path.is_none() && !self.fds[&fd].wr {
            return Err(EINVAL);
        }
        if !self.step() {
            return Err(EIO);
        }
        match &mut self.img.inodes.get_mut(&ino).unwrap().kind {
            Kind::File(d) => d.resize(len as usize, 0),
            _ => return Err(EISDIR),
        }
        self.log(format!("truncate to {len}"));
        Ok(())
    }

    pub fn sync(&mut self, fd: i32) -> R<()> {
        match self.fault(Call::Sync) {
            Some(Fault::Errno(e)) => return Err(self.errno("fsync", e, "fault:sync_errno")),
            Some(Fault::Intr) => {
                count("fault:eintr");
                return Err(EINTR);
            }
            _ => {}
        }
        if !self.fds.contains_key(&fd) {
            return Err(EBADF);
        }
        self.log("fsync".into());
        Ok(())
    }

    pub fn close(&mut self, fd: i32) -> R<()> {
        let f = self.fault(Call::Close);
        self.fds.remove(&fd).ok_or(EBADF)?;
        if let Some(Fault::Errno(e)) = f {
            if self.frozen.is_none() {
                count("fault:close_errno");
                self.soft += 1;
                self.log(format!("close {} -> errno {e} (injected)", fd - FD0));
            }
            return Err(e);
        }
        self.log(format!("close {}", fd - FD0));
        Ok(())
    }

    pub fn chmod(&mut self, path: Option<&[u8]>, fd: i32, mode: u32) -> R<()> {
        if let Some(Fault::Errno(e)) = self.fault(Call::Other) {
            return Err(self.errno("chmod", e, "fault:chmod_errno"));
        }
        let ino = self.stat_ino(path, fd, true)?;
        if !self.step() {
            return Err(EIO);
        }
        self.img.inodes.get_mut(&ino).unwrap().ro = mode & 0o200 == 0;
        Ok(())
    }
    pub fn append_flag(&mut self, fd: i32) -> R<i32> {
        let f = self.fds.get(&fd).ok_or(EBADF)?;
        let acc = match (f.rd, f.wr) {
            (true, true) => O_RDWR,
            (false, true) => O_WRONLY,
            _ => O_RDONLY,
        };
        Ok(acc | if f.append { O_APPEND } else { 0 })
    }
    pub fn dup(&mut self, fd: i32) -> R<i32> {
        let f = self.fds.get(&fd).ok_or(EBADF)?;
        // shares nothing but the file: good enough for try_clone'd handles used one after another
        let g = Fd { ino: f.ino, pos: f.pos, append: f.append, wr: f.wr, rd: f.rd };
        let n = self.next_fd;
        self.next_fd += 1;
        self.fds.insert(n, g);
        Ok(n)
    }
}
