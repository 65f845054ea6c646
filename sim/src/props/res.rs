//! C18, C19: what calls take, and what they leave of the streams they are given.
use crate::alloc::Ledger;
use crate::choice::hash_str;
use crate::disk::{Disk, Plan};
use crate::gen::{self, Cfg};
use crate::hist::*;
use crate::io::*;
use crate::model::*;
use crate::props::damage::{broken_stderr, damage, exercise};
use crate::props::edit::*;
use crate::props::read::*;
use crate::props::save;
use crate::rt::*;
use kiss_xml::dom::*;
use std::io::Read;

// ---------------------------------------------------------------- C18

fn fds(what: &str) {
    let left = cx().disk.open_fds();
    check(left == 0, "descriptor", || format!("{what}: {left} file descriptors are still open"));
}

/// one session from beginning to end; nothing of it is kept
fn session(steps: u32) -> u32 {
    let c = gen::cfg();
    let mut o = opts();
    o.errors = true;
    o.ns_edits = chance(1, 3);
    let mut faults = 0;
    let mut t = start(&c);
    for _ in 0..range(1, steps) {
        let k = draw(16);
        note(|| format!("- step of kind {k}"));
        match k {
            0..=2 => step(&mut t, &c, &o),
            3 => {
                let path = crate::gen::spot(&t.m);
                rejected(&mut t, &c, &path);
                faults += 1;
            }
            4 | 5 => {
                let path = crate::gen::spot(&t.m);
                let kind = draw(4);
                let at = draw(t.m.at(&path).size().min(12) as u32);
                removal(&mut t, &c, &o, kind, &path, Some(at));
                faults += 1;
            }
            6 => {
                failing_search(&mut t, &c);
                faults += 1;
            }
            7 => {
                as_document(&mut t, |d, _| failing_sink(d));
                faults += 1;
            }
            8 => {
                failing_save(&mut t);
                fds("after a failed save");
                faults += 1;
            }
            9 => {
                failing_constructor(&c);
                faults += 1;
            }
            10 => {
                failing_read();
                faults += 1;
            }
            11 => {
                // a damaged message, and everything a caller does with it
                let (_, a) = make();
                let s = damage(&a, &a);
                broken_stderr();
                if let Ok(d) = deliver(s.as_bytes()) {
                    exercise(d);
                }
                cx().stderr.errno = 0;
                faults += 1;
            }
            12 => {
                // a file that cannot be read to its end
                let (_, e) = make();
                let mut p = soft_plan();
                p.bad_sector = Some((draw(e.text.len() as u32 + 1) as u64, libc::EIO));
                let r = read_file(e.text.as_bytes(), p);
                ev("bad", r.is_err() as u64);
                lib(|| drop(r));
                faults += 1;
            }
            13 => {
                let mut p = Plan::default();
                save::soft_save(&mut p);
                if chance(1, 2) {
                    save::hard_save(&mut p, 200);
                    faults += 1;
                }
                {
                    let _p = pause();
                    cx().disk = Disk::new();
                    cx().disk.arm(p);
                }
                let ind = save::any_indent();
                as_document(&mut t, |d, _| {
                    let r = save::save(d, "/data/new/x.xml", &ind);
                    ev("saved", r.is_ok() as u64);
                    lib(|| drop(r));
                });
                fds("after a save");
            }
            14 => {
                // copies, dropped before and after the original
                let a = lib(|| t.real.clone());
                let b = lib(|| a.clone());
                lib(|| drop(a));
                t.real = b;
            }
            _ => {
                let a = lib(|| t.real.clone());
                let d = lib(|| Document::new(a));
                exercise(d);
            }
        }
    }
    lib(|| drop(t.real));
    fds("at the end");
    faults
}

/// edits that come to nothing: afterwards the tree is what it was
fn there_and_back(t: &mut Tree, c: &Cfg, kinds: &[u32]) {
    for k in kinds {
        let path = crate::gen::spot(&t.m);
        let m = t.m.at(&path).clone();
        let e = at(&mut t.real, &t.m, &path);
        note(|| format!("there and back {k} at {path:?}"));
        match k {
            0 | 1 => {
                // an attribute, or a declaration nobody uses
                let key = if *k == 0 { pick(&c.attr_names).clone() } else { pick(&["xmlns:t9", "xmlns"]).to_string() };
                let v = if *k == 0 { gen::attr_value(c) } else { format!("urn:{}", c.salt) };
                let old = m.attrs.get(&key).cloned();
                lib(|| {
                    let _ = e.set_attr(key.as_str(), v.as_str());
                    match &old {
                        Some(x) => {
                            let _ = e.set_attr(key.as_str(), x.as_str());
                        }
                        None => {
                            e.remove_attr(key.as_str());
                        }
                    }
                })
            }
            2 => {
                // every attribute again
                lib(|| {
                    for (k, v) in &m.attrs {
                        let _ = e.set_attr(k.as_str(), v.as_str());
                    }
                })
            }
            3 => lib(|| {
                e.clear_attributes();
                for (k, v) in &m.attrs {
                    let _ = e.set_attr(k.as_str(), v.as_str());
                }
            }),
            4 => {
                let x = Tree { m: ME::new("x"), real: build(&gen::elem(c, 1, &mut 4, &[])) };
                let n = m.kids.len();
                let how = draw(3);
                let real = x.real;
                lib(|| {
                    match how {
                        0 => e.append(real),
                        1 => e.append_all(vec![real.boxed()]),
                        _ => e.append_boxed(real.boxed()),
                    }
                    let last = e.children().count().saturating_sub(1);
                    let _ = e.remove(last);
                });
                if m.kids.iter().any(|k| k.is_text()) || e.children().count() != n {
                    t.m = extract_elem(&t.real);
                }
            }
            5 => {
                // out and in again
                let es = m.elems();
                if es.is_empty() {
                    continue;
                }
                let j = draw(es.len() as u32) as usize;
                let how = draw(2);
                lib(|| {
                    let x = if how == 0 { e.remove_element(j).expect("child element") } else { std::mem::take(e.remove(es[j]).expect("child").as_element_mut().expect("element")) };
                    let _ = e.insert(es[j], x);
                });
                t.m = extract_elem(&t.real);
            }
            6 => {
                let _ = lib(|| e.search(|n| n.is_element()).count() + e.all_children().count() + Node::text(e).len() + e.to_string().len());
            }
            7 => {
                let a = lib(|| e.clone());
                let same = lib(|| a == *e);
                ev("same", same as u64);
                lib(|| drop(a));
            }
            8 => as_document(t, |d, _| {
                let mut w = SimWriter::new(delivery(), SinkEnd::Never);
                let r = lib(|| d.write_to_file(&mut w));
                ev("w", r.is_ok() as u64);
            }),
            _ => {
                // nothing matches
                lib(|| e.remove_all(&|_| false) + e.remove_by(&|_| false) + e.remove_elements_by_name("no-such"));
            }
        }
    }
}
/// a document that lives on while it is edited again and again
fn living() {
    let c = gen::cfg();
    let ledger = Ledger::open();
    let mut t = start(&c);
    let kinds: Vec<u32> = (0..range(1, 4)).map(|_| draw(10)).collect();
    let times = range(1, 6);
    let seed = seed64() ^ 0x1717;
    let mut held: Vec<(usize, usize)> = vec![];
    for round in 0..9u32 {
        let c = c.clone().salted(&format!("k{round}{}", (b'a' + round as u8) as char));
        note(|| format!("round {round}"));
        with_sub(seed, || {
            for _ in 0..times {
                there_and_back(&mut t, &c, &kinds)
            }
        });
        compare(&t, "after edits that come to nothing");
        let Some(h) = ledger.held() else {
            count("ledger_full");
            return;
        };
        note(|| format!("held after round {round}: {} blocks, {} bytes", h.0, h.1));
        held.push(h);
        if round >= 3 && held[held.len() - 1].1 <= held[held.len() - 2].1 {
            break;
        }
    }
    drop(ledger);
    nontrivial();
    count("living_documents");
    add("rounds", held.len() as u64);
    sample(|| format!("edits {kinds:?} of a living document; held after each round: {held:?}"));
    if held.len() == 9 && held.windows(2).skip(2).all(|w| w[1].1 > w[0].1) {
        fail("memory", format!("a document that is what it was grows with every repetition of edits {kinds:?} that come to nothing: (blocks, bytes) {held:?}"));
    }
}

/// a short session again and again, twice as often each time: what is kept in a
/// buffer with room to spare shows too
fn many() {
    let seed = seed64() ^ 0x2929;
    let mut held: Vec<(usize, usize)> = vec![];
    let ledger = Ledger::open();
    let mut done = 0u32;
    let mut faults = 0;
    for round in 0..7u32 {
        while done < 16 << round {
            {
                let _p = pause();
                cx().salt = format!("k{:04}", done);
                cx().disk = Disk::new();
                cx().stderr = Default::default();
            }
            faults = with_sub(seed, || session(2));
            done += 1;
        }
        let Some(h) = ledger.held() else {
            count("ledger_full");
            return;
        };
        note(|| format!("held after {done} times: {} blocks, {} bytes", h.0, h.1));
        held.push(h);
        // (a thousand times a big one would take too long)
        if round == 0 && ledger.spent().1 > 16 * 48 * 1024 {
            count("too_big_to_repeat");
            cx().salt = String::new();
            return;
        }
        // settled, even if something was there before that had room to spare
        if round >= 5 && held[held.len() - 1].1 <= held[held.len() - 2].1 && held[held.len() - 2].1 <= held[held.len() - 3].1 {
            break;
        }
    }
    drop(ledger);
    cx().salt = String::new();
    if faults > 0 {
        nontrivial();
    }
    add("rounds", done as u64);
    count("short_sessions");
    sample(|| format!("a short session with {faults} faults, {done} times; held: {held:?}"));
    if held.len() == 7 && held.windows(2).skip(3).all(|w| w[1].1 > w[0].1) {
        fail("memory", format!("memory is kept after everything was dropped, more each time a short session was repeated twice as often: (blocks, bytes) {held:?}"));
    }
}

pub fn c18() {
    if chance(1, 5) {
        return living();
    }
    if chance(1, 20) {
        return many();
    }
    let seed = seed64();
    let seed = seed ^ 0x5151;
    let mut held: Vec<(usize, usize)> = vec![];
    let mut faults = 0;
    let ledger = Ledger::open();
    for round in 0..5u32 {
        {
            let _p = pause();
            cx().salt = format!("k{round}{}", (b'a' + round as u8) as char);
            cx().disk = Disk::new();
            cx().stderr = Default::default();
        }
        note(|| format!("round {round}"));
        faults = with_sub(seed, || session(8));
        let Some(h) = ledger.held() else {
            count("ledger_full");
            return;
        };
        ev("held", (held.len() > 1 && h.1 > held[held.len() - 1].1) as u64);
        note(|| format!("held after round {round}: {} blocks, {} bytes", h.0, h.1));
        held.push(h);
        // settled
        if round >= 2 && held[held.len() - 1].1 <= held[held.len() - 2].1 {
            break;
        }
    }
    drop(ledger);
    cx().salt = String::new();
    if faults > 0 {
        nontrivial();
    }
    add("rounds", held.len() as u64);
    sample(|| format!("a session with {faults} faults; held after each round: {held:?}"));
    let grew = held.windows(2).skip(1).all(|w| w[1].0 > w[0].0 && w[1].1 > w[0].1);
    if held.len() == 5 && grew {
        fail("memory", format!("memory is kept after everything was dropped, more after every repetition of the session: (blocks, bytes) {held:?}"));
    }
}

// ---------------------------------------------------------------- C19

/// a source that can be asked where it is, and that knows when it said "end"
struct Line<R> {
    r: R,
    /// the source reported its end, or an error other than an interruption
    over: Option<String>,
    after: u32,
}
impl<R> Line<R> {
    fn new(r: R) -> Line<R> {
        Line { r, over: None, after: 0 }
    }
}
impl<R: Read> Read for Line<R> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.over.is_some() {
            self.after += 1;
        }
        let r = self.r.read(buf);
        match &r {
            Ok(0) if !buf.is_empty() => self.over = Some("reported its end".into()),
            Err(e) if e.kind() != std::io::ErrorKind::Interrupted => self.over = Some(format!("failed with {e:?}")),
            _ => {}
        }
        r
    }
}
fn not_after<R>(l: &Line<R>) {
    check(l.after == 0, "read-on", || {
        format!("the source {} and was read {} more times", l.over.clone().unwrap_or_default(), l.after)
    });
}

struct Msg {
    bytes: Vec<u8>,
    /// what it is, if it is a good one
    good: Option<MDoc>,
}
fn message() -> Msg {
    span(|| {
        let (d, e) = make();
        match draw(11) {
            10 => {
                // nothing, or hardly anything, or something else altogether
                count("fault:foreign");
                let t = e.text.as_str();
                let le = |t: &str| t.encode_utf16().flat_map(|u| u.to_le_bytes()).collect::<Vec<u8>>();
                let be = |t: &str| t.encode_utf16().flat_map(|u| u.to_be_bytes()).collect::<Vec<u8>>();
                let with = |head: &[u8], b: &[u8]| [head, b].concat();
                let bytes = match draw(12) {
                    0 | 1 => vec![],
                    2 => pick(&[" ", "\n", "\0", "<", "\u{feff}", " \t\r\n "]).as_bytes().to_vec(),
                    3 => with(&[0xff, 0xfe], &le(t)),
                    4 => with(&[0xfe, 0xff], &be(t)),
                    5 => le(t),
                    6 => be(t),
                    7 => with(&[0xef, 0xbb, 0xbf], t.as_bytes()),
                    8 => with(pick(&[&[0x1fu8, 0x8b][..], b"PK\x03\x04", b"%PDF-", b"\x7fELF", b"\0\0\xfe\xff", b"BZh"]), t.as_bytes()),
                    9 => with(b"HTTP/1.1 200 OK\r\n\r\n", t.as_bytes()),
                    10 => with(b"{\"xml\": 1}", t.as_bytes()),
                    _ => with(t.as_bytes(), pick(&[&b"\0"[..], b"\x1a", b"\x04", b"\n.\r\n", b"]]>]]>", b"\xff"])),
                };
                Msg { bytes, good: None }
            }
            0 => {
                let cut = draw(e.root_end as u32) as usize;
                count("fault:truncated");
                Msg { bytes: e.text.as_bytes()[..cut].to_vec(), good: None }
            }
            1 | 2 => {
                let s = damage(&e, &e);
                Msg { bytes: s.into_bytes(), good: None }
            }
            3 => {
                let mut b = e.text.into_bytes();
                corrupt(&mut b);
                count("fault:invalid_utf8");
                Msg { bytes: b, good: None }
            }
            4 => {
                count("fault:repeated");
                let s = format!("{}{}", e.text, &e.text[e.root_start..]);
                Msg { bytes: s.into_bytes(), good: None }
            }
            5 => {
                // wrong from the beginning
                count("fault:hostile");
                let s = format!("{}{}", pick(&["<", "x", "</a>", "<a>&</b>", "<?", "<1/>", "<a b=c/>", "<a></b>"]), e.text);
                Msg { bytes: s.into_bytes(), good: None }
            }
            _ => Msg { bytes: e.text.into_bytes(), good: Some(d) },
        }
    })
}

pub fn c19() {
    let n = range(2, 6) as usize;
    let msgs: Vec<Msg> = (0..n).map(|_| message()).collect();
    let mut wire = vec![];
    let mut ends = vec![];
    for m in &msgs {
        wire.extend_from_slice(&m.bytes);
        ends.push(wire.len());
    }
    let d = delivery();
    // after the frames the line ends, or fails in the middle of one
    let broken = chance(1, 4);
    let src = if broken {
        let err = err_spec();
        Src::Fail { at: draw(wire.len() as u32 + 1) as usize, err, then_data: chance(1, 2), keep: false }
    } else {
        Src::Eof
    };
    let whole = chance(1, 5);
    note(|| format!("{n} messages of {} bytes, {d:?}, {src:?}", wire.len()));
    sample(|| format!("{n} messages of {} bytes, {d:?}, {src:?}", wire.len()));
    let mut sink = SimWriter::new(delivery(), SinkEnd::Never);
    let mut sent = vec![];
    let mut line = Line::new(SimReader::new(&wire, d, src));
    if whole {
        // everything at once, to the end of the line
        let r = lib(|| kiss_xml::parse_stream(&mut line));
        not_after(&line);
        let failed = line.r.failed > 0;
        check(failed || line.r.pos == wire.len(), "left", || {
            format!("parse_stream returned after {} of {} bytes, before the end of the stream", line.r.pos, wire.len())
        });
        if failed {
            check(r.is_err(), "swallowed", || "a failed stream gave a document".into());
        }
        nontrivial();
        ev("whole", r.is_ok() as u64);
        return;
    }
    let mut bad = false;
    for (i, m) in msgs.iter().enumerate() {
        let from = if i == 0 { 0 } else { ends[i - 1] };
        let was_failed = line.r.failed;
        let mut frame = Line::new((&mut line).take(m.bytes.len() as u64));
        let r = lib(|| kiss_xml::parse_stream(&mut frame));
        not_after(&frame);
        drop(frame);
        let pos = line.r.pos;
        if line.r.failed > was_failed {
            // the line failed inside this message
            not_after(&line);
            check(r.is_err(), "swallowed", || "a failed stream gave a document".into());
            count("line_failed");
            break;
        }
        check(pos == ends[i], "left", || {
            format!(
                "message {i} ({}) is bytes {from} to {} of the stream, but after reading it the stream is at {pos}; the result was {}",
                short(&String::from_utf8_lossy(&m.bytes)),
                ends[i],
                match &r {
                    Ok(_) => "a document".to_string(),
                    Err(e) => format!("the error {e}"),
                }
            )
        });
        not_after(&line);
        ev("msg", r.is_ok() as u64);
        match &m.good {
            Some(want) => match &r {
                Ok(doc) => {
                    if let Some(x) = diff_doc(want, &extract(doc)) {
                        fail("differs", format!("message {i}: {x}; sent {}", short(&String::from_utf8_lossy(&m.bytes))));
                    }
                    if bad {
                        nontrivial();
                    }
                }
                Err(e) => fail("refused", format!("message {i} is good but was refused: {e}; sent {}", short(&String::from_utf8_lossy(&m.bytes)))),
            },
            None => {
                bad = true;
                // the same as if it had come alone
                match (std::str::from_utf8(&m.bytes), &r) {
                    (Err(_), Ok(_)) => fail("invalid-utf8", "bytes that are not UTF-8 were accepted"),
                    (Err(_), Err(_)) => {}
                    (Ok(s), r) => {
                        let alone = lib(|| kiss_xml::parse_str(s));
                        match (r, &alone) {
                            (Ok(a), Ok(b)) => {
                                let (a, b) = (extract(a), extract(b));
                                if let Some(x) = diff_doc(&b, &a) {
                                    fail("differs", format!("message {i} is read differently on the line than alone: {x}; sent {}", short(s)));
                                }
                            }
                            (Err(_), Err(_)) => {}
                            (a, b) => fail(
                                "differs",
                                format!("message {i} is {} on the line and {} alone; sent {}", if a.is_ok() { "accepted" } else { "refused" }, if b.is_ok() { "accepted" } else { "refused" }, short(s)),
                            ),
                        }
                    }
                }
            }
        }
        // the answer goes out on the other line
        if let Ok(doc) = &r {
            let ind = indent();
            let text = lib(|| doc.to_string_with_indent(ind.as_str()));
            let w = lib(|| doc.write_to_file_with_indent(&mut sink, ind.as_str()));
            check(w.is_ok(), "spurious", || format!("a healthy sink, but the write failed: {w:?}"));
            sent.extend_from_slice(text.as_bytes());
            check(sink.got == sent, "left", || format!("after the answer to message {i} the sink has {} bytes instead of {}", sink.got.len(), sent.len()));
        }
        lib(|| drop(r));
    }
    ev("sent", hash_str(&String::from_utf8_lossy(&sent)));
}
