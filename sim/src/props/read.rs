//! C01–C05: reading documents from a hostile world.
use crate::choice::hash_str;
use crate::disk::{Call, Fault, Plan};
use crate::enc::*;
use crate::gen;
use crate::io::*;
use crate::model::*;
use crate::rt::*;
use kiss_xml::dom::*;
use kiss_xml::errors::KissXmlError;

pub const INPUT: &str = "/data/in.xml";

/// puts the document on the simulated disk and reads it through parse_filepath
pub fn read_file(bytes: &[u8], plan: Plan) -> Result<Document, KissXmlError> {
    {
        let _p = pause();
        cx().disk.img.put(INPUT, bytes);
        cx().disk.arm(plan);
    }
    let r = lib(|| kiss_xml::parse_filepath(INPUT));
    let _p = pause();
    let left = cx().disk.open_fds();
    cx().disk.plan = Plan::default();
    check(left == 0, "leak", || format!("{left} file descriptors still open after parse_filepath"));
    r
}
/// soft disk trouble: nothing here may change the result
pub fn soft_plan() -> Plan {
    span(|| {
        let mut p = Plan { max_xfer: *pick(&[0usize, 1, 3, 17, 100, 4096]), ..Plan::default() };
        if chance(1, 2) {
            p.intr_every = range(2, 5);
        }
        if chance(1, 12) {
            p.burst = range(5, 200);
        }
        if chance(1, 4) {
            p.lie_size = Some(*pick(&[0u64, 1, 7, 100, 100_000]));
        }
        for _ in 0..draw(3) {
            p.at.push((Call::Read, draw(4), if chance(1, 2) { Fault::Intr } else { Fault::Short(range(1, 9) as usize) }));
        }
        p
    })
}
pub fn read_stream(bytes: &[u8], d: Delivery, src: Src) -> Result<Document, KissXmlError> {
    let mut r = SimReader::new(bytes, d, src);
    lib(|| kiss_xml::parse_stream(&mut r))
}
/// delivers the bytes by one of the ways into the library, with trouble that must not matter
pub fn deliver(bytes: &[u8]) -> Result<Document, KissXmlError> {
    span(|| match draw(5) {
        0 if std::str::from_utf8(bytes).is_ok() => {
            note(|| "parse_str".into());
            count("via:str");
            let s = std::str::from_utf8(bytes).unwrap();
            if chance(1, 2) {
                lib(|| kiss_xml::parse_str(s))
            } else {
                lib(|| kiss_xml::parse_str(s.to_string()))
            }
        }
        1 => {
            let p = soft_plan();
            note(|| format!("parse_filepath, plan {p:?}"));
            count("via:file");
            read_file(bytes, p)
        }
        _ => {
            let d = delivery();
            note(|| format!("parse_stream, {d:?}"));
            count("via:stream");
            read_stream(bytes, d, Src::Eof)
        }
    })
}
pub fn make() -> (MDoc, Enc) {
    let c = gen::cfg();
    let d = gen::doc(&c);
    let e = encode(&d, style());
    ev("doc", hash_str(&e.text));
    note(|| format!("sent: {:?}", e.text));
    (d, e)
}

// ---------------------------------------------------------------- C01

/// a message of many megabytes
fn huge() {
    let n = range(10, 200) as usize * 100_000;
    let unit = *pick(&["x", "é", "ab cd ", "中", "x\n"]);
    let mut body = unit.repeat(n / unit.len());
    body.push_str("end");
    let k = draw(4);
    let text = match k {
        0 => format!("<r><a>{body}</a><b k='v'/></r>"),
        1 => format!("<r><a k='{body}'/><b k='v'/></r>"),
        2 => format!("<r><!--{body}--><b k='v'/></r>"),
        _ => format!("<r><![CDATA[{body}]]><b k='v'/></r>"),
    };
    ev("huge", text.len() as u64);
    note(|| format!("{} bytes, {unit:?} in {}", text.len(), ["a text", "an attribute", "a comment", "CDATA"][k as usize]));
    let mut d = delivery();
    if d.piece > 0 {
        d.piece = d.piece.max((text.len() / 300) as u32);
    }
    let r = match draw(3) {
        0 => read_stream(text.as_bytes(), d, Src::Eof),
        1 => {
            let mut p = soft_plan();
            if p.max_xfer > 0 {
                p.max_xfer = p.max_xfer.max(text.len() / 300);
            }
            read_file(text.as_bytes(), p)
        }
        _ => lib(|| kiss_xml::parse_str(text.as_str())),
    };
    let doc = match r {
        Err(x) => fail("refused", format!("a valid document of {} bytes was refused: {x}", text.len())),
        Ok(d) => d,
    };
    let mut root = ME::new("r");
    let mut b = ME::new("b");
    b.attrs.insert("k".into(), "v".into());
    let mut a = ME::new("a");
    root.kids.push(match k {
        0 => {
            a.kids.push(M::T(body));
            M::E(a)
        }
        1 => {
            a.attrs.insert("k".into(), body);
            M::E(a)
        }
        2 => M::C(body),
        _ => M::D(body),
    });
    root.kids.push(M::E(b));
    if let Some(m) = diff_elem(&root, &extract(&doc).root, "") {
        fail("differs", format!("{m}; sent {} bytes", text.len()));
    }
    nontrivial();
    count("huge_message");
}

pub fn c01() {
    if chance(1, 3000) {
        return huge();
    }
    let n = range(1, 3);
    for _ in 0..n {
        span(|| {
            let (d, e) = make();
            sample(|| format!("{:?}", e.text));
            let r = deliver(e.text.as_bytes());
            match r {
                Err(x) => fail("refused", format!("a valid document was refused: {x}; sent {}", short(&e.text))),
                Ok(doc) => {
                    let got = extract(&doc);
                    if let Some(m) = diff_doc(&d, &got) {
                        fail("differs", format!("{m}; sent {}", short(&e.text)));
                    }
                    ev("ok", h(&got.root));
                    if d.root.size() > 1 {
                        nontrivial();
                    }
                    add("nodes_compared", d.root.size() as u64);
                    lib(|| drop(doc));
                }
            }
        });
    }
}

// ---------------------------------------------------------------- C02

fn expect_io(r: Result<Document, KissXmlError>, err: &ErrSpec, what: &str) {
    match r {
        Ok(_) => fail("swallowed", format!("{what}, but a document was returned")),
        Err(KissXmlError::IOError(e)) => {
            check(err.same(&e), "other-error", || format!("{what}, but the error reported is {e:?} instead of {err:?}"));
            ev("ioerr", e.kind() as u64);
        }
        Err(e) => fail("not-io", format!("{what}, but the error reported is not an I/O error: {e:?}")),
    }
}

/// makes the bytes invalid UTF-8
pub fn corrupt(b: &mut Vec<u8>) -> usize {
    let bad: &[&[u8]] = &[
        &[0x80], &[0xff], &[0xfe], &[0xc0, 0xaf], &[0xc3], &[0xe4, 0xb8], &[0xf0, 0x9f, 0xa6], &[0xed, 0xa0, 0x80],
        &[0xf4, 0x90, 0x80, 0x80], &[0xe9], &[0xfc, 0x80, 0x80, 0x80, 0x80, 0x80],
    ];
    loop {
        let at = draw(b.len() as u32 + 1) as usize;
        let s: &[u8] = pick(bad);
        let mut c = b.clone();
        match draw(3) {
            0 => {
                c.splice(at..at, s.iter().copied());
            }
            1 => {
                let e = (at + s.len()).min(c.len());
                c.splice(at..e, s.iter().copied());
            }
            _ => {
                // lose part of a multi-byte character, if there is one
                match (0..b.len()).find(|i| b[*i] >= 0xc0 && *i >= at) {
                    Some(i) => {
                        c.remove(i);
                    }
                    None => {
                        c.splice(at..at, s.iter().copied());
                    }
                }
            }
        }
        if std::str::from_utf8(&c).is_err() {
            *b = c;
            return at;
        }
        // nothing drawn any more: force it
        if exhausted() || at == b.len() {
            b.push(0xff);
            return b.len() - 1;
        }
    }
}

pub fn c02() {
    for _ in 0..range(1, 3) {
        span(|| {
            let (_, e) = make();
            let bytes = e.text.as_bytes();
            nontrivial();
            match draw(5) {
                0 | 1 => {
                    // anywhere, often near the end of the document
                    let at = match draw(4) {
                        0 => bytes.len(),
                        1 => e.root_end.min(bytes.len()),
                        _ => draw(bytes.len() as u32 + 1) as usize,
                    };
                    let err = err_spec();
                    let d = delivery();
                    let src = Src::Fail { at, err: err.clone(), then_data: chance(1, 2), keep: chance(1, 3) };
                    note(|| format!("parse_stream, {d:?}, {src:?} of {}", bytes.len()));
                    sample(|| format!("stream of {} bytes fails at {at} with {err:?}", bytes.len()));
                    let r = read_stream(bytes, d, src);
                    expect_io(r, &err, &format!("the stream failed at byte {at} of {} with {err:?}", bytes.len()));
                }
                2 => {
                    // a file whose reading fails
                    let errno = *pick(&[libc::EIO, libc::EACCES, libc::EISDIR, libc::ESTALE, libc::ENOMEM, libc::EBADF]);
                    let mut p = soft_plan();
                    p.at.clear();
                    p.lie_size = None;
                    let kind = draw(3);
                    match kind {
                        0 => p.at.push((Call::Open, 0, Fault::Errno(*pick(&[libc::ENOENT, libc::EACCES, libc::EMFILE, libc::EIO])))),
                        1 => p.at.push((Call::Read, draw(4), Fault::Errno(errno))),
                        _ => p.bad_sector = Some((draw(bytes.len() as u32 + 1) as u64, errno)),
                    }
                    if kind == 0 {
                        p.intr_every = 0;
                        p.burst = 0;
                    }
                    note(|| format!("parse_filepath, plan {p:?}"));
                    let r = read_file(bytes, p);
                    let fired = cx().disk.hard_errno.clone();
                    match fired.first() {
                        Some(n) => expect_io(r, &ErrSpec::Os(*n), &format!("reading the file failed with errno {n}")),
                        None => {
                            check(r.is_ok(), "refused", || "reading failed although no fault happened".into());
                        }
                    }
                }
                3 => {
                    // a path that is not a readable file
                    cx().disk = crate::disk::Disk::new();
                    let err = match draw(3) {
                        0 => {
                            cx().disk.img.mkdirs("/data/in.xml");
                            libc::EISDIR
                        }
                        1 => {
                            cx().disk.img.mkdirs("/data");
                            libc::ENOENT
                        }
                        _ => {
                            cx().disk.img.put("/data", b"<a/>");
                            libc::ENOTDIR
                        }
                    };
                    cx().disk.disarm();
                    note(|| format!("parse_filepath of a path that gives errno {err}"));
                    let r = lib(|| kiss_xml::parse_filepath(INPUT));
                    expect_io(r, &ErrSpec::Os(err), "the path cannot be read");
                    cx().disk = crate::disk::Disk::new();
                }
                _ => {
                    let mut b = bytes.to_vec();
                    for _ in 0..range(1, 2) {
                        corrupt(&mut b);
                    }
                    if std::str::from_utf8(&b).is_ok() {
                        b.push(0xff);
                    }
                    count("fault:invalid_utf8");
                    note(|| format!("corrupted: {:?}", String::from_utf8_lossy(&b)));
                    ev("bad", h(&b));
                    let r = if chance(1, 3) { read_file(&b, soft_plan()) } else { read_stream(&b, delivery(), Src::Eof) };
                    check(r.is_err(), "invalid-utf8", || {
                        format!("bytes that are not UTF-8 were accepted: {}", short(&String::from_utf8_lossy(&b)))
                    });
                }
            }
        });
    }
}

// ---------------------------------------------------------------- C03

pub fn c03() {
    let (_, e) = make();
    let bytes = e.text.as_bytes();
    let end = e.root_end;
    for _ in 0..range(1, 6) {
        span(|| {
            let cut = match draw(4) {
                0 => end - 1 - draw((end as u32).min(4)) as usize,
                1 => {
                    let t = pick(&e.toks);
                    t.1.min(end - 1)
                }
                2 => {
                    let t = pick(&e.toks);
                    t.0.min(end - 1)
                }
                _ => draw(end as u32) as usize,
            };
            count("fault:truncated");
            note(|| format!("cut at byte {cut} of {}: {:?}", bytes.len(), String::from_utf8_lossy(&bytes[..cut])));
            sample(|| format!("cut at {cut} of {}: {:?}", bytes.len(), e.text));
            if cut > e.root_start {
                nontrivial();
            }
            ev("cut", cut as u64);
            let r = deliver(&bytes[..cut]);
            match r {
                Err(_) => ev("rej", 1),
                Ok(d) => {
                    let got = lib(|| d.to_string());
                    fail(
                        "accepted",
                        format!(
                            "{} of {} bytes arrived ({}) and were taken for the document {}",
                            cut,
                            bytes.len(),
                            short(&String::from_utf8_lossy(&bytes[..cut])),
                            short(&got)
                        ),
                    )
                }
            }
        });
    }
}

// ---------------------------------------------------------------- C05

const SEPS: &[&str] = &["", "\n", " ", "\r\n\t", "<!-- again -->", "\n\n\n"];

pub fn c05() {
    let (_, a) = make();
    let same = chance(1, 2);
    let b = if same { a.clone() } else { make().1 };
    let n = range(1, 3);
    for _ in 0..n {
        span(|| {
            // the first document complete, then a piece of the second that holds a whole tag
            let mut s = a.text[..if chance(1, 3) { a.root_end } else { a.text.len() }].to_string();
            s.push_str(pick(SEPS));
            let tags: Vec<usize> = (0..b.toks.len())
                .filter(|i| matches!(b.toks[*i].2, Tok::Open | Tok::Close | Tok::SelfClose))
                .collect();
            let piece = match draw(4) {
                0 => b.text.clone(),
                1 => b.text[b.root_start..b.root_end].to_string(),
                2 => {
                    // from some point on, at least one tag
                    let t = *pick(&tags);
                    let from = draw(t as u32 + 1) as usize;
                    let to = t + draw((b.toks.len() - t) as u32) as usize;
                    b.text[b.toks[from].0..b.toks[to].1].to_string()
                }
                _ => {
                    let t = *pick(&tags);
                    b.text[b.toks[t].0..b.toks[t].1].to_string()
                }
            };
            s.push_str(&piece);
            if chance(1, 6) {
                // a third time
                s.push_str(&b.text);
            }
            count("fault:repeated");
            nontrivial();
            ev("rep", hash_str(&s));
            note(|| format!("delivered: {s:?}"));
            sample(|| format!("delivered: {s:?}"));
            match deliver(s.as_bytes()) {
                Err(_) => ev("rej", 1),
                Ok(d) => {
                    let got = lib(|| d.to_string());
                    fail("merged", format!("more than one root element in {}, taken for {}", short(&s), short(&got)))
                }
            }
        });
    }
}

// ---------------------------------------------------------------- C17

/// what happens to whole pieces of a message on its way
pub fn frames(a: &Enc, b: &Enc) -> (String, u32) {
    let mut f: Vec<&str> = a.toks.iter().map(|t| &a.text[t.0..t.1]).collect();
    let other: Vec<&str> = b.toks.iter().map(|t| &b.text[t.0..t.1]).collect();
    let mut faults = 0;
    for _ in 0..range(1, 4) {
        span(|| {
            if f.is_empty() {
                return;
            }
            let n = f.len();
            let i = draw(n as u32) as usize;
            // a burst hits several pieces
            let j = (i + if chance(1, 3) { range(1, 5) as usize } else { 1 }).min(n);
            let what = draw(6);
            let kind = ["lost", "repeated", "repeated later", "moved", "swapped", "from another message"][what as usize];
            match what {
                0 => {
                    f.drain(i..j);
                }
                1 => {
                    let x: Vec<&str> = f[i..j].to_vec();
                    f.splice(j..j, x);
                }
                2 => {
                    let x: Vec<&str> = f[i..j].to_vec();
                    let k = draw(n as u32 + 1) as usize;
                    f.splice(k..k, x);
                }
                3 => {
                    let x: Vec<&str> = f.drain(i..j).collect();
                    let k = draw(f.len() as u32 + 1) as usize;
                    f.splice(k..k, x);
                }
                4 => {
                    let k = if chance(1, 2) { (i + 1).min(n - 1) } else { draw(n as u32) as usize };
                    f.swap(i, k);
                }
                _ => {
                    let k = draw(other.len() as u32) as usize;
                    f.insert(i, other[k]);
                }
            }
            faults += 1;
            count(["fault:lost", "fault:repeated", "fault:repeated_later", "fault:moved", "fault:swapped", "fault:foreign"][what as usize]);
            note(|| format!("pieces {i}..{j} {kind}"));
        });
    }
    (f.concat(), faults)
}

pub fn c17() {
    let (_, a) = make();
    let b = if chance(1, 2) { a.clone() } else { make().1 };
    for _ in 0..range(1, 4) {
        span(|| {
            let (s, _) = frames(&a, &b);
            ev("frames", hash_str(&s));
            if s != a.text {
                nontrivial();
            }
            note(|| format!("arrives: {s:?}"));
            sample(|| format!("arrives: {s:?}"));
            let want = crate::xmlread::read_as(&s, true);
            let r = deliver(s.as_bytes());
            match (want, r) {
                (Err(_), Err(_)) => count("refused"),
                (Err(x), Ok(d)) => {
                    // (white space of other scripts outside the root is white space to the library)
                    if s.chars().any(|c| c.is_whitespace() && !c.is_ascii()) {
                        if let Ok(w) = crate::xmlread::read_tolerant(&s) {
                            count("liberties");
                            if let Some(m) = diff_doc(&w.doc.norm(), &extract(&d)) {
                                fail("differs", format!("{m}; arrived {}", short(&s)));
                            }
                            return;
                        }
                    }
                    let got = lib(|| d.to_string());
                    fail("accepted", format!("what arrived is not a document ({x}) but was taken for {}; it was {}", short(&got), short(&s)))
                }
                (Ok(w), Ok(d)) => {
                    count("still_a_document");
                    if let Some(m) = diff_doc(&w.doc.norm(), &extract(&d)) {
                        fail("differs", format!("{m}; arrived {}", short(&s)));
                    }
                }
                (Ok(w), Err(x)) => {
                    // a prefix may have lost its declaration
                    if crate::hist::all_bound(&w.doc.root) {
                        fail("refused", format!("what arrived is a valid document but was refused: {x}; arrived {}", short(&s)));
                    }
                    count("unbound");
                }
            }
        });
    }
}
