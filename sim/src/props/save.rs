//! C06–C09: writing documents to sinks and disks, and getting them back.
use crate::disk::{Call, Disk, Fault, Image, Kind, Plan};
use crate::gen::{self, Cfg};
use crate::hist::*;
use crate::io::*;
use crate::model::*;
use crate::props::edit::indent;
use crate::props::read::*;
use crate::rt::*;
use crate::xmlread;
use kiss_xml::dom::*;
use std::collections::BTreeSet;

/// an in-memory document and its model: built, or read from a wild spelling
pub fn document(c: &Cfg) -> (Document, MDoc) {
    span(|| {
        let m = gen::doc(c);
        document_of(m)
    })
}
pub fn document_of(m: MDoc) -> (Document, MDoc) {
    span(|| {
        let d = match draw(3) {
            0 => build_doc(&m),
            1 => {
                let root = build(&m.root);
                let mut d = lib(|| Document::new(root));
                lib(|| {
                    d.set_declaration(m.decl.as_ref().map(|x| Declaration::from_str(x).expect("declaration accepted")));
                    if !m.dtds.is_empty() {
                        let v: Vec<DTD> = m.dtds.iter().map(|x| DTD::from_string(x.as_str()).expect("DTD accepted")).collect();
                        d.set_doctype_defs(Some(&v));
                    }
                });
                d
            }
            _ => {
                let e = crate::enc::encode(&m, crate::enc::style());
                match lib(|| kiss_xml::parse_str(e.text.as_str())) {
                    Ok(d) => d,
                    Err(x) => fail("refused", format!("a valid document was refused: {x}; {}", short(&e.text))),
                }
            }
        };
        (d, m)
    })
}
pub const INVALID_INDENTS: &[&str] = &["x", "\t\t", " \t", "\n", "\u{a0}", "--", "<a>"];
pub fn any_indent() -> String {
    if chance(1, 8) {
        pick(INVALID_INDENTS).to_string()
    } else {
        indent()
    }
}

// ---------------------------------------------------------------- C06

pub fn c06() {
    let c = gen::cfg();
    let (mut doc, m) = document(&c);
    let mut t = None;
    if chance(1, 3) {
        // after some edits
        let root = lib(|| std::mem::take(doc.root_element_mut()));
        let mut x = Tree { real: root, m: m.root.clone() };
        let o = opts();
        for _ in 0..range(1, 4) {
            step(&mut x, &c, &o);
        }
        *lib(|| doc.root_element_mut()) = x.real;
        t = Some(x.m);
    }
    let m = MDoc { root: t.unwrap_or(m.root), ..m };
    for _ in 0..range(1, 4) {
        span(|| {
            let plain = chance(1, 5);
            let ind = if plain { "  ".to_string() } else { any_indent() };
            let text = lib(|| if plain { doc.to_string() } else { doc.to_string_with_indent(ind.as_str()) });
            let bytes = text.as_bytes();
            let at = match draw(4) {
                0 => 0,
                1 => bytes.len().saturating_sub(1 + draw(3) as usize),
                _ => draw(bytes.len() as u32 + 2) as usize,
            };
            let end = match draw(4) {
                0 | 1 => SinkEnd::Never,
                2 => SinkEnd::Fail { at, err: err_spec(), once: chance(1, 2) },
                _ => SinkEnd::Full { at },
            };
            let d = delivery();
            note(|| format!("write {} bytes, indent {ind:?}, {d:?}, {end:?}", bytes.len()));
            sample(|| format!("{} bytes, indent {ind:?}, {d:?}, {end:?}", bytes.len()));
            let mut w = SimWriter::new(d, end.clone());
            let r = lib(|| if plain { doc.write_to_file(&mut w) } else { doc.write_to_file_with_indent(&mut w, ind.as_str()) });
            ev("res", r.is_ok() as u64);
            match &r {
                Ok(()) => {
                    if w.got != bytes {
                        let k = w.got.iter().zip(bytes).take_while(|x| x.0 == x.1).count();
                        fail(
                            "incomplete",
                            format!(
                                "the write reported success, but the sink has {} of {} bytes and differs from byte {k} on: {}",
                                w.got.len(),
                                bytes.len(),
                                short(&String::from_utf8_lossy(&w.got[k.min(w.got.len())..]))
                            ),
                        );
                    }
                    check(w.failed == 0 || w.got == bytes, "swallowed", || "a failure of the sink was swallowed".into());
                }
                Err(e) => {
                    match &end {
                        SinkEnd::Never => fail("spurious", format!("the sink never failed, but the write reports {e:?}")),
                        _ => check(w.failed > 0, "spurious", || format!("the sink had not failed yet, but the write reports {e:?}")),
                    }
                    if let SinkEnd::Fail { err, .. } = &end {
                        check(err.same(e), "other-error", || format!("the sink failed with {err:?}, the write reports {e:?}"));
                    }
                    check(bytes.starts_with(&w.got), "not-a-prefix", || {
                        let k = w.got.iter().zip(bytes).take_while(|x| x.0 == x.1).count();
                        format!("after a failed write the sink holds {} bytes that differ from the serialisation at byte {k}", w.got.len())
                    });
                    nontrivial();
                }
            }
            if w.got.len() > 2 && w.d.piece > 0 {
                nontrivial();
            }
            // unchanged, and it can be written again
            if let Some(x) = diff_doc(&m, &extract(&doc)) {
                fail("changed", format!("the document changed while it was written: {x}"));
            }
            if r.is_err() {
                let mut w = SimWriter::new(delivery(), SinkEnd::Never);
                let r = lib(|| if plain { doc.write_to_file(&mut w) } else { doc.write_to_file_with_indent(&mut w, ind.as_str()) });
                check(r.is_ok() && w.got == bytes, "not-rewritable", || format!("after a failed write, writing again gave {r:?} and {} of {} bytes", w.got.len(), bytes.len()));
            }
        });
    }
}

// ---------------------------------------------------------------- C07

const FILES: &[&str] = &["out.xml", "o", "ünï çödé.xml", "a b.xml", "日本.xml", ".hidden", "x.tar.gz", "-", "out.xml.tmp", "out.xml~"];
const DIRS: &[&str] = &["a", "b", "new dir", "é", "sub"];

#[derive(Debug)]
struct Target {
    path: String,
    /// whether a healthy disk lets the save succeed; None = either is fine
    legit: Option<bool>,
}

/// puts a situation on the disk and names a path to save to
fn situation() -> Target {
    span(|| {
        let _p = pause();
        let img = &mut cx().disk.img;
        img.put("/data/other.xml", b"<other k=\"1\">untouched</other>");
        img.put("/data/sub/keep.txt", b"keep");
        img.put("/top.xml", b"<top/>");
        let data = img.lookup("/data").unwrap();
        img.cwd = if chance(1, 3) { 1 } else { data };
        let at_data = img.cwd == data;
        let f = *pick(FILES);
        let old = |img: &mut Image, path: &str| {
            // what the target held before
            match draw(4) {
                0 => {}
                1 => {
                    img.put(path, b"");
                }
                2 => {
                    img.put(path, b"<old>short</old>");
                }
                _ => {
                    let n = range(100, 6000) as usize;
                    let x = format!("<?xml version=\"1.0\"?>\n<old>{}</old>\n<!-- tail -->", "long ".repeat(n / 5));
                    img.put(path, x.as_bytes());
                }
            }
        };
        match draw(18) {
            0..=4 => {
                let path = format!("/data/{f}");
                old(img, &path);
                Target { path, legit: Some(true) }
            }
            5 | 6 => {
                // parents that do not exist
                let mut path = "/data".to_string();
                for _ in 0..range(1, 4) {
                    path.push('/');
                    path.push_str(pick(DIRS));
                }
                Target { path: format!("{path}/{f}"), legit: Some(true) }
            }
            7 | 8 => {
                // relative paths
                let base = if at_data { "" } else { "data/" };
                let p = match draw(6) {
                    0 => format!("{base}{f}"),
                    1 => format!("./{base}{f}"),
                    2 => format!("{base}sub/../{f}"),
                    3 => format!("{base}a/b/{f}"),
                    4 => format!("{base}//sub///{f}"),
                    _ => format!("{base}sub/./{f}"),
                };
                if chance(1, 2) {
                    let abs = format!("/data/{f}");
                    old(img, &abs);
                }
                Target { path: p, legit: Some(true) }
            }
            9 => {
                // the target is a link to a file, or to nothing yet
                let to = *pick(&["real.xml", "/data/real.xml", "sub/real.xml", "../real.xml"]);
                if chance(2, 3) {
                    let abs = match to {
                        "real.xml" | "/data/real.xml" => "/data/real.xml",
                        "sub/real.xml" => "/data/sub/real.xml",
                        _ => "/real.xml",
                    };
                    old(img, abs);
                }
                img.add(data, b"link.xml", Kind::Link(to.as_bytes().to_vec()));
                Target { path: "/data/link.xml".into(), legit: Some(true) }
            }
            10 => {
                // a link among the parents
                img.add(1, b"link", Kind::Link(b"data/sub".to_vec()));
                let p = if chance(1, 2) { format!("/link/{f}") } else { format!("/link/new/{f}") };
                Target { path: p, legit: Some(true) }
            }
            11 => {
                // a directory is in the way
                img.mkdirs(&format!("/data/{f}"));
                Target { path: format!("/data/{f}"), legit: Some(false) }
            }
            12 => {
                // a file where a directory should be
                let p = *pick(&["/data/other.xml/x.xml", "/data/other.xml/a/b/x.xml", "/top.xml/x.xml"]);
                Target { path: p.into(), legit: Some(false) }
            }
            13 => {
                let p = format!("/data/{f}");
                let i = img.put(&p, b"<read-only/>");
                img.inodes.get_mut(&i).unwrap().ro = true;
                Target { path: p, legit: None }
            }
            14 => {
                // a directory that takes no new entries
                let d = img.mkdirs("/data/ro");
                let exists = chance(1, 2);
                if exists {
                    img.put("/data/ro/out.xml", b"<old/>");
                }
                img.inodes.get_mut(&d).unwrap().ro = true;
                if exists {
                    Target { path: "/data/ro/out.xml".into(), legit: None }
                } else {
                    Target { path: (*pick(&["/data/ro/out.xml", "/data/ro/a/out.xml"])).into(), legit: Some(false) }
                }
            }
            15 => {
                img.add(data, b"loop", Kind::Link(b"loop".to_vec()));
                Target { path: (*pick(&["/data/loop", "/data/loop/out.xml"])).into(), legit: Some(false) }
            }
            16 => {
                let long = "n".repeat(300);
                Target { path: (*pick(&[format!("/data/{long}"), format!("/data/{long}/out.xml"), "/data/x\0y.xml".to_string()])).clone(), legit: Some(false) }
            }
            _ => {
                let p = *pick(&["", "/", "/data/", "..", "/data/sub/..", "/data/new/"]);
                Target { path: p.into(), legit: if p == "/data/new/" { None } else { Some(false) } }
            }
        }
    })
}
pub fn soft_save(p: &mut Plan) {
    p.max_xfer = *pick(&[0usize, 0, 1, 7, 64, 1000]);
    if chance(1, 3) {
        p.intr_every = range(2, 5);
    }
    if chance(1, 12) {
        p.burst = range(5, 200);
    }
    for k in 0..4 {
        if chance(1, 6) {
            p.mkdir_race.push(k);
        }
    }
    for _ in 0..draw(3) {
        p.at.push((Call::Write, draw(4), if chance(1, 2) { Fault::Intr } else { Fault::Short(range(1, 20) as usize) }));
    }
}
pub fn hard_save(p: &mut Plan, len: usize) {
    let e = *pick(&[libc::EIO, libc::ENOSPC, libc::EACCES, libc::EDQUOT, libc::EROFS, libc::EMFILE, libc::EPERM]);
    // how far it gets: anywhere, or nearly to the end
    let reach = if chance(1, 4) { len.saturating_sub(range(1, 3) as usize) } else { draw(len as u32 + 1) as usize };
    match draw(9) {
        0 => p.at.push((Call::Open, draw(2), Fault::Errno(e))),
        1 => p.at.push((Call::Mkdir, draw(5), Fault::Errno(e))),
        2 => p.at.push((Call::Write, draw(3), Fault::Errno(e))),
        3 => p.at.push((Call::Write, draw(3), Fault::PartThen(1 + reach, e))),
        4 | 5 => p.space = Some(reach),
        6 => p.at.push((*pick(&[Call::Rename, Call::Sync, Call::Trunc, Call::Unlink, Call::Seek]), 0, Fault::Errno(e))),
        7 => {
            // the file takes nothing more, for a while or only once
            let mut first = draw(3);
            if chance(1, 3) && reach > 0 {
                p.at.insert(0, (Call::Write, 0, Fault::Short(reach)));
                first = 1;
            }
            let n = *pick(&[1, 1, 4, 60]);
            (first..first + n).for_each(|k| p.at.push((Call::Write, k, Fault::Zero)));
        }
        _ => p.at.push((Call::Close, draw(2), Fault::Errno(libc::EIO))),
    }
}
/// the paths of the target: as named and as resolved
fn own_paths(img: &Image, path: &str) -> BTreeSet<Vec<u8>> {
    let mut s = BTreeSet::new();
    for follow in [false, true] {
        if let Ok((dir, name, _)) = img.walk(path.as_bytes(), follow, 0) {
            let mut p = img.abs(dir);
            p.push(b'/');
            p.extend_from_slice(&name);
            s.insert(p);
        }
    }
    s
}
/// everything that was there and is not the target is as it was
fn others(before: &Image, after: &Image, own: &BTreeSet<Vec<u8>>, what: &str) {
    let now = after.listing();
    for (p, n) in before.listing() {
        if own.contains(&p) {
            continue;
        }
        match now.get(&p) {
            Some(m) if *m == n => {}
            x => fail(
                "collateral",
                format!(
                    "{what}: {:?} was {} and is {}",
                    String::from_utf8_lossy(&p),
                    kind(&n),
                    x.map_or("gone".into(), kind)
                ),
            ),
        }
    }
}
fn kind(n: &crate::disk::Inode) -> String {
    match &n.kind {
        Kind::Dir(_) => format!("a directory{}", if n.ro { " (read-only)" } else { "" }),
        Kind::File(d) => format!("a file with {}", short(&String::from_utf8_lossy(d))),
        Kind::Link(t) => format!("a link to {}", String::from_utf8_lossy(t)),
    }
}
pub fn save(doc: &Document, path: &str, ind: &str) -> std::io::Result<()> {
    lib(|| {
        if ind == "  " && path.len() % 2 == 0 {
            doc.write_to_filepath(path)
        } else if path.len() % 3 == 0 {
            doc.write_to_filepath_with_indent(std::path::PathBuf::from(path), ind.to_string())
        } else {
            doc.write_to_filepath_with_indent(path, ind)
        }
    })
}

pub fn c07() {
    {
        let _p = pause();
        cx().disk = Disk::new();
    }
    let c = gen::cfg();
    let tgt = situation();
    note(|| format!("target {tgt:?}, cwd {}", cx().disk.img.cwd));
    let mut first = true;
    for _ in 0..range(1, 3) {
        span(|| {
            let (doc, m) = document(&c);
            let ind = any_indent();
            let text = lib(|| doc.to_string_with_indent(ind.as_str()));
            let mut plan = Plan::default();
            let soft = chance(1, 2);
            let hard = chance(1, 2);
            if soft {
                soft_save(&mut plan);
            }
            if hard {
                hard_save(&mut plan, text.len());
            }
            if chance(1, 6) {
                let n = *pick(&[0, 1, text.len(), text.len() + 1, text.len() + 5000]);
                plan.file_race = Some((tgt.path.clone().into_bytes(), vec![b'o'; n]));
            }
            note(|| format!("save {} bytes, {plan:?}", text.len()));
            sample(|| format!("{tgt:?}: save {} bytes, {plan:?}", text.len()));
            let before = {
                let _p = pause();
                cx().disk.arm(plan.clone());
                cx().disk.img.clone()
            };
            let r = save(&doc, &tgt.path, &ind);
            let _p = pause();
            ev("saved", r.is_ok() as u64 | crate::choice::hash_str(&tgt.path) << 1);
            ev("text", crate::choice::hash_str(&text));
            let d = &mut cx().disk;
            let after = d.img.clone();
            let (nhard, errnos, open, arrived) = (d.hard, d.hard_errno.clone(), d.open_fds(), d.arrived);
            d.disarm();
            check(open == 0, "leak", || format!("{open} file descriptors still open after the save"));
            match &r {
                Ok(()) => {
                    let got = after.file(tgt.path.as_bytes());
                    match got {
                        Some(b) if b == text.as_bytes() => {}
                        Some(b) => fail(
                            "incomplete",
                            format!(
                                "the save of {} bytes reported success, but the file holds {} bytes: {}",
                                text.len(),
                                b.len(),
                                short(&String::from_utf8_lossy(b))
                            ),
                        ),
                        None => fail("incomplete", format!("the save to {:?} reported success, but there is no such file", tgt.path)),
                    }
                    if nhard == 0 {
                        count("saved");
                    }
                }
                Err(e) => {
                    count("save_failed");
                    // (one that insists on creating the file may say that it could not)
                    let beaten = arrived && e.kind() == std::io::ErrorKind::AlreadyExists;
                    let explained = nhard > 0 || tgt.legit != Some(true) || beaten;
                    check(explained, "spurious", || format!("nothing failed on the disk, but the save to {:?} reports {e:?}", tgt.path));
                    if tgt.legit == Some(true) && !beaten && plan.at.iter().all(|x| !matches!(x.0, Call::Stat)) {
                        let same = errnos.iter().any(|n| *n == -1 || std::io::Error::from_raw_os_error(*n).kind() == e.kind());
                        check(same, "other-error", || format!("the disk failed with errno {errnos:?}, the save reports {e:?}"));
                    }
                }
            }
            // whatever happened, nothing else changed
            let mut own = own_paths(&before, &tgt.path);
            own.extend(own_paths(&after, &tgt.path));
            others(&before, &after, &own, &format!("save to {:?} ({})", tgt.path, if r.is_ok() { "succeeded" } else { "failed" }));
            if r.is_err() && tgt.legit == Some(true) {
                // once the disk works again, so does the save
                drop(_p);
                let r = save(&doc, &tgt.path, &ind);
                let ok = r.is_ok() && cx().disk.img.file(tgt.path.as_bytes()) == Some(text.as_bytes());
                check(ok, "not-resaved", || format!("after a failed save to {:?}, saving on a healthy disk gave {r:?}", tgt.path));
            }
            if tgt.legit == Some(true) && (nhard > 0 || soft || !first) {
                nontrivial();
            }
            if tgt.legit != Some(true) {
                nontrivial();
            }
            if let Some(x) = diff_doc(&m, &extract(&doc)) {
                fail("changed", format!("the document changed while it was saved: {x}"));
            }
            first = false;
        });
    }
    let _p = pause();
    cx().disk = Disk::new();
}

// ---------------------------------------------------------------- C08

/// a document related to the given one: the same shape with other content, or longer, or shorter
fn related(c: &Cfg, m: &MDoc) -> MDoc {
    span(|| match draw(5) {
        0 => gen::doc(c),
        1 => {
            // the same but for one text or attribute of equal length
            let mut n = m.clone();
            bump(&mut n.root, &mut draw(12));
            n
        }
        2 => {
            // more at the end
            let mut n = m.clone();
            let k = range(1, 4);
            for _ in 0..k {
                let x = gen::node(c, &bound_at(&n.root, &[]), false);
                n.root.kids.push(x);
            }
            n.root.cleanup();
            n
        }
        3 => {
            // less at the end
            let mut n = m.clone();
            let k = draw(3) as usize + 1;
            let l = n.root.kids.len();
            n.root.kids.truncate(l.saturating_sub(k));
            n.root.cleanup();
            n
        }
        _ => {
            let mut n = m.clone();
            n.decl = if n.decl.is_some() { None } else { Some(gen::decl()) };
            n
        }
    })
}
fn bump(e: &mut ME, k: &mut u32) {
    let f = |s: &mut String| {
        *s = s.chars().map(|c| if c.is_ascii_lowercase() { (((c as u8 - b'a' + 1) % 26) + b'a') as char } else { c }).collect()
    };
    for (a, v) in e.attrs.iter_mut() {
        if a.starts_with("xmlns") {
            continue;
        }
        if *k == 0 {
            f(v);
            return;
        }
        *k -= 1;
    }
    for x in e.kids.iter_mut() {
        match x {
            M::E(c) => bump(c, k),
            M::T(t) => {
                if *k == 0 {
                    f(t);
                    return;
                }
                *k = k.saturating_sub(1);
            }
            _ => {}
        }
    }
}

/// what a reader finds at the path after a restart
fn after_restart(path: &str) -> Option<MDoc> {
    {
        let _p = pause();
        let mut p = Plan { max_xfer: *pick(&[0usize, 0, 5]), ..Plan::default() };
        if chance(1, 4) {
            p.intr_every = 3;
        }
        cx().disk.arm(p);
    }
    let r = lib(|| kiss_xml::parse_filepath(path));
    cx().disk.disarm();
    match r {
        Ok(d) => Some(extract(&d).norm()),
        Err(_) => None,
    }
}

pub fn c08() {
    {
        let _p = pause();
        cx().disk = Disk::new();
        cx().disk.img.put("/data/other.xml", b"<other>untouched</other>");
        cx().disk.img.put("/data/doc.xml.bak", b"<backup/>");
    }
    let mut c = gen::cfg();
    c.long = std::cell::Cell::new(0);
    if chance(1, 2) {
        c.nodes = c.nodes.min(6); c.extreme = 0;
    }
    let path = *pick(&["/data/doc.xml", "/data/doc.xml", "/data/new/dir/doc.xml"]);
    let (doc, m) = document(&c);
    let mut was: Option<MDoc> = None;
    let mut last = m.clone();
    if path == "/data/doc.xml" && chance(4, 5) {
        // the old document, saved in peace
        let r = save(&doc, path, &indent());
        check(r.is_ok(), "spurious", || format!("a save on a healthy disk failed: {r:?}"));
        was = after_restart(path);
        check(was == Some(m.norm()), "not-old", || "the old document cannot be read back".into());
    }
    let rounds = range(1, 3);
    for _ in 0..rounds {
        span(|| {
            let n = related(&c, &last);
            let (doc, n) = document_of(n);
            let ind = indent();
            let text = lib(|| doc.to_string_with_indent(ind.as_str()));
            let base = {
                let _p = pause();
                cx().disk.img.clone()
            };
            // in peace, to know how many disk steps there are
            let r = save(&doc, path, &ind);
            check(r.is_ok(), "spurious", || format!("a save on a healthy disk failed: {r:?}"));
            let total = cx().disk.steps;
            let done = {
                let _p = pause();
                let i = cx().disk.img.clone();
                check(i.file(path.as_bytes()) == Some(text.as_bytes()), "incomplete", || "a save on a healthy disk is not complete".into());
                i
            };
            let new = n.norm();
            note(|| format!("{total} disk steps; old {:?}; new {:?}", base.file(path.as_bytes()).map(|b| String::from_utf8_lossy(b).into_owned()), text));
            sample(|| format!("{total} disk steps; old {:?}; new {text:?}", base.file(path.as_bytes()).map(|b| String::from_utf8_lossy(b).into_owned())));
            let mut points: Vec<u64> = vec![];
            if total <= 100 && chance(1, 2) {
                points.extend(0..=total);
                count("all_crash_points");
            } else {
                for _ in 0..range(2, 12) {
                    points.push(match draw(5) {
                        0 => draw(5).min(total as u32) as u64,
                        1 => total - draw(12).min(total as u32) as u64,
                        2 => {
                            // just after some '>' of the new text
                            let g: Vec<usize> = text.bytes().enumerate().filter(|x| x.1 == b'>').map(|x| x.0).collect();
                            (total as usize - text.len().min(total as usize) + *pick(&g) + 1).min(total as usize) as u64
                        }
                        _ => draw(total as u32 + 1) as u64,
                    });
                }
            }
            let keep = pick(&points).to_owned();
            let mut kept = None;
            for k in points {
                {
                    let _p = pause();
                    let mut p = Plan::default();
                    if chance(1, 4) {
                        p.max_xfer = *pick(&[1usize, 7, 64]);
                    }
                    cx().disk.reboot(base.clone());
                    cx().disk.arm(p);
                    cx().disk.crash_at = Some(k);
                }
                let _ = save(&doc, path, &ind);
                let img = {
                    let _p = pause();
                    let d = &mut cx().disk;
                    let img = d.frozen.take().unwrap_or_else(|| d.img.clone());
                    d.reboot(img.clone());
                    img
                };
                count("crash_points");
                let now = after_restart(path);
                let held = img.file(path.as_bytes()).map(|b| String::from_utf8_lossy(b).into_owned());
                ev("crash", now.as_ref().map_or(0, |d| h(&d.root)));
                if let Some(x) = &now {
                    if *x != new && Some(x) != was.as_ref() {
                        let d = diff_doc(&new, x).unwrap_or_default();
                        fail(
                            "third-document",
                            format!(
                                "a crash at disk step {k} of {total} left a document that is neither the old nor the new one ({d}): {}",
                                short(&held.unwrap_or_default())
                            ),
                        );
                    }
                }
                if now.is_some() {
                    count("crash_left_a_document");
                } else {
                    count("crash_left_an_error");
                }
                let own = own_paths(&base, path);
                others(&base, &img, &own, &format!("crash at disk step {k} of {total}"));
                nontrivial();
                if k == keep {
                    kept = Some(img);
                }
            }
            // the history goes on from one of the crashes: a later save heals it
            {
                let _p = pause();
                cx().disk.reboot(kept.unwrap_or(done));
            }
            if chance(1, 2) {
                let r = save(&doc, path, &ind);
                let ok = cx().disk.img.file(path.as_bytes()) == Some(text.as_bytes());
                check(r.is_ok() && ok, "not-healed", || format!("a save after a crash and restart gave {r:?}, complete: {ok}"));
            }
            was = after_restart(path);
            last = n;
        });
    }
    let _p = pause();
    cx().disk = Disk::new();
}

// ---------------------------------------------------------------- C09

const PATH: &str = "/data/session.xml";

/// judges written bytes with the independent reader
pub fn independent(text: &str, want: &MDoc, what: &str) {
    match xmlread::read(text) {
        Err(x) => fail("ill-formed", format!("{what}: the bytes are not well-formed XML: {x}; {}", short(text))),
        Ok(r) => {
            if let Some(d) = diff_doc(want, &r.doc.norm()) {
                fail("independent", format!("{what}: an independent reader sees something else: {d}; {}", short(text)));
            }
        }
    }
}

/// another declaration or other DTDs
pub fn prolog_edit(doc: &mut Document, m: &mut MDoc) {
    if chance(1, 2) {
        let d = if chance(1, 4) { None } else { Some(gen::decl()) };
        note(|| format!("set_declaration({d:?})"));
        lib(|| doc.set_declaration(d.as_ref().map(|d| Declaration::from_str(d).expect("declaration accepted"))));
        m.decl = d;
    } else if !m.dtds.is_empty() && chance(1, 3) {
        // one of them, in place
        let i = draw(m.dtds.len() as u32) as usize;
        let d = gen::dtd();
        note(|| format!("doctype_defs_mut(): {i} := {d:?}"));
        let n = lib(|| {
            let n = doc.doctype_defs().count();
            if let Some(x) = doc.doctype_defs_mut().nth(i) {
                *x = DTD::from_string(d.as_str()).expect("DTD accepted");
            }
            n
        });
        check(n == m.dtds.len(), "differs", || format!("{n} DTDs are listed instead of {}", m.dtds.len()));
        m.dtds[i] = d;
    } else {
        let mut v: Vec<String> = (0..draw(3)).map(|_| gen::dtd()).collect();
        v.dedup();
        note(|| format!("set_doctype_defs({v:?})"));
        let w: Vec<DTD> = lib(|| v.iter().map(|d| DTD::from_string(d.as_str()).expect("DTD accepted")).collect());
        lib(|| doc.set_doctype_defs(if w.is_empty() && v.len() % 2 == 0 { None } else { Some(&w) }));
        m.dtds = v;
    }
}

pub fn c09() {
    {
        let _p = pause();
        cx().disk = Disk::new();
    }
    let mut c = gen::cfg();
    c.attr_ws = chance(2, 3);
    c.cr = chance(1, 3);
    let mut o = opts();
    o.risky = chance(1, 2);
    let (mut doc, mut m) = document(&c);
    let mut restarts = 0;
    let mut saved: Option<MDoc> = None;
    let n = match draw(4) {
        0 => range(1, 3),
        1 | 2 => range(2, 8),
        _ => range(6, 25),
    };
    for _ in 0..n {
        span(|| match draw(12) {
            0..=4 => {
                let real = lib(|| std::mem::take(doc.root_element_mut()));
                let mut t = Tree { real, m: std::mem::take(&mut m.root) };
                step(&mut t, &c, &o);
                m.root = t.m;
                let r = t.real;
                *lib(|| doc.root_element_mut()) = r;
            }
            5 => {
                prolog_edit(&mut doc, &mut m);
            }
            6 | 7 => {
                // a save that may meet a failing disk
                let ind = any_indent();
                let text = lib(|| doc.to_string_with_indent(ind.as_str()));
                {
                    let _p = pause();
                    let mut p = Plan::default();
                    soft_save(&mut p);
                    if chance(1, 3) {
                        hard_save(&mut p, text.len());
                    }
                    cx().disk.arm(p);
                }
                note(|| format!("save with indent {ind:?}"));
                let r = save(&doc, PATH, &ind);
                let _p = pause();
                cx().disk.disarm();
                saved = if r.is_ok() { Some(m.norm()) } else { None };
                if r.is_err() {
                    count("failed_saves");
                }
            }
            8 => {
                // a load that fails changes nothing
                let p = {
                    let mut p = soft_plan();
                    p.at = vec![(Call::Read, 0, Fault::Errno(libc::EIO))];
                    p.intr_every = 0;
                    p.burst = 0;
                    p
                };
                cx().disk.arm(p);
                note(|| "a load that fails".into());
                let r = lib(|| kiss_xml::parse_filepath(PATH));
                cx().disk.disarm();
                check(r.is_err(), "not-rejected", || "a failing read gave a document".into());
            }
            9 if saved.is_some() => {
                // restart from the file
                let want = saved.clone().unwrap();
                cx().disk.arm(soft_plan());
                note(|| "restart from the file".into());
                let r = lib(|| kiss_xml::parse_filepath(PATH));
                let text = {
                    let _p = pause();
                    cx().disk.disarm();
                    String::from_utf8_lossy(cx().disk.img.file(PATH.as_bytes()).unwrap_or(b"")).into_owned()
                };
                (doc, m) = reloaded(r, &want, &text);
                restarts += 1;
            }
            _ => {
                // restart from a stream
                let ind = any_indent();
                let text = match draw(3) {
                    0 => lib(|| doc.to_string_with_indent(ind.as_str())),
                    _ => {
                        let mut w = SimWriter::new(delivery(), SinkEnd::Never);
                        let r = lib(|| doc.write_to_file_with_indent(&mut w, ind.as_str()));
                        check(r.is_ok(), "spurious", || format!("a healthy sink failed: {r:?}"));
                        match String::from_utf8(w.got) {
                            Ok(s) => s,
                            Err(_) => fail("ill-formed", "the bytes written are not UTF-8"),
                        }
                    }
                };
                note(|| format!("restart from {text:?}"));
                let want = m.norm();
                let r = deliver(text.as_bytes());
                if chance(1, 4) {
                    // only look
                    let _ = reloaded(r, &want, &text);
                } else {
                    (doc, m) = reloaded(r, &want, &text);
                }
                restarts += 1;
            }
        });
    }
    // at the end of every session
    let ind = any_indent();
    let text = lib(|| doc.to_string_with_indent(ind.as_str()));
    let want = m.norm();
    let r = deliver(text.as_bytes());
    let _ = reloaded(r, &want, &text);
    let _ = restarts;
    if want.root.size() > 1 || !want.root.attrs.is_empty() {
        nontrivial();
    }
    sample(|| format!("ends as {text:?}"));
    let _p = pause();
    cx().disk = Disk::new();
}
fn reloaded(r: Result<Document, kiss_xml::errors::KissXmlError>, want: &MDoc, text: &str) -> (Document, MDoc) {
    count("fault:restart");
    independent(text, want, "saved document");
    match r {
        Err(x) => fail("refused", format!("a saved document was refused: {x}; {}", short(text))),
        Ok(d) => {
            let got = extract(&d);
            if let Some(x) = diff_doc(want, &got.norm()) {
                fail("differs", format!("after a restart: {x}; saved was {}", short(text)));
            }
            ev("reload", h(&got.root));
            (d, got)
        }
    }
}
