//! C27: a call reaches what it was given and nothing else.
use crate::choice::{hash_str, mix};
use crate::disk::{Call, Fault, Image, Plan};
use crate::enc::*;
use crate::gen::{self, Cfg};
use crate::hist::*;
use crate::io::*;
use crate::model::*;
use crate::props::read::soft_plan;
use crate::props::save::{any_indent, soft_save, INVALID_INDENTS};
use crate::rt::*;
use kiss_xml::dom::*;
use kiss_xml::errors::KissXmlError;
use std::collections::BTreeSet;
use std::ffi::OsStr;
use std::os::unix::ffi::OsStrExt;

/// things a message may point at; most exist, in /data or where the path says
const TARGETS: &[&str] = &[
    "secret.xml",
    "/data/secret.xml",
    "file:///data/secret.xml",
    "../etc/passwd",
    "/etc/passwd",
    "ext.dtd",
    "http://localhost/secret.xml",
    "catalog.xml",
    "${HOME}/secret.xml",
    "~/secret.xml",
    "$HOME",
    "http%3A//localhost",
    "-",
    "/dev/stdin",
    "p.ent",
];
/// names of the files that calls are given
const NAMES: &[&str] = &[
    "in.xml",
    "/data/in.xml",
    "./in.xml",
    "sub/../in.xml",
    "-",
    "~",
    "~/in.xml",
    "$HOME/in.xml",
    "${HOME}",
    "%69n.xml",
    "in.xml?x=1#y",
    "in.xml.gz",
    "file:in.xml",
    "file:///data/in.xml",
    "http://localhost/in.xml",
    " in.xml",
    "in.xml ",
    "in.xml\n",
    "IN.XML",
    "in",
    "*.xml",
    "in.xml\\..\\x",
    "'in.xml'",
    "a/b/c/in.xml",
    "/data/é.xml",
    "/data/x\u{fffd}.xml",
    "lnk.xml",
    "in.",
    "in.xml~",
    ".xml",
    "in.xsl.xml",
    "dl/../in.xml",
    "dl/in.xml",
    "./dl/.././in.xml",
    "gone/../in.xml",
    "sub//in.xml",
];
/// names that something might take one of the names above for
const NEAR: &[&str] = &[
    "in.xml", "stdin", "home", "home/in.xml", "é.xml", "x.xml", "IN.xml", "in", "in.dtd", "in.xsd", "in.xml.bak", "localhost/in.xml", "data/in.xml", "in.xml.gz", "-.xml", "~.xml", ".in.xml", "in.xml.tmp", ".kiss-xml", "catalog.xml", "in.xml.lock", "%69n.xml", "in.txt",
];

struct Case {
    text: String,
    /// something outside the root element may be remarked upon
    remark: bool,
    /// a comment outside the root element is left out, and must be if the message is read
    must: bool,
}

fn reference() -> String {
    pick(TARGETS).to_string()
}
/// a message with references in it
fn message() -> Case {
    span(|| {
        let (_, e) = crate::props::read::make();
        // (where, what), from the end to the start
        let mut ins: Vec<(usize, String)> = vec![];
        let mut remark = e.text[..e.root_start].contains("<!--") || e.text[e.root_end..].contains("<!--");
        let mut must = e.text.starts_with("<!--") || e.text[e.root_end..].trim_start().starts_with("<!--");
        for _ in 0..range(1, 4) {
            let t = reference();
            match draw(14) {
                0 => ins.push((e.root_start, format!("<!DOCTYPE r SYSTEM '{t}'>"))),
                1 => ins.push((e.root_start, format!("<!DOCTYPE r PUBLIC '-//X' '{t}' [<!ENTITY e SYSTEM '{t}'> <!ENTITY % p SYSTEM 'p.ent'> %p;]>"))),
                2 => ins.push((e.root_start, format!("<!DOCTYPE r [<!ENTITY e SYSTEM \"{t}\"><!ENTITY f '&e;'>]>"))),
                3 => {
                    ins.push((e.root_start, format!("<?xml-stylesheet type='text/xsl' href='{t}'?>")));
                }
                4 => {
                    remark = true;
                    ins.push((e.root_start, pick(&["<!INCLUDE '@'>", "<!ENTITY e SYSTEM '@'>", "<![INCLUDE[@]]>", "<!--#include file='@'-->"]).replace('@', &t)));
                }
                5 => {
                    // attributes of the root
                    let end = e.text[e.root_start..].find([' ', '/', '>', '\n', '\t', '\r']).map_or(e.root_end, |i| e.root_start + i);
                    let a = pick(&["href='@'", "xml:base='@'", "src='@'", "xsi:schemaLocation='u @'", "xmlns:inc='@'", "noNamespaceSchemaLocation='@'", "include='@'", "file='@'"]).replace('@', &t);
                    if !ins.iter().any(|i| i.0 == end) {
                        ins.push((end, format!(" {a}")));
                    }
                }
                6 => {
                    // the declaration says something else
                    if !e.text.starts_with("<?xml") {
                        ins.push((0, pick(&["<?xml version='1.0' encoding='latin-1'?>", "<?xml version='1.0' standalone='no'?>", "\u{feff}"]).to_string()));
                    }
                }
                _ => {
                    let inside: Vec<usize> = e.toks.iter().filter(|t| t.2 == Tok::Close && t.0 > e.root_start).map(|t| t.0).collect();
                    if inside.is_empty() {
                        continue;
                    }
                    let at = *pick(&inside);
                    let x = pick(&[
                        "&e;",
                        "%p;",
                        "<xi:include xmlns:xi='http://www.w3.org/2001/XInclude' href='@' parse='text'/>",
                        "<include href='@'/>",
                        "<!--#include file='@' -->",
                        "<![CDATA[@]]>",
                        "${HOME}",
                        "$(cat @)",
                        "`cat @`",
                        "@",
                        "@@",
                        "{{ @ }}",
                        "<link rel='x' xml:base='@' href='&e;'/>",
                    ])
                    .replace('@', &t);
                    ins.push((at, x));
                }
            }
        }
        ins.sort_by(|a, b| b.0.cmp(&a.0));
        let mut text = e.text.clone();
        for (at, x) in ins {
            text.insert_str(at, &x);
        }
        match draw(20) {
            0 => {
                // the message is nothing but a name
                text = reference();
                remark = false;
                must = false;
            }
            1 => {
                let mut i = draw(text.len() as u32) as usize;
                while !text.is_char_boundary(i) {
                    i -= 1;
                }
                text.truncate(i);
                remark = true;
                must = false;
                count("fault:truncated");
            }
            2 => {
                let b = unsafe { text.as_bytes_mut() };
                let i = draw(b.len() as u32) as usize;
                if b[i].is_ascii() {
                    b[i] = b'x';
                }
                remark = true;
                must = false;
                count("fault:flipped");
            }
            _ => {}
        }
        Case { text, remark, must }
    })
}

/// one of the two worlds the same call is made in
fn world(n: u32, token: &str, given: Option<(&str, Option<&[u8]>)>) -> Image {
    let mut im = Image::default();
    im.cwd = im.mkdirs("/data");
    im.mkdirs("/data/sub");
    im.mkdirs("/tmp");
    let mut gone = vec![];
    let sec = |k: usize| -> Vec<u8> {
        match (n as usize + k) % 4 {
            0 => format!("<secret k='{token}'>{token}</secret>").into_bytes(),
            1 => token.as_bytes().to_vec(),
            2 => format!("<!ENTITY e '{token}'>").into_bytes(),
            _ => format!("<other>{token}{n}</other>").into_bytes(),
        }
    };
    for (k, t) in TARGETS.iter().chain(NEAR).enumerate() {
        let p = t.strip_prefix("file://").unwrap_or(t).trim_start_matches("../");
        let p = match p.strip_prefix('/') {
            Some(_) => p.to_string(),
            None if p == "etc/passwd" => "/etc/passwd".into(),
            None => format!("/data/{p}"),
        };
        if im.lookup(&p).is_none() && im.walk(p.as_bytes(), true, 0).is_ok() || p.matches('/').count() > 2 {
            let dirs = p.rsplit_once('/').unwrap().0;
            let clear = (1..=dirs.len()).filter(|i| *i == dirs.len() || dirs.as_bytes()[*i] == b'/').all(|i| im.lookup(&dirs[..i]).is_none_or(|x| matches!(im.inodes[&x].kind, crate::disk::Kind::Dir(_))));
            if clear && im.lookup(&p).is_none() {
                im.put(&p, &sec(k));
                // the second world lacks some of them
                if n == 1 && k % 3 == 0 {
                    gone.push(p.into_bytes());
                }
            }
        }
    }
    for p in gone {
        let (dir, name, _) = im.walk(&p, false, 0).unwrap();
        if let crate::disk::Kind::Dir(d) = &mut im.inodes.get_mut(&dir).unwrap().kind {
            d.remove(&name);
        }
    }
    // a link to a file elsewhere
    let store = im.mkdirs("/store");
    im.add(store, b"real.xml", crate::disk::Kind::File(sec(0)));
    let data = im.lookup("/data").unwrap();
    im.add(data, b"lnk.xml", crate::disk::Kind::Link(b"/store/real.xml".to_vec()));
    // a link to a directory elsewhere, where other files have the same names
    let far = im.mkdirs("/store/far");
    for d in [store, far] {
        im.add(d, b"in.xml", crate::disk::Kind::File(sec(1)));
    }
    im.add(data, b"dl", crate::disk::Kind::Link(b"/store/far".to_vec()));
    if let Some((p, content)) = given {
        let abs = String::from_utf8(abs_path(&im, p.as_bytes())).unwrap();
        match content {
            Some(b) => {
                // whatever is in the way goes
                let r = im.resolve(abs.as_bytes(), true);
                match r {
                    Ok(i) => im.inodes.get_mut(&i).unwrap().kind = crate::disk::Kind::File(b.to_vec()),
                    Err(_) => {
                        if let Some((d, _)) = abs.rsplit_once('/') {
                            clear_way(&mut im, d);
                        }
                        im.put(&abs, b);
                    }
                }
            }
            None => {
                if let Ok((dir, name, Some(_))) = im.walk(abs.as_bytes(), true, 0) {
                    if let crate::disk::Kind::Dir(d) = &mut im.inodes.get_mut(&dir).unwrap().kind {
                        d.remove(&name);
                    }
                }
            }
        }
    }
    im
}
/// files where directories have to be are removed
fn clear_way(im: &mut Image, dirs: &str) {
    let mut cur = 1u64;
    for c in dirs.split('/').filter(|c| !c.is_empty() && *c != "." && *c != "..") {
        let next = match &im.inodes[&cur].kind {
            crate::disk::Kind::Dir(d) => d.get(c.as_bytes()).copied(),
            _ => return,
        };
        let Some(n) = next else { return };
        if !matches!(im.inodes[&n].kind, crate::disk::Kind::Dir(_)) {
            if let crate::disk::Kind::Dir(d) = &mut im.inodes.get_mut(&cur).unwrap().kind {
                d.remove(c.as_bytes());
            }
            return;
        }
        cur = n;
    }
}
fn abs_path(im: &Image, p: &[u8]) -> Vec<u8> {
    let mut v = if p.starts_with(b"/") { vec![] } else { im.abs(im.cwd) };
    let links = |v: &mut Vec<u8>| {
        if let Ok((_, _, Some(i))) = im.walk(v, true, 0) {
            *v = im.abs(i);
            if v == b"/" {
                v.clear();
            }
        }
    };
    for c in p.split(|b| *b == b'/') {
        match c {
            b"" | b"." => {}
            b".." => {
                links(&mut v);
                let k = v.iter().rposition(|b| *b == b'/').unwrap_or(0);
                v.truncate(k);
            }
            c => {
                links(&mut v);
                v.push(b'/');
                v.extend_from_slice(c);
            }
        }
    }
    v
}
fn within(dir: &[u8], p: &[u8]) -> bool {
    dir.is_empty() || p == dir || p.starts_with(dir) && p[dir.len()] == b'/'
}
fn lossy(p: &[u8]) -> String {
    String::from_utf8_lossy(p).into_owned()
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Op {
    Str,
    Stream,
    File,
    Dom,
    Sink,
    Save,
}

/// everything that can be seen of a result
fn seen(r: &Result<Document, KissXmlError>, must: &mut bool) -> String {
    *must &= r.is_ok();
    match r {
        Ok(d) => {
            let m = extract(d);
            format!("{}\n{m:?}\n{:?}", lib(|| d.to_string()), reported_namespaces(lib(|| d.root_element())))
        }
        Err(e) => format!("{}\n{e:?}", lib(|| e.to_string())),
    }
}

/// one call in one world; what came out of it
fn act(op: Op, seed: u64, case: &Case, name: &str, plan: &Plan, c: &Cfg) -> (String, bool, bool) {
    let mut remark = case.remark;
    let mut must = case.must;
    let out = with_sub(seed, || match op {
        Op::Str => seen(&if chance(1, 2) { lib(|| kiss_xml::parse_str(case.text.as_str())) } else { lib(|| kiss_xml::parse_str(case.text.clone())) }, &mut must),
        Op::Stream => {
            let b = case.text.as_bytes();
            let src = if chance(1, 3) {
                Src::Fail { at: draw(b.len() as u32 + 1) as usize, err: err_spec(), then_data: chance(1, 2), keep: chance(1, 2) }
            } else {
                Src::Eof
            };
            seen(&crate::props::read::read_stream(b, delivery(), src), &mut must)
        }
        Op::File => {
            cx().disk.arm(plan.clone());
            let r = match draw(4) {
                0 => lib(|| kiss_xml::parse_filepath(name)),
                1 => lib(|| kiss_xml::parse_filepath(OsStr::from_bytes(name.as_bytes()))),
                2 => lib(|| kiss_xml::parse_filepath(std::path::PathBuf::from(name))),
                _ => lib(|| kiss_xml::parse_filepath(std::path::Path::new(name))),
            };
            cx().disk.plan = Plan::default();
            check(cx().disk.open_fds() == 0, "leak", || "a file is still open after parse_filepath".into());
            seen(&r, &mut must)
        }
        Op::Dom | Op::Sink | Op::Save => {
            let doc = lib(|| kiss_xml::parse_str(case.text.as_str()));
            must &= doc.is_ok();
            let mut doc = match doc {
                Ok(d) => d,
                Err(_) => lib(|| Document::new(Element::new_with_text("r", case.text.clone()).expect("name accepted"))),
            };
            let mut out = String::new();
            // edits, with the references as names and content
            for _ in 0..draw(4) {
                let t = reference();
                let t = pick(&["@", "&e;", "<!ENTITY e SYSTEM '@'>", "${@}", "file://@"]).replace('@', &t);
                lib(|| {
                    let r = doc.root_element_mut();
                    let x = match draw(9) {
                        0 => r.set_attr("href", t.as_str()).is_ok() as usize,
                        1 => {
                            r.append(Text::new(t.as_str()));
                            1
                        }
                        2 => Comment::new(t.as_str()).map(|c| r.append(c)).is_ok() as usize,
                        3 => CData::new(t.as_str()).map(|c| r.append(c)).is_ok() as usize,
                        4 => Element::new_from_name(t.as_str()).map(|c| r.append(c)).is_ok() as usize,
                        5 => r.search_elements_by_name(t.as_str()).count(),
                        6 => r.set_attr("xmlns", t.as_str()).is_ok() as usize,
                        7 => DTD::from_string(format!("<!DOCTYPE r SYSTEM '{t}'>")).map(|d| doc.set_doctype_defs(Some(&[d]))).is_ok() as usize,
                        _ => Element::new("xi:include", None, Some([("href", t.as_str())].into()), None, Some("xi".to_string()), Some(vec![])).is_ok() as usize,
                    };
                    cb(|| out.push_str(&format!("{x};")));
                });
            }
            if op == Op::Dom {
                let root = lib(|| doc.root_element().clone());
                let m = extract_elem(&root);
                if all_bound(&m) && !case.text.contains("xmlns=''") {
                    let mut t = Tree { real: root, m };
                    let o = opts();
                    for _ in 0..range(1, 5) {
                        step(&mut t, c, &o);
                    }
                    out.push_str(&plain(&extract_elem(&t.real)));
                    out.push_str(&lib(|| t.real.to_string()));
                }
            }
            let plain = chance(1, 3);
            let ind = if plain { "  ".into() } else { any_indent() };
            if INVALID_INDENTS.contains(&ind.as_str()) {
                remark = true;
                must = true;
            }
            match op {
                Op::Sink => {
                    let end = match draw(3) {
                        0 => SinkEnd::Fail { at: draw(200) as usize, err: err_spec(), once: chance(1, 2) },
                        1 => SinkEnd::Full { at: draw(200) as usize },
                        _ => SinkEnd::Never,
                    };
                    let mut w = SimWriter::new(delivery(), end);
                    let r = lib(|| if plain { doc.write_to_file(&mut w) } else { doc.write_to_file_with_indent(&mut w, ind.as_str()) });
                    out.push_str(&format!("{r:?} {}", lossy(&w.got)));
                }
                Op::Save => {
                    let text = lib(|| doc.to_string_with_indent(ind.as_str()));
                    cx().disk.arm(plan.clone());
                    let r = if plain {
                        lib(|| doc.write_to_filepath(name))
                    } else if chance(1, 2) {
                        lib(|| doc.write_to_filepath_with_indent(name, ind.as_str()))
                    } else {
                        lib(|| doc.write_to_filepath_with_indent(OsStr::from_bytes(name.as_bytes()), ind.as_str()))
                    };
                    cx().disk.plan = Plan::default();
                    if r.is_ok() {
                        let got = cx().disk.img.file(name.as_bytes());
                        check(got == Some(text.as_bytes()), "elsewhere", || format!("saving to {name:?} succeeded, but that file holds {:?}", got.map(lossy)));
                    }
                    out.push_str(&format!("{r:?} {text}"));
                }
                _ => {
                    let root = doc.root_element();
                    let alone = chance(1, 2);
                    out.push_str(&lib(|| {
                        let s = if alone { root.to_string_with_indent(ind.as_str()) } else { doc.to_string_with_indent(ind.as_str()) };
                        format!("{}{}{}{s}", root.text(), root.children_recursive().count(), root.clone() == *root)
                    }));
                }
            }
            out
        }
    });
    (out, remark, must)
}

pub fn c27() {
    let c = gen::cfg();
    // generating long values would make the second world differ from the first
    c.long.set(0);
    let token = format!("t0k3n{:08x}", draw(1 << 30));
    let case = message();
    let op = *pick(&[Op::Str, Op::Stream, Op::File, Op::File, Op::Dom, Op::Sink, Op::Save, Op::Save]);
    let name = *pick(NAMES);
    let missing = op == Op::File && chance(1, 5) || op == Op::Save && chance(1, 2);
    let mut plan = Plan::default();
    if op == Op::File {
        plan = soft_plan();
        if chance(1, 5) {
            plan.at.push((*pick(&[Call::Open, Call::Read, Call::Read]), draw(2), Fault::Errno(*pick(&[libc::EIO, libc::EACCES, libc::EMFILE]))));
        }
    } else if op == Op::Save {
        soft_save(&mut plan);
        if chance(1, 5) {
            plan.at.push((*pick(&[Call::Open, Call::Write, Call::Mkdir]), draw(2), Fault::Errno(*pick(&[libc::EIO, libc::EACCES, libc::ENOSPC]))));
        }
    }
    let seed = seed64();
    ev("msg", hash_str(&case.text));
    note(|| format!("{op:?} {name:?}{}: {:?}", if missing { " (missing)" } else { "" }, case.text));
    sample(|| format!("{op:?} {name:?}{}: {:?}", if missing { " (missing)" } else { "" }, case.text));
    let mut first: Option<(String, Vec<u8>)> = None;
    for n in 0..2u32 {
        // the two worlds differ in everything but what the call is given
        let given = match op {
            Op::File if missing => Some((name, None)),
            Op::File => Some((name, Some(case.text.as_bytes()))),
            Op::Save if missing => Some((name, None)),
            Op::Save => Some((name, Some(&b"<old/>"[..]))),
            _ => None,
        };
        let im = world(n, &token, given);
        let before = im.clone();
        cx().disk.reboot(im);
        cx().clock_ns += n as u64 * 86_400_000_000_000;
        cx().env = if n == 0 { Some(c"/data/secret.xml") } else { *pick(&[None, Some(c"1"), Some(c"/nowhere")]) };
        cx().key_seed = mix(&[seed, n as u64]);
        cx().said.clear();
        cx().looked = Some(vec![]);
        let (out, remark, must) = act(op, seed, &case, name, &plan, &c);
        let looked = cx().looked.take().unwrap();
        let said = std::mem::take(&mut cx().said);
        cx().env = None;
        ev("out", hash_str(&out));
        add("asked", looked.len() as u64);
        note(|| format!("world {n}: asked {:?}, said {:?}, result {out:?}", looked.iter().map(|l| (l.0, lossy(&l.1))).collect::<Vec<_>>(), lossy(&said)));

        judge(op, name, &before, &looked);
        let after = &cx().disk.img;
        if op != Op::Save {
            check(before.listing() == after.listing(), "changed", || format!("{op:?}: the call changed the disk"));
        } else {
            // everything but the file and new directories on the way to it
            let target = real_target(&before, name);
            let mut ls = after.listing();
            let mut old = before.listing();
            let anc = ancestors(&before, name);
            ls.retain(|p, _| *p != target && (old.contains_key(p) || !within(p, &target) && !anc.contains(p)));
            old.retain(|p, _| *p != target);
            if ls != old {
                let d: BTreeSet<String> = ls.iter().filter(|x| old.get(x.0) != Some(x.1)).map(|x| lossy(x.0)).chain(old.keys().filter(|k| !ls.contains_key(*k)).map(|k| lossy(k))).collect();
                fail("changed", format!("saving to {name:?} changed other things on the disk: {d:?}"));
            }
        }
        if op != Op::File || !case.text.contains(&token) {
            check(!out.contains(&token) && !lossy(&said).contains(&token), "leaked", || {
                format!("{op:?} {name:?}: content of a file the call was not given shows up: {}", short(&out))
            });
        }
        let quiet = !remark;
        check(!quiet || said.is_empty(), "said", || format!("{op:?}: nothing called for a warning, but standard error got {:?}", short(&lossy(&said))));
        check(!must || !said.is_empty(), "unsaid", || format!("{op:?}: an indent was replaced or a comment left out, and nothing was said"));
        add("said", !said.is_empty() as u64);
        match &first {
            None => first = Some((out, said)),
            Some((o, s)) => {
                check(*o == out, "differs", || {
                    let k = o.bytes().zip(out.bytes()).take_while(|x| x.0 == x.1).count();
                    format!("{op:?} {name:?}: the result depends on the world around it, from byte {k} on: {} and {}", short(&String::from_utf8_lossy(&o.as_bytes()[k..])), short(&String::from_utf8_lossy(&out.as_bytes()[k..])))
                });
                check(*s == said, "differs", || format!("{op:?} {name:?}: the warnings depend on the world around: {:?} and {:?}", short(&lossy(s)), short(&lossy(&said))));
            }
        }
    }
    count(match op {
        Op::Str => "reach:string",
        Op::Stream => "reach:stream",
        Op::File => "reach:file",
        Op::Dom => "reach:edits",
        Op::Sink => "reach:sink",
        Op::Save => "reach:save",
    });
    nontrivial();
}

/// where a path leads when links are followed
fn real_target(im: &Image, name: &str) -> Vec<u8> {
    match im.walk(name.as_bytes(), true, 0) {
        Ok((_, _, Some(i))) => im.abs(i),
        Ok((dir, name, None)) => [&im.abs(dir)[..], b"/", &name].concat(),
        _ => abs_path(im, name.as_bytes()),
    }
}

/// the directories a path goes through as it is written
fn ancestors(im: &Image, name: &str) -> Vec<Vec<u8>> {
    std::path::Path::new(name).ancestors().map(|a| abs_path(im, a.as_os_str().as_bytes())).collect()
}
fn judge(op: Op, name: &str, im: &Image, looked: &[(&'static str, Vec<u8>)]) {
    let given = abs_path(im, name.as_bytes());
    let target = real_target(im, name);
    let ancestors = ancestors(im, name);
    let dir = |p: &[u8]| p[..p.iter().rposition(|b| *b == b'/').unwrap_or(0)].to_vec();
    for (what, path) in looked {
        let p = abs_path(im, path);
        let it = p == given || p == target;
        let above = within(&p, &given) || within(&p, &target) || ancestors.contains(&p);
        let sibling = dir(&p) == dir(&given) || dir(&p) == dir(&target);
        let there = im.walk(&p, false, 0).is_ok_and(|w| w.2.is_some());
        let ok = match (op, *what) {
            (Op::File, "open") => it,
            (Op::File, "stat" | "readlink") => above,
            (Op::Save, "open" | "stat" | "readlink" | "mkdir") => above || sibling && !there,
            // the file itself, or a new one next to it
            (Op::Save, "create" | "rename" | "unlink" | "link" | "chmod") => it || sibling && !there,
            _ => false,
        };
        check(ok, "reach", || {
            let of = if path.is_empty() { String::new() } else { format!(" of {:?}", lossy(path)) };
            match op {
                Op::File | Op::Save => format!("{op:?} of {name:?} asked the system for {what}{of}"),
                _ => format!("{op:?} was given no file, and asked the system for {what}{of}"),
            }
        });
    }
}
