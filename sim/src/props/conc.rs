//! C12 and C13: sessions side by side, and the same content made in different worlds.
use crate::choice::hash_str;
use crate::disk::Disk;
use crate::gen::{self, Cfg};
use crate::hist::*;
use crate::io::*;
use crate::model::*;
use crate::props::edit::indent;
use crate::props::save::{document_of, INVALID_INDENTS};
use crate::rt::*;
use crate::sched;
use crate::xmlread;
use kiss_xml::dom::*;
use std::cell::RefCell;
use std::sync::{Arc, Mutex};

// ---------------------------------------------------------------- C12

#[derive(Clone, Copy, Debug)]
struct Script {
    seed: u64,
    /// number of operations
    n: u32,
    /// sessions run inside its callbacks, at most this deep
    nest: u32,
    id: u32,
}

fn err(e: impl std::fmt::Display) -> String {
    lib(|| format!("error: {e}"))
}
/// runs a session; its record depends on nothing but the script
fn session(s: Script) -> Vec<String> {
    with_sub(s.seed, || {
        let mut out: Vec<String> = vec![];
        let c = gen::cfg();
        let mut o = opts();
        o.errors = true;
        o.reenter = draw(2) == 0;
        let m = gen::doc(&c);
        let e = crate::enc::encode(&m, crate::enc::style());
        let mut text = e.text;
        if draw(6) == 0 {
            let k = draw(text.len() as u32) as usize;
            let k = (0..=k).rev().find(|k| text.is_char_boundary(*k)).unwrap();
            text.truncate(k);
        }
        // what runs inside the callbacks, alone
        let inner = Script { seed: s.seed ^ 0x5555_aaaa, n: 2, nest: s.nest.saturating_sub(1), id: s.id + 100 };
        let alone = if s.nest > 0 { Some(session(inner)) } else { None };
        let nested = |k: u32| {
            if let Some(a) = &alone {
                if k % 3 == 0 {
                    count("nested_sessions");
                    let again = session(inner);
                    same(a, &again, "a session run inside a callback");
                }
            }
        };
        let calls = RefCell::new(0u32);
        let hook = |_: usize| {
            let k = *calls.borrow();
            *calls.borrow_mut() += 1;
            if k < 4 {
                nested(k)
            }
        };
        // read
        let parsed = {
            let mut d = delivery();
            if d.piece == 1 && text.len() > 200 {
                d.piece = 50;
            }
            let mut r = SimReader::new(text.as_bytes(), d, Src::Eof);
            if alone.is_some() {
                r.hook = Some(Box::new(hook));
            }
            lib(|| kiss_xml::parse_stream(&mut r))
        };
        let mut doc = match parsed {
            Ok(d) => {
                out.push(format!("read {:?}", extract(&d)));
                d
            }
            Err(e) => {
                out.push(err(e));
                lib(|| Document::new(Element::new_from_name("r").expect("element")))
            }
        };
        let root = lib(|| std::mem::take(doc.root_element_mut()));
        let m = extract_elem(&root);
        let mut t = Tree { real: root, m };
        for _ in 0..s.n {
            match draw(10) {
                0..=4 => {
                    step(&mut t, &c, &o);
                    compare(&t, "in a session");
                    out.push(lib(|| t.real.to_string()));
                }
                5 => {
                    // queries
                    let p = pred(&c);
                    let k = RefCell::new(0);
                    let r = lib(|| {
                        let mut v = vec![];
                        for n in t.real.search(|n| {
                            cb(|| {
                                *k.borrow_mut() += 1;
                                let i = *k.borrow();
                                sched::point(1);
                                if i < 3 {
                                    nested(i);
                                }
                                lib(|| p.real(&***n))
                            })
                        }) {
                            v.push(n.to_string());
                        }
                        v
                    });
                    out.push(format!("search {p:?}: {r:?}"));
                    let name = gen::name(&c);
                    let r = lib(|| {
                        let e = &t.real;
                        format!(
                            "{} {} {:?} {:?} {}",
                            e.elements_by_name(name.as_str()).count(),
                            e.search_elements_by_name(name.as_str()).count(),
                            e.namespace(),
                            e.first_element_by_name(name.as_str()).map(|x| x.to_string()).ok(),
                            e.text()
                        )
                    });
                    out.push(r);
                }
                6 => {
                    // write, with any indent
                    let root = lib(|| std::mem::take(&mut t.real));
                    *lib(|| doc.root_element_mut()) = root;
                    let ind = if draw(4) == 0 { pick(INVALID_INDENTS).to_string() } else { indent() };
                    let mut d = delivery();
                    if d.piece == 1 {
                        d.piece = 30;
                    }
                    let end = if draw(4) == 0 { SinkEnd::Fail { at: draw(200) as usize, err: err_spec(), once: true } } else { SinkEnd::Never };
                    let got = {
                        let mut w = SimWriter::new(d, end);
                        if alone.is_some() {
                            *calls.borrow_mut() = 0;
                            w.hook = Some(Box::new(hook));
                        }
                        let r = lib(|| doc.write_to_file_with_indent(&mut w, ind.as_str()));
                        format!("wrote {:?} {:?}", r.map_err(|e| e.kind()), String::from_utf8_lossy(&w.got))
                    };
                    out.push(got);
                    t.real = lib(|| std::mem::take(doc.root_element_mut()));
                }
                7 => {
                    // its own file
                    let root = lib(|| std::mem::take(&mut t.real));
                    *lib(|| doc.root_element_mut()) = root;
                    let path = format!("/data/s{}/doc.xml", s.id);
                    let r = lib(|| doc.write_to_filepath(&path));
                    out.push(format!("save {:?}", r.map_err(|e| e.kind())));
                    match lib(|| kiss_xml::parse_filepath(&path)) {
                        Ok(d) => out.push(format!("load {:?}", extract(&d))),
                        Err(e) => out.push(err(e)),
                    }
                    t.real = lib(|| std::mem::take(doc.root_element_mut()));
                }
                8 => {
                    let x = gen::text(&c);
                    let r = lib(|| (kiss_xml::escape(x.as_str()), kiss_xml::text_escape(x.as_str()), kiss_xml::attribute_escape(x.as_str()), kiss_xml::unescape(x.as_str())));
                    out.push(format!("{r:?}"));
                    let bad = *pick(gen::BAD_NAMES);
                    let r = lib(|| (Element::new_from_name(bad).map(|e| e.to_string()).map_err(|e| e.to_string()), Element::new_from_name(&c.names[0]).map(|e| e.to_string()).map_err(|e| e.to_string())));
                    out.push(format!("{r:?}"));
                }
                _ => {
                    // a broken document
                    let x = format!("<a>{}</b>", gen::comment(&c));
                    match lib(|| kiss_xml::parse_str(x.as_str())) {
                        Ok(d) => out.push(format!("read {:?}", extract(&d))),
                        Err(e) => out.push(err(e)),
                    }
                }
            }
        }
        out.push(format!("{:?}", reported_namespaces(&t.real)));
        out.push(lib(|| t.real.to_string()));
        lib(|| drop(t));
        out
    })
}
fn same(a: &[String], b: &[String], what: &str) {
    for i in 0..a.len().max(b.len()) {
        let (x, y) = (a.get(i).map_or("nothing", |s| s), b.get(i).map_or("nothing", |s| s));
        if x != y {
            let k = x.chars().zip(y.chars()).take_while(|c| c.0 == c.1).count().saturating_sub(20);
            let cut = |s: &str| s.chars().skip(k).take(120).collect::<String>();
            fail("interference", format!("{what} took another course than alone: its result {i} is {:?} instead of {:?}", cut(y), cut(x)));
        }
    }
}

pub fn c12() {
    {
        let _p = pause();
        cx().disk = Disk::new();
        cx().disk.img.mkdirs("/data");
    }
    let n = range(2, 4);
    let style = draw(4);
    let nest = if chance(1, 2) { 1 } else { 0 };
    let ss: Vec<Script> = (0..n).map(|id| Script { seed: seed64(), n: range(1, 5), nest, id }).collect();
    note(|| format!("{ss:?}, style {style}"));
    // alone
    let alone: Vec<Vec<String>> = ss.iter().map(|s| session(*s)).collect();
    for a in &alone {
        for x in a {
            ev("alone", hash_str(x));
        }
    }
    // together
    {
        let _p = pause();
        cx().disk = Disk::new();
        cx().disk.img.mkdirs("/data");
    }
    let out: Arc<Mutex<Vec<Option<Vec<String>>>>> = Arc::new(Mutex::new(vec![None; ss.len()]));
    let before = cx().counters.get("context_switches").copied().unwrap_or(0);
    let bodies: Vec<Box<dyn FnOnce() + Send>> = ss
        .iter()
        .enumerate()
        .map(|(i, s)| {
            let s = *s;
            let out = out.clone();
            Box::new(move || {
                let r = session(s);
                let _p = pause();
                out.lock().unwrap()[i] = Some(r);
            }) as Box<dyn FnOnce() + Send>
        })
        .collect();
    sched::run_threads(style, bodies);
    if let Some(v) = cx().viol.clone() {
        fail(&v.class, v.msg);
    }
    let got = out.lock().unwrap();
    for (i, a) in alone.iter().enumerate() {
        match &got[i] {
            None => fail("interference", format!("session {i} did not finish beside {} others", n - 1)),
            Some(b) => same(a, b, &format!("session {i} of {n}")),
        }
    }
    let switches = cx().counters.get("context_switches").copied().unwrap_or(0) - before;
    if switches > n as u64 {
        nontrivial();
    }
    sample(|| format!("{n} sessions, {switches} switches, records of {:?} results", alone.iter().map(|a| a.len()).collect::<Vec<_>>()));
    // and once more alone, after all that
    let i = draw(n) as usize;
    {
        let _p = pause();
        cx().disk = Disk::new();
        cx().disk.img.mkdirs("/data");
    }
    let again = session(ss[i]);
    same(&alone[i], &again, &format!("session {i} repeated after the others"));
    let _p = pause();
    cx().disk = Disk::new();
}

// ---------------------------------------------------------------- C13

/// edits that cancel out
fn detours(t: &mut Element, m: &ME, c: &Cfg) {
    for _ in 0..range(1, 5) {
        span(|| {
            let path = crate::gen::spot(&m);
            let me = m.at(&path);
            let e = at(t, m, &path);
            match draw(8) {
                0 => {
                    // an attribute comes and goes
                    let keys: Vec<String> = (0..range(1, 20)).map(|i| format!("tmp{i}")).collect();
                    lib(|| {
                        for k in &keys {
                            let _ = e.set_attr(k.as_str(), "x");
                        }
                        for k in keys.iter().rev() {
                            e.remove_attr(k.as_str());
                        }
                    });
                }
                1 => {
                    // an attribute changes and changes back, or is removed and set again
                    let again = chance(1, 2);
                    let keys: Vec<(&String, &String)> = me.attrs.iter().collect();
                    if !keys.is_empty() {
                        let (k, v) = *pick(&keys);
                        lib(|| {
                            if again {
                                e.remove_attr(k.as_str());
                            } else {
                                let _ = e.set_attr(k.as_str(), "other");
                            }
                            let _ = e.set_attr(k.as_str(), v.as_str());
                        });
                    }
                }
                2 => {
                    // all attributes again, in another order
                    let mut keys: Vec<(&String, &String)> = me.attrs.iter().collect();
                    for i in (1..keys.len()).rev() {
                        let j = draw(i as u32 + 1) as usize;
                        keys.swap(i, j);
                    }
                    lib(|| {
                        e.clear_attributes();
                        for (k, v) in keys {
                            let _ = e.set_attr(k.as_str(), v.as_str());
                        }
                    });
                }
                3 => {
                    // a child comes and goes
                    let n = me.kids.len();
                    let i = draw(n as u32 + 1) as usize;
                    // between texts, or where blank text would suffer, only at the end
                    let i = if me.kids.iter().any(|k| k.is_text()) { n } else { i };
                    let x = lib(|| Element::new_with_text("tmp", "gone").expect("element"));
                    let r = lib(|| e.insert(i, x).is_ok() && e.remove(i).is_ok());
                    check(r, "rejected", || format!("insert and remove at {i} of {n} failed"));
                }
                4 => {
                    // a child is taken out and put back
                    let idx = me.elems();
                    if !idx.is_empty() {
                        let i = *pick(&idx);
                        let x = lib(|| e.remove(i));
                        match x {
                            Ok(mut x) => {
                                let x = lib(|| std::mem::take(x.as_element_mut().expect("element")));
                                let r = lib(|| e.insert(i, x));
                                check(r.is_ok(), "rejected", || format!("insert at {i} was rejected"));
                            }
                            Err(x) => fail("rejected", format!("remove({i}) was rejected: {x}")),
                        }
                    }
                }
                5 => {
                    // a declaration comes and goes
                    let k = if chance(1, 2) { "xmlns:tmp" } else { "xmlns" };
                    if !me.attrs.contains_key(k) {
                        let u = pick(&c.uris).clone();
                        lib(|| {
                            let _ = e.set_attr(k, u.as_str());
                            e.remove_attr(k);
                        });
                    }
                }
                6 => {
                    // replaced by a copy of itself
                    lib(|| {
                        let x = e.clone();
                        *e = x;
                    });
                }
                _ => {
                    // bulk removals that remove nothing
                    lib(|| {
                        e.remove_all(&|_| false);
                        e.remove_elements_by_name("no-such-name");
                        let _ = e.to_string();
                    });
                }
            }
        });
    }
}
/// the content, made by one of many ways
fn world(m: &MDoc, c: &Cfg) -> Document {
    span(|| {
        let (mut d, _) = document_of(m.clone());
        match draw(4) {
            0 | 1 => {
                let mut r = lib(|| std::mem::take(d.root_element_mut()));
                detours(&mut r, &m.root, c);
                *lib(|| d.root_element_mut()) = r;
            }
            2 => {
                // saved and loaded
                let s = lib(|| d.to_string_with_indent(indent()));
                d = match lib(|| kiss_xml::parse_str(s.as_str())) {
                    Ok(d) => d,
                    Err(x) => fail("refused", format!("a saved document was refused: {x}; {}", short(&s))),
                };
            }
            _ => {}
        }
        d
    })
}
fn is_decl(k: &str) -> bool {
    k == "xmlns" || k.starts_with("xmlns:")
}
fn canonical(text: &str) {
    match xmlread::read(text) {
        Err(x) => fail("ill-formed", format!("the bytes are not well-formed XML: {x}; {}", short(text))),
        Ok(r) => {
            for t in &r.tags {
                let mut want = t.clone();
                want.sort_by(|a, b| is_decl(b).cmp(&is_decl(a)).then(a.cmp(b)));
                check(*t == want, "attribute-order", || format!("a start tag lists its attributes as {t:?}, not {want:?}"));
                if t.len() > 2 {
                    count("tags_with_many_attributes");
                }
            }
        }
    }
}
/// everything that is to be the same
fn output(d: &Document) -> Vec<String> {
    let mut out = vec![];
    for ind in ["  ", "", "\t", "bad"] {
        let s = lib(|| d.to_string_with_indent(ind));
        let t = lib(|| d.to_string_with_indent(ind));
        check(s == t, "unstable", || format!("two serialisations with indent {ind:?} differ: {} and {}", short(&s), short(&t)));
        canonical(&s);
        out.push(s);
    }
    lib(|| {
        out.push(d.to_string());
        out.push(d.root_element().to_string());
        out.push(format!("{:?}", d.root_element()));
        out.push(d.root_element().to_string_with_indent("   "));
        out.push(d.root_element().children_recursive().map(|n| n.to_string()).collect::<Vec<_>>().join("|"));
    });
    out
}
fn same_output(a: &[String], b: &[String], what: &str) {
    for (x, y) in a.iter().zip(b) {
        if x != y {
            let k = x.chars().zip(y.chars()).take_while(|c| c.0 == c.1).count().saturating_sub(30);
            let cut = |s: &str| s.chars().skip(k).take(120).collect::<String>();
            fail("output", format!("{what} serialise differently: {:?} and {:?}", cut(x), cut(y)));
        }
    }
}

fn std_hash(e: &Element) -> u64 {
    use std::hash::{Hash, Hasher};
    // (fixed keys)
    let mut h = std::collections::hash_map::DefaultHasher::new();
    e.hash(&mut h);
    h.finish()
}
/// the same element in several surroundings
fn elsewhere(m: &MDoc, c: &Cfg) {
    let paths = m.root.paths();
    let sub = m.root.at(pick(&paths)).clone();
    let mut w = ME::new("w");
    for p in free_prefixes(&sub) {
        w.attrs.insert(format!("xmlns:{p}"), pick(&c.uris).clone());
    }
    if chance(1, 2) {
        w.attrs.insert("xmlns".into(), pick(&c.uris).clone());
    }
    let mut v = w.clone();
    match draw(4) {
        0 => {}
        1 => {
            // perhaps another namespace
            if let Some(x) = v.attrs.values_mut().next() {
                *x = pick(&c.uris).clone();
            }
        }
        _ => {
            for k in ["xmlns:zz", "xmlns:u0", "k", "xmlns:zzz"].iter().take(range(1, 4) as usize) {
                v.attrs.insert(k.to_string(), "urn:zz".into());
            }
        }
    }
    if chance(1, 2) {
        // one level further in
        let mut x = ME::new("x");
        if chance(1, 2) {
            x.attrs.insert("xmlns:y".into(), "urn:y".into());
        }
        x.kids.push(M::E(sub.clone()));
        v.kids.push(M::E(x));
    } else {
        v.kids.push(M::T("t".into()));
        v.kids.push(M::E(sub.clone()));
    }
    w.kids.push(M::E(sub.clone()));
    let place = |m: &ME| {
        if chance(1, 2) {
            build(m)
        } else {
            let e = crate::enc::encode(&MDoc { decl: None, dtds: vec![], root: m.clone() }, crate::enc::style());
            match lib(|| kiss_xml::parse_str(e.text.as_str())) {
                Ok(mut d) => lib(|| std::mem::take(d.root_element_mut())),
                Err(x) => fail("refused", format!("a valid document was refused: {x}; {}", short(&e.text))),
            }
        }
    };
    note(|| format!("the same element in {} and {}", plain(&w), plain(&v)));
    count("elsewhere");
    let (rw, rv) = (place(&w), place(&v));
    let (pw, pv) = (vec![0], if let Some(M::E(x)) = v.kids.first() { let _ = x; vec![0, 0] } else { vec![1] });
    let skip = if pv.len() == 2 { 2 } else { 1 };
    let same = namespaces(&w)[1..] == namespaces(&v)[skip..];
    let (a, b) = (at_ref(&rw, &pw), at_ref(&rv, &pv));
    let (x, y) = lib(|| (*a == *b, *b == *a));
    check(x == same && y == same, if same { "not-equal" } else { "equal" }, || {
        format!("elements with the same content and {} namespaces compare as {x}, {y}", if same { "the same" } else { "different" })
    });
    let (s, t) = lib(|| (a.to_string(), b.to_string()));
    check(s == t, "output", || format!("the same element serialises differently in two places: {} and {}", short(&s), short(&t)));
    if same {
        let (x, y) = lib(|| (std_hash(a), std_hash(b)));
        check(x == y, "not-equal", || "equal elements in two places have different hashes".into());
    }
}
/// gives one element another prefix of the same namespace
fn reprefix(t: &mut Tree) -> bool {
    let paths = t.m.paths();
    let ns = namespaces(&t.m);
    // another way to name the same namespace at the same place
    let mut ways: Vec<(Vec<usize>, Option<String>)> = vec![];
    for (path, ns) in paths.iter().zip(&ns) {
        if path.is_empty() {
            continue;
        }
        let e = t.m.at(path);
        for p in bound_at(&t.m, path).into_iter().map(Some).chain([None]) {
            if p == e.prefix {
                continue;
            }
            let mut m = t.m.clone();
            m.at_mut(path).prefix = p.clone();
            let i = paths.iter().position(|q| q == path).unwrap();
            if namespaces(&m)[i] == *ns {
                ways.push((path.clone(), p));
            }
        }
        if ways.len() > 20 {
            break;
        }
    }
    if ways.is_empty() {
        return false;
    }
    let (path, p) = pick(&ways).clone();
    note(|| format!("{path:?} gets the prefix {p:?}"));
    t.m.at_mut(&path).prefix = p;
    let m = t.m.at(&path).clone();
    // attached again with the other prefix
    let new = build_elem(&m);
    let (last, up) = path.split_last().unwrap();
    let e = at(&mut t.real, &t.m, up);
    lib(|| *e.children_mut().nth(*last).expect("child") = new.boxed());
    // the library sees it when the parent is looked at again
    let d = lib(|| Document::new(std::mem::take(&mut t.real)));
    t.real = lib(|| d.root_element().clone());
    count("another_prefix");
    true
}
/// a copy that went through a few edits equals the first exactly if its content does
/// another character somewhere; false if there is nothing to change
fn tweak(m: &mut ME) -> bool {
    let path = crate::gen::spot(m);
    let e = m.at_mut(&path);
    let old = e.clone();
    fn change(s: &mut String) {
        let v: Vec<char> = s.chars().collect();
        let spaces: Vec<usize> = (0..v.len()).filter(|i| v[*i].is_whitespace()).collect();
        let i = if !spaces.is_empty() && chance(1, 2) { *pick(&spaces) } else { draw(v.len() as u32) as usize };
        let mut v = v;
        match draw(4) {
            0 if !v.is_empty() => v[i] = if v[i] == ' ' { '\t' } else { ' ' },
            1 if i + 1 < v.len() => v.swap(i, i + 1),
            2 if !v.is_empty() && v[i].is_ascii_alphabetic() => v[i] = (v[i] as u8 ^ 32) as char,
            _ => v.insert(i, if chance(1, 2) { ' ' } else { 'a' }),
        }
        *s = v.into_iter().collect();
    }
    let keys: Vec<String> = e.attrs.keys().filter(|k| !k.starts_with("xmlns")).cloned().collect();
    if !keys.is_empty() && chance(1, 3) {
        change(e.attrs.get_mut(pick(&keys)).unwrap());
    } else {
        let leaves: Vec<usize> = (0..e.kids.len()).filter(|i| !e.kids[*i].is_elem()).collect();
        if leaves.is_empty() {
            return false;
        }
        match &mut e.kids[*pick(&leaves)] {
            M::T(s) => {
                change(s);
                if crate::model::blank(s) {
                    s.push('x');
                }
            }
            M::C(s) | M::D(s) => change(s),
            M::E(_) => {}
        }
        // (what the constructors refuse is not to be had)
        if e.kids.iter().any(|k| matches!(k, M::C(s) if s.contains("--") || s.ends_with('-')) || matches!(k, M::D(s) if s.contains("]]>"))) {
            *e = old;
            return false;
        }
    }
    count("tweaked");
    true
}
fn nearby(first: &Document, m: &MDoc, c: &Cfg) {
    let real = lib(|| first.root_element().clone());
    let mut t = Tree { real, m: extract_elem(first.root_element()) };
    let old = t.m.clone();
    let o = opts();
    if chance(1, 3) && tweak(&mut t.m) {
        t.real = build(&t.m);
    } else if !(chance(1, 4) && reprefix(&mut t)) {
        for _ in 0..range(1, 3) {
            step(&mut t, c, &o);
        }
    }
    compare(&t, "an edited copy");
    let equal = t.m == old;
    count(if equal { "nearby_equal" } else { "nearby_different" });
    let what = if equal { "not-equal" } else { "equal" };
    let say = |x: &str, a: bool, b: bool| {
        let (p, q) = (plain(&old), plain(&t.m));
        format!("{x} with {} content compare as {a}, {b}: {} and {}", if equal { "the same" } else { "different" }, short(&p), short(&q))
    };
    let f = first.root_element();
    let (a, b) = lib(|| (t.real == *f, *f == t.real));
    check(a == equal && b == equal, what, || say("elements", a, b));
    if equal {
        let (a, b) = lib(|| (std_hash(f), std_hash(&t.real)));
        check(a == b, "not-equal", || "equal elements have different hashes".into());
    }
    let mut d = lib(|| {
        let decl = m.decl.as_ref().map(|x| Declaration::from_str(x.as_str()).expect("declaration"));
        let dtds: Vec<DTD> = m.dtds.iter().map(|x| DTD::from_string(x.as_str()).expect("DTD")).collect();
        Document::new_with_decl_dtd(std::mem::take(&mut t.real), decl, Some(&dtds))
    });
    let (a, b) = lib(|| (d == *first, *first == d));
    check(a == equal && b == equal, what, || say("documents", a, b));
    // and what stands before the root
    if equal {
        let k = draw(6);
        let i = draw(m.dtds.len() as u32) as usize;
        let n = m.dtds.len();
        note(|| format!("documents with another prolog ({k})"));
        lib(|| match k {
            3..=5 if n > 0 && (k < 5 || n > 1 && m.dtds[0] != m.dtds[n - 1]) => {
                let mut v: Vec<DTD> = m.dtds.iter().map(|x| DTD::from_string(x.as_str()).expect("DTD")).collect();
                match k {
                    3 => v[i] = DTD::from_string("<!DOCTYPE other>").expect("DTD"),
                    4 => drop(v.remove(i)),
                    _ => v.swap(0, n - 1),
                }
                d.set_doctype_defs(Some(&v))
            }
            0 | 3 => d.set_declaration(Some(Declaration::from_str("<?xml version=\"1.0\" standalone=\"no\"?>").expect("declaration"))),
            1 => d.set_doctype_defs(Some(&[DTD::from_string("<!DOCTYPE other>").expect("DTD")])),
            _ => {
                let mut v: Vec<DTD> = m.dtds.iter().map(|x| DTD::from_string(x.as_str()).expect("DTD")).collect();
                v.push(DTD::from_string("<!DOCTYPE a>").expect("DTD"));
                d.set_doctype_defs(Some(&v))
            }
        });
        let (a, b) = lib(|| (d == *first, *first == d));
        check(!a && !b, "equal", || format!("documents whose declarations or DTDs differ compare as {a}, {b}"));
    }
}

pub fn c13() {
    let mut c = gen::cfg();
    if chance(2, 3) {
        // many attributes
        for a in ["a", "b", "c", "xml", "xm", "xmlnsz", "xmlns-a", "z", "Z", "x", "y", "a.b", "a-b", "aa"].iter().take(range(2, 14) as usize) {
            c.attr_names.push(a.to_string());
        }
        c.attrs = range(3, 9);
        c.nodes = c.nodes.min(12); c.extreme = 0;
    }
    let m = {
        let m = gen::doc(&c);
        MDoc { root: m.root.norm(), ..m }
    };
    note(|| format!("content: {:?} {:?} {}", m.decl, m.dtds, plain(&m.root)));
    ev("content", h(&m.root));
    let first = world(&m, &c);
    if let Some(x) = diff_doc(&m, &extract(&first)) {
        fail("differs", format!("the document was not made as meant: {x}"));
    }
    let want = output(&first);
    // the same thread draws new hash keys for every map
    for i in 0..range(1, 2) {
        let d = span(|| world(&m, &c));
        let o = output(&d);
        same_output(&want, &o, &format!("two documents with the same content (way {i})"));
        let (a, b) = lib(|| (first == d, d == first));
        check(a && b, "not-equal", || format!("documents with the same content compare unequal ({a}, {b}): {}", short(&want[0])));
        let (a, b) = lib(|| (first.root_element() == d.root_element(), d.root_element() == first.root_element()));
        check(a && b, "not-equal", || format!("root elements with the same content compare unequal ({a}, {b}): {}", short(&want[0])));
        let n = lib(|| {
            first.root_element().children().zip(d.root_element().children()).all(|(x, y)| node_eq(x, y) && node_eq(y, x))
        });
        check(n, "not-equal", || format!("nodes with the same content compare unequal: {}", short(&want[0])));
    }
    if chance(1, 3) {
        span(|| nearby(&first, &m, &c));
    }
    if chance(1, 3) {
        span(|| elsewhere(&m, &c));
    }
    // other threads of other processes: other keys
    if chance(1, 2) {
        let n = range(1, 3) as usize;
        let old = cx().key_seed;
        cx().key_seed = old ^ seed64();
        let out: Arc<Mutex<Vec<Option<Vec<String>>>>> = Arc::new(Mutex::new(vec![None; n]));
        let bodies: Vec<Box<dyn FnOnce() + Send>> = (0..n)
            .map(|i| {
                let (m, c, out, seed) = (m.clone(), c.clone(), out.clone(), seed64());
                Box::new(move || {
                    let r = with_sub(seed, || {
                        let d = world(&m, &c);
                        output(&d)
                    });
                    let _p = pause();
                    out.lock().unwrap()[i] = Some(r);
                }) as Box<dyn FnOnce() + Send>
            })
            .collect();
        count("fault:other_hash_keys");
        sched::run_threads(draw(2), bodies);
        cx().key_seed = old;
        if let Some(v) = cx().viol.clone() {
            fail(&v.class, v.msg);
        }
        for o in out.lock().unwrap().iter() {
            match o {
                None => fail("output", "a thread gave no output"),
                Some(o) => same_output(&want, o, "documents with the same content on two threads"),
            }
        }
    }
    if m.root.paths().iter().any(|p| m.root.at(p).attrs.len() > 1) {
        nontrivial();
    }
    sample(|| want[0].clone());
}
