//! C10, C11, C14, C15, C16: histories of edits and queries.
use crate::gen::{self, Cfg};
use crate::hist::*;
use crate::io::*;
use crate::model::*;
use crate::props::read::*;
use crate::rt::*;
use kiss_xml::dom::*;
use std::cell::RefCell;
use std::collections::HashMap;

pub fn steps_wanted() -> u32 {
    match draw(6) {
        0 => 1,
        1 | 2 => range(2, 5),
        3 | 4 => range(4, 12),
        _ => range(10, 40),
    }
}
fn trace_end(t: &Tree) {
    note(|| format!("end: {}", plain(&t.m)));
    sample(|| format!("ends as {}", plain(&t.m)));
}

// ---------------------------------------------------------------- C10

pub fn c10() {
    let c = gen::cfg();
    let mut o = opts();
    o.reenter = chance(1, 2);
    let mut t = start(&c);
    compare(&t, "the starting tree");
    let mut changed = 0;
    let mut shelf: Option<Tree> = None;
    for _ in 0..steps_wanted() {
        let before = h(&t.m);
        if chance(1, 12) {
            span(|| detour(&mut t, &mut shelf, &c, &o));
        } else {
            step(&mut t, &c, &o);
        }
        compare(&t, "after the last operation");
        if h(&t.m) != before {
            changed += 1;
        }
    }
    if changed > 0 {
        nontrivial();
    }
    add("ops_with_effect", changed);
    trace_end(&t);
}

// ---------------------------------------------------------------- C11

/// gives the tree to f as the root of a document
pub fn as_document<R>(t: &mut Tree, f: impl FnOnce(&Document, &ME) -> R) -> R {
    let e = lib(|| std::mem::take(&mut t.real));
    let mut d = lib(|| Document::new(e));
    let r = f(&d, &t.m);
    t.real = lib(|| std::mem::take(d.root_element_mut()));
    r
}
pub fn indent() -> String {
    pick(&["  ", "\t", "", " ", "    ", "          "]).to_string()
}
pub fn failing_sink(d: &Document) {
    let ind = indent();
    let text = lib(|| d.to_string_with_indent(ind.as_str()));
    let at = draw(text.len() as u32) as usize;
    let end = match draw(3) {
        0 => SinkEnd::Fail { at, err: err_spec(), once: chance(1, 2) },
        1 => SinkEnd::Full { at },
        _ => SinkEnd::Panic { at },
    };
    note(|| format!("write to a sink: {end:?}"));
    let mut w = SimWriter::new(delivery(), end);
    let r = lib_catch(|| d.write_to_file_with_indent(&mut w, ind.as_str()));
    check(!matches!(r, Some(Ok(()))), "not-rejected", || "a failing sink was reported as success".into());
    let again = lib(|| d.to_string_with_indent(ind.as_str()));
    check(again == text, "differs", || format!("the document serialises differently after a failed write: {} before, {} after", short(&text), short(&again)));
}
pub fn failing_read() {
    let (_, e) = make();
    let bytes = e.text.as_bytes();
    match draw(4) {
        0 => {
            let at = draw(bytes.len() as u32 + 1) as usize;
            let err = err_spec();
            let src = Src::Fail { at, err, then_data: true, keep: chance(1, 2) };
            let r = read_stream(bytes, delivery(), src);
            check(r.is_err(), "not-rejected", || "a failing stream gave a document".into());
        }
        1 => {
            let cut = draw(e.root_end as u32) as usize;
            let r = deliver(&bytes[..cut]);
            check(r.is_err(), "not-rejected", || "a truncated stream gave a document".into());
        }
        2 => {
            // the reader panics
            let at = draw(bytes.len() as u32) as usize;
            count("fault:reader_panic");
            note(|| format!("the stream panics at byte {at}"));
            let mut d = delivery();
            if d.piece == 0 || d.piece > 40 {
                d.piece = 7;
            }
            let r = lib_catch(|| {
                let mut rd = SimReader::new(bytes, d, Src::Eof);
                rd.hook = Some(Box::new(move |p| {
                    if p >= at {
                        inject_panic()
                    }
                }));
                kiss_xml::parse_stream(rd)
            });
            check(r.is_none(), "not-rejected", || "a panicking reader gave a result".into());
        }
        _ => {
            let mut s = e.text.clone();
            s.push_str("<again/>");
            let r = deliver(s.as_bytes());
            check(r.is_err(), "not-rejected", || "two roots gave a document".into());
        }
    }
    // reading works as ever
    let (d, e) = make();
    match deliver(e.text.as_bytes()) {
        Err(x) => fail("refused", format!("after a failed read a valid document was refused: {x}; {}", short(&e.text))),
        Ok(doc) => {
            if let Some(m) = diff_doc(&d, &extract(&doc)) {
                fail("differs", format!("after a failed read: {m}; sent {}", short(&e.text)));
            }
        }
    }
}
pub fn failing_search(t: &mut Tree, c: &Cfg) {
    let path = crate::gen::spot(&t.m);
    let at_call = draw(t.m.at(&path).size() as u32 + 1);
    let p = pred(c);
    note(|| format!("{path:?}: a search whose predicate panics at call {at_call}"));
    let e = at_ref(&t.real, &path);
    let k = RefCell::new(0);
    let how = draw(4);
    let hit = |n: &dyn Node| {
        cb(|| {
            let mut k = k.borrow_mut();
            *k += 1;
            if *k > at_call {
                count("fault:predicate_panic");
                inject_panic()
            }
            lib(|| p.real(n))
        })
    };
    let _ = lib_catch(|| match how {
        0 => e.search(|n| hit(&***n)).count(),
        1 => e.search_elements(|n| hit(*n)).count(),
        2 => e.search_text(|n| hit(*n)).count(),
        _ => e.search_comments(|n| hit(*n)).count(),
    });
}
pub fn failing_constructor(c: &Cfg) {
    count("fault:rejected_op");
    let bad = *pick(gen::BAD_NAMES);
    let must = |ok: bool, what: String| check(ok, "not-rejected", || format!("{what} was not rejected"));
    match draw(6) {
        0 => must(lib(|| Element::new_from_name(bad).is_err()), format!("an element named {bad:?}")),
        1 => {
            let a: HashMap<String, String> = [(bad.to_string(), "v".to_string()), ("k".to_string(), "v".to_string())].into();
            must(lib(|| Element::new_with_attributes("e", a).is_err()), format!("an attribute named {bad:?}"))
        }
        2 => {
            let kid = build(&gen::root(c));
            let kids = vec![lib(|| kid.boxed())];
            must(lib(|| Element::new_with_children(bad, kids).is_err()), format!("an element named {bad:?}"))
        }
        3 => must(lib(|| Comment::new("a --> b").is_err()), "a comment with -->".into()),
        4 => must(lib(|| CData::new("a ]]> b").is_err()), "a CDATA with ]]>".into()),
        _ => must(lib(|| Element::new_with_text(bad, "t").is_err()), format!("an element named {bad:?}")),
    }
}
pub fn failing_save(t: &mut Tree) {
    use crate::disk::{Call, Fault, Plan};
    {
        let _p = pause();
        cx().disk = crate::disk::Disk::new();
        cx().disk.img.put("/data/x.xml", b"<old/>");
        let mut p = Plan::default();
        match draw(3) {
            0 => p.at.push((Call::Open, 0, Fault::Errno(libc::EACCES))),
            1 => p.at.push((Call::Write, 0, Fault::Errno(libc::EIO))),
            _ => p.space = Some(draw(8) as usize),
        }
        cx().disk.arm(p);
    }
    note(|| "save to a failing disk".into());
    as_document(t, |d, _| {
        let before = lib(|| d.to_string());
        let r = lib(|| d.write_to_filepath("/data/x.xml"));
        let hard = cx().disk.hard > 0;
        check(!hard || r.is_err(), "not-rejected", || "a failed save was reported as success".into());
        let again = lib(|| d.to_string());
        check(again == before, "differs", || format!("the document serialises differently after a failed save: {} before, {} after", short(&before), short(&again)));
    });
    let _p = pause();
    cx().disk = crate::disk::Disk::new();
}

pub fn c11() {
    let c = gen::cfg();
    let mut o = opts();
    o.errors = true;
    o.reenter = chance(1, 3);
    let mut t = start(&c);
    let mut faults = 0;
    for _ in 0..steps_wanted() {
        span(|| {
            let k = draw(12);
            let one = |t: &mut Tree, path: &[usize]| match k {
                0 | 1 => step(t, &c, &o),
                2..=4 => rejected(t, &c, path),
                5 | 6 => {
                    let kind = draw(4);
                    let at = draw(t.m.at(path).size().min(12) as u32);
                    removal(t, &c, &o, kind, path, Some(at));
                }
                7 => failing_search(t, &c),
                8 => as_document(t, |d, _| failing_sink(d)),
                9 => failing_save(t),
                10 => failing_constructor(&c),
                _ => failing_read(),
            };
            let path = crate::gen::spot(&t.m);
            one(&mut t, &path);
            if k > 1 && chance(1, 300) {
                // the same failure over and over
                let n = range(50, 400);
                note(|| format!("{n} times"));
                count("many_failures");
                for _ in 0..n {
                    let path = crate::gen::spot(&t.m);
                    one(&mut t, &path);
                }
            }
            if k > 1 {
                faults += 1;
            }
            compare(&t, if k > 1 { "after a failed operation" } else { "after an operation" });
        });
    }
    if faults > 0 {
        nontrivial();
        // other documents are not affected
        reenter();
        step(&mut t, &c, &o);
        compare(&t, "after operations that follow a failure");
    }
    trace_end(&t);
}

// ---------------------------------------------------------------- C14

struct Copy {
    t: Tree,
    /// what it serialised to, and the namespaces it reported, after its own last edit
    text: String,
    ns: Vec<Option<String>>,
}
fn record(t: Tree) -> Copy {
    let text = lib(|| t.real.to_string());
    let ns = reported_namespaces(&t.real);
    Copy { t, text, ns }
}

pub fn c14() {
    let c = gen::cfg();
    let mut o = opts();
    o.ns_edits = c.ns && chance(1, 2);
    o.reenter = chance(1, 4);
    let mut pool = vec![record(start(&c))];
    let mut copies = 0;
    for _ in 0..steps_wanted() + 2 {
        span(|| {
            let i = draw(pool.len() as u32) as usize;
            let k = draw(8);
            let mut touched = None;
            match k {
                0..=2 if pool.len() < 5 => {
                    // take a copy
                    copies += 1;
                    let src = &pool[i];
                    let path = crate::gen::spot(&src.t.m);
                    let e = at_ref(&src.t.real, &path);
                    note(|| format!("copy {i}{path:?} as {}", pool.len()));
                    let m = src.t.m.at(&path).clone();
                    let real = match draw(3) {
                        0 => lib(|| e.clone()),
                        1 if !path.is_empty() => {
                            let p = at_ref(&src.t.real, &path[..path.len() - 1]);
                            lib(|| {
                                let b = p.children().nth(path[path.len() - 1]).expect("child");
                                let mut n = clone_node(b);
                                check(node_eq(b, &n), "not-equal", || "a copied node does not equal its original".into());
                                std::mem::take(n.as_element_mut().expect("element"))
                            })
                        }
                        _ => lib(|| {
                            let mut n: Box<dyn Node> = dyn_clone(e);
                            std::mem::take(n.as_element_mut().expect("element"))
                        }),
                    };
                    check(lib(|| real == *e), "not-equal", || format!("a copy of {i}{path:?} does not equal its original"));
                    let ns = reported_namespaces(&real);
                    let old = reported_namespaces(e);
                    check(ns == old, "not-equal", || format!("the copy reports namespaces {ns:?}, the original {old:?}"));
                    let t = Tree { real, m };
                    compare(&t, "a fresh copy");
                    pool.push(record(t));
                    touched = Some(pool.len() - 1);
                }
                3 if pool.len() > 1 => {
                    note(|| format!("drop {i}"));
                    let x = pool.remove(i);
                    lib(|| drop(x));
                }
                4 if chance(1, 2) => {
                    for _ in 0..range(1, 4) {
                        let j = draw(pool.len() as u32) as usize;
                        equal_or_not(&pool[i].t, &pool[j].t);
                    }
                }
                4 => {
                    // copy a leaf, edit the copy
                    leaf_copy(&pool[i].t, &c);
                }
                5 if pool.len() > 1 => {
                    // attach a copy of one tree to another
                    let j = draw(pool.len() as u32) as usize;
                    if pool[i].t.m.size() + pool[j].t.m.size() < 200 && (o.ns_edits || free_prefixes(&pool[j].t.m).is_empty()) {
                        note(|| format!("attach a copy of {j} to {i}"));
                        let b = lib(|| pool[j].t.real.clone());
                        let m = pool[j].t.m.clone();
                        let x = &mut pool[i].t;
                        lib(|| x.real.append(b));
                        x.m.kids.push(M::E(m));
                        x.m.cleanup();
                        touched = Some(i);
                        copies += 1;
                    }
                }
                6 if o.ns_edits && chance(1, 2) => {
                    twins(&mut pool[i].t, &c);
                    copies += 1;
                    touched = Some(i);
                }
                _ => {
                    note(|| format!("edit {i}:"));
                    step(&mut pool[i].t, &c, &o);
                    touched = Some(i);
                }
            }
            for (j, x) in pool.iter_mut().enumerate() {
                compare(&x.t, &format!("tree {j} after an edit of {touched:?}"));
                let text = lib(|| x.t.real.to_string());
                let ns = reported_namespaces(&x.t.real);
                if touched == Some(j) {
                    x.text = text;
                    x.ns = ns;
                } else {
                    check(text == x.text, "leaked", || format!("tree {j} changed by an edit of {touched:?}: {} became {}", short(&x.text), short(&text)));
                    check(ns == x.ns, "leaked", || format!("the namespaces of tree {j} changed by an edit of {touched:?}: {:?} became {ns:?}", x.ns));
                }
            }
        });
    }
    if copies > 0 {
        nontrivial();
    }
    trace_end(&pool[0].t);
}
/// two elements are equal exactly when they hold and report the same
fn equal_or_not(x: &Tree, y: &Tree) {
    let p = crate::gen::spot(&x.m);
    let a = x.m.at(&p);
    let here = raw_namespaces(at_ref(&x.real, &p));
    // rather one that could be equal
    let same: Vec<Vec<usize>> = y.m.paths().into_iter().filter(|q| y.m.at(q) == a).collect();
    let other: Vec<Vec<usize>> = same.iter().take(40).filter(|q| raw_namespaces(at_ref(&y.real, q)) != here).cloned().collect();
    let near: Vec<Vec<usize>> = y.m.paths().into_iter().filter(|q| y.m.at(q).name == a.name).collect();
    let q = if !other.is_empty() && chance(2, 3) {
        pick(&other).clone()
    } else if !same.is_empty() && chance(2, 3) {
        pick(&same).clone()
    } else if !near.is_empty() && chance(2, 3) {
        pick(&near).clone()
    } else {
        crate::gen::spot(&y.m)
    };
    let b = y.m.at(&q);
    let (e, f) = (at_ref(&x.real, &p), at_ref(&y.real, &q));
    let (n, k) = (raw_namespaces(e), raw_namespaces(f));
    let want = a == b && n == k;
    let filled = |v: &[Option<String>]| -> Vec<Option<String>> { v.iter().cloned().map(|n| n.filter(|n| !n.is_empty())).collect() };
    if n != k && filled(&n) == filled(&k) {
        return;
    }
    count("pairs_compared");
    if a == b && n != k {
        count("pairs_differing_by_namespace");
    }
    note(|| format!("is {p:?} equal to {q:?}? {want}"));
    let got = lib(|| (*e == *f, *f == *e));
    check(got == (want, want), "not-equal", || format!("the elements {} and {} with namespaces {n:?} and {k:?} are {}equal, asked both ways: {got:?}", short(&show(&M::E(a.clone()))), short(&show(&M::E(b.clone()))), if want { "" } else { "not " }));
}
/// the same edits of an original and its copy have the same effect
fn twins(x: &mut Tree, c: &Cfg) {
    let path = crate::gen::spot(&x.m);
    let mut copy = lib(|| at_ref(&x.real, &path).clone());
    count("twins");
    for _ in 0..range(1, 4) {
        let k = draw(6);
        let key = if c.prefixes.is_empty() || chance(1, 2) { "xmlns".to_string() } else { format!("xmlns:{}", pick(&c.prefixes)) };
        let v = pick(&c.uris).clone();
        let kid = gen::node(c, &bound_at(&x.m, &path), true);
        let (a, b) = (build_any(&kid), build_any(&kid));
        note(|| format!("both {path:?} and a copy of it: edit {k} with {key:?}, {v:?}, {}", show(&kid)));
        let edit = |e: &mut Element, n: Box<dyn Node>| {
            lib(|| match k {
                0 | 1 => {
                    e.remove_attr(key.as_str());
                }
                2 => {
                    let _ = e.set_attr(key.as_str(), v.as_str());
                }
                3 => e.clear_attributes(),
                4 => e.append_boxed(n),
                _ => e.append_all(vec![n]),
            })
        };
        edit(&mut copy, a);
        edit(at(&mut x.real, &x.m, &path), b);
        let m = x.m.at_mut(&path);
        match k {
            0 | 1 => {
                m.attrs.remove(&key);
            }
            2 => {
                m.attrs.insert(key, v);
            }
            3 => m.attrs.clear(),
            _ => {
                m.kids.push(kid);
                m.cleanup();
            }
        }
        let e = at_ref(&x.real, &path);
        let (p, q) = (reported_namespaces(e), reported_namespaces(&copy));
        check(p == q, "not-equal", || format!("after the same edits the original reports namespaces {p:?}, its copy {q:?}"));
        let same = lib(|| *e == copy && e.to_string() == copy.to_string());
        check(same, "not-equal", || format!("after the same edits a copy differs from its original {}", short(&plain(x.m.at(&path)))));
    }
}
fn build_any(m: &M) -> Box<dyn Node> {
    match m {
        M::E(e) => {
            let r = build(e);
            lib(|| r.boxed())
        }
        m => build_node(m),
    }
}
fn dyn_clone(e: &Element) -> Box<dyn Node> {
    e.clone().boxed()
}
fn leaf_copy(t: &Tree, c: &Cfg) {
    let path = crate::gen::spot(&t.m);
    let idx: Vec<usize> = (0..t.m.at(&path).kids.len()).filter(|i| !t.m.at(&path).kids[*i].is_elem()).collect();
    if idx.is_empty() {
        return;
    }
    let i = *pick(&idx);
    let want = t.m.at(&path).kids[i].clone();
    let e = at_ref(&t.real, &path);
    let mut b = lib(|| {
        let n = e.children().nth(i).expect("child");
        let b = clone_node(n);
        check(node_eq(n, &b), "not-equal", || format!("a copy of {} does not equal it", show(&want)));
        b
    });
    let got = extract_node(&*b);
    check(got == want, "not-equal", || format!("a copy of {} is {}", show(&want), show(&got)));
    lib(|| match &want {
        M::T(_) => b.as_text_mut().expect("text").content.push('x'),
        M::C(_) => {
            let _ = b.as_comment_mut().expect("comment").set_content(gen::comment(c));
        }
        _ => {
            let _ = b.as_cdata_mut().expect("cdata").set_text(gen::cdata(c));
        }
    });
}

// ---------------------------------------------------------------- C15

/// addresses of the nodes below an element, with the path of each
struct Index {
    addr: HashMap<usize, Vec<usize>>,
}
fn addr(n: &dyn Node) -> usize {
    n as *const dyn Node as *const () as usize
}
fn index(e: &Element) -> Index {
    fn go(e: &Element, p: &mut Vec<usize>, out: &mut HashMap<usize, Vec<usize>>) {
        for (i, n) in e.children().enumerate() {
            p.push(i);
            out.insert(addr(&**n), p.clone());
            if n.is_element() {
                go(n.as_element().expect("element"), p, out);
            }
            p.pop();
        }
    }
    let _p = pause();
    let mut m = HashMap::new();
    go(e, &mut vec![], &mut m);
    Index { addr: m }
}
/// all nodes below the element in document order, with their paths
fn nodes(e: &ME) -> Vec<(Vec<usize>, M)> {
    fn go(e: &ME, p: &mut Vec<usize>, out: &mut Vec<(Vec<usize>, M)>) {
        for (i, k) in e.kids.iter().enumerate() {
            p.push(i);
            out.push((p.clone(), k.clone()));
            if let M::E(c) = k {
                go(c, p, out);
            }
            p.pop();
        }
    }
    let mut out = vec![];
    go(e, &mut vec![], &mut out);
    out
}
fn places(ix: &Index, got: &[usize], what: &str) -> Vec<Vec<usize>> {
    got.iter()
        .map(|a| match ix.addr.get(a) {
            Some(p) => p.clone(),
            None => fail("foreign", format!("{what} yielded a node that is not below the element")),
        })
        .collect()
}
fn same_set(ix: &Index, got: &[usize], want: &[Vec<usize>], what: &str) {
    let mut g = places(ix, got, what);
    g.sort();
    let mut w = want.to_vec();
    w.sort();
    check(g == w, "query", || format!("{what} yielded the nodes at {g:?} instead of {w:?}"));
    ev("q", h(&w));
}
fn same_list(ix: &Index, got: &[usize], want: &[Vec<usize>], what: &str) {
    let g = places(ix, got, what);
    check(g == want, "query", || format!("{what} yielded the nodes at {g:?} instead of {want:?}, in this order"));
    ev("ql", h(&want));
}

/// a name to look for: one that occurs, or nearly
fn asked_name(c: &Cfg, m: &ME) -> String {
    let n = gen::name(c);
    if !chance(1, 5) {
        return n;
    }
    let kid = m.kids.iter().find_map(|k| if let M::E(x) = k { Some(x.tag()) } else { None });
    match (draw(6), kid) {
        (0, Some(t)) => t,
        (1, _) => n.to_uppercase(),
        (2, _) => n.to_lowercase(),
        (3, _) => n.chars().take(1).collect(),
        (4, _) => format!("{n} "),
        (_, Some(t)) => t,
        _ => String::new(),
    }
}
fn query(t: &Tree, c: &Cfg, ns: &[Option<String>]) {
    let paths = t.m.paths();
    let pi = crate::gen::spot_index(&paths);
    let path = paths[pi].clone();
    let e = at_ref(&t.real, &path);
    let m = t.m.at(&path);
    let ix = index(e);
    let all = nodes(m);
    count("queries");
    let kids: Vec<(usize, &ME)> = m.kids.iter().enumerate().filter_map(|(i, k)| if let M::E(x) = k { Some((i, x)) } else { None }).collect();
    // the namespace of each child element
    let ns_of = |i: usize| {
        let mut p = path.clone();
        p.push(i);
        ns[paths.iter().position(|q| *q == p).unwrap()].clone()
    };
    let p = pred(c);
    let matching = |f: &dyn Fn(&M) -> bool| -> Vec<Vec<usize>> { all.iter().filter(|(_, n)| f(n)).map(|(p, _)| p.clone()).collect() };
    let one = |f: &dyn Fn(usize, &ME) -> bool| -> Vec<Vec<usize>> { kids.iter().filter(|(i, x)| f(*i, x)).map(|(i, _)| vec![*i]).collect() };
    let k = draw(18);
    note(|| format!("query {k} at {path:?} with {p:?}"));
    let a = |n: &Box<dyn Node>| addr(&**n);
    match k {
        0 => {
            let g: Vec<usize> = lib(|| e.children().map(a).collect());
            same_list(&ix, &g, &(0..m.kids.len()).map(|i| vec![i]).collect::<Vec<_>>(), "children()");
        }
        1 => {
            let g: Vec<usize> = lib(|| e.child_elements().map(|x| addr(x)).collect());
            same_list(&ix, &g, &one(&|_, _| true), "child_elements()");
        }
        2 => {
            let g: Vec<usize> = lib(|| e.all_children().map(a).collect());
            same_set(&ix, &g, &matching(&|_| true), "all_children()");
        }
        3 => {
            let g: Vec<usize> = lib(|| e.children_recursive().map(a).collect());
            same_set(&ix, &g, &matching(&|_| true), "children_recursive()");
        }
        4 | 5 => {
            let g: Vec<usize> = lib(|| e.search(|n| cb(|| lib(|| p.real(&***n)))).map(a).collect());
            same_set(&ix, &g, &matching(&|n| p.model(n)), "search()");
        }
        6 => {
            let g: Vec<usize> = lib(|| e.search_elements(|n| cb(|| lib(|| p.real(*n)))).map(|x| addr(x)).collect());
            same_set(&ix, &g, &matching(&|n| n.is_elem() && p.model(n)), "search_elements()");
        }
        7 => {
            let name = asked_name(c, m);
            let g: Vec<usize> = lib(|| e.search_elements_by_name(name.as_str()).map(|x| addr(x)).collect());
            same_set(&ix, &g, &matching(&|n| matches!(n, M::E(x) if x.name == name)), "search_elements_by_name()");
        }
        8 => {
            let g: Vec<usize> = lib(|| e.search_text(|n| cb(|| lib(|| p.real(*n)))).map(|x| addr(x)).collect());
            same_set(&ix, &g, &matching(&|n| n.is_text() && p.model(n)), "search_text()");
        }
        9 => {
            let g: Vec<usize> = lib(|| e.search_comments(|n| cb(|| lib(|| p.real(*n)))).map(|x| addr(x)).collect());
            same_set(&ix, &g, &matching(&|n| matches!(n, M::C(_)) && p.model(n)), "search_comments()");
        }
        10 => {
            let name = asked_name(c, m);
            let g: Vec<usize> = lib(|| e.elements_by_name(name.as_str()).map(|x| addr(x)).collect());
            let w = one(&|_, x| x.name == name);
            same_list(&ix, &g, &w, "elements_by_name()");
            let f = lib(|| e.first_element_by_name(name.as_str()).ok().map(|x| addr(x)));
            let g: Vec<usize> = f.into_iter().collect();
            same_list(&ix, &g, &w[..w.len().min(1)], "first_element_by_name()");
        }
        11 => {
            let want = if chance(1, 3) {
                None
            } else if chance(1, 12) {
                Some(String::new())
            } else if kids.is_empty() || chance(1, 4) {
                Some(pick(&c.uris).clone())
            } else {
                ns_of(pick(&kids).0)
            };
            let g: Vec<usize> = lib(|| e.elements_by_namespace(want.as_deref()).map(|x| addr(x)).collect());
            same_list(&ix, &g, &one(&|i, _| ns_of(i) == want), &format!("elements_by_namespace({want:?})"));
        }
        12 => {
            let want = if chance(1, 12) {
                Some(pick(&["", "xmlns", "xml", ":", "no-such"]).to_string())
            } else if c.prefixes.is_empty() || chance(1, 3) {
                None
            } else {
                Some(pick(&c.prefixes).clone())
            };
            let g: Vec<usize> = lib(|| e.elements_by_namespace_prefix(want.as_deref()).map(|x| addr(x)).collect());
            same_list(&ix, &g, &one(&|_, x| x.prefix == want), &format!("elements_by_namespace_prefix({want:?})"));
        }
        13 => {
            let g = lib(|| Node::text(e));
            check(g == m.text(), "query", || format!("text() is {} instead of {}", short(&g), short(&m.text())));
            let (n, tn, pf) = lib(|| (e.name(), e.tag_name(), e.namespace_prefix()));
            check(n == m.name && tn == m.tag() && pf == m.prefix, "query", || format!("element <{}> calls itself {n}, {tn}, {pf:?}", m.tag()));
            for k in c.attr_names.iter().chain(m.attrs.keys()) {
                let g = lib(|| e.get_attr(k.as_str()).cloned());
                check(g.as_ref() == m.attrs.get(k), "query", || format!("get_attr({k:?}) is {g:?} instead of {:?}", m.attrs.get(k)));
            }
        }
        14 => {
            // abandoned early, then the same query again
            let stop = draw(all.len() as u32 + 1) as usize;
            count("abandoned_iterations");
            let part: Vec<usize> = lib(|| e.search(|n| cb(|| lib(|| p.real(&***n)))).take(stop).map(a).collect());
            let full: Vec<usize> = lib(|| e.search(|n| cb(|| lib(|| p.real(&***n)))).map(a).collect());
            same_set(&ix, &full, &matching(&|n| p.model(n)), "search() after an abandoned one");
            check(full.starts_with(&part), "query", || "an abandoned search and a full one disagree".into());
        }
        15 => {
            // a predicate that keeps state: the answers it gave are what comes out
            let asked: RefCell<Vec<(usize, bool)>> = RefCell::new(vec![]);
            let mut k = draw(3);
            let every = range(2, 4);
            count("stateful_predicates");
            let g: Vec<usize> = lib(|| {
                e.search(|n| {
                    cb(|| {
                        k += 1;
                        let yes = k % every == 0;
                        asked.borrow_mut().push((addr(&***n), yes));
                        yes
                    })
                })
                .map(a)
                .collect()
            });
            let yes: Vec<usize> = asked.borrow().iter().filter(|x| x.1).map(|x| x.0).collect();
            check(g == yes, "query", || format!("search() yielded {} nodes where its predicate accepted {}", g.len(), yes.len()));
            let asked: Vec<usize> = asked.borrow().iter().map(|x| x.0).collect();
            same_set(&ix, &asked, &matching(&|_| true), "the nodes a search asked its predicate about");
        }
        16 => {
            // nested: inside the predicate and the loop of one search, others run
            count("nested_queries");
            let inner_want = matching(&|n| n.is_text());
            let budget = RefCell::new(0u32);
            let g: Vec<usize> = lib(|| {
                let mut g = vec![];
                for n in e.search(|n| {
                    cb(|| {
                        let mut b = budget.borrow_mut();
                        *b += 1;
                        if *b < 20 && draw(4) == 3 {
                            let i: Vec<usize> = lib(|| e.search_text(|_| true).map(|x| addr(x)).collect());
                            same_set(&ix, &i, &inner_want, "search_text() inside another search");
                        }
                        lib(|| p.real(&***n))
                    })
                }) {
                    g.push(a(n));
                    if g.len() < 20 && draw(4) == 3 {
                        let i = e.search(|n| n.is_text()).count();
                        check(i == inner_want.len(), "query", || "a search inside the loop of another is wrong".into());
                        let tx = n.text();
                        let place = &ix.addr[&a(n)];
                        let (_, w) = all.iter().find(|x| x.0 == *place).unwrap();
                        check(tx == w.text(), "query", || format!("text() of {} is {}", show(w), short(&tx)));
                    }
                }
                g
            });
            same_set(&ix, &g, &matching(&|n| p.model(n)), "search() with others nested in it");
        }
        _ => {
            // two iterations advanced in turns
            count("interleaved_iterations");
            let (x, y): (Vec<usize>, Vec<usize>) = lib(|| {
                let mut i1 = e.search_elements(|_| true);
                let mut i2 = e.children();
                let (mut v1, mut v2) = (vec![], vec![]);
                loop {
                    let (d1, d2) = if draw(2) == 0 {
                        let r = i1.next();
                        if let Some(r) = r {
                            v1.push(addr(r));
                        }
                        (r.is_none(), false)
                    } else {
                        let r = i2.next();
                        if let Some(r) = r {
                            v2.push(addr(&**r));
                        }
                        (false, r.is_none())
                    };
                    if d1 {
                        v2.extend(i2.map(|n| addr(&**n)));
                        break;
                    }
                    if d2 {
                        v1.extend(i1.map(|n| addr(n)));
                        break;
                    }
                }
                (v1, v2)
            });
            same_set(&ix, &x, &matching(&|n| n.is_elem()), "search_elements() interleaved with children()");
            same_list(&ix, &y, &(0..m.kids.len()).map(|i| vec![i]).collect::<Vec<_>>(), "children() interleaved with a search");
        }
    }
}

/// the mutable queries find what the others find
fn query_mut(t: &mut Tree, c: &Cfg) {
    let path = crate::gen::spot(&t.m);
    let m = t.m.at(&path).clone();
    let name = asked_name(c, &m);
    let prefix = if c.prefixes.is_empty() || chance(1, 3) { None } else { Some(pick(&c.prefixes).clone()) };
    let kids: Vec<(usize, &ME)> = m.kids.iter().enumerate().filter_map(|(i, k)| if let M::E(x) = k { Some((i, x)) } else { None }).collect();
    let one = |f: &dyn Fn(&ME) -> bool| -> Vec<Vec<usize>> { kids.iter().filter(|(_, x)| f(x)).map(|(i, _)| vec![*i]).collect() };
    let e = at(&mut t.real, &t.m, &path);
    let ix = index(e);
    note(|| format!("mutable queries at {path:?} for {name:?} and {prefix:?}"));
    count("mutable_queries");
    let named = one(&|x| x.name == name);
    let g: Vec<usize> = lib(|| e.elements_by_name_mut(name.as_str()).map(|x| addr(x)).collect());
    same_list(&ix, &g, &named, &format!("elements_by_name_mut({name:?})"));
    let g: Vec<usize> = lib(|| e.first_element_by_name_mut(name.as_str()).ok().map(|x| addr(x))).into_iter().collect();
    same_list(&ix, &g, &named[..named.len().min(1)], &format!("first_element_by_name_mut({name:?})"));
    let g: Vec<usize> = lib(|| e.elements_by_namespace_prefix_mut(prefix.as_deref()).map(|x| addr(x)).collect());
    same_list(&ix, &g, &one(&|x| x.prefix == prefix), &format!("elements_by_namespace_prefix_mut({prefix:?})"));
    let g: Vec<usize> = lib(|| e.child_elements_mut().map(|x| addr(x)).collect());
    same_list(&ix, &g, &one(&|_| true), "child_elements_mut()");
    let g: Vec<usize> = lib(|| e.children_mut().map(|n| addr(n.as_node())).collect());
    same_list(&ix, &g, &(0..m.kids.len()).map(|i| vec![i]).collect::<Vec<_>>(), "children_mut()");
}

/// changes visited nodes through a mutable iteration by namespace
fn mutate_by_ns(t: &mut Tree, c: &Cfg, ns: &[Option<String>]) {
    let paths = t.m.paths();
    let path = crate::gen::spot(&t.m);
    let want_ns = if chance(1, 3) { None } else { Some(pick(&c.uris).clone()) };
    let limit = if chance(1, 2) { usize::MAX } else { draw(3) as usize };
    let v = gen::attr_value(c);
    let a = pick(&c.attr_names).clone();
    note(|| format!("{path:?}: set {a:?} on the first {limit} child elements with namespace {want_ns:?}"));
    let mut want = vec![];
    for (i, k) in t.m.at(&path).kids.iter().enumerate() {
        if k.is_elem() {
            let mut p = path.clone();
            p.push(i);
            let j = paths.iter().position(|q| *q == p).unwrap();
            if ns[j] == want_ns && want.len() < limit {
                want.push(i);
            }
        }
    }
    let e = at(&mut t.real, &t.m, &path);
    let n = lib(|| {
        let mut n = 0;
        for x in e.elements_by_namespace_mut(want_ns.as_deref()).take(limit) {
            let _ = x.set_attr(a.as_str(), v.as_str());
            n += 1;
        }
        n
    });
    check(n == want.len(), "query", || format!("elements_by_namespace_mut({want_ns:?}) visited {n} elements instead of {}", want.len()));
    let m = t.m.at_mut(&path);
    for i in want {
        m.kids[i].elem_mut().attrs.insert(a.clone(), v.clone());
    }
}

/// the namespaces as reported, which are those of the model
fn told(t: &Tree) -> Vec<Option<String>> {
    let (want, got) = (namespaces(&t.m), reported_namespaces(&t.real));
    check(got == want, "query", || format!("the namespaces reported are {got:?} instead of {want:?}"));
    raw_namespaces(&t.real)
}
/// what kind a node says it is, by every way of asking
fn kind_of(n: &dyn Node) -> Vec<String> {
    let mut v = vec![];
    let mut say = |how: &str, what: &str| v.push(format!("{how}:{what}"));
    for (k, b) in [("E", n.is_element()), ("T", n.is_text()), ("C", n.is_comment()), ("D", n.is_cdata())] {
        if b {
            say("is", k);
        }
    }
    say(
        "type",
        match n.node_type() {
            DomNodeType::ElementNode => "E",
            DomNodeType::TextNode => "T",
            DomNodeType::CommentNode => "C",
            DomNodeType::CDataNode => "D",
        },
    );
    let here = n as *const dyn Node as *const u8 as usize;
    let mut cast = |k: &str, p: Option<usize>| match p {
        None => {}
        Some(p) if p == here => say("as", k),
        Some(_) => say("as another node", k),
    };
    cast("E", n.as_element().ok().map(|x| x as *const Element as usize));
    cast("T", n.as_text().ok().map(|x| x as *const Text as usize));
    cast("C", n.as_comment().ok().map(|x| x as *const Comment as usize));
    cast("D", n.as_cdata().ok().map(|x| x as *const CData as usize));
    let a = n.as_any();
    for (k, b) in [("E", a.is::<Element>()), ("T", a.is::<Text>()), ("C", a.is::<Comment>()), ("D", a.is::<CData>())] {
        if b {
            say("any", k);
        }
    }
    if n.as_node() as *const dyn Node as *const u8 as usize != here {
        say("node", "another node");
    }
    v
}
fn kind_of_mut(n: &mut dyn Node) -> Vec<String> {
    let mut v = vec![];
    let here = n as *const dyn Node as *const u8 as usize;
    let mut cast = |k: &str, p: Option<usize>| match p {
        None => {}
        Some(p) if p == here => v.push(format!("as:{k}")),
        Some(_) => v.push(format!("as another node:{k}")),
    };
    cast("E", n.as_element_mut().ok().map(|x| x as *const Element as usize));
    cast("T", n.as_text_mut().ok().map(|x| x as *const Text as usize));
    cast("C", n.as_comment_mut().ok().map(|x| x as *const Comment as usize));
    cast("D", n.as_cdata_mut().ok().map(|x| x as *const CData as usize));
    if n.as_node_mut() as *const dyn Node as *const u8 as usize != here {
        v.push("node:another node".into());
    }
    let a = n.as_any_mut();
    for (k, b) in [("E", a.is::<Element>()), ("T", a.is::<Text>()), ("C", a.is::<Comment>()), ("D", a.is::<CData>())] {
        if b {
            v.push(format!("any:{k}"));
        }
    }
    v
}
/// every node of an element is of exactly one kind, shared or mutable
fn kinds(t: &mut Tree) {
    let path = crate::gen::spot(&t.m);
    let m = t.m.clone();
    let e = at(&mut t.real, &m, &path);
    let kind = |k: &M| match k {
        M::E(_) => "E",
        M::T(_) => "T",
        M::C(_) => "C",
        M::D(_) => "D",
    };
    for (i, k) in m.at(&path).kids.iter().enumerate() {
        let k = kind(k);
        let got = lib(|| e.children().nth(i).map(|n| kind_of(n.as_ref())));
        let want: Vec<String> = ["is", "type", "as", "any"].iter().map(|h| format!("{h}:{k}")).collect();
        check(got.as_ref() == Some(&want), "kind", || format!("child {i} at {path:?} says of itself {got:?} instead of {want:?}"));
    }
    let got: Vec<Vec<String>> = lib(|| e.children_mut().map(|n| kind_of_mut(n.as_mut())).collect());
    let want: Vec<Vec<String>> = m.at(&path).kids.iter().map(|k| vec![format!("as:{}", kind(k)), format!("any:{}", kind(k))]).collect();
    check(got == want, "kind", || format!("the children at {path:?} say of themselves, mutably, {got:?} instead of {want:?}"));
}

pub fn c15() {
    let c = gen::cfg();
    let mut o = opts();
    o.blank = chance(1, 2);
    let mut t = start(&c);
    let mut asked = 0;
    for _ in 0..range(1, 3) {
        for _ in 0..draw(6) {
            step(&mut t, &c, &o);
        }
        let mut ns = told(&t);
        for _ in 0..range(1, 6) {
            span(|| {
                if chance(1, 10) {
                    mutate_by_ns(&mut t, &c, &ns);
                    ns = told(&t);
                } else if chance(1, 10) {
                    query_mut(&mut t, &c);
                } else if chance(1, 10) {
                    kinds(&mut t);
                } else {
                    query(&t, &c, &ns);
                    asked += 1;
                }
            });
        }
        compare(&t, "after queries");
    }
    if asked > 0 && t.m.size() > 2 {
        nontrivial();
    }
    trace_end(&t);
}

// ---------------------------------------------------------------- C16

pub fn ns_cfg() -> Cfg {
    let mut c = gen::cfg();
    c.ns = true;
    c.local_ns = chance(3, 4);
    if c.prefixes.is_empty() {
        for p in ["p", "q", "ns1"].iter().take(range(1, 3) as usize) {
            c.prefixes.push(p.to_string());
        }
    }
    c
}

fn check_namespaces(t: &Tree, what: &str) {
    compare_ns(&t.real, &t.m, what);
    // the other views of the same thing
    let raw = raw_namespaces(&t.real);
    let ns = namespaces(&t.m);
    let paths = t.m.paths();
    let i = crate::gen::spot_index(&paths);
    let e = at_ref(&t.real, &paths[i]);
    let m = t.m.at(&paths[i]);
    let (d, p) = lib(|| (e.default_namespace().filter(|n| !n.is_empty()), e.namespace_prefix()));
    let want = if m.prefix.is_none() { ns[i].clone() } else { None };
    check(d == want && p == m.prefix, "namespace", || {
        format!("{what}: element <{}> reports default namespace {d:?} and prefix {p:?} instead of {want:?} and {:?}", m.tag(), m.prefix)
    });
    let declared: HashMap<String, String> =
        m.attrs.iter().filter_map(|(k, v)| k.strip_prefix("xmlns:").map(|p| (p.to_string(), v.clone()))).collect();
    let (tag, decl) = lib(|| (e.tag_name(), e.namespace_prefixes()));
    check(tag == m.tag(), "namespace", || format!("{what}: element <{}> calls itself <{tag}>", m.tag()));
    let decl = decl.unwrap_or_default();
    check(decl == declared, "namespace", || format!("{what}: element <{}> reports that it declares the prefixes {decl:?} instead of {declared:?}", m.tag()));
    let pf = m.prefix.clone();
    let q = raw[i].clone();
    let parent = if paths[i].is_empty() { return } else { &paths[i][..paths[i].len() - 1] };
    let pe = at_ref(&t.real, parent);
    let n = lib(|| pe.elements_by_namespace(q.as_deref()).count());
    let w = t
        .m
        .at(parent)
        .elems()
        .into_iter()
        .filter(|k| {
            let mut p = parent.to_vec();
            p.push(*k);
            raw[paths.iter().position(|x| *x == p).unwrap()] == q
        })
        .count();
    check(n == w, "namespace", || format!("{what}: elements_by_namespace({q:?}) finds {n} children instead of {w}"));
    let n = lib(|| pe.elements_by_namespace_prefix(pf.as_deref()).count());
    let w = t.m.at(parent).kids.iter().filter(|k| matches!(k, M::E(x) if x.prefix == pf)).count();
    check(n == w, "namespace", || format!("{what}: elements_by_namespace_prefix({pf:?}) finds {n} children instead of {w}"));
}

/// a removed or cloned subtree becomes the root of a document of its own, and
/// perhaps the history goes on with it
fn reroot(t: &mut Tree) {
    let paths: Vec<Vec<usize>> = t.m.paths().into_iter().filter(|p| !p.is_empty()).collect();
    if paths.is_empty() {
        return;
    }
    let f = pick(&paths).clone();
    let (pf, i) = (f[..f.len() - 1].to_vec(), f[f.len() - 1]);
    let m = t.m.at(&f).clone();
    let cut = chance(1, 2);
    note(|| format!("{f:?} {} and made the root of a document", if cut { "removed" } else { "cloned" }));
    let e = if cut {
        let p = at(&mut t.real, &t.m, &pf);
        let r = lib(|| p.remove(i).map(|n| n.as_element().expect("element").clone()));
        t.m.at_mut(&pf).kids.remove(i);
        match r {
            Ok(e) => e,
            Err(x) => fail("rejected", format!("remove({i}) was rejected: {x}")),
        }
    } else {
        let e = at_ref(&t.real, &f);
        lib(|| e.clone())
    };
    let mut d = lib(|| {
        if chance(1, 2) {
            Document::new(e)
        } else {
            Document::new_with_decl_dtd(e, None, None)
        }
    });
    count("reroots");
    compare_ns(lib(|| d.root_element()), &m, "a subtree made the root of its own document");
    if chance(1, 2) {
        let real = lib(|| std::mem::take(d.root_element_mut()));
        *t = Tree { real, m };
    }
}

/// a subtree is taken out, edited while it belongs nowhere, and put back
pub fn detour(t: &mut Tree, shelf: &mut Option<Tree>, c: &Cfg, o: &Opts) {
    match shelf.take() {
        None => {
            let paths: Vec<Vec<usize>> = t.m.paths().into_iter().filter(|p| !p.is_empty()).collect();
            if paths.is_empty() {
                return;
            }
            let f = pick(&paths).clone();
            let (pf, i) = (f[..f.len() - 1].to_vec(), f[f.len() - 1]);
            let j = t.m.at(&pf).elems().iter().position(|x| *x == i).unwrap();
            note(|| format!("{f:?} taken out"));
            let how = draw(3);
            let p = at(&mut t.real, &t.m, &pf);
            let r = lib(|| match how {
                0 => p.remove_element(j).ok(),
                1 => p.remove(i).ok().map(|mut n| std::mem::take(n.as_element_mut().expect("element"))),
                _ => p.remove(i).ok().map(|n| n.as_element().expect("element").clone()),
            });
            let M::E(m) = t.m.at_mut(&pf).kids.remove(i) else { unreachable!() };
            match r {
                Some(real) => {
                    let x = Tree { real, m };
                    compare(&x, "what was taken out");
                    *shelf = Some(x);
                }
                None => fail("rejected", "removing a child was rejected"),
            }
        }
        Some(mut x) => {
            for _ in 0..draw(4) {
                note(|| "what was taken out:".into());
                step(&mut x, c, o);
                compare(&x, "an edit of what was taken out");
            }
            let path = crate::gen::spot(&t.m);
            let bound: std::collections::BTreeSet<String> = bound_at(&t.m, &path).into_iter().collect();
            if chance(1, 4) || t.m.size() + x.m.size() > 400 || (!o.ns_edits && !free_prefixes(&x.m).is_subset(&bound)) {
                *shelf = Some(x);
                return;
            }
            note(|| format!("put back at {path:?}"));
            count("put_back");
            let b = lib(|| std::mem::take(&mut x.real).boxed());
            attach(t, &path, b, x.m);
        }
    }
}

pub fn c16() {
    let c = ns_cfg();
    let mut o = opts();
    o.ns_edits = chance(2, 3);
    o.blank = false;
    let mut t = start(&c);
    check_namespaces(&t, "the starting tree");
    let mut restarts = 0;
    let mut shelf: Option<Tree> = None;
    for _ in 0..steps_wanted() {
        span(|| {
            if chance(1, 8) {
                detour(&mut t, &mut shelf, &c, &o);
            } else if chance(1, 6) && all_bound(&t.m) {
                restarts += 1;
                count("fault:restart");
                let ind = indent();
                let (text, r) = as_document(&mut t, |d, _| {
                    let s = lib(|| d.to_string_with_indent(ind.as_str()));
                    let r = deliver(s.as_bytes());
                    (s, r)
                });
                note(|| format!("restart from {text:?}"));
                match r {
                    Err(x) => fail("refused", format!("a saved document was refused: {x}; {}", short(&text))),
                    Ok(mut d) => {
                        compare_ns(lib(|| d.root_element()), &t.m, "after a restart");
                        let real = lib(|| std::mem::take(d.root_element_mut()));
                        let m = extract_elem(&real);
                        t = Tree { real, m };
                    }
                }
            } else if chance(1, 6) {
                reroot(&mut t);
            } else {
                step(&mut t, &c, &o);
            }
            check_namespaces(&t, "after the last operation");
        });
    }
    if namespaces(&t.m).iter().any(|n| n.is_some()) {
        nontrivial();
    }
    let _ = restarts;
    trace_end(&t);
}

