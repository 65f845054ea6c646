//! Histories: random edits applied to a real element tree and to the model.
use crate::gen::{self, Cfg};
use crate::model::*;
use crate::rt::*;
use kiss_xml::dom::*;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, HashMap};

/// which histories are generated
#[derive(Clone, Debug)]
pub struct Opts {
    /// operations that must be rejected
    pub errors: bool,
    /// callbacks that re-enter the library
    pub reenter: bool,
    /// declarations may be changed and removed, prefixes may be unbound
    pub ns_edits: bool,
    pub blank: bool,
    /// names and contents the library may accept or refuse
    pub risky: bool,
    /// bit mask of enabled kinds of operation (swarm)
    pub mask: u32,
}
pub fn opts() -> Opts {
    span(|| {
        let full = chance(1, 2);
        Opts {
            errors: false,
            reenter: false,
            ns_edits: false,
            blank: true,
            risky: false,
            mask: if full { u32::MAX } else { (draw(1 << 12) << 12 | draw(1 << 12)) | 1 },
        }
    })
}

/// a real tree and what it should be
pub struct Tree {
    pub real: Element,
    pub m: ME,
}

#[derive(Clone, Debug)]
pub enum Pred {
    None,
    All,
    Elements,
    Texts,
    Comments,
    CDatas,
    Name(String),
    HasAttr,
    TextHas(char),
    Hash(u64),
}
pub fn pred(c: &Cfg) -> Pred {
    span(|| match draw(11) {
        0 => Pred::Texts,
        1 => Pred::Comments,
        2 => Pred::CDatas,
        3 => Pred::Name(gen::name(c)),
        4 => Pred::HasAttr,
        5 => Pred::TextHas(*pick(&['a', 'e', '<', ' '])),
        6 => Pred::Elements,
        7 => Pred::None,
        8 => Pred::All,
        _ => Pred::Hash(draw(1000) as u64),
    })
}
impl Pred {
    pub fn model(&self, m: &M) -> bool {
        match self {
            Pred::None => false,
            Pred::All => true,
            Pred::Elements => m.is_elem(),
            Pred::Texts => m.is_text(),
            Pred::Comments => matches!(m, M::C(_)),
            Pred::CDatas => matches!(m, M::D(_)),
            Pred::Name(n) => matches!(m, M::E(e) if e.name == *n),
            Pred::HasAttr => matches!(m, M::E(e) if !e.attrs.is_empty()),
            Pred::TextHas(c) => m.text().contains(*c),
            Pred::Hash(s) => (h(m) ^ s.wrapping_mul(0x9E37_79B9_7F4A_7C15)).count_ones() % 2 == 0,
        }
    }
    pub fn real(&self, n: &dyn Node) -> bool {
        match self {
            Pred::None => false,
            Pred::All => true,
            Pred::Elements => n.is_element(),
            Pred::Texts => n.is_text(),
            Pred::Comments => n.is_comment(),
            Pred::CDatas => n.is_cdata(),
            Pred::Name(x) => n.is_element() && n.as_element().is_ok_and(|e| e.name() == *x),
            Pred::HasAttr => n.is_element() && n.as_element().is_ok_and(|e| !e.attributes().is_empty()),
            Pred::TextHas(c) => n.text().contains(*c),
            Pred::Hash(_) => self.model(&extract_node(n)),
        }
    }
}

thread_local! {
    static NESTED: Cell<u32> = const { Cell::new(0) };
}
/// what a re-entrant callback does with the library
pub fn reenter() {
    cb(|| {
        count("reentered");
        match draw(5) {
            0 => {
                let d = lib(|| kiss_xml::parse_str("<r k=\"1\"><a>x &amp; y</a><b/> z</r>"));
                match d {
                    Ok(d) => {
                        let s = lib(|| d.to_string_with_indent(" "));
                        check(s == "<r k=\"1\"><a>x &amp; y</a><b/> z</r>\n", "nested", || {
                            format!("a document handled inside a callback came out as {s:?}")
                        });
                    }
                    Err(e) => fail("nested", format!("a document parsed inside a callback was refused: {e}")),
                }
            }
            1 => {
                let r = lib(|| kiss_xml::parse_str("<r><a></r>"));
                check(r.is_err(), "nested", || "a broken document parsed inside a callback was accepted".into());
            }
            2 => {
                // every call that takes a callback, on a tree of its own
                let mut e = lib(|| {
                    let mut e = Element::new_from_name("q").unwrap();
                    e.append(Text::new("a"));
                    e.append(Comment::new("c").unwrap());
                    e.append(Text::new("b"));
                    let mut f = Element::new_from_name("f").unwrap();
                    f.append(Element::new_with_text("f", "x").unwrap());
                    f.append(Comment::new("d").unwrap());
                    e.append(f);
                    e.append(Element::new_from_name("g").unwrap());
                    e
                });
                // and once more inside it
                let again = || {
                    if NESTED.with(|n| n.get()) < 2 && draw(8) == 7 {
                        struct Out;
                        impl Drop for Out {
                            fn drop(&mut self) {
                                NESTED.with(|n| n.set(n.get() - 1));
                            }
                        }
                        NESTED.with(|n| n.set(n.get() + 1));
                        let _out = Out;
                        reenter();
                    }
                };
                let (what, want) = *pick(&[("remove_by", 1), ("remove_all", 2), ("remove_elements", 1), ("remove_all_elements", 2), ("remove_elements_by_name", 1), ("search", 2), ("search_elements", 2), ("search_text", 2), ("search_comments", 2)]);
                let com = |n: &Box<dyn Node>| {
                    cb(again);
                    n.is_comment()
                };
                let elem = |x: &Element| {
                    cb(again);
                    x.name() == "f"
                };
                let n = lib(|| match what {
                    "remove_by" => e.remove_by(&com),
                    "remove_all" => e.remove_all(&com),
                    "remove_elements" => e.remove_elements(elem),
                    "remove_all_elements" => e.remove_all_elements(|x| elem(x)) + 1,
                    "remove_elements_by_name" => e.remove_elements_by_name("f"),
                    "search" => e.search(|n| com(n)).count(),
                    "search_elements" => e.search_elements(|x| elem(x)).count(),
                    "search_text" => {
                        e.search_text(|t| {
                            cb(again);
                            t.content != "x"
                        })
                        .count()
                    }
                    _ => {
                        e.search_comments(|_| {
                            cb(again);
                            true
                        })
                        .count()
                    }
                });
                check(n == want, "nested", || format!("{what} inside a callback gave {n}, not {want}"));
            }
            3 => {
                let (a, b) = lib(|| (kiss_xml::escape("<&>\"'"), kiss_xml::unescape("&lt;&amp;&gt;")));
                check(a == "&lt;&amp;&gt;&quot;&apos;" && b == "<&>", "nested", || format!("escaping inside a callback gave {a:?}, {b:?}"));
            }
            _ => {
                let ok = lib(|| {
                    let mut e = Element::new_from_name("q").unwrap();
                    e.set_attr("k", "v").is_ok() && e.set_attr("k k", "v").is_err() && e.to_string() == "<q k=\"v\"/>"
                });
                check(ok, "nested", || "attribute edits inside a callback went wrong".into());
            }
        }
    })
}

/// how the callbacks of one removal behave
#[derive(Default)]
pub struct CallPlan {
    pub reenter: bool,
    /// answer by a fresh coin at every call instead of by the predicate
    pub coin: bool,
    /// panic at this call
    pub panic_at: Option<u32>,
    pub calls: Cell<u32>,
    /// address of every node below the element -> its number in document order
    pub map: HashMap<usize, usize>,
    /// numbers of the nodes accepted for removal
    pub accepted: RefCell<BTreeSet<usize>>,
    /// the predicate was shown a node that is not one of the tree's
    pub strange: Cell<bool>,
}
impl CallPlan {
    pub fn decide(&self, p: &Pred, n: &dyn Node) -> bool {
        cb(|| {
            crate::sched::point(1);
            let k = self.calls.get();
            self.calls.set(k + 1);
            if self.panic_at == Some(k) {
                count("fault:predicate_panic");
                note(|| format!("  predicate panics at call {k}"));
                inject_panic();
            }
            let r = if self.coin { draw(3) == 2 } else { lib(|| p.real(n)) };
            if self.reenter && draw(4) == 3 {
                let before = extract_node(n);
                reenter();
                // and again, on the node itself
                let same = extract_node(n) == before;
                check(same, "nested", || "a node changed while a predicate looked at it".into());
            }
            if r {
                let _p = pause();
                match self.map.get(&(n as *const dyn Node as *const () as usize)) {
                    Some(id) => {
                        self.accepted.borrow_mut().insert(*id);
                    }
                    None => self.strange.set(true),
                }
            }
            r
        })
    }
}
/// numbers all nodes below the element in document order
pub fn number(e: &Element) -> HashMap<usize, usize> {
    fn go(e: &Element, k: &mut usize, out: &mut HashMap<usize, usize>) {
        for n in e.children() {
            let p: &dyn Node = &**n;
            out.insert(p as *const dyn Node as *const () as usize, *k);
            *k += 1;
            if n.is_element() {
                go(n.as_element().expect("element"), k, out);
            }
        }
    }
    let _p = pause();
    let mut out = HashMap::new();
    go(e, &mut 0, &mut out);
    out
}
/// removes the nodes with the given numbers; k is the number of the next node
pub fn remove_numbered(e: &mut ME, k: &mut usize, gone: &BTreeSet<usize>) {
    let mut out = vec![];
    for mut kid in e.kids.drain(..) {
        let id = *k;
        *k += 1;
        if let M::E(c) = &mut kid {
            remove_numbered(c, k, gone);
        }
        if !gone.contains(&id) {
            out.push(kid);
        }
    }
    e.kids = out;
}
/// is `got` the tree `e` without some of the nodes in `may`?
pub fn without_some(e: &ME, k: usize, got: &ME, may: &BTreeSet<usize>) -> bool {
    if e.name != got.name || e.prefix != got.prefix || e.attrs != got.attrs {
        return false;
    }
    fn rest(kids: &[M], k: usize, got: &[M], may: &BTreeSet<usize>) -> bool {
        let Some(x) = kids.first() else { return got.is_empty() };
        let next = k + x.size();
        if let Some(y) = got.first() {
            let same = match (x, y) {
                (M::E(a), M::E(b)) => without_some(a, k + 1, b, may),
                _ => x == y,
            };
            if same && rest(&kids[1..], next, &got[1..], may) {
                return true;
            }
        }
        may.contains(&k) && rest(&kids[1..], next, got, may)
    }
    rest(&e.kids, k, &got.kids, may)
}

// ------------------------------------------------------------ navigation

/// the child element at child index i, reached in one of several ways
fn nav<'a>(e: &'a mut Element, m: &ME, i: usize) -> &'a mut Element {
    let want = m.kids[i].elem();
    let rank = |f: &dyn Fn(&ME) -> bool| m.kids[..i].iter().filter(|k| matches!(k, M::E(x) if f(x))).count();
    match draw(6) {
        1 => {
            let n = rank(&|_| true);
            e.child_elements_mut().nth(n).expect("child element")
        }
        2 => {
            let n = rank(&|x| x.name == want.name);
            e.elements_by_name_mut(want.name.as_str()).nth(n).expect("child element by name")
        }
        3 => {
            let n = rank(&|x| x.prefix == want.prefix);
            e.elements_by_namespace_prefix_mut(want.prefix.as_deref()).nth(n).expect("child element by prefix")
        }
        4 if rank(&|x| x.name == want.name) == 0 => {
            e.first_element_by_name_mut(want.name.as_str()).expect("first child element by name")
        }
        _ => e.children_mut().nth(i).expect("child").as_element_mut().expect("element"),
    }
}
pub fn at<'a>(root: &'a mut Element, m: &ME, path: &[usize]) -> &'a mut Element {
    lib(|| {
        let mut e = root;
        let mut me = m;
        for i in path {
            e = nav(e, me, *i);
            me = me.kids[*i].elem();
        }
        e
    })
}
pub fn at_ref<'a>(root: &'a Element, path: &[usize]) -> &'a Element {
    lib(|| {
        let mut e = root;
        for i in path {
            e = e.children().nth(*i).expect("child").as_element().expect("element");
        }
        e
    })
}
/// prefixes with a declaration in scope at the path
pub fn bound_at(root: &ME, path: &[usize]) -> Vec<String> {
    let mut out = BTreeSet::new();
    let mut e = root;
    let mut add = |e: &ME| {
        for k in e.attrs.keys() {
            if let Some(p) = k.strip_prefix("xmlns:") {
                out.insert(p.to_string());
            }
        }
    };
    add(e);
    for i in path {
        e = e.kids[*i].elem();
        add(e);
    }
    out.into_iter().collect()
}
/// prefixes used in the subtree that it does not declare itself
pub fn free_prefixes(e: &ME) -> BTreeSet<String> {
    let mut out = BTreeSet::new();
    if let Some(p) = &e.prefix {
        out.insert(p.clone());
    }
    for k in e.attrs.keys() {
        if let Some((p, _)) = k.split_once(':') {
            if p != "xmlns" && p != "xml" {
                out.insert(p.to_string());
            }
        }
    }
    for k in &e.kids {
        if let M::E(c) = k {
            out.extend(free_prefixes(c));
        }
    }
    for k in e.attrs.keys() {
        if let Some(p) = k.strip_prefix("xmlns:") {
            out.remove(p);
        }
    }
    out
}
pub fn all_bound(root: &ME) -> bool {
    free_prefixes(root).is_empty()
}

// ------------------------------------------------------------ building subtrees in various ways

/// builds a real element for the model, by one of the many ways of the API
pub fn build(e: &ME) -> Element {
    span(|| {
        let how = draw(4);
        let stepwise = how == 1 && !has_blank(e);
        let r = if how == 2 {
            at_once(e)
        } else if stepwise {
            lib(|| {
                let mut x = shell(e);
                for k in &e.kids {
                    match k {
                        M::E(c) => {
                            let c = build(c);
                            if chance(1, 2) {
                                x.append(c)
                            } else {
                                x.append_boxed(c.boxed())
                            }
                        }
                        k => {
                            let b = build_node(k);
                            x.append_boxed(b)
                        }
                    }
                }
                x
            })
        } else {
            let kids: Vec<Box<dyn Node>> = e.kids.iter().map(real_node).collect();
            lib(|| {
                let mut x = shell(e);
                if !kids.is_empty() || chance(1, 2) {
                    x.append_all(kids);
                }
                x
            })
        };
        r
    })
}
/// the element, children included, from one call of a constructor
fn at_once(e: &ME) -> Element {
    let name = e.name.as_str();
    let attrs: HashMap<String, String> = e.attrs.clone().into_iter().collect();
    let plain = e.prefix.is_none();
    let text = match e.kids.first() {
        Some(M::T(t)) if !blank(t) => Some(t.clone()),
        _ => None,
    };
    let only_text = text.is_some() && e.kids.len() == 1;
    let how = draw(3);
    let r = if plain && only_text && how > 0 {
        let t = text.unwrap();
        note(|| "built with its text".into());
        lib(|| if attrs.is_empty() && how == 1 { Element::new_with_text(name, t) } else { Element::new_with_attributes_and_text(name, attrs, t) })
    } else if plain && how == 1 {
        let kids: Vec<Box<dyn Node>> = e.kids.iter().map(real_node).collect();
        lib(|| {
            if kids.is_empty() {
                Element::new_with_attributes(name, attrs)
            } else if attrs.is_empty() {
                Element::new_with_children(name, kids)
            } else {
                Element::new_with_attributes_and_children(name, attrs, kids)
            }
        })
    } else {
        // the general constructor; the first text as text or as a child
        let skip = if text.is_some() && how == 2 { 1 } else { 0 };
        let text = if skip == 1 { text } else { None };
        let rest: Vec<Box<dyn Node>> = e.kids[skip..].iter().map(real_node).collect();
        let key = match &e.prefix {
            None => "xmlns".to_string(),
            Some(p) => format!("xmlns:{p}"),
        };
        let mut attrs = attrs;
        let ns = if chance(1, 2) {
            attrs.get(&key).cloned().inspect(|_| {
                // with the argument given, what the attribute says does not count
                if chance(1, 2) {
                    attrs.remove(&key);
                } else {
                    attrs.insert(key.clone(), "urn:overridden".into());
                }
            })
        } else {
            None
        };
        let (a, k) = (if attrs.is_empty() { None } else { Some(attrs) }, if rest.is_empty() { None } else { Some(rest) });
        lib(|| Element::new(name, text, a, ns, e.prefix.clone(), k))
    };
    match r {
        Ok(x) => x,
        Err(x) => fail("rejected", format!("the library rejected the valid element <{}>: {x}", e.tag())),
    }
}
fn has_blank(e: &ME) -> bool {
    e.kids.iter().any(|k| matches!(k, M::T(t) if blank(t)))
}
/// the element without its children
fn shell(e: &ME) -> Element {
    let attrs: std::collections::HashMap<String, String> =
        e.attrs.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    let key = match &e.prefix {
        None => "xmlns".to_string(),
        Some(p) => format!("xmlns:{p}"),
    };
    let r = match draw(4) {
        // the namespace as an argument instead of an attribute
        1 if e.attrs.contains_key(&key) => {
            let mut a = attrs;
            let ns = a.remove(&key);
            Element::new(e.name.as_str(), None, Some(a), ns, e.prefix.clone(), None)
        }
        2 if e.prefix.is_none() => Element::new_from_name(&e.name).map(|mut x| {
            for (k, v) in e.attrs.iter().rev() {
                if x.set_attr(k.as_str(), v.as_str()).is_err() {
                    fail("rejected", format!("set_attr rejected the valid attribute {k:?}"));
                }
            }
            x
        }),
        3 if e.prefix.is_some() => {
            Element::new(e.name.as_str(), None, Option::<std::collections::HashMap<String, String>>::None, None, e.prefix.clone(), None)
                .map(|mut x| {
                    for (k, v) in &e.attrs {
                        if x.set_attr(k.as_str(), v.as_str()).is_err() {
                            fail("rejected", format!("set_attr rejected the valid attribute {k:?}"));
                        }
                    }
                    x
                })
        }
        _ => Element::new(e.name.as_str(), None, Some(attrs), None, e.prefix.clone(), None),
    };
    match r {
        Ok(x) => x,
        Err(x) => fail("rejected", format!("the library rejected the valid element <{}>: {x}", e.tag())),
    }
}

// ------------------------------------------------------------ operations

pub const KINDS: u32 = 24;

fn wants(o: &Opts, k: u32) -> bool {
    o.mask >> k & 1 == 1
}

/// one random operation on the tree, checked against the model
pub fn step(t: &mut Tree, c: &Cfg, o: &Opts) {
    span(|| {
        let mut k = draw(KINDS);
        for _ in 0..KINDS {
            if wants(o, k) {
                break;
            }
            k = (k + 1) % KINDS;
        }
        let path = crate::gen::spot(&t.m);
        apply(t, c, o, k, &path);
        count("ops");
    })
}

fn new_node(c: &Cfg, o: &Opts, t: &Tree, path: &[usize]) -> M {
    let bound = bound_at(&t.m, path);
    gen::node(c, &bound, o.blank)
}
fn real_node(m: &M) -> Box<dyn Node> {
    match m {
        M::E(e) => {
            let r = build(e);
            lib(|| r.boxed())
        }
        m => build_node(m),
    }
}
macro_rules! typed {
    ($m:expr, $x:ident => $body:expr) => {
        match $m {
            M::E(e) => {
                let $x = build(e);
                lib(|| $body)
            }
            M::T(s) => {
                let $x = lib(|| Text::new(s.as_str()));
                lib(|| $body)
            }
            M::C(s) => {
                let $x = lib(|| Comment::new(s.as_str()).expect("comment accepted"));
                lib(|| $body)
            }
            M::D(s) => {
                let $x = lib(|| CData::new(s.as_str()).expect("cdata accepted"));
                lib(|| $body)
            }
        }
    };
}

fn want_count(what: &str, want: usize, got: usize) {
    ev(what, got as u64);
    check(want == got, "count", || format!("{what} returned {got} instead of {want}"));
}

pub fn apply(t: &mut Tree, c: &Cfg, o: &Opts, k: u32, path: &[usize]) {
    let n = t.m.at(path).kids.len();
    ev("op", k as u64 | (h(&path.to_vec()) << 8));
    match k {
        // ---- attach
        0 | 1 => {
            let m = new_node(c, o, t, path);
            note(|| format!("{path:?}.append({})", show(&m)));
            if k == 0 {
                let e: &mut Element = at(&mut t.real, &t.m, path);
                typed!(&m, x => e.append(x));
            } else {
                let b = real_node(&m);
                let e = at(&mut t.real, &t.m, path);
                lib(|| e.append_boxed(b));
            }
            let e = t.m.at_mut(path);
            e.kids.push(m);
            e.cleanup();
        }
        2 => {
            let many = chance(1, 12) && t.m.size() < 400;
            let k = if many { range(5, 60) } else { draw(4) };
            let ms: Vec<M> = (0..k).map(|_| new_node(c, o, t, path)).collect();
            note(|| format!("{path:?}.append_all({:?})", ms.iter().map(show).collect::<Vec<_>>()));
            let bs: Vec<Box<dyn Node>> = ms.iter().map(real_node).collect();
            let e = at(&mut t.real, &t.m, path);
            lib(|| e.append_all(bs));
            let e = t.m.at_mut(path);
            e.kids.extend(ms);
            e.cleanup();
            if many && chance(1, 2) {
                compare(t, "after appending a long list");
                let kind = draw(4);
                removal(t, c, o, kind, path, None);
            }
        }
        3 | 4 => {
            let i = draw(n as u32 + 1) as usize;
            let m = new_node(c, o, t, path);
            note(|| format!("{path:?}.insert({i}, {})", show(&m)));
            let e: &mut Element = at(&mut t.real, &t.m, path);
            let r = typed!(&m, x => e.insert(i, x));
            check(r.is_ok(), "rejected", || format!("insert at {i} of {n} was rejected: {r:?}"));
            let e = t.m.at_mut(path);
            e.kids.insert(i, m);
            e.cleanup();
        }
        // ---- remove
        5 => {
            if n == 0 {
                return;
            }
            let i = draw(n as u32) as usize;
            note(|| format!("{path:?}.remove({i})"));
            let e = at(&mut t.real, &t.m, path);
            let was = chance(1, 6).then(|| lib(|| clone_node(e.children().nth(i).expect("child"))));
            let r = lib(|| e.remove(i));
            let want = t.m.at_mut(path).kids.remove(i);
            match r {
                Ok(b) => {
                    let got = extract_node(&*b);
                    if let Some(d) = diff_node(&want, &got) {
                        fail("wrong-node", format!("remove({i}) returned another node: {d}"));
                    }
                    if let Some(was) = was {
                        let same = lib(|| node_eq(&was, &b));
                        check(same, "wrong-node", || format!("remove({i}) returned a node that is not equal to a copy taken before: {}", short(&match &want { M::E(x) => plain(x), other => format!("{other:?}") })));
                    }
                }
                Err(x) => fail("rejected", format!("remove({i}) of {n} children was rejected: {x}")),
            }
        }
        6 => {
            let es = t.m.at(path).elems();
            if es.is_empty() {
                return;
            }
            let j = draw(es.len() as u32) as usize;
            note(|| format!("{path:?}.remove_element({j})"));
            let e = at(&mut t.real, &t.m, path);
            let was = chance(1, 6).then(|| lib(|| e.child_elements().nth(j).expect("child element").clone()));
            let r = lib(|| e.remove_element(j));
            let want = t.m.at_mut(path).kids.remove(es[j]);
            match r {
                Ok(b) => {
                    let got = M::E(extract_elem(&b));
                    if let Some(d) = diff_node(&want, &got) {
                        fail("wrong-node", format!("remove_element({j}) returned another element: {d}"));
                    }
                    if let Some(was) = was {
                        let same = lib(|| was == b);
                        check(same, "wrong-node", || format!("remove_element({j}) returned an element that is not equal to a copy taken before: {}", short(&match &want { M::E(x) => plain(x), other => format!("{other:?}") })));
                    }
                }
                Err(x) => fail("rejected", format!("remove_element({j}) of {} was rejected: {x}", es.len())),
            }
        }
        7..=10 => removal(t, c, o, k - 7, path, None),
        11 => {
            let name = gen::name(c);
            note(|| format!("{path:?}.remove_elements_by_name({name:?})"));
            let e = at(&mut t.real, &t.m, path);
            let got = lib(|| e.remove_elements_by_name(name.as_str()));
            let want = m_remove_by(t.m.at_mut(path), &|m| matches!(m, M::E(x) if x.name == name));
            want_count("remove_elements_by_name", want, got);
        }
        12 => {
            if chance(1, 2) && n > 0 {
                note(|| format!("{path:?}.clear_children()"));
                let e = at(&mut t.real, &t.m, path);
                lib(|| e.clear_children());
                t.m.at_mut(path).kids.clear();
            }
        }
        13 => {
            let s = if o.blank && chance(1, 8) { gen::ws() } else { gen::text(c) };
            note(|| format!("{path:?}.set_text({s:?})"));
            let e = at(&mut t.real, &t.m, path);
            lib(|| e.set_text(s.as_str()));
            let e = t.m.at_mut(path);
            e.kids = vec![M::T(s)];
            e.cleanup();
        }
        // ---- attributes
        14 | 15 => {
            let bound = bound_at(&t.m, path);
            let (a, v) = if o.ns_edits && chance(1, 2) {
                let key = if chance(1, 2) || c.prefixes.is_empty() { "xmlns".to_string() } else { format!("xmlns:{}", pick(&c.prefixes)) };
                let v = if key == "xmlns" { gen::default_uri(c) } else { pick(&c.uris).clone() };
                (key, v)
            } else {
                (gen::attr_name(c, &bound), gen::attr_value(c))
            };
            note(|| format!("{path:?}.set_attr({a:?}, {v:?})"));
            let e = at(&mut t.real, &t.m, path);
            let r = lib(|| e.set_attr(a.as_str(), v.as_str()));
            check(r.is_ok(), "rejected", || format!("set_attr({a:?}) was rejected"));
            t.m.at_mut(path).attrs.insert(a, v);
        }
        16 => {
            let e = t.m.at(path);
            let keys: Vec<String> =
                e.attrs.keys().filter(|k| o.ns_edits || !k.starts_with("xmlns")).cloned().collect();
            let a = if keys.is_empty() || chance(1, 4) { pick(&c.attr_names).clone() } else { pick(&keys).clone() };
            note(|| format!("{path:?}.remove_attr({a:?})"));
            let e = at(&mut t.real, &t.m, path);
            let got = lib(|| e.remove_attr(a.as_str()));
            let want = t.m.at_mut(path).attrs.remove(&a);
            check(want == got, "wrong-value", || format!("remove_attr({a:?}) returned {got:?} instead of {want:?}"));
        }
        17 => {
            let e = t.m.at(path);
            if chance(1, 2) && (o.ns_edits || !e.attrs.keys().any(|k| k.starts_with("xmlns"))) {
                note(|| format!("{path:?}.clear_attributes()"));
                let e = at(&mut t.real, &t.m, path);
                lib(|| e.clear_attributes());
                t.m.at_mut(path).attrs.clear();
            }
        }
        // ---- content of single nodes
        18 | 19 => {
            let idx: Vec<usize> = (0..n).filter(|i| !t.m.at(path).kids[*i].is_elem()).collect();
            if idx.is_empty() {
                return;
            }
            let i = *pick(&idx);
            let replace = chance(1, 5);
            let old = t.m.at(path).kids[i].clone();
            let new = match (&old, replace) {
                (_, true) => loop {
                    let x = gen::node(c, &[], false);
                    if !x.is_elem() {
                        break x;
                    }
                    if exhausted() || chance(1, 4) {
                        break M::C("r".into());
                    }
                },
                (M::T(_), _) => M::T(gen::text(c)),
                (M::C(_), _) => M::C(gen::comment(c)),
                (M::D(_), _) => M::D(gen::cdata(c)),
                _ => unreachable!(),
            };
            note(|| format!("{path:?}[{i}] := {}", show(&new)));
            let b = if replace { Some(build_node(&new)) } else { None };
            let e = at(&mut t.real, &t.m, path);
            let ok = lib(|| {
                let n = e.children_mut().nth(i).expect("child");
                match b {
                    Some(b) => {
                        *n = b;
                        true
                    }
                    None => match &new {
                        M::T(s) => {
                            n.as_text_mut().expect("text").content = s.clone();
                            true
                        }
                        M::C(s) => n.as_comment_mut().expect("comment").set_content(s.as_str()).is_ok(),
                        M::D(s) => n.as_cdata_mut().expect("cdata").set_text(s.as_str()).is_ok(),
                        _ => unreachable!(),
                    },
                }
            });
            check(ok, "rejected", || format!("setting the content to {} was rejected", show(&new)));
            t.m.at_mut(path).kids[i] = new;
        }
        // ---- move or copy a subtree
        20 | 21 => {
            let from: Vec<Vec<usize>> = t.m.paths().into_iter().filter(|p| !p.is_empty()).collect();
            if from.is_empty() {
                return;
            }
            let f = pick(&from).clone();
            let copy = k == 21 && t.m.size() < 200;
            if !copy && path.starts_with(&f) {
                return;
            }
            let sub = t.m.at(&f).clone();
            let bound: BTreeSet<String> = bound_at(&t.m, path).into_iter().collect();
            if !o.ns_edits && !free_prefixes(&sub).is_subset(&bound) {
                return;
            }
            if copy && sub.size() + t.m.size() > 300 {
                return;
            }
            note(|| format!("{} {f:?} to the end of {path:?}", if copy { "copy" } else { "move" }));
            let (pf, i) = (f[..f.len() - 1].to_vec(), f[f.len() - 1]);
            let node: Box<dyn Node> = if copy {
                let e = at_ref(&t.real, &pf);
                lib(|| {
                    let n = e.children().nth(i).expect("child");
                    if sub.kids.len() % 2 == 0 {
                        clone_node(n)
                    } else {
                        n.as_element().expect("element").clone().boxed()
                    }
                })
            } else {
                let e = at(&mut t.real, &t.m, &pf);
                let j = t.m.at(&pf).elems().iter().position(|x| *x == i).unwrap();
                let r = if chance(1, 3) { lib(|| e.remove_element(j).map(|e| e.boxed())) } else { lib(|| e.remove(i)) };
                match r {
                    Ok(n) => n,
                    Err(x) => fail("rejected", format!("remove({i}) was rejected: {x}")),
                }
            };
            let mut to = path.to_vec();
            if !copy {
                t.m.at_mut(&pf).kids.remove(i);
                // the destination may have shifted
                if to.len() > pf.len() && to.starts_with(&pf) && to[pf.len()] > i {
                    to[pf.len()] -= 1;
                }
            }
            attach(t, &to, node, sub);
        }
        // ---- mutable iteration
        22 => {
            let name = gen::name(c);
            let a = pick(&c.attr_names).clone();
            let v = gen::attr_value(c);
            let limit = if chance(1, 2) { usize::MAX } else { draw(3) as usize };
            let how = draw(3);
            note(|| format!("{path:?}: set {a:?} on the first {limit} of {}", ["children named", "child elements", "children without prefix"][how as usize]));
            let e = at(&mut t.real, &t.m, path);
            let done = lib(|| {
                let mut k = 0;
                let it: Box<dyn Iterator<Item = &mut Element>> = match how {
                    0 => Box::new(e.elements_by_name_mut(name.as_str())),
                    1 => Box::new(e.child_elements_mut()),
                    _ => Box::new(e.elements_by_namespace_prefix_mut(None)),
                };
                for x in it.take(limit) {
                    let _ = x.set_attr(a.as_str(), v.as_str());
                    k += 1;
                }
                k
            });
            let mut want = 0;
            for kid in t.m.at_mut(path).kids.iter_mut() {
                if let M::E(x) = kid {
                    let hit = match how {
                        0 => x.name == name,
                        1 => true,
                        _ => x.prefix.is_none(),
                    };
                    if hit && want < limit {
                        x.attrs.insert(a.clone(), v.clone());
                        want += 1;
                    }
                }
            }
            want_count("mutable iteration", want, done);
        }
        // ---- rejected operations
        _ => {
            if o.risky {
                risky(t, path)
            }
            if o.errors {
                rejected(t, c, path)
            }
        }
    }
}

/// attaches a subtree in one of the ways there are
pub fn attach(t: &mut Tree, to: &[usize], node: Box<dyn Node>, sub: ME) {
    let n = t.m.at(to).kids.len();
    let how = draw(4);
    let i = if how == 1 { draw(n as u32 + 1) as usize } else { n };
    // others that come with it
    let (before, after) = if how == 2 && chance(1, 2) { (company(), company()) } else { (vec![], vec![]) };
    note(|| format!("(in way {how}, between {} and {} others)", before.len(), after.len()));
    let (b, a): (Vec<_>, Vec<_>) = (before.iter().map(real_node).collect(), after.iter().map(real_node).collect());
    let e = at(&mut t.real, &t.m, to);
    lib(|| {
        let mut node = node;
        match how {
            1 => {
                let x = std::mem::take(node.as_element_mut().expect("element"));
                let ok = e.insert(i, x).is_ok();
                check(ok, "rejected", || format!("insert at {i} of {n} was rejected"));
            }
            2 => e.append_all(b.into_iter().chain([node]).chain(a).collect()),
            3 => e.append(std::mem::take(node.as_element_mut().expect("element"))),
            _ => e.append_boxed(node),
        }
    });
    let e = t.m.at_mut(to);
    e.kids.insert(i, M::E(sub));
    e.kids.splice(i..i, before);
    e.kids.extend(after);
    e.cleanup();
}
/// a few plain nodes
fn company() -> Vec<M> {
    (0..draw(3))
        .map(|_| match draw(4) {
            0 => M::C("c".into()),
            1 => M::T("t".into()),
            _ => M::E(ME { name: "x".into(), ..Default::default() }),
        })
        .collect()
}

const REMOVALS: [&str; 4] = ["remove_by", "remove_all", "remove_elements", "remove_all_elements"];

/// a removal by predicate; with panic_at the predicate panics at that call.
pub fn removal(t: &mut Tree, c: &Cfg, o: &Opts, kind: u32, path: &[usize], panic_at: Option<u32>) {
    let p = pred(c);
    let name = REMOVALS[kind as usize];
    let mut pl = CallPlan { reenter: o.reenter && chance(1, 2), coin: o.reenter && chance(1, 4), panic_at, ..Default::default() };
    note(|| {
        let q = if pl.coin { "a coin at each call".into() } else { format!("{p:?}") };
        format!("{path:?}.{name}({q})")
    });
    let e = at(&mut t.real, &t.m, path);
    pl.map = number(e);
    let f = |n: &Box<dyn Node>| pl.decide(&p, &**n);
    let g = |x: &Element| pl.decide(&p, x);
    let got = lib_catch(|| match kind {
        0 => e.remove_by(&f),
        1 => e.remove_all(&f),
        2 => e.remove_elements(g),
        _ => e.remove_all_elements(g),
    });
    let acc = pl.accepted.borrow().clone();
    let Some(got) = got else {
        // the predicate panicked: nothing is lost but what it accepted
        let now = extract_elem(at(&mut t.real, &t.m.clone(), &[]));
        let old = t.m.clone();
        let sub = {
            let e = at_ref(&t.real, path);
            extract_elem(e)
        };
        if pl.strange.get() {
            t.m = now;
            return;
        }
        let want = old.at(path);
        if want.size() < 120 && !without_some(want, 0, &sub, &acc) {
            let d = diff_elem(want, &sub, "/").unwrap_or_default();
            fail("lost", format!("{name} whose predicate panicked left something else than the old tree without nodes it had accepted ({} accepted): {d}", acc.len()));
        }
        *t.m.at_mut(path) = sub;
        compare(t, "the rest of the tree after a panic");
        return;
    };
    let m = t.m.at_mut(path);
    let want = if pl.coin {
        if pl.strange.get() {
            *m = extract_elem(at_ref(&t.real, path));
            return;
        }
        remove_numbered(m, &mut 0, &acc);
        acc.len()
    } else {
        match kind {
            0 => m_remove_by(m, &|m| p.model(m)),
            1 => m_remove_all(m, &|m| p.model(m)),
            2 => m_remove_by(m, &|m| m.is_elem() && p.model(m)),
            _ => m_remove_all(m, &|m| m.is_elem() && p.model(m)),
        }
    };
    want_count(name, want, got);
}

/// an operation the library may accept or refuse; what it accepted is in the tree
pub fn risky(t: &mut Tree, path: &[usize]) {
    count("risky_op");
    match draw(6) {
        0 | 1 => {
            let a = gen::risky_name();
            let e = at(&mut t.real, &t.m, path);
            let ok = lib(|| e.set_attr(a.as_str(), "v").is_ok());
            note(|| format!("{path:?}.set_attr({a:?}, \"v\") {}", if ok { "accepted" } else { "refused" }));
            if ok {
                t.m.at_mut(path).attrs.insert(a, "v".into());
            }
        }
        2 => {
            let a = gen::risky_name();
            let how = draw(3);
            let r = lib(|| match how {
                0 => Element::new_from_name(a.as_str()).ok(),
                1 => Element::new_with_text(a.as_str(), "t").ok(),
                _ => Element::new_with_children(a.as_str(), vec![Text::new("t").boxed()]).ok(),
            });
            note(|| format!("{path:?}.append(new element {a:?}) {}", if r.is_some() { "accepted" } else { "refused" }));
            if let Some(x) = r {
                let e = at(&mut t.real, &t.m, path);
                lib(|| e.append(x));
                let mut x = ME::new(&a);
                if how > 0 {
                    x.kids.push(M::T("t".into()));
                }
                let e = t.m.at_mut(path);
                e.kids.push(M::E(x));
                e.cleanup();
            }
        }
        3 => {
            let a = gen::risky_name();
            let attrs: HashMap<String, String> = [(a.clone(), "v".to_string())].into();
            let r = lib(|| Element::new_with_attributes("q", attrs).ok());
            note(|| format!("{path:?}.append(new element with attribute {a:?}) {}", if r.is_some() { "accepted" } else { "refused" }));
            if let Some(x) = r {
                let e = at(&mut t.real, &t.m, path);
                lib(|| e.append(x));
                let mut x = ME::new("q");
                x.attrs.insert(a, "v".into());
                let e = t.m.at_mut(path);
                e.kids.push(M::E(x));
                e.cleanup();
            }
        }
        k => {
            let s = gen::risky_content();
            let n: Option<(Box<dyn Node>, M)> = lib(|| {
                if k == 4 {
                    Comment::new(s.as_str()).ok().map(|c| (c.boxed(), M::C(s.clone())))
                } else {
                    CData::new(s.as_str()).ok().map(|c| (c.boxed(), M::D(s.clone())))
                }
            });
            note(|| format!("{path:?}.append({} {s:?}) {}", if k == 4 { "comment" } else { "cdata" }, if n.is_some() { "accepted" } else { "refused" }));
            if let Some((b, m)) = n {
                let e = at(&mut t.real, &t.m, path);
                lib(|| e.append_boxed(b));
                let e = t.m.at_mut(path);
                e.kids.push(m);
                e.cleanup();
            }
        }
    }
}

/// an operation that must return an error and change nothing
pub fn rejected(t: &mut Tree, c: &Cfg, path: &[usize]) {
    let n = t.m.at(path).kids.len();
    count("fault:rejected_op");
    let huge = [n, n + 1, n + 1000, usize::MAX, usize::MAX / 2 + 1];
    let must = |ok: bool, what: &str| check(ok, "not-rejected", || format!("{what} was not rejected"));
    // the error names the index, and the range there is (with or without its end)
    let index = |r: Option<kiss_xml::errors::IndexOutOfBounds>, i: usize, valid: usize, what: &str| match r {
        None => fail("not-rejected", format!("{what} was not rejected")),
        Some(e) => {
            let ok = e.index == i as isize && e.bounds.is_none_or(|(a, b)| a == 0 && (b == valid as isize || b == valid as isize - 1));
            check(ok, "wrong-range", || format!("{what}: the error for index {i} of {valid} valid ones says {e:?}"));
            let s = lib(|| e.to_string());
            check(s.contains(&e.index.to_string()), "wrong-range", || format!("{what}: the error for index {i} says {s:?}"));
        }
    };
    match draw(9) {
        0 => {
            let i = (*pick(&huge)).max(n + 1);
            note(|| format!("{path:?}.insert({i}, …) out of range"));
            let m = gen::node(c, &[], false);
            let b: &mut Element = at(&mut t.real, &t.m, path);
            let r = typed!(&m, x => b.insert(i, x));
            index(r.err(), i, n + 1, "insert out of range");
        }
        1 => {
            let i = *pick(&huge);
            note(|| format!("{path:?}.remove({i}) out of range"));
            let e = at(&mut t.real, &t.m, path);
            let r = lib(|| e.remove(i));
            index(r.err(), i, n, "remove out of range");
        }
        2 => {
            let k = t.m.at(path).elems().len();
            let i = *pick(&[k, k + 1, usize::MAX]);
            note(|| format!("{path:?}.remove_element({i}) out of range"));
            let e = at(&mut t.real, &t.m, path);
            let r = lib(|| e.remove_element(i));
            index(r.err(), i, k, "remove_element out of range");
        }
        3 | 4 => {
            let mut a = pick(gen::BAD_NAMES).to_string();
            let m = t.m.at(path);
            if chance(1, 3) && !m.attrs.is_empty() {
                // nearly the name of one that is there
                let ks: Vec<&String> = m.attrs.keys().collect();
                let k = *pick(&ks);
                a = match draw(4) {
                    0 => format!("{k}{}", pick(&[" ", "=", "\n", "'", "/", "\u{d7}"])),
                    1 => format!("{}{k}", pick(&[" ", "-", "1", "<", "\t"])),
                    2 => format!("{k}=\"v\""),
                    _ => format!("{k} {k}"),
                };
            }
            note(|| format!("{path:?}.set_attr({a:?}, …)"));
            let e = at(&mut t.real, &t.m, path);
            let r = lib(|| e.set_attr(a.as_str(), "v"));
            must(r.is_err(), "set_attr with an invalid name");
        }
        5 | 6 => {
            let idx: Vec<usize> = (0..n).filter(|i| matches!(t.m.at(path).kids[*i], M::C(_) | M::D(_))).collect();
            if idx.is_empty() {
                return;
            }
            let i = *pick(&idx);
            let s = *pick(&["-->", "a --> b", "]]>", "x]]>y"]);
            let comment = matches!(t.m.at(path).kids[i], M::C(_));
            note(|| format!("{path:?}[{i}].set_content({s:?})"));
            let e = at(&mut t.real, &t.m, path);
            let r = lib(|| {
                let n = e.children_mut().nth(i).expect("child");
                if comment {
                    n.as_comment_mut().expect("comment").set_content(s).is_ok()
                } else {
                    n.as_cdata_mut().expect("cdata").set_text(s).is_ok()
                }
            });
            let bad = if comment { s.contains("-->") } else { s.contains("]]>") };
            if bad {
                must(!r, "invalid content");
            } else if r {
                t.m.at_mut(path).kids[i] = if comment { M::C(s.into()) } else { M::D(s.into()) };
            }
        }
        7 => {
            // casts to another kind
            if n == 0 {
                return;
            }
            let i = draw(n as u32) as usize;
            note(|| format!("{path:?}[{i}] cast to other kinds"));
            let want = t.m.at(path).kids[i].clone();
            let e = at(&mut t.real, &t.m, path);
            let oks = lib(|| {
                let n = e.children_mut().nth(i).expect("child");
                [n.as_element_mut().is_ok(), n.as_text_mut().is_ok(), n.as_comment_mut().is_ok(), n.as_cdata_mut().is_ok()]
            });
            let w = [want.is_elem(), want.is_text(), matches!(want, M::C(_)), matches!(want, M::D(_))];
            let e = at_ref(&t.real, path);
            let shared = lib(|| {
                let n = e.children().nth(i).expect("child");
                [n.as_element().is_ok(), n.as_text().is_ok(), n.as_comment().is_ok(), n.as_cdata().is_ok()]
            });
            check(shared == w, "not-rejected", || format!("shared casts of {} succeeded as {shared:?}", show(&want)));
            check(oks == w, "not-rejected", || format!("casts of {} succeeded as {oks:?}", show(&want)));
        }
        _ => {
            note(|| format!("{path:?}.first_element_by_name_mut(missing)"));
            let e = at(&mut t.real, &t.m, path);
            let r = lib(|| e.first_element_by_name_mut("no-such-name").is_err());
            must(r, "looking up a missing element");
        }
    }
}

pub fn m_remove_by(e: &mut ME, p: &dyn Fn(&M) -> bool) -> usize {
    let n = e.kids.len();
    e.kids.retain(|k| !p(k));
    n - e.kids.len()
}
pub fn m_remove_all(e: &mut ME, p: &dyn Fn(&M) -> bool) -> usize {
    let mut n = m_remove_by(e, p);
    for k in e.kids.iter_mut() {
        if let M::E(c) = k {
            n += m_remove_all(c, p);
        }
    }
    n
}

/// compares the whole tree with its model
pub fn compare(t: &Tree, what: &str) {
    let got = extract_elem(&t.real);
    ev("tree", h(&got));
    if let Some(d) = diff_elem(&t.m, &got, "/") {
        fail("differs", format!("{what}: {d}"));
    }
}
pub fn compare_ns(root: &Element, m: &ME, what: &str) {
    let want = namespaces(m);
    let got = reported_namespaces(root);
    if want != got {
        let names: Vec<String> = m.paths().iter().map(|p| m.at(p).tag()).collect();
        for i in 0..want.len().max(got.len()) {
            if want.get(i) != got.get(i) {
                fail(
                    "namespace",
                    format!(
                        "{what}: element {i} in document order (<{}>) reports namespace {:?} instead of {:?}",
                        names.get(i).cloned().unwrap_or_default(),
                        got.get(i),
                        want.get(i)
                    ),
                );
            }
        }
    }
    ev("ns", h(&got));
}

/// a fresh tree: built through the API or parsed
pub fn start(c: &Cfg) -> Tree {
    span(|| {
        let m = gen::root(c);
        let real = if chance(1, 2) {
            build(&m)
        } else {
            let d = MDoc { decl: None, dtds: vec![], root: m.clone() };
            let e = crate::enc::encode(&d, crate::enc::style());
            match lib(|| kiss_xml::parse_str(e.text.as_str())) {
                Ok(d) => lib(|| d.root_element().clone()),
                Err(x) => fail("refused", format!("a valid document was refused: {x}; {}", short(&e.text))),
            }
        };
        note(|| format!("start: {}", plain(&m)));
        ev("start", h(&m));
        Tree { real, m }
    })
}
/// compact XML-like rendering of a model, for traces
pub fn plain(m: &ME) -> String {
    let mut s = format!("<{}", m.tag());
    for (k, v) in &m.attrs {
        s.push_str(&format!(" {k}={v:?}"));
    }
    s.push('>');
    for k in &m.kids {
        match k {
            M::E(e) => s.push_str(&plain(e)),
            M::T(t) => s.push_str(&format!("{t:?}")),
            M::C(t) => s.push_str(&format!("(comment {t:?})")),
            M::D(t) => s.push_str(&format!("(cdata {t:?})")),
        }
    }
    s.push_str("</>");
    s
}

#[allow(dead_code)]
pub type Attrs = BTreeMap<String, String>;
