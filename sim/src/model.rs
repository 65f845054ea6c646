//! The reference model of a document: a plain ordered tree.
use crate::rt::*;
use kiss_xml::dom::*;
use std::collections::BTreeMap;

#[derive(Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum M {
    E(ME),
    T(String),
    C(String),
    D(String),
}

#[derive(Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord, Default)]
pub struct ME {
    pub name: String,
    pub prefix: Option<String>,
    pub attrs: BTreeMap<String, String>,
    pub kids: Vec<M>,
}

#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct MDoc {
    pub decl: Option<String>,
    pub dtds: Vec<String>,
    pub root: ME,
}

impl M {
    pub fn is_elem(&self) -> bool {
        matches!(self, M::E(_))
    }
    pub fn is_text(&self) -> bool {
        matches!(self, M::T(_))
    }
    /// what Node::text() reports
    pub fn text(&self) -> String {
        match self {
            M::E(e) => e.text(),
            M::T(s) | M::C(s) | M::D(s) => s.clone(),
        }
    }
    pub fn size(&self) -> usize {
        match self {
            M::E(e) => e.size(),
            _ => 1,
        }
    }
    pub fn elem(&self) -> &ME {
        match self {
            M::E(e) => e,
            _ => panic!("not an element"),
        }
    }
    pub fn elem_mut(&mut self) -> &mut ME {
        match self {
            M::E(e) => e,
            _ => panic!("not an element"),
        }
    }
}

impl ME {
    pub fn new(name: &str) -> ME {
        ME { name: name.into(), ..Default::default() }
    }
    pub fn tag(&self) -> String {
        match &self.prefix {
            None => self.name.clone(),
            Some(p) => format!("{p}:{}", self.name),
        }
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        for k in &self.kids {
            match k {
                M::E(e) => s.push_str(&e.text()),
                M::T(t) => s.push_str(t),
                _ => {}
            }
        }
        s
    }
    pub fn size(&self) -> usize {
        1 + self.kids.iter().map(|k| k.size()).sum::<usize>()
    }
    pub fn depth(&self) -> usize {
        1 + self.kids.iter().map(|k| if let M::E(e) = k { e.depth() } else { 0 }).max().unwrap_or(0)
    }
    pub fn elems(&self) -> Vec<usize> {
        (0..self.kids.len()).filter(|i| self.kids[*i].is_elem()).collect()
    }
    pub fn at(&self, path: &[usize]) -> &ME {
        let mut e = self;
        for i in path {
            e = e.kids[*i].elem();
        }
        e
    }
    pub fn at_mut(&mut self, path: &[usize]) -> &mut ME {
        let mut e = self;
        for i in path {
            e = e.kids[*i].elem_mut();
        }
        e
    }
    /// paths of all elements (self is the empty path)
    pub fn paths(&self) -> Vec<Vec<usize>> {
        fn go(e: &ME, p: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
            out.push(p.clone());
            for (i, k) in e.kids.iter().enumerate() {
                if let M::E(c) = k {
                    p.push(i);
                    go(c, p, out);
                    p.pop();
                }
            }
        }
        let mut out = vec![];
        go(self, &mut vec![], &mut out);
        out
    }
    /// what attaching nodes does to the texts of an element
    pub fn cleanup(&mut self) {
        let mut out: Vec<M> = Vec::with_capacity(self.kids.len());
        for k in self.kids.drain(..) {
            if let (Some(M::T(a)), M::T(b)) = (out.last_mut(), &k) {
                a.push_str(b);
                continue;
            }
            out.push(k);
        }
        if !out.iter().any(|k| matches!(k, M::T(t) if !blank(t))) {
            out.retain(|k| !matches!(k, M::T(t) if !t.is_empty() && blank(t)));
        }
        self.kids = out;
    }
    /// content up to how text is split and to insignificant whitespace
    pub fn norm(&self) -> ME {
        let mut out: Vec<M> = vec![];
        for k in &self.kids {
            match k {
                M::T(b) => {
                    if let Some(M::T(a)) = out.last_mut() {
                        a.push_str(b);
                    } else {
                        out.push(k.clone());
                    }
                }
                M::E(e) => out.push(M::E(e.norm())),
                k => out.push(k.clone()),
            }
        }
        let any = out.iter().any(|k| matches!(k, M::T(t) if !blank(t)));
        out.retain(|k| !matches!(k, M::T(t) if t.is_empty() || (!any && blank(t))));
        ME { name: self.name.clone(), prefix: self.prefix.clone(), attrs: self.attrs.clone(), kids: out }
    }
}

impl MDoc {
    pub fn norm(&self) -> MDoc {
        MDoc { decl: self.decl.clone(), dtds: self.dtds.clone(), root: self.root.norm() }
    }
}

pub fn blank(s: &str) -> bool {
    s.chars().all(|c| c.is_whitespace())
}

// ------------------------------------------------------------ reading the real thing

pub fn extract(d: &Document) -> MDoc {
    lib(|| MDoc {
        decl: d.declaration().as_ref().map(|d| d.to_string()),
        dtds: d.doctype_defs().map(|d| d.to_string()).collect(),
        root: elem(d.root_element()),
    })
}
pub fn extract_elem(e: &Element) -> ME {
    lib(|| elem(e))
}
pub fn extract_node(n: &dyn Node) -> M {
    lib(|| node(n))
}
fn elem(e: &Element) -> ME {
    ME {
        name: e.name(),
        prefix: e.namespace_prefix(),
        attrs: e.attributes().iter().map(|(k, v)| (k.clone(), v.clone())).collect(),
        kids: e.children().map(|n| node(&**n)).collect(),
    }
}
fn node(n: &dyn Node) -> M {
    if n.is_element() {
        M::E(elem(n.as_element().expect("element")))
    } else if n.is_text() {
        M::T(n.as_text().expect("text").content.clone())
    } else if n.is_comment() {
        M::C(n.as_comment().expect("comment").get_content().to_string())
    } else {
        M::D(n.as_cdata().expect("cdata").get_content().to_string())
    }
}

// ------------------------------------------------------------ building the real thing

/// builds a detached node through the public constructors (several ways)
pub fn build_node(m: &M) -> Box<dyn Node> {
    match m {
        M::E(e) => lib(|| build_elem(e)).boxed(),
        M::T(t) => lib(|| match t.len() % 3 {
            0 => Text::new(t.as_str()).boxed(),
            1 => Text::from(t.as_str()).boxed(),
            _ => Text::from(t.clone()).boxed(),
        }),
        M::C(t) => lib(|| match t.len() % 3 {
            0 => Comment::from(t.as_str()).boxed(),
            1 => Comment::from(t.clone()).boxed(),
            _ => Comment::new(t.as_str()).expect("comment accepted").boxed(),
        }),
        M::D(t) => lib(|| match t.len() % 3 {
            0 => CData::from(t.as_str()).boxed(),
            1 => CData::from(t.clone()).boxed(),
            _ => CData::new(t.as_str()).expect("cdata accepted").boxed(),
        }),
    }
}
/// builds an element: constructor for name, prefix and attributes, then append_all
pub fn build_elem(e: &ME) -> Element {
    let attrs: std::collections::HashMap<String, String> =
        e.attrs.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    let kids: Vec<Box<dyn Node>> = e.kids.iter().map(build_node).collect();
    let r: Result<Element, _> = if e.prefix.is_none() {
        match (e.attrs.is_empty(), kids.is_empty()) {
            (true, true) => Element::new_from_name(&e.name),
            (false, true) => Element::new_with_attributes(&e.name, attrs),
            (true, false) => Element::new_with_children(&e.name, kids),
            (false, false) => Element::new_with_attributes_and_children(&e.name, attrs, kids),
        }
    } else {
        Element::new(e.name.as_str(), None, Some(attrs), None, e.prefix.clone(), Some(kids))
    };
    match r {
        Ok(e) => e,
        Err(x) => fail("rejected", format!("the library rejected the valid element {e:?}: {x}")),
    }
}
pub fn build_doc(m: &MDoc) -> Document {
    let root = lib(|| build_elem(&m.root));
    lib(|| {
        let decl = m.decl.as_ref().map(|d| Declaration::from_str(d).expect("declaration accepted"));
        let dtds: Vec<DTD> = m.dtds.iter().map(|d| DTD::from_string(d.as_str()).expect("DTD accepted")).collect();
        Document::new_with_decl_dtd(root, decl, if dtds.is_empty() { None } else { Some(&dtds) })
    })
}

// ------------------------------------------------------------ differences

pub fn short(s: &str) -> String {
    let s = format!("{s:?}");
    if s.chars().count() <= 160 {
        return s;
    }
    let h: String = s.chars().take(90).collect();
    let t: String = s.chars().rev().take(50).collect::<Vec<_>>().into_iter().rev().collect();
    format!("{h} … {t}")
}
pub fn show(m: &M) -> String {
    match m {
        M::E(e) => format!("element <{}> with {} attributes and {} children", e.tag(), e.attrs.len(), e.kids.len()),
        M::T(s) => format!("text {}", short(s)),
        M::C(s) => format!("comment {}", short(s)),
        M::D(s) => format!("CDATA {}", short(s)),
    }
}
/// the first difference, or None
pub fn diff_doc(want: &MDoc, got: &MDoc) -> Option<String> {
    if want.decl != got.decl {
        return Some(format!("declaration: expected {:?}, got {:?}", want.decl, got.decl));
    }
    if want.dtds != got.dtds {
        return Some(format!("DTDs: expected {:?}, got {:?}", want.dtds, got.dtds));
    }
    diff_elem(&want.root, &got.root, "/")
}
pub fn diff_elem(a: &ME, b: &ME, path: &str) -> Option<String> {
    if a == b {
        return None;
    }
    let here = format!("{path}{}", a.tag());
    if a.name != b.name || a.prefix != b.prefix {
        return Some(format!("at {here}: expected <{}>, got <{}>", a.tag(), b.tag()));
    }
    if a.attrs != b.attrs {
        for (k, v) in &a.attrs {
            match b.attrs.get(k) {
                None => return Some(format!("at {here}: attribute {k}={} is missing", short(v))),
                Some(w) if w != v => {
                    return Some(format!("at {here}: attribute {k}: expected {}, got {}", short(v), short(w)))
                }
                _ => {}
            }
        }
        for (k, v) in &b.attrs {
            if !a.attrs.contains_key(k) {
                return Some(format!("at {here}: unexpected attribute {k}={}", short(v)));
            }
        }
    }
    for i in 0..a.kids.len().max(b.kids.len()) {
        match (a.kids.get(i), b.kids.get(i)) {
            (Some(x), Some(y)) if x == y => {}
            (Some(M::E(x)), Some(M::E(y))) => return diff_elem(x, y, &format!("{here}[{i}]/")),
            (Some(x), Some(y)) => {
                return Some(format!("at {here}, child {i}: expected {}, got {}", show(x), show(y)))
            }
            (Some(x), None) => return Some(format!("at {here}: child {i} is missing: {}", show(x))),
            (None, Some(y)) => return Some(format!("at {here}: unexpected child {i}: {}", show(y))),
            (None, None) => {}
        }
    }
    None
}
pub fn diff_node(a: &M, b: &M) -> Option<String> {
    if a == b {
        return None;
    }
    match (a, b) {
        (M::E(x), M::E(y)) => diff_elem(x, y, "/"),
        _ => Some(format!("expected {}, got {}", show(a), show(b))),
    }
}
/// short hash of a value for the run's event hash
pub fn h<T: std::hash::Hash>(t: &T) -> u64 {
    struct Fnv(u64);
    impl std::hash::Hasher for Fnv {
        fn finish(&self) -> u64 {
            self.0
        }
        fn write(&mut self, b: &[u8]) {
            for x in b {
                self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100_0000_01b3);
            }
        }
    }
    let mut f = Fnv(0xcbf2_9ce4_8422_2325);
    t.hash(&mut f);
    std::hash::Hasher::finish(&f)
}

// ------------------------------------------------------------ namespaces

/// the namespace of every element, in document order, by the rules of "Namespaces in XML"
pub fn namespaces(root: &ME) -> Vec<Option<String>> {
    fn go(e: &ME, scope: &BTreeMap<String, String>, out: &mut Vec<Option<String>>) {
        let mut s = scope.clone();
        for (k, v) in &e.attrs {
            if k == "xmlns" {
                s.insert(String::new(), v.clone());
            } else if let Some(p) = k.strip_prefix("xmlns:") {
                s.insert(p.to_string(), v.clone());
            }
        }
        // an empty namespace name is none
        out.push(s.get(e.prefix.as_deref().unwrap_or("")).filter(|n| !n.is_empty()).cloned());
        for k in &e.kids {
            if let M::E(c) = k {
                go(c, &s, out);
            }
        }
    }
    let mut out = vec![];
    go(root, &BTreeMap::new(), &mut out);
    out
}
/// the namespaces the library reports, in document order
pub fn reported_namespaces(root: &Element) -> Vec<Option<String>> {
    // (whether an empty declaration is reported as such or as none is left open)
    raw_namespaces(root).into_iter().map(|n| n.filter(|n| !n.is_empty())).collect()
}
pub fn raw_namespaces(root: &Element) -> Vec<Option<String>> {
    fn go(e: &Element, out: &mut Vec<Option<String>>) {
        out.push(e.namespace());
        for c in e.children() {
            if c.is_element() {
                go(c.as_element().expect("element"), out);
            }
        }
    }
    lib(|| {
        let mut out = vec![];
        go(root, &mut out);
        out
    })
}
