//! Generators. Each run draws a configuration first (which features, how big),
//! so that different runs stress different mixtures.
use crate::model::*;
use crate::rt::*;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct Cfg {
    pub names: Vec<String>,
    pub attr_names: Vec<String>,
    pub prefixes: Vec<String>,
    pub uris: Vec<String>,
    pub depth: u32,
    /// a long chain of nested elements
    pub chain: bool,
    pub fan: u32,
    pub nodes: u32,
    pub attrs: u32,
    pub ns: bool,
    pub special: bool,
    pub unicode: bool,
    pub mixed: bool,
    pub comments: bool,
    pub cdata: bool,
    /// how many bytes of very long values may still be made
    pub long: std::cell::Cell<usize>,
    pub prolog: bool,
    /// attribute values may hold tabs and line ends
    pub attr_ws: bool,
    /// element-local namespace declarations
    pub local_ns: bool,
    /// text may hold carriage returns
    pub cr: bool,
    /// names that begin with xml
    pub odd_attrs: bool,
    /// 1: an element with very many children somewhere, 2: a very deep one
    pub extreme: u32,
    /// goes into every name and value
    pub salt: String,
}

const NAMES: &[&str] = &["a", "b", "c", "item", "x", "A", "a1", "_q", "a-b", "a.b", "root", "text", "xml_", "n", "aa", "ab", "Item", "B"];
const UNAMES: &[&str] = &["é", "中文", "a·b", "aé", "n中文", "zß", "aе", "x\u{10400}", "q\u{300}"];
const ANAMES: &[&str] = &["id", "k", "v", "name", "a", "b", "z", "Z", "_", "x-y", "x.y", "c9", "lang", "xm", "xmk", "y", "w1", "w2", "w10", "ID", "K", "Name"];
const UANAMES: &[&str] = &["aé", "é", "名", "k中", "x·1"];

pub fn cfg() -> Cfg {
    span(|| {
        let special = chance(2, 3);
        let unicode = chance(1, 2);
        let nn = range(1, 4);
        let mut names = vec![];
        for _ in 0..nn {
            if unicode && chance(1, 3) {
                names.push(pick(UNAMES).to_string());
            } else if chance(1, 60) {
                // long names
                names.push(pick(&["n", "ab", "x-y"]).repeat(range(20, 180) as usize));
            } else {
                names.push(pick(NAMES).to_string());
            }
        }
        let mut attr_names = vec![];
        let many_attrs = chance(1, 20);
        if many_attrs {
            // enough names for very long start tags
            for n in ANAMES {
                attr_names.push(n.to_string());
            }
            for i in 0..*pick(&[40, 40, 150]) {
                attr_names.push(format!("k{i}"));
            }
        }
        for _ in 0..range(1, 6) {
            attr_names.push(if unicode && chance(1, 5) { pick(UANAMES).to_string() } else { pick(ANAMES).to_string() });
        }
        let names_of_attrs = attr_names.len();
        let ns = chance(1, 2);
        let mut prefixes = vec![];
        if ns {
            for p in ["p", "q", "ns1", "p-x", "a"].iter().take(range(1, 4) as usize) {
                prefixes.push(p.to_string());
            }
            if chance(1, 8) {
                prefixes.push("P".into());
            }
            if unicode && chance(1, 6) {
                prefixes.push(pick(&["é", "ns中", "p·1"]).to_string());
            }
        }
        let big = chance(1, 12);
        // unusual shapes: long chains, long lists of siblings
        let salt = cx().salt.clone();
        let shape = if chance(1, 25) { range(1, 2) } else if chance(1, 300) { 3 } else { 0 };
        let c = Cfg {
            names,
            attr_names,
            prefixes,
            uris: uris(),
            chain: shape == 1,
            depth: if shape == 1 { range(20, 90) } else { range(1, 6) },
            fan: match shape {
                1 => range(1, 2),
                2 => range(20, 120),
                3 => range(250, 700),
                _ => range(1, 6),
            },
            nodes: if shape == 3 { range(260, 800) } else if big || shape > 0 { range(30, 200) } else { range(2, 24) },
            attrs: if many_attrs { range(6, if names_of_attrs > 100 { 200 } else { 60 }) } else { range(0, 5) },
            ns,
            special,
            unicode,
            mixed: chance(2, 3),
            comments: chance(1, 2),
            cdata: chance(1, 2),
            long: std::cell::Cell::new(if chance(1, 40) { if chance(1, 6) { 70_000 } else { 12_000 } } else { 0 }),
            prolog: chance(2, 3),
            attr_ws: false,
            local_ns: ns && chance(1, 2),
            cr: false,
            odd_attrs: chance(1, 6),
            extreme: if chance(1, 80) { 1 + chance(1, 4) as u32 } else { 0 },
            salt: String::new(),
        };
        c.salted(&salt)
    })
}

fn uris() -> Vec<String> {
    let mut v: Vec<String> = vec!["urn:1".into(), "urn:2".into(), "http://example.org/a?b=c&d='e'".into(), "urn:é".into()];
    if chance(1, 4) {
        // nearly the same
        v.push(pick(&["URN:1", "urn:1/", "urn:", "urn:1 ", "urn:11"]).to_string());
    }
    v
}

const WORDS: &[&str] = &["a", "b", "text", "Hello", "0", "x y", "foo", "42"];
const SPECIAL: &[&str] = &["<", ">", "&", "\"", "'", ";", "=", "/", "#", "!", "?", "]", "[", "-", "--", "&&", "<>", "'\"'", "%", "{}"];
const LOOKALIKE: &[&str] = &[
    "&amp;", "&lt;", "&gt;", "&quot;", "&apos;", "&#65;", "&#x41;", "&#e9;", "&nbsp;", "&a", "& b;", "&amp;lt;", "]]&gt;", "--&gt;", "&quot", "&amp;amp;", "&#60;", "&;", "amp;", "&&amp;", "&é;", "&日本;", "&#38;", "&#26;", "&#x26;",
    "&#10;", "&#38;lt;",
];
const MARKUP: &[&str] = &[
    "<a>", "</a>", "<b/>", "-->", "<!--", "]]>", "<![CDATA[", "?>", "<?xml", "<!DOCTYPE x>", "/>", "a=\"b\"", "<a b='c'>", "]]", "]>",
];
const UNI: &[&str] = &["é", "ü", "中", "日本語", "🦀", "e\u{301}", "ß", "\u{200b}", "\u{feff}", "𐍈", "ﷺ", "\u{7f}", "\u{fffd}"];
const UWS: &[&str] = &["\u{a0}", "\u{2003}", "\u{3000}", "\u{85}", "\u{2028}"];
pub const WS: &[&str] = &[" ", "\n", "\t", "  ", "\n\t", " \n "];

fn piece(c: &Cfg, out: &mut String) {
    match draw(8) {
        0 | 1 => out.push_str(pick(WORDS)),
        2 => out.push_str(if c.special { pick(SPECIAL) } else { pick(WORDS) }),
        3 => out.push_str(if c.special { pick(LOOKALIKE) } else { pick(WORDS) }),
        4 => out.push_str(if c.unicode { pick(UNI) } else { pick(WORDS) }),
        5 => out.push_str(if c.cr && chance(1, 2) { pick(&["\r", "\r\n", "\n\r"]) } else { pick(WS) }),
        6 => out.push_str(if c.special { pick(MARKUP) } else { pick(WORDS) }),
        _ => {
            if c.unicode && chance(1, 3) {
                out.push_str(pick(UWS))
            } else {
                out.push_str(pick(WORDS))
            }
        }
    }
}
/// now and then very long
fn stretch(c: &Cfg, s: &mut String) {
    let left = c.long.get();
    if left >= 1000 && chance(1, 6) {
        let unit = if s.is_empty() { "x".to_string() } else { s.clone() };
        let want = if chance(1, 3) { range(1000, 70_000) } else { range(1000, 12_000) } as usize;
        let want = want.min(left);
        c.long.set(left - want);
        if chance(1, 3) {
            // one plain run, and something at its end
            let unit = if c.unicode { *pick(&["x", "é", "中", "ab "]) } else { *pick(&["x", "ab ", "-"]) };
            while s.len() < want {
                s.push_str(unit);
            }
            piece(c, s);
            return;
        }
        while s.len() < want {
            s.push_str(&unit);
        }
    }
}
/// text that is not blank
pub fn text(c: &Cfg) -> String {
    span(|| {
        let mut s = String::new();
        for _ in 0..range(1, 4) {
            piece(c, &mut s);
        }
        stretch(c, &mut s);
        if blank(&s) {
            s.push_str(pick(WORDS));
        }
        s.push_str(&c.salt);
        s
    })
}
pub fn ws() -> String {
    if chance(1, 16) {
        // white space all the same
        return pick(&["\u{a0}", "\u{3000}\n", " \u{2003}", "\u{85}", "\u{2028}\t"]).to_string();
    }
    pick(WS).to_string()
}
pub fn attr_value(c: &Cfg) -> String {
    span(|| {
        let mut s = String::new();
        for _ in 0..draw(4) {
            piece(c, &mut s);
        }
        stretch(c, &mut s);
        if !c.attr_ws {
            s = s.replace(['\n', '\t', '\r'], " ");
        }
        s.push_str(&c.salt);
        s
    })
}
pub fn comment(c: &Cfg) -> String {
    let mut s = span(|| {
        let mut s = String::new();
        for _ in 0..draw(4) {
            piece(c, &mut s);
        }
        stretch(c, &mut s);
        s.push_str(&c.salt);
        s
    });
    while s.contains("-->") {
        s = s.replace("-->", "->");
    }
    s
}
pub fn cdata(c: &Cfg) -> String {
    let mut s = span(|| {
        let mut s = String::new();
        for _ in 0..draw(4) {
            piece(c, &mut s);
        }
        stretch(c, &mut s);
        s.push_str(&c.salt);
        s
    });
    while s.contains("]]>") {
        s = s.replace("]]>", "]>");
    }
    s
}
pub fn attr_name(c: &Cfg, bound: &[String]) -> String {
    if !bound.is_empty() && chance(1, 6) {
        return format!("{}:{}", pick(bound), pick(&c.attr_names));
    }
    if c.odd_attrs && chance(1, 4) {
        return pick(&["xml:lang", "xml:space", "xml:id", "xmlnsx", "xmlns-a", "xml", "Xmlns", "xmln", "_xmlns"]).to_string();
    }
    pick(&c.attr_names).clone()
}
pub fn name(c: &Cfg) -> String {
    pick(&c.names).clone()
}
impl Cfg {
    /// the same configuration with other names and values of the same shape
    pub fn salted(mut self, salt: &str) -> Cfg {
        for n in self.names.iter_mut().chain(self.attr_names.iter_mut()).chain(self.prefixes.iter_mut()).chain(self.uris.iter_mut()) {
            n.push_str(salt);
        }
        self.salt = salt.to_string();
        self
    }
}

/// an element whose prefixes are all in `bound` or declared inside it
pub fn elem(c: &Cfg, depth: u32, budget: &mut u32, bound: &[String]) -> ME {
    span(|| {
        let mut e = ME::new(&name(c));
        let mut bound = bound.to_vec();
        if c.local_ns && chance(1, 4) {
            local_decl(c, &mut e, &mut bound);
        }
        if !bound.is_empty() && chance(1, 3) {
            e.prefix = Some(pick(&bound).clone());
        }
        attrs(c, &mut e, &bound);
        if depth > 0 && *budget > 0 {
            kids(c, &mut e, depth - 1, budget, &bound);
        }
        e
    })
}
/// what a default namespace declaration says; now and then that there is none
pub fn default_uri(c: &Cfg) -> String {
    if chance(1, 10) {
        return String::new();
    }
    pick(&c.uris).clone()
}
pub fn local_decl(c: &Cfg, e: &mut ME, bound: &mut Vec<String>) {
    if c.prefixes.is_empty() || chance(1, 3) {
        e.attrs.insert("xmlns".into(), default_uri(c));
    } else {
        let p = pick(&c.prefixes).clone();
        e.attrs.insert(format!("xmlns:{p}"), pick(&c.uris).clone());
        if !bound.contains(&p) {
            bound.push(p);
        }
    }
}
pub fn attrs(c: &Cfg, e: &mut ME, bound: &[String]) {
    if c.attrs == 0 {
        return;
    }
    for _ in 0..draw(c.attrs + 1) {
        let k = attr_name(c, bound);
        let v = attr_value(c);
        e.attrs.insert(k, v);
    }
}
pub fn kids(c: &Cfg, e: &mut ME, depth: u32, budget: &mut u32, bound: &[String]) {
    // long chains go on
    let shape = if c.chain && depth > 0 && !chance(1, 60) { range(2, 3) } else { draw(4) };
    if shape == 0 {
        return;
    }
    if shape == 1 {
        *budget = budget.saturating_sub(1);
        e.kids.push(M::T(text(c)));
        return;
    }
    let mixed = c.mixed && shape == 3;
    for i in 0..range(1, c.fan) {
        if *budget == 0 {
            break;
        }
        *budget -= 1;
        let k = match if c.chain && i == 0 { 0 } else { draw(8) } {
            0..=3 => M::E(elem(c, depth, budget, bound)),
            4 if c.comments => M::C(comment(c)),
            5 if c.cdata => M::D(cdata(c)),
            _ if mixed => {
                if matches!(e.kids.last(), Some(M::T(_))) {
                    M::E(elem(c, depth, budget, bound))
                } else if chance(1, 3) {
                    M::T(ws())
                } else {
                    M::T(text(c))
                }
            }
            _ => M::E(elem(c, depth, budget, bound)),
        };
        e.kids.push(k);
    }
    // blank texts only where another text makes them significant
    if !e.kids.iter().any(|k| matches!(k, M::T(t) if !blank(t))) {
        e.kids.retain(|k| !k.is_text());
    }
}
pub fn root_decls(c: &Cfg, e: &mut ME) -> Vec<String> {
    let mut bound = vec![];
    if c.ns {
        for p in &c.prefixes {
            if chance(3, 4) {
                e.attrs.insert(format!("xmlns:{p}"), pick(&c.uris).clone());
                bound.push(p.clone());
            }
        }
        if chance(1, 3) {
            e.attrs.insert("xmlns".into(), pick(&c.uris).clone());
        }
    }
    bound
}
pub fn root(c: &Cfg) -> ME {
    span(|| {
        let mut e = ME::new(&name(c));
        let bound = root_decls(c, &mut e);
        if !bound.is_empty() && chance(1, 3) {
            e.prefix = Some(pick(&bound).clone());
        }
        attrs(c, &mut e, &bound);
        let mut budget = c.nodes;
        kids(c, &mut e, c.depth, &mut budget, &bound);
        match c.extreme {
            1 => widen(c, &mut e),
            2 => deepen(c, &mut e),
            _ => {}
        }
        e
    })
}
/// the place of an element; half of the time one with elements in it
pub fn spot_index(paths: &[Vec<usize>]) -> usize {
    // in document order an element with elements in it is followed by a longer path
    if paths.len() > 3 && chance(1, 2) {
        let inner: Vec<usize> = (0..paths.len() - 1).filter(|i| paths[i + 1].len() > paths[*i].len()).collect();
        return *pick(&inner);
    }
    draw(paths.len() as u32) as usize
}
pub fn spot(e: &ME) -> Vec<usize> {
    let paths = e.paths();
    paths[spot_index(&paths)].clone()
}
fn somewhere<'a>(e: &'a mut ME) -> &'a mut ME {
    let paths = e.paths();
    let p = pick(&paths).clone();
    e.at_mut(&p)
}
/// many children of few kinds, and something at their end
fn widen(c: &Cfg, e: &mut ME) {
    let n = if chance(1, 2) { range(300, 900) } else { range(40, 300) } as usize;
    let mut e = somewhere(e);
    if chance(1, 2) {
        // not the root
        e.kids.push(M::E(ME::new(&name(c))));
        let Some(M::E(x)) = e.kids.last_mut() else { unreachable!() };
        e = x;
    }
    let a = ME::new(&name(c));
    let mut b = ME::new(&name(c));
    b.kids.push(M::T(text(c)));
    let (t, w) = (text(c), ws());
    let end = text(c);
    let style = draw(5);
    for i in 0..n {
        if style == 1 || style == 4 {
            if !matches!(e.kids.last(), Some(M::T(_))) {
                e.kids.push(M::T(if style == 1 { t.clone() } else { w.clone() }));
            }
        }
        match style {
            2 if c.comments && i % 2 == 0 => e.kids.push(M::C("c".into())),
            2 | 3 if i % 3 == 0 => e.kids.push(M::E(b.clone())),
            _ => e.kids.push(M::E(a.clone())),
        }
    }
    match draw(4) {
        0 if style != 1 && style != 4 => e.kids.push(M::E(b)),
        1 if style != 1 && style != 4 => e.kids.push(M::C("end".into())),
        _ => e.kids.push(M::T(end)),
    }
}
/// many levels of elements
fn deepen(c: &Cfg, e: &mut ME) {
    let n = if chance(1, 4) { range(300, 900) } else { range(90, 300) };
    let e = somewhere(e);
    let mut inner = ME::new(&name(c));
    inner.kids = std::mem::take(&mut e.kids);
    inner.kids.retain(|k| !k.is_text());
    inner.kids.push(M::T(text(c)));
    let nm = name(c);
    let mixed = chance(1, 4);
    for i in 0..n {
        let mut x = ME::new(&nm);
        x.kids.push(M::E(inner));
        if mixed && i % 7 == 0 {
            x.kids.push(M::T("t".into()));
        }
        inner = x;
    }
    e.kids.push(M::E(inner));
}
const DECLS: &[&str] = &[
    "<?xml version=\"1.0\" encoding=\"UTF-8\"?>",
    "<?xml version='1.0'?>",
    "<?xml version=\"1.0\" encoding=\"utf-8\" standalone=\"yes\"?>",
    "<?xml   version = \"1.1\"  ?>",
    "<?xml version='1.0' encoding='UTF-8' standalone='no'?>",
    "<?xml version=\"1.0\" standalone=\"no\" ?>",
    "<?xml\tversion='1.0'\n encoding = \"UTF-8\" standalone='yes'?>",
];
const DTDS: &[&str] = &[
    "<!DOCTYPE a>",
    "<!DOCTYPE note SYSTEM \"note.dtd\">",
    "<!DOCTYPE a PUBLIC \"-//X//Y>Z//EN\" 'http://x/>y'>",
    "<!DOCTYPE note [<!ELEMENT note (a,b)> <!ATTLIST note k CDATA \"<>\">]>",
    "<!DOCTYPE n [\n  <!ENTITY e \"v > w\">\n  <!ENTITY é 'ü'>\n]>",
    "<!DOCTYPE n []>",
];
pub fn decl() -> String {
    pick(DECLS).to_string()
}
pub fn dtd() -> String {
    if chance(1, 2) {
        return pick(DTDS).to_string();
    }
    span(|| {
        let mut s = format!("<!DOCTYPE{}{}", pick(&[" ", "\n", "  "]), pick(&["a", "note", "html", "é1"]));
        match draw(4) {
            0 => s.push_str(pick(&[" SYSTEM \"it's > here\"", " SYSTEM 'a\"]\"b'", "\n SYSTEM ''"])),
            1 => s.push_str(pick(&[" PUBLIC \"-//W3C//DTD X>1//EN\" \"u\"", " PUBLIC '-//a' \"it's\""])),
            _ => {}
        }
        if chance(2, 3) {
            s.push_str(pick(&[" [", "["]));
            for _ in 0..draw(5) {
                s.push_str(pick(DTD_PARTS));
                s.push_str(pick(&["", "\n  ", " "]));
            }
            s.push(']');
        }
        s.push_str(pick(&["", "", " ", "\n"]));
        s.push('>');
        s
    })
}
const DTD_PARTS: &[&str] = &[
    "<!ELEMENT note (a,b)>",
    "<!ELEMENT a (#PCDATA|b)*>",
    "<!ATTLIST a k CDATA \"<x>\">",
    "<!ATTLIST a k (u|v) 'u' l ID #REQUIRED>",
    "<!ENTITY e \"v > w ]\">",
    "<!ENTITY q '\"'>",
    "<!ENTITY r \"it's ]]> here\">",
    "<!ENTITY % p SYSTEM \"p'q.ent\">",
    "%p;",
    "<!NOTATION n PUBLIC \"x\">",
    "<!-- a comment -->",
    "<!-- don't <stop> -->",
    "<!-- \" ] > -->",
    "<!---->",
    "<!-- a -> b > ' c -->",
    "<!-- > é <a> - ->-->",
    "<!ENTITY ü '日本語'>",
];
pub fn doc(c: &Cfg) -> MDoc {
    let mut d = MDoc { decl: None, dtds: vec![], root: root(c) };
    if c.prolog {
        span(|| {
            if chance(2, 3) {
                d.decl = Some(decl());
            }
            if chance(1, 3) {
                d.dtds.push(dtd());
                // the same again is another one
                match draw(10) {
                    0 => d.dtds.push(d.dtds[0].clone()),
                    1 => d.dtds.push(dtd()),
                    2 if chance(1, 3) => (0..range(2, 12)).for_each(|_| d.dtds.push(dtd())),
                    _ => {}
                }
            }
        });
    }
    d
}
/// a node to attach somewhere
pub fn node(c: &Cfg, bound: &[String], blank_ok: bool) -> M {
    span(|| match draw(8) {
        0..=2 => {
            let mut b = range(0, 6);
            let d = range(0, 2);
            M::E(elem(c, d, &mut b, bound))
        }
        3 | 4 => M::T(text(c)),
        5 => {
            if blank_ok {
                M::T(ws())
            } else {
                M::T(text(c))
            }
        }
        6 => M::C(comment(c)),
        _ => M::D(cdata(c)),
    })
}
/// attribute names the library must reject
pub const BAD_NAMES: &[&str] = &[
    "", " ", "1a", "a b", "a>", "<a", "a=", "a\"", "a'", "a&b", "a/b", "-a", ".a", "a\n", "·a", "a\u{d7}", "a!", "a<b/>",
];

#[allow(dead_code)]
pub fn attrs_of(list: &[(&str, &str)]) -> BTreeMap<String, String> {
    list.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect()
}

/// a name one character away from a valid one, for calls that may accept it or not
pub fn risky_name() -> String {
    span(|| {
        if chance(1, 3) {
            return pick(BAD_NAMES).to_string();
        }
        let mut n: Vec<char> = pick(&["a", "ab", "name", "x-1", "_q"]).chars().collect();
        let c = if chance(1, 2) {
            let c = (33 + draw(94)) as u8 as char;
            if c == ':' {
                ';'
            } else {
                c
            }
        } else {
            *pick(&[' ', '\t', '\n', '\r', '\u{a0}', '\u{85}', '\u{2028}', '\u{3000}', '\u{d7}', '\u{f7}', '\u{37e}', '\u{2010}', '\u{20ac}', 'é', '·', '\u{300}', '中', '\u{2190}', '\u{200b}'])
        };
        let at = draw(n.len() as u32 + 1) as usize;
        n.insert(at, c);
        n.into_iter().collect()
    })
}
/// content that comes close to ending a comment or CDATA section
pub fn risky_content() -> String {
    span(|| {
        let mut s = String::new();
        for _ in 0..range(1, 5) {
            s.push_str(pick(&["-", "--", "->", ">", "-->", "]", "]]", "]>", "]]>", "<", "<!--", "!", "a", " ", "&", "<![CDATA["]));
        }
        s
    })
}
