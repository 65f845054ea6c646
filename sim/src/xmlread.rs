//! An independent, strict reader of XML, used to judge the bytes the library
//! wrote. It shares nothing with the library. Two liberties: comments may hold
//! "--" (the library documents only "-->" as forbidden), and more than one DTD
//! may precede the root (the library's documents may have several).
use crate::model::*;
use std::collections::BTreeSet;

#[derive(Default, Debug)]
pub struct Read {
    pub doc: MDoc,
    /// attribute names of every start tag, in document order, as written
    pub tags: Vec<Vec<String>>,
    /// a numeric character reference was decoded
    pub numeric: bool,
}

struct P<'a> {
    s: &'a str,
    i: usize,
    tags: Vec<Vec<String>>,
    lenient: bool,
    tolerant: bool,
    numeric: std::cell::Cell<bool>,
}
type Res<T> = Result<T, String>;

pub fn name_start(c: char) -> bool {
    matches!(c, 'A'..='Z' | 'a'..='z' | '_' | '\u{C0}'..='\u{D6}' | '\u{D8}'..='\u{F6}' | '\u{F8}'..='\u{2FF}'
        | '\u{370}'..='\u{37D}' | '\u{37F}'..='\u{1FFF}' | '\u{200C}'..='\u{200D}' | '\u{2070}'..='\u{218F}'
        | '\u{2C00}'..='\u{2FEF}' | '\u{3001}'..='\u{D7FF}' | '\u{F900}'..='\u{FDCF}' | '\u{FDF0}'..='\u{FFFD}'
        | '\u{10000}'..='\u{EFFFF}')
}
pub fn name_char(c: char) -> bool {
    name_start(c) || matches!(c, '-' | '.' | '0'..='9' | '\u{B7}' | '\u{300}'..='\u{36F}' | '\u{203F}'..='\u{2040}')
}
fn xml_char(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\r' | ' '..='\u{D7FF}' | '\u{E000}'..='\u{FFFD}' | '\u{10000}'..='\u{10FFFF}')
}
fn sp(c: char) -> bool {
    matches!(c, ' ' | '\t' | '\r' | '\n')
}

pub fn read(s: &str) -> Res<Read> {
    read_as(s, false)
}
/// lenient: white space before the declaration, "]]>" in text and CDATA before
/// the root (ignored, as the library's warning says) pass
pub fn read_as(s: &str, lenient: bool) -> Res<Read> {
    read_with(s, lenient, false)
}
/// tolerant: also takes the liberties with single characters that the library
/// takes: any white space counts, '<' may stand in attribute values, "&" that
/// begins no predefined entity stands for itself, characters XML does not know pass
pub fn read_tolerant(s: &str) -> Res<Read> {
    read_with(s, true, true)
}
fn read_with(s: &str, lenient: bool, tolerant: bool) -> Res<Read> {
    let mut p = P { s, i: 0, tags: vec![], lenient, tolerant, numeric: Default::default() };
    if lenient {
        p.space();
    }
    if let Some((k, c)) = s.char_indices().find(|x| !tolerant && !xml_char(x.1)) {
        return Err(format!("at byte {k}: character {c:?} is not allowed in XML"));
    }
    let mut doc = MDoc::default();
    if p.rest().starts_with("<?xml") && p.rest()[5..].starts_with(sp) {
        let d = p.through("?>")?;
        check_decl(&d)?;
        doc.decl = Some(d);
    }
    loop {
        p.space();
        if p.rest().starts_with("<!--") {
            p.comment()?;
        } else if lenient && p.rest().starts_with("<![CDATA[") {
            p.through("]]>")?;
        } else if p.rest().starts_with("<!DOCTYPE") {
            doc.dtds.push(p.dtd()?);
        } else {
            break;
        }
    }
    if !p.rest().starts_with('<') {
        return p.err("expected the root element");
    }
    doc.root = p.elem()?;
    loop {
        p.space();
        if p.rest().starts_with("<!--") {
            p.comment()?;
        } else {
            break;
        }
    }
    if p.i != s.len() {
        return p.err("content after the root element");
    }
    Ok(Read { doc, tags: p.tags, numeric: p.numeric.get() })
}

fn check_decl(d: &str) -> Res<()> {
    // <?xml version="1.x" encoding="..." standalone="..."?>
    let mut p = P { s: &d[5..d.len() - 2], i: 0, tags: vec![], lenient: false, tolerant: false, numeric: Default::default() };
    let mut seen = vec![];
    loop {
        let had = p.space();
        if p.rest().is_empty() {
            break;
        }
        if !had {
            return Err(format!("declaration {d:?}: missing space"));
        }
        let n = p.name()?;
        p.space();
        p.lit("=")?;
        p.space();
        let v = p.quoted()?;
        let ok = match n.as_str() {
            "version" => v.starts_with("1.") && seen.is_empty(),
            "encoding" => seen == ["version"] && v.eq_ignore_ascii_case("utf-8"),
            "standalone" => !seen.is_empty() && (v == "yes" || v == "no"),
            _ => false,
        };
        if !ok || seen.contains(&n) {
            return Err(format!("declaration {d:?}: bad {n:?}"));
        }
        seen.push(n);
    }
    if seen.is_empty() {
        return Err(format!("declaration {d:?} has no version"));
    }
    Ok(())
}

impl P<'_> {
    fn rest(&self) -> &str {
        &self.s[self.i..]
    }
    fn err<T>(&self, m: &str) -> Res<T> {
        Err(format!("at byte {}: {m}: {}", self.i, short(&self.rest().chars().take(60).collect::<String>())))
    }
    fn space(&mut self) -> bool {
        let n = self.rest().len() - (if self.tolerant { self.rest().trim_start() } else { self.rest().trim_start_matches(sp) }).len();
        self.i += n;
        n > 0
    }
    fn lit(&mut self, l: &str) -> Res<()> {
        if self.rest().starts_with(l) {
            self.i += l.len();
            Ok(())
        } else {
            self.err(&format!("expected {l:?}"))
        }
    }
    /// everything up to and including the end mark
    fn through(&mut self, end: &str) -> Res<String> {
        match self.rest().find(end) {
            Some(k) => {
                let r = self.rest()[..k + end.len()].to_string();
                self.i += r.len();
                Ok(r)
            }
            None => self.err(&format!("no {end:?}")),
        }
    }
    fn comment(&mut self) -> Res<String> {
        self.lit("<!--")?;
        let t = self.through("-->")?;
        Ok(t[..t.len() - 3].to_string())
    }
    fn dtd(&mut self) -> Res<String> {
        let from = self.i;
        self.lit("<!DOCTYPE")?;
        if !self.space() {
            return self.err("expected space after <!DOCTYPE");
        }
        self.name()?;
        let mut depth = 0;
        let mut quote = None;
        let text = self.rest();
        let mut it = text.char_indices();
        let end = loop {
            match it.next() {
                // a comment inside the internal subset
                Some((k, '<')) if quote.is_none() && text[k..].starts_with("<!--") => {
                    let Some(n) = text[k + 4..].find("-->") else { return self.err("unterminated comment") };
                    while it.next().is_some_and(|x| x.0 < k + 4 + n + 2) {}
                }
                None => return self.err("unterminated DTD"),
                Some((k, c)) => match quote {
                    Some(q) => {
                        if c == q {
                            quote = None
                        }
                    }
                    None => match c {
                        '"' | '\'' => quote = Some(c),
                        '[' => depth += 1,
                        ']' => depth -= 1,
                        '>' if depth == 0 => break k,
                        _ => {}
                    },
                },
            }
        };
        self.i += end + 1;
        Ok(self.s[from..self.i].to_string())
    }
    fn name(&mut self) -> Res<String> {
        let mut n = 0;
        for (k, c) in self.rest().char_indices() {
            if !(if k == 0 { name_start(c) } else { name_char(c) }) {
                break;
            }
            n = k + c.len_utf8();
        }
        if n == 0 {
            return self.err("expected a name");
        }
        let r = self.rest()[..n].to_string();
        self.i += n;
        Ok(r)
    }
    fn qname(&mut self) -> Res<(Option<String>, String)> {
        let a = self.name()?;
        if self.tolerant {
            // colons anywhere but first; the first one ends the prefix
            let n = self.rest().find(|c| !name_char(c) && c != ':').unwrap_or(self.rest().len());
            let more = self.rest()[..n].to_string();
            self.i += n;
            return match more.split_once(':') {
                Some((x, y)) => Ok((Some(a + x), y.to_string())),
                None => Ok((None, a + &more)),
            };
        }
        if self.rest().starts_with(':') {
            self.i += 1;
            return Ok((Some(a), self.name()?));
        }
        Ok((None, a))
    }
    fn quoted(&mut self) -> Res<String> {
        let q = match self.rest().chars().next() {
            Some(q @ ('"' | '\'')) => q,
            _ => return self.err("expected a quoted value"),
        };
        self.i += 1;
        match self.rest().find(q) {
            Some(k) => {
                let r = self.rest()[..k].to_string();
                self.i += k + 1;
                Ok(r)
            }
            None => self.err("unterminated value"),
        }
    }
    fn decode(&self, t: &str) -> Res<String> {
        let mut o = String::new();
        let mut r = t;
        while let Some(k) = r.find('&') {
            o.push_str(&r[..k]);
            let Some(e) = r[k..].find(';') else {
                if self.tolerant {
                    o.push_str(&r[k..]);
                    return Ok(o);
                }
                return self.err(&format!("bare & in {}", short(t)));
            };
            let n = &r[k + 1..k + e];
            match n {
                "amp" => o.push('&'),
                "lt" => o.push('<'),
                "gt" => o.push('>'),
                "quot" => o.push('"'),
                "apos" => o.push('\''),
                _ if self.tolerant && !n.starts_with('#') => {
                    o.push('&');
                    r = &r[k + 1..];
                    continue;
                }
                _ => {
                    self.numeric.set(true);
                    let c = if let Some(x) = n.strip_prefix("#x") {
                        u32::from_str_radix(x, 16).ok()
                    } else if let Some(x) = n.strip_prefix('#') {
                        x.parse().ok()
                    } else {
                        None
                    };
                    match c.and_then(char::from_u32) {
                        Some(c) if xml_char(c) || self.tolerant => o.push(c),
                        _ if self.tolerant => o.push('&'),
                        _ => return self.err(&format!("unknown reference &{n};")),
                    }
                }
            }
            r = &r[k + e + 1..];
        }
        o.push_str(r);
        Ok(o)
    }
    /// an element, without recursion (documents may be deep)
    fn elem(&mut self) -> Res<ME> {
        let mut open: Vec<(ME, String)> = vec![];
        loop {
            // at a start tag
            self.lit("<")?;
            let (prefix, name) = self.qname()?;
            if !name.starts_with(name_start) {
                return self.err("expected a name");
            }
            let mut e = ME { name, prefix, ..Default::default() };
            let mut order = vec![];
            let mut seen = BTreeSet::new();
            let closed;
            loop {
                let had = self.space();
                if self.rest().starts_with("/>") {
                    self.i += 2;
                    closed = true;
                    break;
                }
                if self.rest().starts_with('>') {
                    self.i += 1;
                    closed = false;
                    break;
                }
                if !had {
                    return self.err("expected space before an attribute");
                }
                let (p, n) = self.qname()?;
                let k = match p {
                    Some(p) => format!("{p}:{n}"),
                    None => n,
                };
                self.space();
                self.lit("=")?;
                self.space();
                let v = self.quoted()?;
                if v.contains('<') && !self.tolerant {
                    return self.err("'<' in an attribute value");
                }
                let v = self.decode(&v)?;
                if !seen.insert(k.clone()) {
                    return self.err(&format!("attribute {k:?} twice"));
                }
                order.push(k.clone());
                e.attrs.insert(k, v);
            }
            self.tags.push(order);
            let mut done = None;
            if closed {
                done = Some(e);
            } else {
                let t = e.tag();
                open.push((e, t));
            }
            // content until the next start tag
            loop {
                if let Some(e) = done.take() {
                    match open.last_mut() {
                        None => return Ok(e),
                        Some(p) => p.0.kids.push(M::E(e)),
                    }
                }
                let r = self.rest();
                if r.starts_with("</") {
                    self.i += 2;
                    let (p, n) = self.qname()?;
                    let t = match p {
                        Some(p) => format!("{p}:{n}"),
                        None => n,
                    };
                    self.space();
                    self.lit(">")?;
                    let (e, want) = open.pop().unwrap();
                    if t != want {
                        return self.err(&format!("</{t}> closes <{want}>"));
                    }
                    done = Some(e);
                } else if r.starts_with("<!--") {
                    let t = self.comment()?;
                    open.last_mut().unwrap().0.kids.push(M::C(t));
                } else if r.starts_with("<![CDATA[") {
                    self.i += 9;
                    let t = self.through("]]>")?;
                    open.last_mut().unwrap().0.kids.push(M::D(t[..t.len() - 3].to_string()));
                } else if r.starts_with('<') {
                    break;
                } else {
                    let n = r.find('<').unwrap_or(r.len());
                    if n == 0 {
                        return self.err("unclosed element");
                    }
                    let t = r[..n].to_string();
                    if t.contains("]]>") && !self.lenient {
                        return self.err("\"]]>\" in text");
                    }
                    let t = self.decode(&t)?;
                    self.i += n;
                    let kids = &mut open.last_mut().unwrap().0.kids;
                    if let Some(M::T(a)) = kids.last_mut() {
                        a.push_str(&t)
                    } else {
                        kids.push(M::T(t))
                    }
                }
            }
        }
    }
}
