//! The sender: writes a model document as XML in one of the spellings the
//! supported subset allows. Independent of the library's serialiser.
use crate::model::*;
use crate::rt::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tok {
    Decl,
    Dtd,
    Space,
    Open,
    SelfClose,
    Close,
    Text,
    Comment,
    CData,
}

#[derive(Clone, Debug, Default)]
pub struct Enc {
    pub text: String,
    pub toks: Vec<(usize, usize, Tok)>,
    pub root_start: usize,
    /// just after the tag that closes the root element
    pub root_end: usize,
}

#[derive(Clone, Copy)]
pub struct Style {
    /// 0 = always the plain spelling
    pub wild: u32,
    pub pretty: bool,
}

struct W {
    o: Enc,
    st: Style,
}

pub fn style() -> Style {
    span(|| Style { wild: draw(4), pretty: chance(1, 2) })
}

pub fn encode(d: &MDoc, st: Style) -> Enc {
    let mut w = W { o: Enc::default(), st };
    span(|| {
        if let Some(x) = &d.decl {
            w.tok(Tok::Decl, x);
            w.gap();
        } else {
            w.gap_sp();
        }
        w.prolog_comment();
        for x in &d.dtds {
            w.tok(Tok::Dtd, x);
            w.gap();
            w.prolog_comment();
        }
        w.o.root_start = w.o.text.len();
        w.elem(&d.root, 0);
        w.o.root_end = w.o.text.len();
        w.gap();
        w.prolog_comment();
    });
    w.o
}

impl W {
    fn wild(&self) -> bool {
        self.st.wild > 0 && chance(self.st.wild, 6)
    }
    fn tok(&mut self, k: Tok, s: &str) {
        let a = self.o.text.len();
        self.o.text.push_str(s);
        self.o.toks.push((a, self.o.text.len(), k));
    }
    fn gap(&mut self) {
        if self.st.pretty || self.wild() {
            let s = if self.wild() { *pick(&[" ", "\n", "\t", "\r\n", "\n\n  ", " \t\n"]) } else { "\n" };
            self.tok(Tok::Space, s);
        }
    }
    fn gap_sp(&mut self) {
        if self.wild() {
            let s = *pick(&["\n", " ", "\r\n", "\t"]);
            self.tok(Tok::Space, s);
        }
    }
    fn prolog_comment(&mut self) {
        if self.st.wild > 1 && chance(1, 12) {
            let s = *pick(&["<!-- c -->", "<!---->", "<!-- <a> & 'b -->", "<!-- a long comment about nothing: éüö日本語 日本語 日本語 日本語-->"]);
            self.tok(Tok::Comment, s);
            self.gap();
        }
    }
    fn sp(&mut self, s: &mut String, min: bool) {
        if self.wild() {
            s.push_str(pick(&[" ", "  ", "\n", "\t", " \n\t", "\r\n"]));
        } else if min {
            s.push(' ');
        }
    }
    fn esc(&mut self, t: &str, quote: Option<char>) -> String {
        let mut o = String::new();
        for c in t.chars() {
            match c {
                '&' => o.push_str("&amp;"),
                '<' => o.push_str("&lt;"),
                '>' => {
                    // "]]>" must not appear in text
                    if (quote.is_none() && o.ends_with("]]")) || !self.wild() {
                        o.push_str("&gt;")
                    } else {
                        o.push('>')
                    }
                }
                '"' | '\'' => {
                    let must = quote == Some(c);
                    if must || self.wild() {
                        o.push_str(if c == '"' { "&quot;" } else { "&apos;" })
                    } else {
                        o.push(c)
                    }
                }
                c => o.push(c),
            }
        }
        o
    }
    fn elem(&mut self, e: &ME, depth: usize) {
        let mut s = format!("<{}", e.tag());
        // any order of attributes
        let mut order: Vec<(&String, &String)> = e.attrs.iter().collect();
        for i in (1..order.len()).rev() {
            if self.st.wild > 0 {
                let j = draw(i as u32 + 1) as usize;
                order.swap(i, i - j);
            }
        }
        for (k, v) in order {
            self.sp(&mut s, true);
            s.push_str(k);
            self.sp(&mut s, false);
            s.push('=');
            self.sp(&mut s, false);
            let q = if self.wild() { '\'' } else { '"' };
            s.push(q);
            let x = self.esc(v, Some(q));
            s.push_str(&x);
            s.push(q);
        }
        self.sp(&mut s, false);
        let has_text = e.kids.iter().any(|k| k.is_text());
        if e.kids.is_empty() && !self.wild() {
            s.push_str("/>");
            self.tok(Tok::SelfClose, &s);
            return;
        }
        s.push('>');
        self.tok(Tok::Open, &s);
        for k in &e.kids {
            if !has_text {
                self.between(depth + 1);
            }
            match k {
                M::E(c) => self.elem(c, depth + 1),
                M::T(t) => {
                    let x = self.esc(t, None);
                    self.tok(Tok::Text, &x);
                }
                M::C(t) => {
                    let x = format!("<!--{t}-->");
                    self.tok(Tok::Comment, &x);
                }
                M::D(t) => {
                    let x = format!("<![CDATA[{t}]]>");
                    self.tok(Tok::CData, &x);
                }
            }
        }
        if !has_text {
            self.between(depth);
        }
        let mut s = format!("</{}", e.tag());
        self.sp(&mut s, false);
        s.push('>');
        self.tok(Tok::Close, &s);
    }
    fn between(&mut self, depth: usize) {
        if self.wild() {
            let s = *pick(&[" ", "\n", "\t", "\r\n\r\n", "    ", "\n \n"]);
            self.tok(Tok::Space, s);
        } else if self.st.pretty {
            let s = format!("\n{}", "  ".repeat(depth));
            self.tok(Tok::Space, &s);
        }
    }
}
