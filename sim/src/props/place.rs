//! C28: a refusal names the place of the tag or text it is about.
use crate::choice::hash_str;
use crate::enc::*;
use crate::model::*;
use crate::props::read::{deliver, make};
use crate::rt::*;
use kiss_xml::errors::KissXmlError;

/// tags that are wrong wherever they stand inside the root element
const BAD_TAGS: &[&str] = &[
    "<1a/>",
    "<1a>",
    "<-x/>",
    "<a b/>",
    "<a b>",
    "<a b=/>",
    "<a b=1/>",
    "<a b=1>",
    "<a k='1' b/>",
    "<a\n b/>",
    "<a\n  k='1'\n  b=2\n/>",
    "<a b='1' b='2'/>",
    "<a b='1' c='é' b=\"1\">",
    "<a b='1'c='2'/>",
    "<a b=\"1\"c=\"2\">",
    "<a 'b'='1'/>",
    "<a =\"1\"/>",
    "<a 1b='1'/>",
    "<é b/>",
    "<a日本語 b=本/>",
    "<a&b/>",
    "</>",
    "<>",
    "< a/>",
    "< >",
    "<!FOO>",
    "<!FOO bar 'baz'>",
    "<!DOCTYPE a>",
    "<!DOCTYPE a\n [<!ELEMENT a ANY>]>",
    "<!ELEMENT a ANY>",
    "<![INCLUDE[x]]>",
    "</nobody>",
    "</nobody >",
    "</é日本>",
    "</nobody\n>",
    "<?php x ?>",
    "<?xml version='1.0'?>",
    "<?a?>",
];
/// tags after which nothing is well
const ENDLESS: &[&str] = &["<a", "<a ", "<a b='1'", "<a\n", "<", "</", "</a", "<!--", "<!-- é\n -", "<!-- --", "<![CDATA[", "<![CDATA[x]]", "<!DOCTYPE a [", "<?x", "<a b='", "<a b=\"é>\n"];
/// tags that are wrong outside the root element
const BAD_OUTSIDE: &[&str] = &["</a>", "</nobody\n>", "<1a/>", "<a b/>", "<a b=1>", "<a\n b='1'c='2'/>", "<>", "< a>", "</>", "<?xml version='1.0'?>"];
const BAD_AFTER: &[&str] = &["<a/>", "<a>", "</a>", "<a k='1'\n/>", "<é/>", "</nobody>", "<![CDATA[x]]>", "<![CDATA[]]>", "<!DOCTYPE a>", "<!FOO>", "<a b/>", "<1>", "<a></a>"];
const STRAY: &[&str] = &["x", "text", "é\n", "日本\n語", "&amp;", "&", ">", "]]>", "x y", "\u{feff}", "-->", "/>"];

/// white space before the culprit; the last few are text to XML and white space to Rust, and what they are is left open
const GAPS: &[&str] = &["", "", "", "\n", "\n", " ", " ", "\r\n", "\n\t\n ", "\n\t\n ", "\u{3000}", "\u{a0}\u{2003} \n", "\u{2028}\u{85}"];

/// every place a text names
pub fn places(s: &str) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut rest = s;
    while let Some(i) = rest.find("line ") {
        rest = &rest[i + 5..];
        let d = rest.bytes().take_while(u8::is_ascii_digit).count();
        let Some(c) = rest[d..].strip_prefix(", column ") else { continue };
        let e = c.bytes().take_while(u8::is_ascii_digit).count();
        if let (Ok(l), Ok(c)) = (rest[..d].parse(), c[..e].parse()) {
            v.push((l, c));
        }
    }
    v
}
/// counted from 1; only line feeds end lines
pub fn place(s: &str, at: usize) -> (usize, usize) {
    let head = &s[..at];
    let line = head.rfind('\n').map_or(0, |i| i + 1);
    (1 + head.matches('\n').count(), 1 + head[line..].chars().count())
}

/// any damage at all: the places named lie in the message, and move with it
fn moved() {
    let (_, a) = make();
    let (_, b) = make();
    let x = crate::props::damage::damage(&a, &b);
    ev("sent", hash_str(&x));
    note(|| format!("sent {x:?}"));
    sample(|| format!("sent {x:?}"));
    let lines: Vec<usize> = x.split('\n').map(|l| l.chars().count()).collect();
    let Err(e) = deliver(x.as_bytes()) else { return };
    let s = lib(|| e.to_string());
    let got = places(&s);
    for (l, c) in &got {
        check(*l >= 1 && *l <= lines.len() && *c >= 1 && *c <= lines[l - 1] + 1, "nowhere", || format!("the error names a place that is not in the message of {} lines: {s:?}; sent {}", lines.len(), short(&x)));
    }
    ev("places", got.len() as u64);
    if got.is_empty() {
        return;
    }
    nontrivial();
    count("places_checked");
    let (n, m) = (draw(5) as usize, draw(20) as usize);
    if x.trim_start().starts_with("<?xml") && n + m == 0 || x.starts_with('\u{feff}') {
        return;
    }
    let y = format!("{}{}{x}", "\n".repeat(n), " ".repeat(m));
    let Err(f) = deliver(y.as_bytes()) else {
        fail("accepted", format!("a message was refused, and accepted with white space before it: {}", short(&x)));
    };
    let t = lib(|| f.to_string());
    let want: Vec<(usize, usize)> = got.iter().map(|(l, c)| (l + n, if *l == 1 { c + m } else { *c })).collect();
    check(places(&t) == want, "elsewhere", || format!("the error is {s:?}, and with {n} empty lines and {m} spaces before the message {t:?}; sent {}", short(&x)));
}

pub fn c28() {
    if chance(1, 4) {
        return moved();
    }
    let (_, e) = make();
    let mut text = e.text.clone();
    // (what, where the culprit begins)
    let (what, at) = span(|| {
        let inside = |toks: &[(usize, usize, Tok)]| -> Vec<usize> { toks.iter().filter(|t| t.0 > e.root_start && t.0 < e.root_end).map(|t| t.0).collect() };
        let closes: Vec<(usize, usize)> = e.toks.iter().filter(|t| t.2 == Tok::Close).map(|t| (t.0, t.1)).collect();
        match draw(12) {
            0..=4 => {
                let v = inside(&e.toks);
                if v.is_empty() {
                    let x = *pick(BAD_AFTER);
                    text.insert_str(e.root_end, x);
                    return (format!("{x:?} after the root element"), e.root_end);
                }
                let at = *pick(&v);
                let x = *pick(BAD_TAGS);
                text.insert_str(at, x);
                (format!("{x:?} inserted"), at)
            }
            5 | 6 => {
                // the message ends inside a tag
                let v: Vec<usize> = inside(&e.toks).into_iter().chain([e.root_start, e.root_end]).collect();
                let at = *pick(&v);
                let x = *pick(ENDLESS);
                text.truncate(at);
                text.push_str(x);
                (format!("cut and {x:?} appended"), at)
            }
            7 if !closes.is_empty() => {
                let (a, b) = *pick(&closes);
                let x = match draw(3) {
                    0 => "</nobody>".to_string(),
                    1 => format!("</x{}", &e.text[a + 2..b]),
                    _ => format!("{}/>", &e.text[a..b - 1]),
                };
                text.replace_range(a..b, &x);
                count("fault:wrong_close");
                (format!("{:?} replaced with {x:?}", &e.text[a..b]), a)
            }
            7 | 8 if chance(1, 3) => {
                // a tag that runs into the next one
                let v: Vec<usize> = e.toks.iter().filter(|t| t.0 > e.root_start && t.0 < e.root_end && e.text[t.0..].starts_with('<')).map(|t| t.0).collect();
                let at = if v.is_empty() { e.root_start } else { *pick(&v) };
                let x = *pick(&["<", "<a ", "<a\n", "</", "</a ", "<é k='1' ", "<a k=\"\n\"", "</é\n"]);
                text.insert_str(at, x);
                (format!("{x:?} and the next tag run together"), at)
            }
            8 => {
                let v: Vec<usize> = e.toks.iter().filter(|t| t.0 <= e.root_start && t.2 != Tok::Decl).map(|t| t.0).collect();
                let at = *pick(&v);
                let x = *pick(BAD_OUTSIDE);
                if text[..at].trim().is_empty() && x.starts_with("<?xml") {
                    // that is where it belongs
                    text.insert_str(e.root_start, x);
                    text.insert_str(e.root_start, "<!DOCTYPE a>");
                    return (format!("{x:?} after a DTD"), e.root_start + 12);
                }
                text.insert_str(at, x);
                (format!("{x:?} before the root element"), at)
            }
            9 => {
                let x = *pick(BAD_AFTER);
                let g = *pick(GAPS);
                text.insert_str(e.root_end, x);
                text.insert_str(e.root_end, g);
                (format!("{x:?} after the root element"), e.root_end + g.len())
            }
            10 => {
                let v: Vec<usize> = e.toks.iter().filter(|t| t.0 <= e.root_start).map(|t| t.0).collect();
                let at = *pick(&v);
                let x = *pick(STRAY);
                let g = *pick(GAPS);
                text.insert_str(at, x);
                text.insert_str(at, g);
                (format!("{x:?} before the root element"), at + g.len())
            }
            _ => {
                let x = *pick(STRAY);
                let g = *pick(GAPS);
                text.insert_str(e.root_end, x);
                text.insert_str(e.root_end, g);
                (format!("{x:?} after the root element"), e.root_end + g.len())
            }
        }
    });
    // white space to Rust only: the culprit may as well be that
    let blank = text[..at].len() - text[..at].trim_end().len();
    let odd = text[at - blank..at].find(|c: char| !c.is_ascii()).map_or(0, |i| blank - i);
    let gap = if what.ends_with("the root element") { odd } else { 0 };
    // white space before it counts as well, when nothing has to come first
    let mut at = at;
    if !text.starts_with("<?xml") && chance(1, 3) {
        let g = "\n".repeat(draw(4) as usize) + &" ".repeat(draw(30) as usize);
        text.insert_str(0, &g);
        at += g.len();
    }
    ev("sent", hash_str(&text));
    note(|| format!("{what}; sent {text:?}"));
    sample(|| format!("{what}; sent {text:?}"));
    let want = place(&text, at);
    nontrivial();
    match deliver(text.as_bytes()) {
        Ok(_) => fail("accepted", format!("{what}, and the message was accepted: {}", short(&text))),
        Err(KissXmlError::IOError(e)) => fail("io", format!("{what}, and the error is {e:?}")),
        Err(x) => {
            let s = lib(|| x.to_string());
            let got = places(&s);
            ev("place", got.first().map_or(0, |p| (p.0 as u64) << 32 | p.1 as u64));
            // the error for a name that is none (which came out of two tags) is another one
            let other = what.ends_with("run together") && matches!(x, KissXmlError::InvalidElementName(_) | KissXmlError::InvalidAttributeName(_));
            check(!got.is_empty() || other, "nowhere", || format!("{what} at line {}, column {}, but the error names no place: {s:?}; sent {}", want.0, want.1, short(&text)));
            let or = place(&text, at - gap);
            check(got.iter().all(|g| *g == want || *g == or), "elsewhere", || format!("{what} at line {}, column {}, but the error says {s:?}; sent {}", want.0, want.1, short(&text)));
        }
    }
}
