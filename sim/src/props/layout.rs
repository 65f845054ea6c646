//! C23: what is written is laid out by the content as it is then.
use crate::gen;
use crate::hist::*;
use crate::io::*;
use crate::model::*;
use crate::props::edit::{failing_sink, steps_wanted};
use crate::props::save::{any_indent, document, prolog_edit, INVALID_INDENTS};
use crate::rt::*;
use kiss_xml::dom::*;

enum Piece {
    /// white space, exactly
    Ws(String),
    /// these characters exactly
    Lit(String),
    /// a start tag (or the tag of an element without children)
    Start(String, bool),
    /// text, whichever way it is escaped
    Text(String),
}

fn lay(e: &ME, prefix: &str, ind: &str, inline: bool, out: &mut Vec<Piece>) {
    if !inline {
        out.push(Piece::Ws(prefix.into()));
    }
    let tag = e.tag();
    out.push(Piece::Start(tag.clone(), e.kids.is_empty()));
    if e.kids.is_empty() {
        return;
    }
    let leaf = |k: &M, out: &mut Vec<Piece>| match k {
        M::T(t) => out.push(Piece::Text(t.clone())),
        M::C(t) => out.push(Piece::Lit(format!("<!--{t}-->"))),
        M::D(t) => out.push(Piece::Lit(format!("<![CDATA[{t}]]>"))),
        M::E(_) => unreachable!(),
    };
    if e.kids.len() == 1 && !e.kids[0].is_elem() {
        leaf(&e.kids[0], out);
    } else {
        let inline = inline || e.kids.iter().any(|k| k.is_text());
        let inner = format!("{prefix}{ind}");
        let line = |out: &mut Vec<Piece>| {
            if !inline {
                out.push(Piece::Ws("\n".into()));
            }
        };
        line(out);
        for k in &e.kids {
            if let M::E(x) = k {
                lay(x, &inner, ind, inline, out);
            } else {
                if !inline {
                    out.push(Piece::Ws(inner.clone()));
                }
                leaf(k, out);
            }
            line(out);
        }
        if !inline {
            out.push(Piece::Ws(prefix.into()));
        }
    }
    out.push(Piece::Lit(format!("</{tag}>")));
}

fn plain_text(s: &str) -> String {
    s.replace("&lt;", "<").replace("&gt;", ">").replace("&quot;", "\"").replace("&apos;", "'").replace("&amp;", "&")
}

/// where the text departs from the layout
fn departs(text: &str, want: &[Piece], whole: bool) -> Option<String> {
    let mut rest = text;
    let mut i = 0;
    while i < want.len() {
        let at = |what: String| Some(format!("at byte {}: {what}, got {}", text.len() - rest.len(), short(rest)));
        match &want[i] {
            Piece::Ws(w) => {
                // all the white space at this place
                let mut all = w.clone();
                while let Some(Piece::Ws(w)) = want.get(i + 1) {
                    all.push_str(w);
                    i += 1;
                }
                let n = rest.len() - rest.trim_start_matches(|c: char| c.is_whitespace()).len();
                if rest[..n] != all {
                    return at(format!("expected the white space {all:?}"));
                }
                rest = &rest[n..];
            }
            Piece::Lit(l) => match rest.strip_prefix(l.as_str()) {
                Some(r) => rest = r,
                None => return at(format!("expected {}", short(l))),
            },
            Piece::Start(tag, empty) => {
                let Some(r) = rest.strip_prefix('<').and_then(|r| r.strip_prefix(tag.as_str())) else {
                    return at(format!("expected a tag <{}", short(tag)));
                };
                let mut quote = None;
                let mut end = None;
                for (k, c) in r.char_indices() {
                    match quote {
                        Some(q) if q == c => quote = None,
                        Some(_) => {}
                        None if c == '"' || c == '\'' => quote = Some(c),
                        None if c == '>' => {
                            end = Some(k);
                            break;
                        }
                        None => {}
                    }
                }
                let Some(k) = end else { return at(format!("the tag <{} does not end", short(tag))) };
                if !(r.starts_with('>') || r.starts_with('/') || r.starts_with(char::is_whitespace)) {
                    return at(format!("expected a tag <{}", short(tag)));
                }
                if r[..k].ends_with('/') != *empty {
                    return at(if *empty { format!("<{}> has no children and should be one tag", short(tag)) } else { format!("<{}> has children", short(tag)) });
                }
                rest = &r[k + 1..];
            }
            Piece::Text(t) => {
                // adjacent texts cannot be told apart
                let mut all = t.clone();
                while let Some(Piece::Text(t)) = want.get(i + 1) {
                    all.push_str(t);
                    i += 1;
                }
                let n = rest.find('<').unwrap_or(rest.len());
                if plain_text(&rest[..n]) != all {
                    return at(format!("expected the text {}", short(&all)));
                }
                rest = &rest[n..];
            }
        }
        i += 1;
    }
    if whole && !rest.trim_end_matches('\n').is_empty() || !whole && !rest.is_empty() {
        return Some(format!("there is more: {}", short(rest)));
    }
    None
}

fn effective(ind: &str) -> &str {
    if ind == "\t" || ind.chars().all(|c| c == ' ') {
        ind
    } else {
        "  "
    }
}

fn whole(d: &MDoc, ind: &str) -> Vec<Piece> {
    let mut v = vec![];
    if let Some(x) = &d.decl {
        v.push(Piece::Lit(format!("{x}\n")));
    }
    for x in &d.dtds {
        v.push(Piece::Lit(format!("{x}\n")));
    }
    lay(&d.root, "", effective(ind), false, &mut v);
    v
}

fn ragged() -> String {
    match draw(4) {
        0 => " ".repeat(range(5, 40) as usize),
        1 => format!("{}{}", pick(&["", " ", "\t"]), pick(INVALID_INDENTS)),
        _ => any_indent(),
    }
}

/// everything that writes, against the content as it is now
fn look(doc: &Document, when: &str) {
    let m = lib(|| extract(doc));
    let ind = ragged();
    let say = |x: String, ind: &str, text: &str| fail("layout", format!("{when}, with the indent {ind:?}: {x}; written: {}", short(text)));
    let (text, ind) = match draw(8) {
        0 => (lib(|| doc.to_string()), "  ".to_string()),
        1 => (lib(|| format!("{doc}")), "  ".to_string()),
        2 => (lib(|| format!("{doc:?}")), "  ".to_string()),
        3 => {
            let mut w = SimWriter::new(delivery(), SinkEnd::Never);
            let r = lib(|| doc.write_to_file_with_indent(&mut w, ind.as_str()));
            if let Err(e) = r {
                fail("spurious", format!("the sink never failed, but the write reports {e:?}"));
            }
            match String::from_utf8(w.got) {
                Ok(s) => (s, ind),
                Err(_) => fail("layout", format!("{when}: what was written is not UTF-8")),
            }
        }
        _ => (lib(|| doc.to_string_with_indent(ind.as_str())), ind),
    };
    ev("text", crate::choice::hash_str(&text));
    if let Some(x) = departs(&text, &whole(&m, &ind), true) {
        say(x, &ind, &text);
    }
    // any one element by itself starts at the margin
    if chance(1, 3) {
        let p = crate::gen::spot(&m.root);
        let e = lib(|| at_ref(doc.root_element(), &p));
        let ind = ragged();
        let (text, ind) = match draw(4) {
            0 => (lib(|| format!("{e}")), "  ".to_string()),
            1 => (lib(|| format!("{e:?}")), "  ".to_string()),
            2 => (lib(|| { let n: &dyn Node = e; n.to_string_with_indent(ind.as_str()) }), ind),
            _ => (lib(|| e.to_string_with_indent(ind.as_str())), ind),
        };
        let mut v = vec![];
        lay(m.root.at(&p), "", effective(&ind), false, &mut v);
        if let Some(x) = departs(&text, &v, false) {
            fail("layout", format!("{when}, the element at {p:?} alone, with the indent {ind:?}: {x}; written: {}", short(&text)));
        }
    }
}

pub fn c23() {
    let mut c = gen::cfg();
    if chance(1, 2) {
        // more mixed content and more leaves
        c.depth = c.depth.max(3);
    }
    let (mut doc, m) = document(&c);
    if let Some(x) = diff_doc(&m, &extract(&doc)) {
        fail("differs", format!("the starting document: {x}"));
    }
    look(&doc, "at the start");
    let o = opts();
    let mut changed = false;
    for _ in 0..steps_wanted() {
        let before = h(&extract(&doc).root);
        let what = draw(9);
        match what {
            8 => {
                let mut m = extract(&doc);
                prolog_edit(&mut doc, &mut m);
                if let Some(x) = diff_doc(&m, &extract(&doc)) {
                    fail("differs", format!("after an edit of the prolog: {x}"));
                }
                look(&doc, "after an edit of the prolog");
                changed = true;
            }
            0 => {
                note(|| "a write that fails".into());
                failing_sink(&doc);
                look(&doc, "after a failed write");
            }
            1 => {
                // through a restart
                let ind = ragged();
                note(|| format!("restart, written with {ind:?}"));
                let text = lib(|| doc.to_string_with_indent(ind.as_str()));
                let had = extract(&doc);
                match lib(|| kiss_xml::parse_str(text.as_str())) {
                    Ok(d) => doc = d,
                    Err(_) => continue, // C09's matter
                }
                if had.norm().root == extract(&doc).norm().root {
                    look(&doc, "after a restart");
                }
            }
            2 => {
                // the text that makes an element mixed comes and goes
                let paths = extract(&doc).root.paths();
                let p = pick(&paths).clone();
                note(|| format!("a text comes and goes in the element at {p:?}"));
                let model = extract(&doc).root;
                let n = model.at(&p).kids.len();
                if n == 0 || model.at(&p).kids.iter().any(|k| k.is_text()) {
                    continue;
                }
                let i = if chance(1, 2) { n } else { draw(n as u32 + 1) as usize };
                let e = lib(|| at(doc.root_element_mut(), &model, &p) as *mut Element);
                let r = lib(|| unsafe { &mut *e }.insert(i, Text::new("mixed")));
                check(r.is_ok(), "refused", || format!("insert at {i} of {n} was refused: {r:?}"));
                look(&doc, "after a text was added");
                let e = lib(|| at(doc.root_element_mut(), &model, &p) as *mut Element);
                let r = lib(|| unsafe { &mut *e }.remove(i));
                check(r.is_ok(), "refused", || format!("remove at {i} was refused: {:?}", r.err()));
                look(&doc, "after that text was removed again");
            }
            _ => {
                let root = lib(|| std::mem::take(doc.root_element_mut()));
                let m = extract_elem(&root);
                let mut t = Tree { real: root, m };
                step(&mut t, &c, &o);
                *lib(|| doc.root_element_mut()) = t.real;
                look(&doc, "after the last operation");
            }
        }
        if h(&extract(&doc).root) != before {
            changed = true;
        }
    }
    if changed {
        nontrivial();
    }
    note(|| format!("end: {}", plain(&extract(&doc).root)));
    sample(|| format!("ends as {}", plain(&extract(&doc).root)));
}
