//! C04: damaged input never crashes or hangs the reader.
use crate::hist::at_ref;
use crate::choice::hash_str;
use crate::driver::Probe;
use crate::gen;
use crate::io::*;
use crate::model::*;
use crate::props::read::*;
use crate::rt::*;
use kiss_xml::dom::*;
use std::collections::HashMap;

pub const HOSTILE: &[&str] = &[
    "<", ">", "/", "=", "\"", "'", "&", ";", "!", "?", "-", "[", "]", ":", "</", "/>", "<!", "<!-", "<!--", "<!-->", "<!--->", "<!---->", "-->", "--",
    "<![", "<![C", "<![CDATA[", "<![CDATA[]]>", "]]>", "]>", "<?", "<?>", "<??>", "<?xml", "<?xml?>", "<?xml version=\"1.0\"?>", "?>",
    "<?pi data?>", "<!DOCTYPE", "<!DOCTYPE>", "<!DOCTYPE x [", "<!DOCTYPE x [<!ENTITY a \">\">]>", "<!ELEMENT a>", "<>", "</>", "< >", "< a>", "<a/ >",
    "<a b>", "<a b=c>", "<a =\"v\">", "<a b=\"v\"c=\"w\">", "<a b=\"v\" b=\"w\"/>", "<a b='\"'/>", "<a b=\"<\"/>", "<a b=\"é\" c='日本'/>", "<é>", "<é/>",
    "<a é='1'/>", "<:a/>", "<a:/>", "<a:b:c/>", "<p:a/>", "<a xmlns/>", "<a xmlns=\"\"/>", "<a xmlns:=\"u\"/>", "<a xmlns:p=\"\"/>", "<a :x=\"1\"/>", "<a x:=\"1\"/>",
    "&;", "&&", "&#;", "&#x;", "&#xD800;", "&#d800;", "&#110000;", "&#ffffffffff;", "&#x1F980;", "&#1F980;", "&#é;", "&amp", "&ampé;", "&é", "&日本語日本語;", "&lt;&", "&quot",
    "\u{0}", "\u{1}", "\u{7f}", "\u{85}", "\u{a0}", "\u{2028}", "\u{feff}", "\u{fffd}", "é", "日本語", "🦀", "e\u{301}", "\u{10ffff}", "\r", "\r\n", "\n", "\t", " ",
    "<a>", "</a>", "<a/>", "<b></b>", "</b>", "</a >", "</a b=\"c\">", "</ a>", "<a\n/>", "<a\u{a0}b=\"c\"/>", "<!-- é -- é -->", "<![CDATA[é]]]]>",
];

/// text damaged at character and token level
pub fn damage(a: &crate::enc::Enc, b: &crate::enc::Enc) -> String {
    let mut s = a.text.clone();
    let n = range(1, 6);
    for _ in 0..n {
        span(|| {
            let len = s.len() as u32;
            let place = |s: &str| {
                let mut k = draw(len + 1) as usize;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                k
            };
            let at = place(&s);
            let next = |s: &str, k: usize, n: u32| {
                let mut it = s[k..].char_indices().skip(n as usize);
                it.next().map_or(s.len(), |x| k + x.0)
            };
            let k = draw(14);
            match k {
                0 => {
                    // a flipped bit
                    if let Some(c) = s[at..].chars().next() {
                        let x = char::from_u32(c as u32 ^ (1 << draw(if c.is_ascii() { 7 } else { 12 }))).unwrap_or('\u{fffd}');
                        s.replace_range(at..at + c.len_utf8(), &x.to_string());
                    }
                    count("fault:flip");
                }
                1 | 2 => {
                    let e = next(&s, at, 1 + small(40));
                    s.replace_range(at..e, "");
                    count("fault:loss");
                }
                3 => {
                    let e = next(&s, at, 1 + small(60));
                    let x = s[at..e].to_string();
                    let to = place(&s);
                    s.insert_str(to, &x);
                    count("fault:duplication");
                }
                4 => {
                    // a piece moves elsewhere
                    let e = next(&s, at, 1 + small(60));
                    let x = s[at..e].to_string();
                    s.replace_range(at..e, "");
                    let mut to = draw(s.len() as u32 + 1) as usize;
                    while !s.is_char_boundary(to) {
                        to -= 1;
                    }
                    s.insert_str(to, &x);
                    count("fault:reorder");
                }
                5..=8 => {
                    let f = *pick(HOSTILE);
                    s.insert_str(at, f);
                    count("fault:hostile");
                }
                9 => {
                    // a mark is replaced
                    let marks: Vec<usize> = s.char_indices().filter(|x| "<>/=\"'&;!?-[]:".contains(x.1)).map(|x| x.0).collect();
                    if !marks.is_empty() {
                        let m = *pick(&marks);
                        let f = *pick(HOSTILE);
                        s.replace_range(m..m + 1, f);
                    }
                    count("fault:hostile");
                }
                10 => {
                    // a piece of another document
                    let t = &b.toks[draw(b.toks.len() as u32) as usize];
                    s.insert_str(at, &b.text[t.0..t.1]);
                    count("fault:splice");
                }
                11 => {
                    s.truncate(at);
                    count("fault:truncated");
                }
                12 => {
                    let mut f = pick(HOSTILE).to_string();
                    if chance(1, 2) {
                        f.push_str(pick(HOSTILE));
                    }
                    let m = *pick(&[2u32, 3, 10, 100, 400]);
                    s.insert_str(at, &f.repeat(m as usize));
                    count("fault:burst");
                }
                _ => {
                    // whole tokens are lost, repeated or exchanged
                    let mut toks: Vec<&str> = a.toks.iter().map(|t| &a.text[t.0..t.1]).collect();
                    for _ in 0..range(1, 4) {
                        if toks.is_empty() {
                            break;
                        }
                        let i = draw(toks.len() as u32) as usize;
                        let j = draw(toks.len() as u32) as usize;
                        match draw(3) {
                            0 => {
                                toks.remove(i);
                            }
                            1 => {
                                let x = toks[i];
                                toks.insert(j, x)
                            }
                            _ => toks.swap(i, j),
                        }
                    }
                    s = toks.concat();
                    count("fault:token");
                }
            }
        });
    }
    s
}

const INDENTS: &[&str] = &["  ", "\t", "", "x", "\u{a0}", "\n", " \t é", "<", "   "];

/// everything a caller might do with a document it was given
pub fn exercise(doc: Document) {
    span(|| {
        count("exercised");
        let ind = *pick(INDENTS);
        let s = lib(|| doc.to_string_with_indent(ind));
        if chance(1, 2) {
            let mut w = SimWriter::new(delivery(), if chance(1, 4) { SinkEnd::Full { at: s.len() / 2 } } else { SinkEnd::Never });
            let _ = lib(|| doc.write_to_file_with_indent(&mut w, ind));
        }
        lib(|| {
            let copy = Document::new(doc.root_element().clone());
            let _ = copy == doc;
            let _ = format!("{doc:?}").len();
            let _ = doc.declaration().as_ref().map(|d| d.to_string());
            let _ = doc.doctype_defs().map(|d| d.to_string().len()).sum::<usize>();
        });
        let m = extract_elem(lib(|| doc.root_element()));
        lib(|| {
            let r = doc.root_element();
            let mut n = 0;
            for k in r.children_recursive() {
                n += k.text().len() + k.to_string().len();
                let c = clone_node(k);
                let _ = node_eq(k, &c);
                if k.is_element() {
                    let e = k.as_element().expect("element");
                    let _ = (e.name(), e.namespace(), e.default_namespace(), e.tag_name(), e.namespace_prefix(), e.namespace_prefixes());
                    n += e.attributes().len() + e.child_elements().count();
                    n += e.elements_by_namespace(e.namespace().as_deref()).count();
                    n += e.elements_by_namespace_prefix(e.namespace_prefix().as_deref()).count();
                    n += e.elements_by_name(e.name()).count();
                    let _ = e.first_element_by_name(e.name());
                }
                if n > 300_000 {
                    break;
                }
            }
            let _ = (r.text(), r.search_elements_by_name("a").count(), r.search(|n| n.is_text()).count());
            let _ = (r.search_text(|t| t.content.contains('é')).count(), r.search_comments(|_| true).count(), r.search_elements(|e| e.get_attr("k").is_some()).count());
        });
        // edits
        let mut doc = doc;
        let c = gen::cfg();
        let paths = m.paths();
        for _ in 0..range(1, 6) {
            let p = pick(&paths).clone();
            let v = pick(HOSTILE).to_string();
            let name = gen::name(&c);
            let i = draw(6) as usize;
            let k = draw(14);
            let salt = draw(5) as usize;
            lib(|| {
                // the path may be gone by now
                let mut e = doc.root_element_mut();
                for i in &p {
                    if !e.children().nth(*i).is_some_and(|n| n.is_element()) {
                        break;
                    }
                    e = e.children_mut().nth(*i).expect("child").as_element_mut().expect("element");
                }
                match k {
                    0 => e.append(Text::new(v.as_str())),
                    1 => {
                        let _ = e.insert(i, Text::new(v.as_str()));
                    }
                    2 => {
                        let _ = e.remove(i);
                    }
                    3 => {
                        let _ = e.remove_element(i);
                    }
                    4 => e.set_text(v.as_str()),
                    5 => {
                        let _ = e.set_attr(v.as_str(), v.as_str());
                    }
                    6 => {
                        let k = e.attributes().keys().min().cloned();
                        if let Some(k) = k {
                            let _ = e.remove_attr(k);
                        }
                    }
                    7 => {
                        e.remove_all(&|n| n.text().len() % 5 == salt);
                    }
                    8 => {
                        e.remove_all_elements(|x| x.attributes().len() % 3 == salt);
                    }
                    9 => {
                        if let Ok(x) = Element::new_with_text(&name, v.as_str()) {
                            e.append(x);
                        }
                    }
                    10 => {
                        let x = e.clone();
                        e.append(x);
                    }
                    11 => {
                        if let Ok(x) = Comment::new(v.as_str()) {
                            e.append(x);
                        }
                        if let Ok(x) = CData::new(v.as_str()) {
                            let _ = e.insert(i, x);
                        }
                    }
                    12 => {
                        let a: HashMap<String, String> = [(v.clone(), v.clone())].into();
                        if let Ok(x) = Element::new_with_attributes(&v, a) {
                            e.append(x);
                        }
                        let _ = (Declaration::from_str(&v).map(|d| d.to_string()), DTD::from_string(v.as_str()).map(|d| d.to_string()));
                    }
                    _ => {
                        e.remove_by(&|n| n.is_comment() || n.text().len() % 5 == salt);
                        e.clear_attributes();
                    }
                }
            });
        }
        let ind = *pick(INDENTS);
        if chance(1, 3) {
            let p = gen::spot(&extract_elem(doc.root_element()));
            lib(|| at_ref(doc.root_element(), &p).to_string_with_indent(ind).len());
        }
        let s = lib(|| doc.to_string_with_indent(ind));
        lib(|| {
            let _ = kiss_xml::parse_str(s.as_str());
            let _ = (kiss_xml::unescape(s.as_str()).len(), kiss_xml::escape(s.as_str()).len(), kiss_xml::text_escape(s.as_str()).len(), kiss_xml::attribute_escape(s.as_str()).len());
            drop(doc);
        });
    });
}

pub fn broken_stderr() {
    span(|| {
        cx().stderr.errno = 0;
        cx().stderr.short = false;
        match draw(4) {
            0 => {
                cx().stderr.errno = *pick(&[libc::EPIPE, libc::EIO, libc::EBADF, libc::EAGAIN, libc::ENOSPC]);
                cx().stderr.after = draw(4) as u64;
                count("fault:stderr_broken");
            }
            1 => {
                cx().stderr.short = true;
                count("fault:stderr_short");
            }
            _ => {}
        }
    })
}

pub fn c04() {
    for _ in 0..range(1, 3) {
        span(|| {
            let (_, a) = make();
            let b = if chance(1, 3) { make().1 } else { a.clone() };
            let s = damage(&a, &b);
            broken_stderr();
            nontrivial();
            ev("dam", hash_str(&s));
            note(|| format!("delivered: {s:?}"));
            sample(|| format!("delivered: {s:?}"));
            // bytes damaged below the level of characters
            let r = if chance(1, 8) {
                let mut v = s.clone().into_bytes();
                for _ in 0..range(1, 3) {
                    if v.is_empty() {
                        break;
                    }
                    let i = draw(v.len() as u32) as usize;
                    match draw(3) {
                        0 => v[i] ^= 1 << draw(8),
                        1 => {
                            v.remove(i);
                        }
                        _ => v.insert(i, draw(256) as u8),
                    }
                }
                count("fault:byte_damage");
                deliver(&v)
            } else {
                deliver(s.as_bytes())
            };
            match r {
                Err(e) => {
                    ev("rej", 1);
                    // an error can be shown
                    let t = lib(|| format!("{e} {e:?}"));
                    check(!t.is_empty(), "error", || "an error that says nothing".into());
                }
                Ok(d) => {
                    ev("acc", 1);
                    count("accepted");
                    exercise(d);
                }
            }
            cx().stderr.errno = 0;
            cx().stderr.short = false;
        });
    }
}

/// runs f in a process of its own; false if that process died
fn survives(f: impl FnOnce()) -> bool {
    unsafe {
        let pid = libc::fork();
        if pid == 0 {
            let nul = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
            libc::dup2(nul, 2);
            let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &lim);
            libc::alarm(60);
            let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_ok();
            libc::_exit(if ok { 0 } else { 1 });
        }
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        let ok = libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0;
        if std::env::var_os("KXSIM_BT").is_some() {
            eprintln!("probe ended with status {st:#x}");
        }
        ok
    }
}

fn nested(n: usize) -> bool {
    survives(|| {
        let s = "<a>".repeat(n) + &"</a>".repeat(n);
        let h = std::thread::Builder::new().stack_size(2 << 20).spawn(move || {
            if let Ok(d) = kiss_xml::parse_str(s.as_str()) {
                let _ = d.to_string_with_indent("").len();
                let _ = (d.root_element().clone() == *d.root_element(), d.root_element().text().len());
            }
        });
        if h.unwrap().join().is_err() {
            panic!();
        }
    })
}
/// nesting: ordinary depth must work; a depth no stack of recursive calls allows is a known finding
pub fn probes() -> Vec<Probe> {
    vec![
        Probe {
            key: "nesting-600",
            what: "reading and using a document with 600 nested elements on a thread with the usual 2 MiB of stack does not survive".into(),
            failed: !nested(600),
        },
        Probe {
            key: "deep-nesting",
            what: "reading a document with 200000 nested elements overflows the stack and aborts the process".into(),
            failed: !nested(200_000),
        },
    ]
}

// ---------------------------------------------------------------- C25

const STRAY: &[&str] = &[
    "a", "b", "x", "Z", "0", "7", "_", "-", ".", ":", " ", "\n", "\t", "<", ">", "/", "=", "\"", "'", "&", ";", "!", "?", "[", "]", "#", "é", "中", "\u{a0}", "\u{301}", "🦀", "\r",
    "&amp;", "&lt;", "=\"", "' ", "/>", "</", "-->", "]]>", "&nbsp;", "&AMP;", "&copy;", "&lt", "&é;", "&Gt;", "<!--", "x=\"y\"", " k='v' ",
];

/// a few characters from this byte on are lost, changed, added or exchanged
fn stray(s: &mut String, from: usize) {
    span(|| {
        let keep = s[..from].to_string();
        let mut v: Vec<char> = s[from..].chars().collect();
        if v.is_empty() {
            return;
        }
        let n = v.len() as u32;
        // half of the changes in or next to markup
        let marks: Vec<usize> = (0..v.len()).filter(|i| "<>/=\"'&;!?-[]: ".contains(v[*i])).collect();
        let i = if chance(1, 2) && !marks.is_empty() {
            let k = *pick(&marks) as i64 + draw(3) as i64 - 1;
            k.clamp(0, n as i64 - 1) as usize
        } else {
            draw(n) as usize
        };
        match draw(7) {
            0 | 1 => {
                v.remove(i);
                count("fault:lost_char");
            }
            2 => {
                let c: Vec<char> = pick(STRAY).chars().collect();
                v[i] = c[0];
                count("fault:changed_char");
            }
            3 => {
                for (k, c) in pick(STRAY).chars().enumerate() {
                    v.insert(i + k, c);
                }
                count("fault:added_char");
            }
            4 => {
                let c = v[i];
                v.insert(i, c);
                count("fault:doubled_char");
            }
            5 => {
                let j = if chance(1, 2) { (i + 1).min(v.len() - 1) } else { draw(n) as usize };
                v.swap(i, j);
                count("fault:swapped_chars");
            }
            _ => {
                let b = 1u32 << draw(7);
                v[i] = char::from_u32(v[i] as u32 ^ b).unwrap_or('?');
                count("fault:flipped_bit");
            }
        }
        *s = keep + &v.into_iter().collect::<String>();
    })
}
/// is there an element or attribute name with colons the library has views of its own about?
fn odd_names(e: &ME) -> bool {
    e.prefix.as_deref() == Some("xmlns") || e.kids.iter().any(|k| matches!(k, M::E(x) if odd_names(x)))
}

pub fn c25() {
    let (d, a) = make();
    let dtds = d.dtds;
    for _ in 0..range(1, 4) {
        span(|| {
            let mut s = a.text.clone();
            let anywhere = chance(1, 5);
            let from = if anywhere { 0 } else { a.root_start };
            for _ in 0..range(1, 3) {
                stray(&mut s, from);
            }
            if s != a.text {
                nontrivial();
            }
            ev("chars", hash_str(&s));
            note(|| format!("arrives: {s:?}"));
            sample(|| format!("arrives: {s:?}"));
            let strict = crate::xmlread::read_as(&s, true);
            // (the reader does not look into DTDs, so what is damaged there is not judged;
            // neither are numeric references, which the library documents in a way of its own)
            if strict.as_ref().is_ok_and(|w| w.numeric || !w.doc.dtds.iter().all(|d| dtds.contains(d))) {
                count("not_judged");
                return;
            }
            let r = deliver(s.as_bytes());
            match (strict, r) {
                (Err(x), Err(_)) => {
                    ev("refused", 0);
                    let _ = x;
                    count("refused")
                }
                (Err(x), Ok(d)) => {
                    // what was damaged before the root is not looked into, nor a root tag that has
                    // become a declaration of some kind
                    let other_kind = s.get(from..).is_some_and(|x| x.trim_start().starts_with("<!") || x.trim_start().starts_with("<?"));
                    if anywhere || other_kind {
                        count("not_judged");
                        return;
                    }
                    match crate::xmlread::read_tolerant(&s) {
                        Err(_) => {
                            let got = lib(|| d.root_element().to_string());
                            fail("accepted", format!("what arrived is not a document ({x}) but was taken for {}; it was {}", short(&got), short(&s)))
                        }
                        Ok(w) if w.numeric || odd_names(&w.doc.root) => count("not_judged"),
                        Ok(w) => {
                            count("liberties");
                            if let Some(m) = diff_doc(&w.doc.norm(), &extract(&d)) {
                                fail("differs", format!("{m}; arrived {}", short(&s)));
                            }
                        }
                    }
                }
                (Ok(w), Ok(d)) => {
                    count("still_a_document");
                    if let Some(m) = diff_doc(&w.doc.norm(), &extract(&d)) {
                        fail("differs", format!("{m}; arrived {}", short(&s)));
                    }
                }
                (Ok(w), Err(x)) => {
                    // a prefix may have lost its declaration
                    if crate::hist::all_bound(&w.doc.root) {
                        fail("refused", format!("what arrived is a valid document but was refused: {x}; arrived {}", short(&s)));
                    }
                    count("unbound");
                }
            }
        });
    }
}
