//! C26: what calls cost is in proportion to what they are given.
use crate::alloc::Ledger;
use crate::choice::hash_str;
use crate::io::*;
use crate::props::damage::HOSTILE;
use crate::props::read::*;
use crate::rt::*;
use kiss_xml::dom::*;

/// bytes held at once per byte of data, and a constant
const PEAK: usize = 400;
const PEAK_CONST: usize = 1 << 20;
/// bytes allocated altogether per byte of data, by reading and by other calls,
/// and a constant (patterns may be compiled a few times)
const WORK: usize = 5000;
const WORK_REST: usize = 1200;
const WORK_CONST: usize = 8 << 20;
/// calls that compile no pattern and build little
const WORK_LITTLE: &[(&str, usize)] = &[("gathering the text", 200), ("removing", 200), ("searching", 700), ("copying", 800), ("comparing", 800)];
const WORK_LITTLE_CONST: usize = 2 << 20;

/// what a place in a list of children may take each time the list is made
const LIST_ENTRY: usize = 64;

fn judge(what: &str, l: &Ledger, size: usize, shape: &str, reads: bool) {
    judge_more(what, l, size, shape, reads, 0)
}
/// `extra` bytes may be allocated besides
fn judge_more(what: &str, l: &Ledger, size: usize, shape: &str, reads: bool, extra: usize) {
    let (work, work_const) = match WORK_LITTLE.iter().find(|x| x.0 == what) {
        Some(x) => (x.1, WORK_LITTLE_CONST + extra),
        None => (if reads { WORK } else { WORK_REST }, WORK_CONST + extra),
    };
    let Some(_) = l.held() else {
        fail("memory", format!("{what}: more than a million blocks are held for {size} bytes of data: {shape}"));
    };
    let (peak, total) = l.spent();
    // how near the limits it comes, for the evidence
    let part = (100 * peak / (PEAK * size + PEAK_CONST)).max(100 * total / (work * size + work_const));
    count(match part {
        0..=4 => "cost:under 5% of the limit",
        5..=9 => "cost:under 10% of the limit",
        10..=19 => "cost:under 20% of the limit",
        20..=49 => "cost:under 50% of the limit",
        _ => "cost:over 50% of the limit",
    });
    note(|| format!("{what}: {peak} bytes at once and {total} altogether for {size} bytes of data"));
    check(peak <= PEAK * size + PEAK_CONST, "memory", || {
        format!("{what}: {peak} bytes were held at once for {size} bytes of data (limit {PEAK_CONST} + {PEAK} per byte): {shape}")
    });
    check(total <= work * size + work_const, "work", || {
        format!("{what}: {total} bytes were allocated altogether for {size} bytes of data (limit {work_const} + {work} per byte): {shape}")
    });
}

/// a message made of few pieces repeated many times
pub struct Bulk {
    pub text: String,
    pub shape: String,
    /// levels of elements, each indented further than the one around it
    pub levels: usize,
}

fn times(share: usize, unit: usize) -> usize {
    (share / unit.max(1)).max(1)
}
const KIDS: &[&str] = &[
    "<a/>", "<a/>\n", "<a></a>", "<a>t</a>", "<a k='v'/>", "<p0:a/>", "<p1:a k='1'>t</p1:a>", "<a xmlns='u'/>", "<a xmlns='u'><b/></a>", "<a xmlns:z='u'><z:b/></a>", "<a xmlns:p0='u'/>",
    "<a><b><c/></b></a>", "<!--c-->", "<!---->", "<![CDATA[x]]>", "<![CDATA[]]>", "t<a/>", " t\n", "<a/> <b/>t", "<é/>", "日本語",
];
const TEXT: &[&str] = &[
    "&amp;", "&lt;", "&", "& ", "&a", "&#41;", "&#x41;", "&#", ";", "&;", "&&amp;", "&lt;&", "\"", "]]>", "-", "=", "a=", "'", "é", "&é;", "\n", "  ", "x ", "&quot;", "&amp;amp;",
];

pub fn bulk(target: usize, n: usize) -> Bulk {
    span(|| {
        let share = target / n;
        let mut shape = format!("about {target} bytes of");
        let (mut pro, mut attrs, mut open, mut body, mut close) = (String::new(), String::new(), String::new(), String::new(), String::new());
        // the prefixes the pieces use
        attrs.push_str(" xmlns:p0='u0' xmlns:p1='u1'");
        let mut deep = 0;
        for _ in 0..n {
            let k = draw(13);
            match k {
                0 | 1 => {
                    let u = pick(&["u", "http://example.com/a/longer/uri"]);
                    let m = times(share, u.len() + 14);
                    for i in 2..m + 2 {
                        attrs.push_str(&format!(" xmlns:p{i}='{u}'"));
                    }
                    shape.push_str(&format!(" {m} declarations on the root,"));
                }
                2 => {
                    if !attrs.contains(" xmlns=") {
                        attrs.push_str(&format!(" xmlns='{}'", "u".repeat(share)));
                    }
                    shape.push_str(" a long namespace,");
                }
                3 => {
                    let m = times(share, 10);
                    let tag = deep * 100 + m;
                    for i in 0..m {
                        attrs.push_str(&format!(" k{tag}_{i}='v'"));
                    }
                    shape.push_str(&format!(" {m} attributes,"));
                }
                4 => {
                    let u = pick(TEXT).replace('\'', "\"");
                    let v = u.repeat(times(share, u.len()));
                    attrs.push_str(&format!(" v{}='{v}'", attrs.len()));
                    shape.push_str(&format!(" {u:?} in an attribute,"));
                }
                5 => {
                    let u = *pick(TEXT);
                    body.push_str(&u.repeat(times(share, u.len())));
                    shape.push_str(&format!(" {u:?} in the text,"));
                }
                6 | 7 | 8 => {
                    let u = *pick(KIDS);
                    body.push_str(&u.repeat(times(share, u.len())));
                    shape.push_str(&format!(" {u:?},"));
                }
                9 => {
                    let two = (*pick(KIDS), *pick(TEXT));
                    for _ in 0..times(share, two.0.len() + two.1.len()) {
                        body.push_str(two.0);
                        body.push_str(two.1);
                    }
                    shape.push_str(&format!(" {:?} and {:?} in turns,", two.0, two.1));
                }
                10 if deep == 0 => {
                    deep = range(50, if chance(1, 4) { 1500 } else { 400 }) as usize;
                    let style = draw(4);
                    for i in 0..deep {
                        open.push_str(&match style {
                            0 => "<a>".to_string(),
                            1 => format!("<a xmlns:q{i}='u'>"),
                            2 => format!("<a xmlns='u{i}'>"),
                            _ => format!("<a k='{}'>t", "v".repeat(share / deep)),
                        });
                    }
                    close = "</a>".repeat(deep);
                    shape.push_str(&format!(" {deep} levels of style {style},"));
                }
                11 => {
                    let x = match draw(5) {
                        0 => "<!--c-->".repeat(times(share, 8)),
                        1 => format!("<!DOCTYPE r [{}]>", (0..times(share, 40)).map(|i| format!("<!ENTITY e{} '&e{i};&e{i};&e{i};'>", i + 1)).collect::<String>()),
                        2 => "<!DOCTYPE r>\n".repeat(times(share, 13)),
                        3 => "\n ".repeat(times(share, 2)),
                        _ => format!("<!DOCTYPE r [{}]>", "<!ELEMENT a ANY>".repeat(times(share, 16))),
                    };
                    shape.push_str(&format!(" {:?}… before the root,", x.chars().take(40).collect::<String>()));
                    pro.push_str(&x);
                }
                _ => {
                    let u = pick(&["n", "é", "a-b.c", "日"]).repeat(times(share, 5));
                    body.push_str(&format!("<{u} {u}='{u}'></{u}>"));
                    shape.push_str(" a long name,");
                }
            }
        }
        let mut text = format!("{pro}<r{attrs}>{open}{body}{close}</r>");
        let place = |s: &str| {
            let mut i = draw(s.len() as u32 + 1) as usize;
            while !s.is_char_boundary(i) {
                i -= 1;
            }
            i
        };
        match draw(8) {
            0 => {
                let at = place(&text);
                text.truncate(at);
                count("fault:truncated");
                shape.push_str(&format!(" cut at {at}"));
            }
            1 => {
                let at = place(&text);
                let h = *pick(HOSTILE);
                text.insert_str(at, h);
                count("fault:hostile");
                shape.push_str(&format!(" {h:?} added at {at}"));
            }
            2 => {
                let at = text.rfind('<').unwrap_or(0);
                text.truncate(at);
                text.push_str(pick(&["</s>", "<", "</r", "</r x='1'/>", "<r", "</r></r>", "&"]));
                count("fault:truncated");
                shape.push_str(" with a wrong end");
            }
            _ => {}
        }
        Bulk { text, shape, levels: deep + 2 }
    })
}

fn line(len: usize) -> Delivery {
    let mut d = delivery();
    if d.piece > 0 && (d.piece as usize) < len / 100 {
        d.piece = (len / 100) as u32;
    }
    d
}

/// a message of megabytes: what it costs is bounded by the watchdog (20 s of CPU)
fn big() {
    let size = range(30, 40) as usize * 100_000;
    let b = if chance(1, 4) {
        bulk(size, 1)
    } else {
        // one piece, with or without white space between
        let u = *if chance(2, 3) { pick(KIDS) } else { pick(TEXT) };
        let u = format!("{u}{}", pick(&["", "\n", " ", "<b/>", "\n\t", "x"]));
        let body = u.repeat(size / u.len());
        Bulk { text: format!("<r xmlns:p0='u0' xmlns:p1='u1'>{body}</r>"), shape: format!("{size} bytes of {u:?}"), levels: 2 }
    };
    ev("big", hash_str(&b.text));
    note(|| format!("{} bytes: {}", b.text.len(), b.shape));
    sample(|| format!("{} bytes: {}", b.text.len(), b.shape));
    let r = lib(|| kiss_xml::parse_str(b.text));
    ev("read", r.is_ok() as u64);
    if let Ok(d) = r {
        nontrivial();
        let s = lib(|| d.to_string_with_indent(if b.levels > 2 { "" } else { "  " }));
        ev("size", s.len() as u64);
        let c = lib(|| d.root_element().clone());
        check(lib(|| c == *d.root_element()), "not-equal", || "a copy is not equal".into());
        count("big_message");
    }
}

/// an element made of many calls
fn build() {
    let l = Ledger::open();
    let n = *pick(&[100usize, 400, 1200, 2500]) + draw(100) as usize;
    let style = draw(6);
    let ns = chance(1, 3);
    let mut made = 0;
    note(|| format!("{n} calls of style {style}"));
    sample(|| format!("{n} calls of style {style}"));
    ev("build", n as u64 * 10 + style as u64);
    let mut e = lib(|| Element::new_from_name("r").expect("name accepted"));
    if ns {
        lib(|| e.set_attr("xmlns", "urn:x")).expect("name accepted");
    }
    l.mark();
    for i in 0..n {
        made += 12;
        let front = chance(1, 8);
        lib(|| match style {
            0 => e.append(Element::new_from_name("b").expect("name accepted")),
            1 => e.append(Text::new("some &")),
            2 => match i % 3 {
                0 => e.append(Text::new("t")),
                1 => e.append(Comment::new("c").expect("accepted")),
                _ => e.append(Element::new_with_text("b", "t").expect("accepted")),
            },
            3 => e.set_attr(format!("k{i}"), "v").expect("name accepted"),
            4 => e.insert(if front { 0 } else { e.children().count() / 2 }, Element::new_from_name("b").expect("name accepted")).expect("in range"),
            _ => e.append_all(vec![CData::new("x").expect("accepted").boxed(), Text::new(" ").boxed()]),
        });
    }
    // each call may make the list of children anew, but not the children
    let lists = if style == 3 { 0 } else { LIST_ENTRY * 2 * n * n };
    judge_more("building", &l, made, &format!("{n} calls of style {style}"), false, lists);
    let s = lib(|| e.to_string());
    ev("built", hash_str(&s));
    // and taken apart
    l.mark();
    let mut k = 0;
    while let Ok(x) = lib(|| e.remove(0)) {
        lib(|| drop(x));
        k += 1;
    }
    ev("apart", k);
    judge_more("removing", &l, s.len(), "one child after the other", false, lists);
    count("built");
    nontrivial();
}

pub fn c26() {
    if chance(1, 500) {
        return big();
    }
    if chance(1, 30) {
        return build();
    }
    let target = if chance(1, 20) { range(100, 300) as usize * 1000 } else { *pick(&[3usize, 6, 12, 25, 50, 80]) * 1000 };
    let n = range(1, 3) as usize;
    let b = bulk(target, n);
    let size = b.text.len();
    ev("bulk", hash_str(&b.text));
    note(|| format!("{} bytes: {}", size, b.shape));
    sample(|| format!("{} bytes: {}", size, b.shape));
    let l = Ledger::open();
    l.mark();
    let r = match draw(4) {
        0 => lib(|| kiss_xml::parse_str(b.text.as_str())),
        1 => {
            let mut p = soft_plan();
            if p.max_xfer > 0 {
                p.max_xfer = p.max_xfer.max(size / 100);
            }
            read_file(b.text.as_bytes(), p)
        }
        2 => {
            // the line fails
            let at = draw(size as u32 + 1) as usize;
            let err = err_spec();
            count("fault:line_failed");
            read_stream(b.text.as_bytes(), line(size), Src::Fail { at, err, then_data: false, keep: false })
        }
        _ => read_stream(b.text.as_bytes(), line(size), Src::Eof),
    };
    judge("reading", &l, size, &b.shape, true);
    ev("read", r.is_ok() as u64);
    let Ok(mut doc) = r else {
        if let Err(e) = r {
            let n = lib(|| e.to_string()).len();
            ev("message", n as u64);
            lib(|| drop(e));
        }
        return;
    };
    nontrivial();
    let held = l.held().map_or(0, |h| h.1);
    for _ in 0..range(1, 4) {
        let k = draw(12);
        l.mark();
        match k {
            0 => {
                let c = lib(|| doc.root_element().clone());
                judge("copying", &l, size, &b.shape, false);
                let same = lib(|| c == *doc.root_element());
                check(same, "not-equal", || "a copy is not equal".into());
                judge("comparing", &l, size, &b.shape, false);
                lib(|| drop(c));
            }
            1 | 2 => {
                let ind = *pick(&["", "  ", "\t", "        "]);
                let s = lib(|| doc.to_string_with_indent(ind));
                judge("serialising", &l, size + s.len() + b.levels * b.levels * ind.len() / 8, &b.shape, false);
                lib(|| drop(s));
            }
            3 => {
                let full = if chance(1, 3) { SinkEnd::Full { at: draw(size as u32) as usize } } else { SinkEnd::Never };
                let mut w = SimWriter::new(line(size), full);
                let _ = lib(|| doc.write_to_file_with_indent(&mut w, ""));
                judge("writing", &l, size + w.got.len(), &b.shape, false);
            }
            4 => {
                let n = lib(|| doc.root_element().children_recursive().count());
                let m = lib(|| doc.root_element().search_elements_by_name("a").count());
                ev("nodes", (n + m) as u64);
                judge("searching", &l, size, &b.shape, false);
            }
            5 => {
                let n = lib(|| doc.root_element().text()).len();
                ev("text", n as u64);
                judge("gathering the text", &l, size, &b.shape, false);
            }
            6 => {
                // declarations come and go
                let u = "v".repeat(range(1, 400) as usize);
                for i in 0..range(1, 6) {
                    let key = pick(&["xmlns:p0", "xmlns", "xmlns:new"]).to_string();
                    lib(|| {
                        if i % 2 == 0 {
                            let _ = doc.root_element_mut().set_attr(key, u.as_str());
                        } else {
                            let _ = doc.root_element_mut().remove_attr(key);
                        }
                    });
                }
                judge("declaring namespaces", &l, size, &b.shape, false);
            }
            7 => {
                // a subtree is moved about
                let i = lib(|| doc.root_element().children().enumerate().filter(|c| c.1.is_element()).map(|c| c.0).next());
                if let Some(i) = i {
                    for _ in 0..range(1, 5) {
                        lib(|| {
                            let x = doc.root_element_mut().remove(i).expect("it is there");
                            doc.root_element_mut().append_boxed(x);
                        });
                    }
                }
                judge("moving a subtree", &l, size, &b.shape, false);
            }
            8 => {
                // what stood between texts goes, and they become one
                let which = draw(4);
                let n = lib(|| match which {
                    0 => doc.root_element_mut().remove_all(&|n: &Box<dyn Node>| !n.is_text() && !n.is_element()),
                    1 => doc.root_element_mut().remove_all_elements(|e| e.children().next().is_none()),
                    2 => doc.root_element_mut().remove_elements(|_| true),
                    _ => doc.root_element_mut().remove_by(&|n: &Box<dyn Node>| n.is_comment() || n.is_cdata()),
                });
                ev("removed", n as u64);
                judge("removing", &l, size, &b.shape, false);
                l.mark();
                let end = chance(1, 2);
                lib(|| {
                    if end {
                        doc.root_element_mut().append(Text::new("end"));
                    } else {
                        doc.root_element_mut().insert(0, Text::new("begin")).expect("0 is in range");
                    }
                });
                judge("joining texts", &l, size, &b.shape, false);
                count("joined");
            }
            9 => {
                // all children are taken out and put into another element at once
                let kids: Vec<Box<dyn Node>> = lib(|| doc.root_element().children().map(clone_node).collect());
                lib(|| doc.root_element_mut().clear_children());
                let extra = if chance(1, 2) { range(1, 5000) as usize } else { 0 };
                let (mut all, mut more) = (kids, 0);
                for i in 0..extra {
                    more += 8;
                    let blank = i % 3 == 0 && chance(1, 2);
                    lib(|| all.push(if blank { Text::new(" ").boxed() } else { Text::new("x &").boxed() }));
                }
                l.mark();
                lib(|| doc.root_element_mut().append_all(all));
                judge("attaching many", &l, size + more, &b.shape, false);
            }
            _ => {
                let n = lib(|| doc.root_element_mut().remove_all(&|n: &Box<dyn Node>| n.is_text() || n.is_comment()));
                ev("removed", n as u64);
                judge("removing", &l, size, &b.shape, false);
            }
        }
    }
    // a live document does not grow by being used
    let now = l.held().map_or(0, |h| h.1);
    check(now <= 2 * held + PEAK * 2000 + 8000 * PEAK, "memory", || format!("the document held {held} bytes when it was read and {now} after edits that add nothing: {}", b.shape));
    lib(|| drop(doc));
}
