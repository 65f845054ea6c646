#![allow(unknown_lints, invalid_runtime_symbol_definitions, dead_code)]
mod alloc;
mod choice;
mod disk;
mod driver;
mod enc;
mod gen;
mod hist;
mod io;
mod model;
mod props;
mod rt;
mod sched;
mod sys;
mod xmlread;

use driver::Prop;

const LIB: &str = "all of kiss_xml from /repo's working tree; std; the regex engine";

fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            level: "exploration",
            run: props::read::c01,
            batch: 4000,
            rule: "random document and spelling, delivered over a stream, a file or a string under random splits, delays and interruptions; non-trivial: at least two nodes were compared",
            real: LIB,
            stub: "sender, network stream, disk",
            probe: None,
        },
        Prop {
            id: "C02",
            level: "exploration",
            run: props::read::c02,
            batch: 4000,
            rule: "random document; the stream or file fails at a random byte or call with a random error, or the bytes are made invalid UTF-8; every run is non-trivial",
            real: LIB,
            stub: "sender, network stream, disk",
            probe: None,
        },
        Prop {
            id: "C03",
            level: "exploration",
            run: props::read::c03,
            batch: 4000,
            rule: "random document cut at random bytes and token boundaries before the end of its root; non-trivial: the cut lies inside the root element",
            real: LIB,
            stub: "sender, network stream, disk",
            probe: None,
        },
        Prop {
            id: "C04",
            level: "exploration",
            run: props::damage::c04,
            batch: 4000,
            rule: "random document under one to six damages (flip, loss, duplication, reordering, splice, hostile fragment, burst, truncation, lost or repeated tokens), delivered with standard error healthy or broken; what is accepted is queried, cloned, compared, edited and serialised; every run is non-trivial",
            real: LIB,
            stub: "sender, network stream, disk, standard error",
            probe: Some(props::damage::probes),
        },
        Prop {
            id: "C05",
            level: "exploration",
            run: props::read::c05,
            batch: 4000,
            rule: "random complete document followed by a random piece of itself or of another document that holds a whole tag; every run is non-trivial",
            real: LIB,
            stub: "senders, network stream, disk",
            probe: None,
        },
        Prop {
            id: "C06",
            level: "exploration",
            run: props::save::c06,
            batch: 4000,
            rule: "random document, built, read or edited, written to a sink that takes it in random pieces with interruptions and may fail or fill up at any byte; non-trivial: the sink failed or split the bytes",
            real: LIB,
            stub: "callers, sink",
            probe: None,
        },
        Prop {
            id: "C07",
            level: "exploration",
            run: props::save::c07,
            batch: 4000,
            rule: "random disk situation and path shape, one to three saves of random documents, each under random soft and hard faults; the whole disk image is compared before and after; non-trivial: a fault was planned, the path cannot work, or an earlier save is overwritten",
            real: LIB,
            stub: "callers, disk",
            probe: None,
        },
        Prop {
            id: "C08",
            level: "fault_enumeration",
            run: props::save::c08,
            batch: 4000,
            rule: "random old and new document; the save is cut at every disk step (when there are at most 100) or at a sample of steps biased to ends of tags; the frozen image is read back after a restart; non-trivial: at least one crash point",
            real: LIB,
            stub: "callers, disk, crash and restart",
            probe: None,
        },
        Prop {
            id: "C09",
            level: "exploration",
            run: props::save::c09,
            batch: 4000,
            rule: "random session of edits, declaration and DTD changes, saves, failed saves and loads, restarts from file or stream with any indent; after each restart the document and an independent reading of the bytes are compared with the model; non-trivial: more than an empty root at the end",
            real: LIB,
            stub: "callers, disk, sink, stream, restarts",
            probe: None,
        },
        Prop {
            id: "C10",
            level: "exploration",
            run: props::edit::c10,
            batch: 4000,
            rule: "random history of edits (append, insert, remove, bulk removal with re-entrant and stateful predicates, text, attributes, content, moves) on a random tree, compared with a reference tree after every operation; non-trivial: at least one operation changed the tree",
            real: LIB,
            stub: "callers, predicates",
            probe: None,
        },
        Prop {
            id: "C11",
            level: "exploration",
            run: props::edit::c11,
            batch: 4000,
            rule: "random history mixed with rejected calls, panicking predicates, sinks, readers and searches, failed saves and reads, compared with a reference tree after every operation; non-trivial: at least one failure",
            real: LIB,
            stub: "callers, predicates, streams, disk",
            probe: None,
        },
        Prop {
            id: "C12",
            level: "exploration",
            run: props::conc::c12,
            batch: 4000,
            rule: "two to four random sessions, each with sessions nested in its readers, sinks and predicates, run alone and then together under a random schedule with preemption at library allocations, callbacks, system calls and lock waits; non-trivial: more switches than sessions",
            real: LIB,
            stub: "thread scheduler, streams, disk, allocator wrapper",
            probe: None,
        },
        Prop {
            id: "C13",
            level: "exploration",
            run: props::conc::c13,
            batch: 4000,
            rule: "random content made in several ways (constructors, parsing, edits that cancel out, reloading) under different hash keys and on different threads; all serialisations and comparisons; non-trivial: some element has at least two attributes",
            real: LIB,
            stub: "getrandom, thread scheduler",
            probe: None,
        },
        Prop {
            id: "C14",
            level: "exploration",
            run: props::edit::c14,
            batch: 4000,
            rule: "random interleaving of copies, edits and drops over a pool of trees, all compared after every step; non-trivial: at least one copy was taken",
            real: LIB,
            stub: "callers",
            probe: None,
        },
        Prop {
            id: "C15",
            level: "exploration",
            run: props::edit::c15,
            batch: 4000,
            rule: "random queries (complete, abandoned, stateful, nested, interleaved) between random edits, compared by node identity with a reference tree; non-trivial: queries on a tree of more than two nodes",
            real: LIB,
            stub: "callers, predicates",
            probe: None,
        },
        Prop {
            id: "C16",
            level: "exploration",
            run: props::edit::c16,
            batch: 4000,
            rule: "random history of building, attaching, moving and re-declaring with restarts, namespaces of all elements compared with a resolver after every step; non-trivial: some element has a namespace",
            real: LIB,
            stub: "callers, restarts (serialise, deliver, parse)",
            probe: None,
        },
        Prop {
            id: "C17",
            level: "exploration",
            run: props::read::c17,
            batch: 4000,
            rule: "random document whose pieces (tags, text runs, comments, CDATA, declarations) are lost, repeated, moved, swapped or mixed with those of another message; a strict independent reader says what arrived; non-trivial: the bytes changed",
            real: LIB,
            stub: "senders, network stream, disk",
            probe: None,
        },
        Prop {
            id: "C18",
            level: "exploration",
            run: props::res::c18,
            batch: 60,
            rule: "random session (reads, edits, queries, writes, saves, drops, under failing streams, sinks and disks, panicking callbacks and rejected calls) repeated with other names and values; the ledger of the allocator and the table of open descriptors after each round; non-trivial: the session met a fault",
            real: LIB,
            stub: "callers, streams, disk, allocator wrapper",
            probe: None,
        },
        Prop {
            id: "C19",
            level: "exploration",
            run: props::res::c19,
            batch: 4000,
            rule: "one connection carrying several framed messages, good ones and bad ones (cut, damaged, doubled, not UTF-8, empty), read one after the other from one source that splits, interrupts, delays and may fail in between; answers written one after the other to one sink; non-trivial: a message after a bad one",
            real: LIB,
            stub: "peer, network stream, sink",
            probe: None,
        },
        Prop {
            id: "C23",
            level: "exploration",
            run: props::layout::c23,
            batch: 4000,
            rule: "a document, built or read, then up to 40 edits, failed writes, restarts and texts that come and go; after each of them the document (to a string, Display, Debug or a sink that takes it in pieces) and single elements are written with any indent, valid or not, and compared with the layout of the content at that moment; non-trivial: an operation changed the content",
            real: LIB,
            stub: "sink, allocator wrapper",
            probe: None,
        },
        Prop {
            id: "C25",
            level: "exploration",
            run: props::damage::c25,
            batch: 4000,
            rule: "random document in which one to three characters are lost, changed, added, doubled or exchanged, half of them in or next to markup; a strict independent reader says whether what arrived is still a document; non-trivial: the bytes changed",
            real: LIB,
            stub: "sender, network stream, disk",
            probe: None,
        },
        Prop {
            id: "C26",
            level: "exploration",
            run: props::cost::c26,
            batch: 4000,
            rule: "a message of 3 to 300 kB made of few pieces repeated (declarations, attributes, children, levels, escapes, prolog), whole, cut or damaged, over a healthy or failing line; then copies, searches, writes and edits; bytes held at once and allocated altogether are measured for each; non-trivial: the message was accepted",
            real: LIB,
            stub: "sender, network stream, disk, sink, allocator wrapper",
            probe: None,
        },
        Prop {
            id: "C27",
            level: "exploration",
            run: props::reach::c27,
            batch: 4000,
            rule: "random message with references in it (entities, includes, schemas, links, paths, variables), whole or damaged; one call (parse from string, stream or file under any name, edits, write, save) under soft and hard faults, made twice in worlds that differ in all other files, the environment, the clock and the hash keys; everything the call asks of the system is recorded; every run is non-trivial",
            real: LIB,
            stub: "sender, network stream, disk, environment, clock, standard streams",
            probe: None,
        },
        Prop {
            id: "C28",
            level: "exploration",
            run: props::place::c28,
            batch: 4000,
            rule: "random document and spelling with one mistake at a known place (a tag that is wrong, misplaced, not closed or does not match, text outside the root element), delivered over a stream, a file or a string under random splits, delays and interruptions; every run is non-trivial",
            real: LIB,
            stub: "sender, network stream, disk",
            probe: None,
        },
    ]
}

/// compiles the library's regexes and touches std's lazies before forking
fn warm_up() {
    std::thread::spawn(|| {
        let x = "<?xml version=\"1.0\"?><!DOCTYPE a><a xmlns:p=\"u\" k=\"v\"> <p:b>t<!--c--><![CDATA[d]]></p:b></a>";
        if let Ok(mut d) = kiss_xml::parse_str(x) {
            let _ = d.root_element_mut().set_attr("q", "r");
            d.root_element_mut().append(kiss_xml::dom::Text::new(" "));
            let _ = d.to_string();
            let _ = d.to_string_with_indent("\t");
            let _ = d.root_element().clone() == *d.root_element();
            let _ = d.root_element().search_elements_by_name("b").count() + d.root_element().children_recursive().count();
            let _ = d.root_element_mut().set_attr("1 ", "r");
            let _ = d.root_element_mut().remove_elements_by_name("b");
            let _ = d.write_to_file(&mut std::io::sink());
        }
        let _ = kiss_xml::parse_stream("<a>x</b>".as_bytes());
        let _ = kiss_xml::parse_str("<a><b 1/></a>");
        let _ = kiss_xml::dom::Element::new_from_name("1");
        let _ = kiss_xml::dom::Comment::new("--");
        let _ = kiss_xml::dom::CData::new("]]>");
        let _ = kiss_xml::escape("&<>") + &kiss_xml::unescape("&amp;&#41;") + &kiss_xml::attribute_escape("\"'&");
        let _ = kiss_xml::parse_str("<a");
    })
    .join()
    .ok();
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    rt::install_panic_hook();
    warm_up();
    let ps = props();
    let root = std::env::var("KXSIM_ROOT").unwrap_or_else(|_| "/verif".into());
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => driver::check(&ps, &args[2], args.get(3).map(|s| s.as_str()).unwrap_or("quick"), &root),
        Some("replay") => driver::replay(&ps, &args[2]),
        Some("show") => driver::show(&ps, &args[2], args[3].parse().unwrap(), args.get(4).map_or(1, |s| s.parse().unwrap())),
        _ => {
            eprintln!("usage: kxsim check ID [quick|thorough] | replay FILE | show ID RUN [N]");
            2
        }
    };
    std::process::exit(code);
}
