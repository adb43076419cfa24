//! P28 (documentation), P29 (PlantUML) and P30 (GraphML): what is said about a model.

use crate::engine::*;
use crate::model::*;
use crate::props::p03_model::{lower_lines, respelled};
use crate::{check, fail};
use atelier_core::io::{write_model_to_string, ModelWriter};
use atelier_core::model::Model;
use atelier_describe::document::writer::{describe_model, DocumentationWriter};
use atelier_describe::graphml::writer::GraphMLWriter;
use atelier_describe::plant_uml::writer::PlantUmlWriter;
use somedoc::model::block::{BlockContent, HasCaption, HasLabel, HeadingLevel, ListItem};
use somedoc::model::inline::{HyperLinkTarget, InlineContent};
use somedoc::model::{Document, HasInnerContent};
use somedoc::write::markdown::MarkdownFlavor;
use somedoc::write::{write_document_to_string, OutputFormat};
use std::collections::{BTreeMap, BTreeSet};

const DOC: &str = "smithy.api#documentation";
const EXT: &str = "smithy.api#externalDocumentation";

fn written(src: &mut Src, w: &mut impl ModelWriter, m: &Model) -> Result<String, Fail> {
    if src.chance(1, 12) {
        // a writer can be used more than once, for this model and others
        let mut out: Vec<u8> = Vec::new();
        let other = if src.bool() { m.clone() } else { to_model(&gen_model(src, &Cfg { text: Text::Plain, depth: 0, max_shapes: 5, ..Cfg::default() })) };
        guard("write before", || w.write(&mut out, &other))?.map_err(|e| Fail::new("write", format!("writing fails: {}", e)))?;
    }
    let mut out: Vec<u8> = Vec::new();
    guard("write", || w.write(&mut out, m))?.map_err(|e| Fail::new("write", format!("writing fails: {}", e)))?;
    String::from_utf8(out).map_err(|e| Fail::new("utf8", e.to_string()))
}

/// The case in which names are spelled makes no difference to what is written but that case.
fn respelt(src: &mut Src, case: &mut Case, w: &mut impl ModelWriter, md: &Md, text: &str, by_line: bool) -> Res {
    if !src.chance(1, 6) {
        return Ok(());
    }
    case.tag("names in other cases");
    let other = respelled(src, md);
    let m = to_model_shuffled(&other, src);
    let again = written(src, w, &m)?;
    let lines = |t: &str| {
        let t: Vec<&str> = t.split(" id=\"e").map(|p| p.trim_start_matches(|c: char| c.is_ascii_digit())).collect();
        let t = t.join(" id=\"e");
        // a value may be of several lines, with its keys in any order
        match by_line {
            true => lower_lines(&t),
            false => vec![bag(&t.to_ascii_lowercase())],
        }
    };
    let (a, b) = (lines(text), lines(&again));
    check!(a == b, "case", "written is\n{}\nand with the names in other cases\n{}", text, again);
    Ok(())
}

/// Gives documentation traits the values they are meant to have.
fn proper_docs(md: &mut Md) {
    for s in md.shapes.values_mut() {
        each_traits(s, &mut |t| {
            if let Some(v) = t.get_mut(DOC) {
                if !matches!(v, Some(V::Str(_))) {
                    *v = v.as_ref().map(|v| V::Str(show(v)));
                }
            }
            if let Some(v) = t.get_mut(EXT) {
                match v {
                    Some(V::Obj(o)) => {
                        for v in o.values_mut() {
                            if !matches!(v, V::Str(_)) {
                                *v = V::Str(show(v));
                            }
                        }
                    }
                    _ => *v = None,
                }
            }
        })
    }
}

/// The text of a value; entries of objects in the order of their keys.
fn show(v: &V) -> String {
    match v {
        V::Null => "None".into(),
        V::Bool(b) => b.to_string(),
        V::Int(i) => i.to_string(),
        V::Flt(f) => f64::from_bits(*f).to_string(),
        V::Str(s) => format!("\"{}\"", s),
        V::Arr(a) => format!("[ {} ]", a.iter().map(show).collect::<Vec<_>>().join(", ")),
        V::Obj(o) => {
            format!("{{ {} }}", o.iter().map(|(k, v)| format!("{}: {}", k, show(v))).collect::<Vec<_>>().join(", "))
        }
    }
}

/// The text without the order of the entries of objects.
fn bag(s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    c.sort_unstable();
    c.into_iter().collect()
}

// ------------------------------------------------------------------------------------------------
// P28: the documentation
// ------------------------------------------------------------------------------------------------

/// Makes names unique across namespaces, as labels are made of names only.
fn tell_apart(md: &Md, namespaces: &[&str]) -> Md {
    let name = |id: &str| -> String {
        let (ns, rest) = id.split_once('#').unwrap_or(("", id));
        match namespaces.iter().position(|n| *n == ns) {
            None | Some(0) => id.to_string(),
            Some(i) => match rest.split_once('$') {
                Some((n, m)) => format!("{}#{}N{}${}", ns, n, i, m),
                None => format!("{}#{}N{}", ns, rest, i),
            },
        }
    };
    let mut out = Md { meta: md.meta.clone(), ..Md::default() };
    for (id, s) in &md.shapes {
        let mut s = s.clone();
        each_ref(&mut s.kind, &mut |r| *r = name(r));
        if let K::Service(v) = &mut s.kind {
            v.renames = v.renames.iter().map(|(k, v)| (name(k), v.clone())).collect();
        }
        out.shapes.insert(name(id), s);
    }
    out
}

fn inline(c: &[InlineContent], out: &mut Vec<String>) -> Res {
    for c in c {
        match c {
            InlineContent::Text(t) => out.push(t.inner().clone()),
            InlineContent::Span(s) => inline(s.inner(), out)?,
            InlineContent::HyperLink(l) => {
                let caption = l.caption().as_ref().map(|c| c.inner().clone()).unwrap_or_default();
                out.push(match l.target() {
                    HyperLinkTarget::Internal(t) => format!("[{}](#{})", caption, t.inner()),
                    HyperLinkTarget::External(t) => format!("[{}]({})", caption, t),
                })
            }
            c => fail!("inline", "unexpected content {:?}", c),
        }
    }
    Ok(())
}

fn text(c: &[InlineContent]) -> Result<String, Fail> {
    let mut v = Vec::new();
    inline(c, &mut v)?;
    if v.first().map(|s| s == "See also: ").unwrap_or(false) {
        v[1..].sort();
    }
    Ok(v.concat())
}

#[derive(Debug)]
enum B {
    /// level, label, text
    H(u8, String, String),
    /// everything else
    X(String),
}

fn blocks(c: &[BlockContent], out: &mut Vec<B>) -> Res {
    for c in c {
        match c {
            BlockContent::Heading(h) => {
                let level = match h.level() {
                    HeadingLevel::Section => 1,
                    HeadingLevel::SubSection => 2,
                    HeadingLevel::SubSubSection => 3,
                    _ => 4,
                };
                let label = h.label().as_ref().map(|l| l.inner().clone()).unwrap_or_default();
                out.push(B::H(level, label, text(h.inner())?));
            }
            BlockContent::Paragraph(p) => out.push(B::X(text(p.inner())?)),
            BlockContent::Quote(q) => {
                let mut inner = Vec::new();
                blocks(q.inner(), &mut inner)?;
                for b in inner {
                    match b {
                        B::X(s) => out.push(B::X(format!("> {}", s))),
                        h => fail!("heading", "a heading in a quote: {:?}", h),
                    }
                }
            }
            BlockContent::List(l) => {
                let mut items = Vec::new();
                for i in l.inner() {
                    match i {
                        ListItem::Item(i) => items.push(text(i.inner())?),
                        i => fail!("list", "unexpected item {:?}", i),
                    }
                }
                out.push(B::X(list(items)));
            }
            BlockContent::Table(t) => {
                let mut rows = Vec::new();
                for r in t.rows() {
                    let cells: Result<Vec<String>, Fail> = r.cells().iter().map(|c| text(c.inner())).collect();
                    rows.push(cells?);
                }
                out.push(B::X(table(t.columns().iter().map(|c| c.text().as_str()).collect(), rows)));
            }
            c => fail!("block", "unexpected content {:?}", c),
        }
    }
    Ok(())
}

fn list(items: Vec<String>) -> String {
    items.iter().map(|i| format!("* {:?}\n", i)).collect()
}

fn table(head: Vec<&str>, mut rows: Vec<Vec<String>>) -> String {
    rows.sort();
    format!("{:?}\n{}", head, rows.iter().map(|r| format!("| {:?}\n", r)).collect::<String>())
}

fn leaves(v: &V, path: String, out: &mut Vec<(String, String)>) {
    match v {
        V::Arr(a) if !a.is_empty() => {
            for (i, v) in a.iter().enumerate() {
                leaves(v, format!("{}[{}]", path, i), out);
            }
        }
        V::Obj(o) if !o.is_empty() => {
            for (k, v) in o {
                leaves(v, format!("{}.{}", path, k), out);
            }
        }
        V::Arr(_) | V::Obj(_) | V::Null => out.push((path, String::new())),
        V::Str(s) => out.push((path, s.clone())),
        v => out.push((path, show(v))),
    }
}

fn want_docs(t: &T) -> Vec<String> {
    let mut out = Vec::new();
    if let Some(Some(V::Str(s))) = t.get(DOC) {
        out.push(s.clone());
    }
    if let Some(Some(V::Obj(o))) = t.get(EXT) {
        if !o.is_empty() {
            let mut links: Vec<String> = o
                .iter()
                .map(|(k, v)| match v {
                    V::Str(u) => format!("[{}]({})", k, u),
                    v => format!("[{}]({})", k, show(v)),
                })
                .collect();
            links.sort();
            out.push(format!("See also: {}", links.concat()));
        }
    }
    let mut rows = Vec::new();
    for (id, v) in t {
        if id == DOC || id == EXT {
            continue;
        }
        let id = id.strip_prefix("smithy.api#").unwrap_or(id);
        let mut l = Vec::new();
        match v {
            None => l.push((String::new(), String::new())),
            Some(v) => leaves(v, String::new(), &mut l),
        }
        rows.extend(l.into_iter().map(|(p, v)| vec![id.to_string(), p, v]));
    }
    if !rows.is_empty() {
        out.push(table(vec!["Trait ID", "Path", "Value"], rows));
    }
    out
}

struct Want<'a> {
    id: &'a str,
    /// the labels of the sections of shapes
    labels: &'a BTreeMap<Sid, String>,
}

impl Want<'_> {
    fn link(&self, target: &str) -> String {
        if ns_of(self.id).to_lowercase() != ns_of(target).to_lowercase() {
            return target.to_string();
        }
        match self.labels.get(target) {
            Some(l) => format!("[{}](#{})", name_of(target), l),
            // leads nowhere
            None => format!("[{}](#?)", name_of(target)),
        }
    }

    fn links(&self, l: &[Sid]) -> String {
        format!("> {}", list(l.iter().map(|i| self.link(i)).collect()))
    }

    fn section(&self, s: &S) -> (Vec<String>, Vec<String>) {
        let mut head = want_docs(&s.traits);
        let mut tail = Vec::new();
        match &s.kind {
            K::Simple(_) | K::Unresolved => {}
            K::List(m) | K::Set(m) => {
                head.push(format!("Member type: {}", self.link(&m.target)));
                head.extend(want_docs(&m.traits));
            }
            K::Map(k, v) => {
                head.push(format!("Key type: {}", self.link(&k.target)));
                head.extend(want_docs(&k.traits));
                head.push(format!(", value type: {}", self.link(&v.target)));
                head.extend(want_docs(&v.traits));
            }
            K::Struct(ms) | K::Union(ms) => {
                if !ms.is_empty() {
                    head.push("### Members".into());
                }
                for (n, m) in ms {
                    tail.push(format!("> {}: {}", n, self.link(&m.target)));
                    tail.extend(want_docs(&m.traits));
                }
            }
            K::Service(v) => {
                head.push(format!("Service version: {}", v.version));
                if !v.operations.is_empty() {
                    head.push("### Operations".into());
                    head.push(self.links(&v.operations));
                }
                if !v.resources.is_empty() {
                    head.push("### Resources".into());
                    head.push(self.links(&v.resources));
                }
                if !v.renames.is_empty() {
                    head.push("### Renames".into());
                    tail = v.renames.iter().map(|(k, v)| format!("* {:?}", format!("{} renamed to {}", k, v))).collect();
                }
            }
            K::Operation(o) => {
                if let Some(i) = &o.input {
                    head.push(format!("> Input type: {}", self.link(i)));
                }
                if let Some(i) = &o.output {
                    head.push(format!("> Output type: {}", self.link(i)));
                }
                if !o.errors.is_empty() {
                    head.push("> Errors:".into());
                    head.push(self.links(&o.errors));
                }
            }
            K::Resource(r) => {
                let l: Vec<String> = LIFECYCLE
                    .iter()
                    .zip(&r.lifecycle)
                    .filter_map(|(n, i)| i.as_ref().map(|i| format!("{}: {}", n, self.link(i))))
                    .collect();
                if !l.is_empty() {
                    head.push("### Resource Operations".into());
                    head.push(format!("> {}", list(l)));
                }
                for (title, l) in [
                    ("### Operations", &r.operations),
                    ("### Collection Operations", &r.collection_operations),
                    ("### Resources", &r.resources),
                ] {
                    if !l.is_empty() {
                        head.push(title.into());
                        head.push(self.links(l));
                    }
                }
            }
        }
        (head, tail)
    }
}

/// Labels which no section has.
fn unlink(s: &str, labels: &BTreeSet<String>) -> String {
    let mut out = String::new();
    let mut rest = s;
    while let Some(n) = rest.find("](#") {
        let (a, b) = rest.split_at(n + 3);
        out.push_str(a);
        let end = b.find(')').unwrap_or(0);
        if labels.contains(&b[..end]) || b[..end].contains(|c: char| !(c.is_alphanumeric() || "_:.-".contains(c))) {
            out.push_str(&b[..end]);
        } else {
            out.push('?');
        }
        rest = &b[end..];
    }
    out + rest
}

fn check_doc(md: &Md, doc: &Document) -> Res {
    let mut bs = Vec::new();
    blocks(doc.inner(), &mut bs)?;
    // the parts below each heading of the first and the second level
    let mut top: Vec<String> = Vec::new();
    let mut sections: Vec<(String, Vec<String>)> = Vec::new();
    let mut shapes: Vec<(String, String, String, Vec<String>)> = Vec::new();
    let mut place = 0;
    for b in bs {
        match b {
            B::H(1, _, t) => {
                sections.push((t, vec![]));
                place = 1;
            }
            B::H(2, l, t) => {
                check!(!sections.is_empty(), "sections", "{:?} is below no section", t);
                let of = sections[sections.len() - 1].0.clone();
                shapes.push((of, l, t, vec![]));
                place = 2;
            }
            b => {
                let x = match b {
                    B::H(n, _, t) => format!("{} {}", "#".repeat(n as usize), t),
                    B::X(x) => x,
                };
                match place {
                    0 => top.push(x),
                    1 => sections.last_mut().map(|s| s.1.push(x)).unwrap_or(()),
                    _ => shapes.last_mut().map(|s| s.3.push(x)).unwrap_or(()),
                }
            }
        }
    }
    check!(top == vec!["Smithy Version: 1.0".to_string()], "top", "the document begins with {:?}", top);
    // sections
    let mut want: BTreeSet<String> =
        md.shapes.keys().map(|i| format!("Namespace {}", ns_of(i)).to_lowercase()).collect();
    if !md.meta.is_empty() {
        want.insert("metadata".into());
    }
    let got: Vec<String> = sections.iter().map(|s| s.0.to_lowercase()).collect();
    check!(got.iter().cloned().collect::<BTreeSet<_>>() == want && got.len() == want.len(), "sections", "the sections are {:?}, not {:?}", got, want);
    if !md.meta.is_empty() {
        check!(got[0] == "metadata", "sections", "metadata comes after {:?}", got[0]);
    }
    for (t, x) in &sections {
        if t == "Metadata" {
            let want = table(vec!["Key", "Value"], md.meta.iter().map(|(k, v)| vec![k.clone(), show(v)]).collect());
            let same = x.len() == 1 && bag(&x[0]) == bag(&want);
            check!(same, "metadata", "the metadata is {:?}, not {:?}", x, want);
        } else {
            check!(x.is_empty(), "namespace", "below {:?} there is {:?}", t, x);
        }
    }
    // which section is of which shape
    let mut labels = BTreeMap::new();
    let mut ids: Vec<&Sid> = Vec::new();
    for (of, label, t, _) in &shapes {
        let found = md.shapes.iter().find(|(i, s)| {
            format!("Namespace {}", ns_of(i)).to_lowercase() == of.to_lowercase()
                && format!("{} ({})", name_of(i), s.kind.name()) == *t
        });
        match found {
            Some((i, _)) => {
                check!(labels.insert(i.clone(), label.clone()).is_none(), "twice", "{} has two sections", i);
                ids.push(i);
            }
            None => fail!("section", "{:?} below {:?} is no shape of {:?}", t, of, md.shapes.keys().collect::<Vec<_>>()),
        }
        check!(!label.is_empty(), "label", "{:?} has no label", t);
    }
    for i in md.shapes.keys() {
        check!(labels.contains_key(i), "missing", "{} is not described", i);
    }
    let all: BTreeSet<String> = labels.values().cloned().collect();
    check!(all.len() == labels.len(), "ambiguous-label", "a link to one of these could be to another: {:?}", labels);
    for w in ids.windows(2) {
        check!(ns_of(w[0]).to_lowercase() != ns_of(w[1]).to_lowercase() || w[0] < w[1], "order", "{} comes before {}", w[0], w[1]);
    }
    for (n, (_, _, _, got)) in shapes.iter().enumerate() {
        let id = ids[n];
        let (mut want, mut tail) = Want { id, labels: &labels }.section(&md.shapes[id]);
        let mut got: Vec<String> = got.iter().map(|s| unlink(s, &all)).collect();
        want = want.iter().map(|s| unlink(s, &all)).collect();
        tail = tail.iter().map(|s| unlink(s, &all)).collect();
        let at = want.len().min(got.len());
        let mut rest = got.split_off(at);
        if matches!(md.shapes[id].kind, K::Service(_)) {
            // one list of renames, in any order
            check!(rest.len() <= 1, "section", "of {}: {:?}", id, rest);
            rest = rest.iter().flat_map(|r| r.trim_start_matches("> ").lines()).map(String::from).collect();
        }
        rest.sort();
        tail.sort();
        check!(got == want && rest == tail, "section", "what is said of {} is\n{:#?}\n{:#?}\nand not\n{:#?}\n{:#?}", id, got, rest, want, tail);
    }
    Ok(())
}

fn p28(src: &mut Src, case: &mut Case) -> Res {
    let c = Cfg { text: src.pick(&[Text::Plain, Text::Printable, Text::Wild]), ..Cfg::default() };
    let mut md = tell_apart(&gen_model(src, &c), &c.namespaces);
    let open = src.chance(1, 10);
    if !open {
        proper_docs(&mut md);
    }
    case.input(&md, rich(&md) && !open);
    case.sample(|| format!("{:?}", md));
    case.tag_if(open, "open");
    case.tag_if(md.shapes.values().any(|s| s.traits.contains_key(DOC)), "documented");
    case.tag_if(md.shapes.values().any(|s| s.traits.contains_key(EXT)), "linked");
    let m = to_model_shuffled(&md, src);
    let doc = guard("describe", || describe_model(&m))?.map_err(|e| Fail::new("describe", e.to_string()))?;
    if !open {
        md.shapes.retain(|_, s| s.kind != K::Unresolved);
        check_doc(&md, &doc)?;
    }
    let text = written(src, &mut DocumentationWriter::default(), &m)?;
    let want = guard("markdown", || write_document_to_string(&doc, OutputFormat::Markdown(MarkdownFlavor::CommonMark)))?
        .map_err(|e| Fail::new("markdown", e.to_string()))?;
    check!(bag(&text) == bag(&want), "writer", "the writer writes\n{}\nand not\n{}", text, want);
    respelt(src, case, &mut DocumentationWriter::default(), &md, &text, false)
}

fn two_of_a_name() -> Md {
    let mut md = Md::default();
    let simple = S { traits: T::new(), kind: K::Simple("string") };
    md.shapes.insert("example.one#A".into(), simple.clone());
    md.shapes.insert("example.two#A".into(), simple);
    let m = Mem { target: "example.two#A".into(), traits: T::new() };
    md.shapes.insert("example.two#B".into(), S { traits: T::new(), kind: K::List(m) });
    md
}

pub static P28: Prop = Prop {
    id: "P28",
    quick: 100_000,
    thorough: 400_000,
    rule: "a generated model is described, and the document is taken apart and compared, section by section, with what is known of the model; non-trivial: a rich model whose documentation traits have values of their type",
    assumptions: &[
        "how somedoc renders the document is not looked at, except that it does",
        "what is said of documentation that is not text is left open",
        "a shape which is referred to or given traits, but not defined, is not of the model",
        "names are made unique across namespaces, as labels are made of the names only (known finding)",
    ],
    run: p28,
    explicit: no_explicit,
    known: || {
        vec![Known {
            sig: "ambiguous-label",
            probe: || {
                let md = two_of_a_name();
                let doc = describe_model(&to_model(&md)).ok()?;
                check_doc(&md, &doc).err().map(|_| "two shapes of one name have sections of one label".to_string())
            },
        }]
    },
};

// ------------------------------------------------------------------------------------------------
// P29: PlantUML
// ------------------------------------------------------------------------------------------------

#[derive(Debug, Default, PartialEq)]
struct Package {
    /// header, and lines in any order
    classes: BTreeMap<String, Vec<String>>,
    /// notes and relationships
    other: Vec<String>,
}

/// The lines of a note, which may be in quotes and with escapes.
fn note_lines(text: &str, quoted: bool) -> Vec<String> {
    let mut text = text.to_string();
    if quoted && text.len() > 1 && text.starts_with('"') && text.ends_with('"') {
        let mut out = String::new();
        let mut escaped = false;
        for c in text[1..text.len() - 1].chars() {
            match (escaped, c) {
                (false, '\\') => escaped = true,
                (true, 'n') => {
                    out.push('\n');
                    escaped = false;
                }
                (_, c) => {
                    out.push(c);
                    escaped = false;
                }
            }
        }
        text = out;
    }
    text.lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty()).collect()
}

fn parse_uml(text: &str) -> Result<(BTreeMap<String, Package>, Vec<String>), Fail> {
    let mut packages = BTreeMap::new();
    let mut top = Vec::new();
    let mut package: Option<(String, Package)> = None;
    let mut class: Option<(String, Vec<String>)> = None;
    let mut note: Option<(String, Vec<String>)> = None;
    let mut lines = text.lines().map(str::trim).filter(|l| !l.is_empty());
    check!(lines.next() == Some("@startuml"), "uml", "it does not begin with @startuml:\n{}", text);
    let mut ended = false;
    for l in lines {
        check!(!ended, "uml", "{:?} after the end", l);
        if class.is_some() && l == "}" {
            if let (Some((h, mut ls)), Some((_, p))) = (class.take(), package.as_mut()) {
                ls.sort();
                check!(p.classes.insert(h.clone(), ls).is_none(), "twice", "{:?} is declared twice", h);
            }
        } else if let Some((_, ls)) = class.as_mut() {
            ls.push(l.to_string());
        } else if package.is_some() && l == "}" {
            if let Some((n, mut p)) = package.take() {
                p.other.sort();
                check!(packages.insert(n.clone(), p).is_none(), "twice", "package {} is declared twice", n);
            }
        } else if let Some((n, body)) = note.as_mut() {
            if l == "end note" {
                let text = format!("note as {}: {:?}", n, note_lines(&body.join("\n"), true));
                if let Some((_, p)) = package.as_mut() {
                    p.other.push(text);
                }
                note = None;
            } else {
                body.push(l.to_string());
            }
        } else if let Some((_, p)) = package.as_mut() {
            if let Some(n) = l.strip_prefix("note as ") {
                note = Some((n.to_string(), vec![]));
            } else if l.starts_with("class ") || l.starts_with("annotation ") {
                match (l.strip_suffix(" { }"), l.strip_suffix(" {")) {
                    (Some(h), _) => {
                        p.classes.insert(h.to_string(), vec![]);
                    }
                    (_, Some(h)) => class = Some((h.to_string(), vec![])),
                    _ => fail!("uml", "what is {:?}?", l),
                }
            } else {
                p.other.push(l.to_string());
            }
        } else if let Some(n) = l.strip_prefix("package ").and_then(|l| l.strip_suffix(" {")) {
            package = Some((n.to_string(), Package::default()));
        } else if l == "@enduml" {
            ended = true;
        } else {
            top.push(l.to_string());
        }
    }
    check!(ended && package.is_none() && class.is_none() && note.is_none(), "uml", "it does not end well:\n{}", text);
    top.sort();
    Ok((packages, top))
}

fn type_text(md: &Md, id: &str) -> String {
    match md.shapes.get(id).map(|s| &s.kind) {
        Some(K::Simple(n)) => n.to_string(),
        Some(K::List(m)) => format!("List<{}>", name_of(&m.target)),
        Some(K::Set(m)) => format!("Set<{}>", name_of(&m.target)),
        Some(K::Map(k, v)) => format!("Map<{}, {}>", name_of(&k.target), name_of(&v.target)),
        _ => id.to_string(),
    }
}

fn operation_text(md: &Md, id: &str, name: &str) -> String {
    let (i, o) = match md.shapes.get(id).map(|s| &s.kind) {
        Some(K::Operation(o)) => (o.input.clone(), o.output.clone()),
        _ => (None, None),
    };
    format!(
        "{}(in: {}){}",
        name,
        i.map(|i| type_text(md, &i)).unwrap_or_default(),
        o.map(|o| format!(": {}", type_text(md, &o))).unwrap_or_default()
    )
}

fn want_uml(md: &Md, expand: bool) -> (BTreeMap<String, Package>, Vec<String>) {
    let mut packages: BTreeMap<String, Package> = BTreeMap::new();
    let mut top = vec!["hide empty members".to_string()];
    if expand {
        let p = packages.entry("smithy.api".into()).or_default();
        for s in SIMPLES {
            p.classes.insert(format!("class {} <<primitive>>", s), vec![]);
        }
    }
    let mut namespaces = BTreeSet::new();
    for (id, s) in &md.shapes {
        let p = packages.entry(ns_of(id).into()).or_default();
        namespaces.insert(ns_of(id));
        let mut ls = Vec::new();
        for (t, v) in &s.traits {
            match (t.as_str(), v) {
                (DOC, _) | ("smithy.api#error", _) => {}
                (t, None) | (t, Some(V::Null)) => ls.push(format!("@{}", t)),
                (t, Some(V::Arr(_))) => ls.push(format!("@{} = [ .. ]", t)),
                (t, Some(V::Obj(_))) => ls.push(format!("@{} = {{ .. }}", t)),
                (t, Some(v)) => ls.push(format!("@{} = {}", t, show(v))),
            }
        }
        if !ls.is_empty() {
            ls.push("..".into());
        }
        let is = |t: &str| s.traits.contains_key(&format!("smithy.api#{}", t));
        let header = match &s.kind {
            K::Simple(n) => {
                if expand {
                    p.other.push(format!("smithy.api.{} <|-- {}", n, id));
                }
                format!("class {} <<dataType>>", id)
            }
            K::Service(v) => {
                ls.push(format!("version: string = \"{}\"", v.version));
                ls.extend(v.operations.iter().map(|o| operation_text(md, o, o)));
                p.other.extend(v.resources.iter().map(|r| format!("{} *-- {}", id, r)));
                format!("class {} <<service>>", id)
            }
            K::Resource(r) => {
                ls.extend(r.identifiers.iter().map(|(n, t)| format!("{}: {}", n, t)));
                for (n, o) in LIFECYCLE.iter().zip(&r.lifecycle) {
                    ls.extend(o.iter().map(|o| operation_text(md, o, n)));
                }
                for (n, l) in [("operations", &r.operations), ("collectionOperations", &r.collection_operations)] {
                    if !l.is_empty() {
                        ls.push(format!("..{}..", n));
                        ls.extend(l.iter().map(|o| operation_text(md, o, o)));
                    }
                }
                p.other.extend(r.resources.iter().map(|r| format!("{} *-- {}", id, r)));
                format!("class {} <<resource>>", id)
            }
            K::Struct(ms) | K::Union(ms) => {
                ls.extend(ms.iter().map(|(n, m)| format!("{}: {}", n, m.target)));
                match (is("trait"), is("error"), &s.kind) {
                    (true, _, _) => format!("annotation {}", id),
                    (_, true, _) => format!("class {} <<error>>", id),
                    (_, _, K::Union(_)) => format!("class {} <<union>>", id),
                    _ => format!("class {}", id),
                }
            }
            // not in the mapping of this writer
            K::List(_) | K::Set(_) | K::Map(_, _) | K::Operation(_) | K::Unresolved => continue,
        };
        if let Some(Some(V::Str(d))) = s.traits.get(DOC) {
            p.other.push(match d.contains('\n') {
                true => format!("note as {}_note_0: {:?}", id, note_lines(d, false)),
                false => format!("note {:?} as {}_note_0", d, id),
            });
            p.other.push(format!("{} .. {}_note_0", id, id));
        }
        ls.sort();
        p.classes.insert(header, ls);
    }
    for p in packages.values_mut() {
        p.other.sort();
    }
    if expand {
        top.extend(namespaces.iter().map(|n| format!("{} ..> smithy.api", n)));
    }
    top.sort();
    (packages, top)
}

fn p29(src: &mut Src, case: &mut Case) -> Res {
    // a line for each thing said: text of several lines is left open
    let open = src.chance(1, 10);
    let text = if open { Text::Wild } else { Text::Plain };
    let c = Cfg { text, depth: 1, ..Cfg::default() };
    let mut md = gen_model(src, &c);
    if !open {
        proper_docs(&mut md);
        for s in md.shapes.values_mut() {
            for v in s.traits.values_mut().flatten() {
                if let V::Str(t) = v {
                    *t = t.trim().to_string();
                }
            }
            if let Some(Some(V::Str(t))) = s.traits.get_mut(DOC) {
                if src.chance(1, 3) {
                    *t = format!("The {}\nnotes{}", t, src.pick(&["", "\n", " of a", "\nand \"more\"", "\n\\d"]));
                    case.tag("note of several lines");
                }
            }
        }
    }
    let expand = src.bool();
    case.input(&(&md, expand), rich(&md) && !open);
    case.sample(|| format!("{:?}", md));
    case.tag_if(open, "open");
    let namespaces: BTreeSet<&str> = md.shapes.keys().map(|i| ns_of(i)).collect();
    case.tag_if(namespaces.len() > 1, "several namespaces");
    let m = to_model_shuffled(&md, src);
    let mut w = if expand { PlantUmlWriter::new(true) } else if src.bool() { PlantUmlWriter::new(false) } else { PlantUmlWriter::default() };
    let text = written(src, &mut w, &m)?;
    if open {
        return Ok(());
    }
    md.shapes.retain(|_, s| s.kind != K::Unresolved);
    let (got, top) = parse_uml(&text)?;
    let (want, want_top) = want_uml(&md, expand);
    let names = |p: &BTreeMap<String, Package>| p.keys().cloned().collect::<Vec<_>>();
    check!(names(&got) == names(&want), "packages", "the packages are {:?}, not {:?}", names(&got), names(&want));
    for (n, w) in &want {
        let g = &got[n];
        for (h, ls) in &w.classes {
            match g.classes.get(h) {
                None => fail!("class", "{:?} is not in package {}: {:?}", h, n, g.classes.keys().collect::<Vec<_>>()),
                Some(got) => check!(got == ls, "class-body", "{:?} has {:?}, not {:?}", h, got, ls),
            }
        }
        for h in g.classes.keys() {
            check!(w.classes.contains_key(h), "class", "{:?} should not be in package {}", h, n);
        }
        check!(g.other == w.other, "relationships", "package {} has {:?}, not {:?}", n, g.other, w.other);
    }
    check!(top == want_top, "top", "outside packages there is {:?}, not {:?}", top, want_top);
    respelt(src, case, &mut w, &md, &text, true)
}

pub static P29: Prop = Prop {
    id: "P29",
    quick: 300_000,
    thorough: 800_000,
    rule: "a generated model is written as PlantUML, with or without the Smithy types, and the packages, classes, notes and relationships are compared with those the documented mapping gives; non-trivial: a rich model whose text is of single lines",
    assumptions: &[
        "text of several lines is only checked not to crash the writer",
        "lists, sets, maps and operations are no classes of their own in this writer",
    ],
    run: p29,
    explicit: no_explicit,
    known: no_known,
};

// ------------------------------------------------------------------------------------------------
// P30: GraphML
// ------------------------------------------------------------------------------------------------

#[derive(Debug, Default, Clone)]
struct El {
    name: String,
    attrs: BTreeMap<String, String>,
    children: Vec<El>,
    text: String,
}

impl El {
    fn attr(&self, n: &str) -> Result<&str, Fail> {
        self.attrs.get(n).map(|s| s.as_str()).ok_or_else(|| Fail::new("attribute", format!("{:?} has no {}", self, n)))
    }
}

fn unescape(s: &str) -> Result<String, Fail> {
    let mut out = String::new();
    let mut rest = s;
    while let Some(n) = rest.find('&') {
        out.push_str(&rest[..n]);
        rest = &rest[n..];
        let end = rest.find(';').ok_or_else(|| Fail::new("xml", format!("a bare & in {:?}", s)))?;
        let name = &rest[1..end];
        let c = match name {
            "amp" => Some('&'),
            "lt" => Some('<'),
            "gt" => Some('>'),
            "quot" => Some('"'),
            "apos" => Some('\''),
            n => match (n.strip_prefix("#x"), n.strip_prefix('#')) {
                (Some(h), _) => u32::from_str_radix(h, 16).ok().and_then(char::from_u32),
                (_, Some(d)) => d.parse().ok().and_then(char::from_u32),
                _ => None,
            },
        };
        out.push(c.ok_or_else(|| Fail::new("xml", format!("unknown entity in {:?}", s)))?);
        rest = &rest[end + 1..];
    }
    Ok(out + rest)
}

/// Enough of an XML parser to read what has elements, attributes and text.
fn parse_xml(text: &str) -> Result<El, Fail> {
    let bad = |what: &str| Fail::new("xml", format!("{} in\n{}", what, text));
    let mut rest = text.trim_start();
    if rest.starts_with("<?xml") {
        let n = rest.find("?>").ok_or_else(|| bad("an open declaration"))?;
        rest = &rest[n + 2..];
    }
    let mut stack: Vec<El> = vec![El::default()];
    loop {
        let n = match rest.find('<') {
            None => break,
            Some(n) => n,
        };
        let top = stack.len() - 1;
        check!(!rest[..n].contains("]]>"), "xml", "]]> in text of\n{}", text);
        stack[top].text.push_str(&unescape(&rest[..n])?);
        rest = &rest[n + 1..];
        // to the end of the tag, past quoted values
        let mut quote = None;
        let mut end = None;
        for (i, c) in rest.char_indices() {
            match (quote, c) {
                (None, '>') => {
                    end = Some(i);
                    break;
                }
                (None, '"') | (None, '\'') => quote = Some(c),
                (Some(q), c) if q == c => quote = None,
                (_, '<') => return Err(bad("a < in a tag")),
                _ => {}
            }
        }
        let end = end.ok_or_else(|| bad("an open tag"))?;
        let tag = &rest[..end];
        rest = &rest[end + 1..];
        if let Some(name) = tag.strip_prefix('/') {
            let el = stack.pop().ok_or_else(|| bad("an end without a start"))?;
            check!(el.name == name.trim(), "xml", "{} is closed by {}", el.name, name);
            let top = stack.len();
            if top == 0 {
                return Err(bad("an end without a start"));
            }
            stack[top - 1].children.push(el);
            continue;
        }
        let (tag, empty) = match tag.strip_suffix('/') {
            Some(t) => (t, true),
            None => (tag, false),
        };
        let (name, mut attrs) = match tag.find(char::is_whitespace) {
            Some(n) => (&tag[..n], tag[n..].trim()),
            None => (tag, ""),
        };
        let ok = !name.is_empty() && name.chars().all(|c| c.is_alphanumeric() || c == '.' || c == '_');
        check!(ok, "xml", "the name {:?} in\n{}", name, text);
        let mut el = El { name: name.into(), ..El::default() };
        while !attrs.is_empty() {
            let eq = attrs.find('=').ok_or_else(|| bad("an attribute without value"))?;
            let key = attrs[..eq].trim();
            let v = attrs[eq + 1..].trim_start();
            let q = v.chars().next().filter(|c| *c == '"' || *c == '\'').ok_or_else(|| bad("an unquoted attribute"))?;
            let end = v[1..].find(q).ok_or_else(|| bad("an open attribute"))?;
            check!(el.attrs.insert(key.into(), unescape(&v[1..1 + end])?).is_none(), "xml", "{} twice", key);
            attrs = v[end + 2..].trim_start();
        }
        if empty {
            let top = stack.len() - 1;
            stack[top].children.push(el);
        } else {
            stack.push(el);
        }
    }
    check!(rest.trim().is_empty() && stack.len() == 1 && stack[0].text.trim().is_empty(), "xml", "not one whole element:\n{}", text);
    check!(stack[0].children.len() == 1, "xml", "{} elements:\n{}", stack[0].children.len(), text);
    Ok(stack[0].children[0].clone())
}

/// id, and its data
type Nodes = Vec<(String, BTreeMap<String, String>)>;
/// source, target and data
type Edges = Vec<(String, String, BTreeMap<String, String>)>;

fn want_graph(md: &Md) -> (Nodes, Edges) {
    let mut nodes = Nodes::new();
    let mut edges = Edges::new();
    let data = |k: &str, v: &str| -> BTreeMap<String, String> { std::iter::once((k.to_string(), v.to_string())).collect() };
    for (id, s) in &md.shapes {
        if s.kind == K::Unresolved {
            continue;
        }
        let mut d = data("type", s.kind.name());
        for t in s.traits.keys() {
            edges.push((id.clone(), t.clone(), data("trait", "true")));
        }
        let mut member = |t: &Sid, n: &str| edges.push((id.clone(), t.clone(), data("member", n)));
        for (n, m) in members_of(&s.kind) {
            member(&m.target, &n);
        }
        match &s.kind {
            K::Service(v) => {
                d.insert("version".into(), v.version.clone());
                v.operations.iter().for_each(|o| member(o, "operations"));
                v.resources.iter().for_each(|o| member(o, "resources"));
            }
            K::Operation(o) => {
                o.input.iter().for_each(|o| member(o, "input"));
                o.output.iter().for_each(|o| member(o, "output"));
                o.errors.iter().for_each(|o| member(o, "errors"));
            }
            K::Resource(r) => {
                for (n, o) in LIFECYCLE.iter().zip(&r.lifecycle) {
                    o.iter().for_each(|o| member(o, n));
                }
                r.operations.iter().for_each(|o| member(o, "operations"));
                r.collection_operations.iter().for_each(|o| member(o, "collectionOperations"));
                r.resources.iter().for_each(|o| member(o, "resources"));
            }
            _ => {}
        }
        nodes.push((id.clone(), d));
    }
    (nodes, edges)
}

fn check_graph(md: &Md, text: &str) -> Res {
    let root = parse_xml(text)?;
    check!(root.name == "graphml", "root", "the root is {}", root.name);
    check!(root.attr("xmlns")? == "http://graphml.graphdrawing.org/xmlns", "root", "the namespace is {:?}", root.attrs);
    // keys: id -> what they are for
    let mut keys = BTreeMap::new();
    let mut graph = None;
    for e in &root.children {
        match e.name.as_str() {
            "key" => {
                check!(keys.insert(e.attr("id")?.to_string(), e.attr("for")?.to_string()).is_none(), "keys", "{:?} twice", e);
            }
            "graph" => {
                check!(graph.is_none(), "graph", "two graphs");
                graph = Some(e);
            }
            n => fail!("root", "what is {}?", n),
        }
    }
    let graph = graph.ok_or_else(|| Fail::new("graph", "there is no graph"))?;
    check!(graph.attr("edgedefault")? == "directed", "graph", "{:?}", graph.attrs);
    let data = |of: &str, e: &El| -> Result<Option<(String, String)>, Fail> {
        if e.name != "data" {
            return Ok(None);
        }
        let key = e.attr("key")?;
        check!(keys.get(key).map(|k| k == of || k == "all").unwrap_or(false), "data-key", "data {:?} of a {} has no such key: {:?}", key, of, keys);
        check!(e.children.is_empty(), "data", "{:?}", e);
        Ok(Some((key.to_string(), e.text.clone())))
    };
    let datas = |of: &str, e: &El| -> Result<BTreeMap<String, String>, Fail> {
        let mut r = BTreeMap::new();
        for c in &e.children {
            match data(of, c)? {
                Some((k, v)) => check!(r.insert(k, v).is_none(), "data", "data twice in {:?}", e),
                None => fail!("data", "what is {} in a {}?", c.name, of),
            }
        }
        Ok(r)
    };
    let mut nodes = Nodes::new();
    let mut edges = Edges::new();
    let mut version = None;
    let mut ids = BTreeSet::new();
    for e in &graph.children {
        match e.name.as_str() {
            "data" => {
                check!(version.is_none(), "version", "two data of the graph");
                version = data("graph", e)?;
            }
            "node" => nodes.push((e.attr("id")?.into(), datas("node", e)?)),
            "edge" => {
                check!(ids.insert(e.attr("id")?), "edge-id", "two edges {}", e.attr("id")?);
                edges.push((e.attr("source")?.into(), e.attr("target")?.into(), datas("edge", e)?));
            }
            n => fail!("graph", "what is {}?", n),
        }
    }
    check!(version.as_ref().map(|v| v.1.as_str()) == Some("1.0"), "version", "the version is {:?}", version);
    let (mut want_nodes, mut want_edges) = want_graph(md);
    nodes.sort();
    edges.sort();
    want_nodes.sort();
    want_edges.sort();
    check!(nodes == want_nodes, "nodes", "the nodes are {:?}, not {:?}", nodes, want_nodes);
    for e in &want_edges {
        check!(edges.binary_search(e).is_ok(), "edges", "the edge {:?} is missing", e);
    }
    for e in &edges {
        check!(want_edges.binary_search(e).is_ok(), "edges", "the edge {:?} is too much", e);
    }
    check!(edges.len() == want_edges.len(), "edges", "{} edges, not {}: {:?}", edges.len(), want_edges.len(), edges);
    Ok(())
}

fn p30(src: &mut Src, case: &mut Case) -> Res {
    let c = Cfg { text: Text::Printable, depth: 0, max_shapes: 16, ..Cfg::default() };
    let md = gen_model(src, &c);
    case.input(&md, rich(&md));
    case.sample(|| format!("{:?}", md));
    case.tag_if(md.shapes.values().any(|s| matches!(&s.kind, K::Service(v) if v.version.contains(&['<', '&'][..]))), "markup in a version");
    let m = to_model_shuffled(&md, src);
    let text = written(src, &mut GraphMLWriter::default(), &m)?;
    check_graph(&md, &text)?;
    respelt(src, case, &mut GraphMLWriter::default(), &md, &text, true)
}

fn large() -> Res {
    let mut md = Md::default();
    let members = (0..70_000).map(|i| (format!("m{}", i), Mem { target: "smithy.api#String".into(), traits: T::new() })).collect();
    md.shapes.insert("a#A".into(), S { traits: T::new(), kind: K::Struct(members) });
    let mut w = GraphMLWriter::default();
    let text = guard("write", || write_model_to_string(&mut w, &to_model(&md)))?.map_err(|e| Fail::new("write", e.to_string()))?;
    check_graph(&md, &text)
}

pub static P30: Prop = Prop {
    id: "P30",
    quick: 50_000,
    thorough: 800_000,
    rule: "a generated model is written as GraphML, which a small XML parser reads, and its nodes, edges and data are compared with those the documented mapping gives; non-trivial: a rich model",
    assumptions: &[
        "characters which XML does not allow are not in the versions",
        "the mapping has no edges for identifiers, renames, and traits of members, and no nodes for shapes not defined",
    ],
    run: p30,
    explicit: || vec![Explicit { name: "a structure of 70000 members".into(), run: Box::new(large) }],
    known: no_known,
};
