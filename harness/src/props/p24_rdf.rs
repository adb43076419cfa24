//! P24: shape URNs; P25: the RDF graph of a model.

use crate::engine::*;
use crate::model::*;
use crate::props::p03_model::respelled;
use crate::props::p01_ids::{ref_identifier, ref_namespace};
use crate::{check, fail};
use atelier_rdf::urn::{iri_to_shape, is_shape_iri, shape_to_iri};
use atelier_rdf::writer::{model_to_rdf, RdfWriter};
use rdftk_core::simple::graph_factory;
use rdftk_core::simple::literal::literal_factory;
use rdftk_iri::{IRIRef, IRI};
use std::collections::{BTreeMap, BTreeSet};
use std::str::FromStr;

// ------------------------------------------------------------------------------------------------
// P24
// ------------------------------------------------------------------------------------------------

/// What the mapping in the module documentation makes of an absolute id.
fn urn_of(id: &str) -> String {
    let (ns, rest) = id.split_once('#').unwrap_or((id, ""));
    match rest.split_once('$') {
        Some((name, member)) => format!("urn:smithy:{}:{}/{}", ns, name, member),
        None => format!("urn:smithy:{}:{}", ns, rest),
    }
}

/// The same mapping backwards, over any text.
fn id_of(urn: &str) -> Option<String> {
    let rest = urn.strip_prefix("urn:smithy:")?;
    let (ns, rest) = rest.split_once(':')?;
    let (name, member) = match rest.split_once('/') {
        Some((n, m)) => (n, Some(m)),
        None => (rest, None),
    };
    if !ref_namespace(ns) || !ref_identifier(name) || !member.map(ref_identifier).unwrap_or(true) {
        return None;
    }
    Some(match member {
        Some(m) => format!("{}#{}${}", ns, name, m),
        None => format!("{}#{}", ns, name),
    })
}

fn gen_abs_id(src: &mut Src) -> String {
    let ns = src
        .list(1, 4, |s| if s.chance(1, 4) { s.pick(&["smithy", "urn", "api", "aws", "Smithy"]).to_string() } else { gen_ident(s) })
        .join(".");
    if src.bool() {
        format!("{}#{}", ns, gen_ident(src))
    } else {
        format!("{}#{}${}", ns, gen_ident(src), gen_ident(src))
    }
}

fn p24(src: &mut Src, case: &mut Case) -> Res {
    let id = gen_abs_id(src);
    let urn = urn_of(&id);
    let iri = guard("shape_to_iri", || shape_to_iri(&sid(&id)))?;
    check!(iri.to_string() == urn, "to-urn", "{} became {}, not {}", id, iri, urn);
    let back = guard("iri_to_shape", || iri_to_shape(iri.clone()))?;
    match &back {
        Ok(b) => check!(b.to_string() == id, "round-trip", "{} came back as {}", id, b),
        Err(e) => fail!("round-trip", "{} did not come back: {}", urn, e),
    }

    // a second id: different ids, different URNs
    let other = gen_abs_id(src);
    let other_iri = guard("shape_to_iri", || shape_to_iri(&sid(&other)))?;
    check!((other_iri == iri) == (other == id), "injective", "{} and {} share {}", id, other, iri);

    // texts near a URN
    let mut text = urn.clone();
    let edits = src.weighted(&[1, 6, 3, 2]);
    for _ in 0..edits {
        let mut cs: Vec<char> = text.chars().collect();
        match src.weighted(&[5, 3, 3, 3, 2]) {
            0 => {
                let at = src.usize(cs.len() + 1);
                let c = src.pick(&[
                    ':', '/', '.', '_', '#', '?', '$', '@', '-', '~', '%', '0', 'a', 'Z', 'é', '!', '\'', '(', '+', ',', ';', '=', '&', '*',
                ]);
                cs.insert(at, c);
                text = cs.into_iter().collect();
            }
            1 => {
                let at = src.usize(cs.len());
                if at < cs.len() {
                    cs.remove(at);
                }
                text = cs.into_iter().collect();
            }
            2 => {
                let at = src.usize(cs.len());
                if at < cs.len() {
                    cs[at] = src.pick(&[':', '/', '.', '_', '#', '?', '1', 'x', 'X']);
                }
                text = cs.into_iter().collect();
            }
            3 => text.push_str(src.pick(&[
                "?query", "#fragment", "?", "#", "/member", "/", ":", ":x", "?a=b#c", "//", ".", "/../x", "%41", "?/m", "#$x",
            ])),
            _ => {
                let (from, to) = src.pick(&[
                    ("urn:", "URN:"), ("urn:", "Urn:"), ("smithy:", "Smithy:"), ("smithy:", "smithy"), ("urn:", ""), ("smithy:", ""),
                    ("urn:", "http:"), ("urn:", "urn://"), ("urn:", "urn:/"), ("urn:smithy:", "urn://smithy/"), (":", "#"), ("/", "$"), (":", "/"),
                    ("/", ":"), ("urn:smithy:", "urn:smithy::"), ("urn:smithy:", "urn:urn:smithy:"), (".", ".."), (".", ":"), (".", "/"),
                ]);
                text = if src.bool() { text.replacen(from, to, 1) } else { text.replace(from, to) };
            }
        }
    }
    case.input(&text, text != urn);
    let want = id_of(&text);
    case.tag(if want.is_some() { "a shape URN" } else { "not a shape URN" });
    case.sample(|| format!("{} -> {:?}", text, want));
    // parsing the text as an IRI belongs to another crate; only what it parses without change counts
    let Ok(Ok(parsed)) = no_panic(|| IRI::from_str(&text)) else {
        case.tag("no IRI");
        return Ok(());
    };
    let parsed = IRIRef::from(parsed);
    match no_panic(|| parsed.to_string()) {
        Ok(t) if t == text => {}
        _ => {
            case.tag("another IRI");
            return Ok(());
        }
    }
    // whether schemes that differ in case are one is also decided there
    if text.get(..4).map(|t| t != "urn:" && t.eq_ignore_ascii_case("urn:")).unwrap_or(false) {
        case.tag("another scheme");
        return Ok(());
    }
    let got = guard("iri_to_shape", || iri_to_shape(parsed.clone()))?;
    let is = guard("is_shape_iri", || is_shape_iri(parsed.clone()))?;
    check!(is == got.is_ok(), "is-shape", "is_shape_iri({}) = {}, iri_to_shape {:?}", text, is, got.map(|i| i.to_string()));
    match (&got, &want) {
        (Ok(g), Some(w)) => check!(&g.to_string() == w, "from-urn", "{} became {}, not {}", text, g, w),
        (Ok(g), None) => fail!("not-a-urn", "{} became {}", text, g),
        (Err(e), Some(w)) => fail!("refused", "{} is {} but: {}", text, w, e),
        (Err(_), None) => {}
    }
    Ok(())
}

pub static P24: Prop = Prop {
    id: "P24",
    quick: 50_000,
    thorough: 3_000_000,
    rule: "a generated absolute id is turned into a URN and back, and a text up to three edits from a URN is read against a reference of the documented mapping; non-trivial: the text is not the URN itself",
    assumptions: &["texts the IRI crate does not parse, or prints differently, and schemes that differ from urn in case only, are left out"],
    run: p24,
    explicit: no_explicit,
    known: no_known,
};

// ------------------------------------------------------------------------------------------------
// P25
// ------------------------------------------------------------------------------------------------

const RDF: &str = "http://www.w3.org/1999/02/22-rdf-syntax-ns#";
const SMITHY: &str = "https://awslabs.github.io/smithy/rdf-1.0#";
const XSD: &str = "http://www.w3.org/2001/XMLSchema#";

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum N {
    Iri(String),
    Str(String),
    Bool(bool),
    Int(i64),
    Flt(u64),
    Lit(String, String),
    /// a blank node: its properties in order; the members of a bag are numbered all alike
    Blank(Vec<(String, N)>),
}

type Props = Vec<(String, N)>;

fn smithy(n: &str) -> String {
    format!("{}{}", SMITHY, n)
}

fn iri(n: &str) -> N {
    N::Iri(n.to_string())
}

fn a(t: &str) -> (String, N) {
    (format!("{}type", RDF), N::Iri(t.to_string()))
}

fn p(n: &str, v: N) -> (String, N) {
    (smithy(n), v)
}

fn node(mut ps: Props) -> N {
    ps.sort();
    N::Blank(ps)
}

fn shape_ref(id: &str) -> N {
    N::Iri(urn_of(id))
}

fn bag(members: Vec<N>) -> N {
    let mut ps = vec![a(&format!("{}Bag", RDF))];
    ps.extend(members.into_iter().map(|m| (format!("{}_*", RDF), m)));
    node(ps)
}

/// A literal as the RDF crate holds it, which escapes its text when it is made.
fn text(s: &str) -> N {
    N::Str(literal_factory().literal(s).lexical_form().clone())
}

fn want_value(v: &V) -> N {
    match v {
        V::Null => iri(&smithy("null")),
        V::Bool(b) => N::Bool(*b),
        V::Int(i) => N::Int(*i),
        V::Flt(f) => N::Flt(*f),
        V::Str(s) => text(s),
        V::Arr(vs) => {
            let mut ps = vec![a(&format!("{}Seq", RDF))];
            ps.extend(vs.iter().enumerate().map(|(i, v)| (format!("{}_{}", RDF, i + 1), want_value(v))));
            node(ps)
        }
        V::Obj(o) => want_object(o),
    }
}

fn want_object(o: &BTreeMap<String, V>) -> N {
    bag(o.iter().map(|(k, v)| node(vec![p("key", text(k)), p("value", want_value(v))])).collect())
}

fn want_traits(t: &T) -> Props {
    t.iter()
        .map(|(id, v)| {
            let mut ps = vec![p("trait", shape_ref(id))];
            if let Some(v) = v {
                ps.push(p("value", want_value(v)));
            }
            p("apply", node(ps))
        })
        .collect()
}

fn want_member(name: &str, m: &Mem) -> (String, N) {
    let N::Iri(target) = shape_ref(&m.target) else { unreachable!() };
    let mut ps = vec![a(&target), p("name", text(name))];
    ps.extend(want_traits(&m.traits));
    p("member", node(ps))
}

fn want_shape(s: &S) -> Props {
    let mut ps = want_traits(&s.traits);
    let ty = match &s.kind {
        K::Simple(n) => {
            let mut cs = n.chars();
            cs.next().map(|c| c.to_ascii_uppercase()).into_iter().chain(cs).collect::<String>()
        }
        K::List(_) => "List".into(),
        K::Set(_) => "Set".into(),
        K::Map(_, _) => "Map".into(),
        K::Struct(_) => "Structure".into(),
        K::Union(_) => "Union".into(),
        K::Service(_) => "Service".into(),
        K::Operation(_) => "Operation".into(),
        K::Resource(_) => "Resource".into(),
        K::Unresolved => return ps,
    };
    ps.push(a(&smithy(&ty)));
    ps.extend(members_of(&s.kind).into_iter().map(|(n, m)| want_member(&n, m)));
    let each = |ps: &mut Props, name: &str, ids: &[Sid]| {
        let set: BTreeSet<&Sid> = ids.iter().collect();
        ps.extend(set.into_iter().map(|i| p(name, shape_ref(i))));
    };
    match &s.kind {
        K::Service(v) => {
            ps.push(p("version", text(&v.version)));
            each(&mut ps, "operation", &v.operations);
            each(&mut ps, "resource", &v.resources);
            if !v.renames.is_empty() {
                ps.push(p(
                    "rename",
                    bag(v.renames.iter().map(|(i, n)| node(vec![p("shape", shape_ref(i)), p("name", text(n))])).collect()),
                ));
            }
        }
        K::Operation(o) => {
            each(&mut ps, "input", o.input.as_slice());
            each(&mut ps, "output", o.output.as_slice());
            each(&mut ps, "error", &o.errors);
        }
        K::Resource(r) => {
            if !r.identifiers.is_empty() {
                ps.push(p(
                    "identifiers",
                    bag(r.identifiers.iter().map(|(n, i)| node(vec![p("key", text(n)), p("target", shape_ref(i))])).collect()),
                ));
            }
            for (n, t) in LIFECYCLE.iter().zip(r.lifecycle.iter()) {
                each(&mut ps, n, t.as_slice());
            }
            each(&mut ps, "operation", &r.operations);
            each(&mut ps, "collectionOperation", &r.collection_operations);
            each(&mut ps, "resource", &r.resources);
        }
        _ => {}
    }
    ps
}

/// The graph of a model: the model's own properties, and those of each shape.
fn want_graph(m: &Md, version: &str) -> (Props, BTreeMap<String, Props>) {
    let mut model = vec![a(&smithy("Model")), p("smithy_version", text(version))];
    let mut shapes = BTreeMap::new();
    for (id, s) in &m.shapes {
        if s.kind != K::Unresolved {
            model.push(p("shape", shape_ref(id)));
        }
        let mut ps = want_shape(s);
        ps.sort();
        if !ps.is_empty() {
            shapes.insert(urn_of(id), ps);
        }
    }
    if !m.meta.is_empty() {
        model.push(p("metadata", want_object(&m.meta)));
    }
    model.sort();
    (model, shapes)
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Sub {
    Iri(String),
    Blank(String),
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Ob {
    N(N),
    Blank(String),
}

type Triples = BTreeMap<Sub, BTreeSet<(String, Ob)>>;

fn literal(lexical: &str, ty: Option<&str>) -> N {
    let ty = ty.unwrap_or("");
    match ty.strip_prefix(XSD) {
        None if ty.is_empty() => N::Str(lexical.to_string()),
        Some("string") => N::Str(lexical.to_string()),
        Some("boolean") if lexical == "true" || lexical == "false" => N::Bool(lexical == "true"),
        Some("long") | Some("signedLong") => match lexical.parse() {
            Ok(i) => N::Int(i),
            Err(_) => N::Lit(lexical.to_string(), ty.to_string()),
        },
        Some("double") => match lexical.parse::<f64>() {
            Ok(f) => N::Flt(f.to_bits()),
            Err(_) => N::Lit(lexical.to_string(), ty.to_string()),
        },
        _ => N::Lit(lexical.to_string(), ty.to_string()),
    }
}

/// The tree below a subject; every blank node may hang in one place only.
fn tree(g: &Triples, at: &Sub, seen: &mut BTreeSet<Sub>) -> Result<Props, Fail> {
    check!(seen.insert(at.clone()), "shared", "the blank node {:?} is used twice", at);
    let mut ps = Vec::new();
    for (pred, o) in g.get(at).into_iter().flatten() {
        let v = match o {
            Ob::N(n) => n.clone(),
            Ob::Blank(b) => N::Blank(tree(g, &Sub::Blank(b.clone()), seen)?),
        };
        ps.push((pred.clone(), v));
    }
    // the numbers of a bag mean nothing, but they run from one
    if ps.contains(&a(&format!("{}Bag", RDF))) {
        let prefix = format!("{}_", RDF);
        let mut nos = BTreeSet::new();
        let mut n = 0;
        for (pred, _) in ps.iter_mut() {
            if let Some(no) = pred.strip_prefix(&prefix) {
                n += 1;
                let no: usize = no.parse().map_err(|_| Fail::new("bag", format!("{} in a bag", pred)))?;
                nos.insert(no);
                *pred = format!("{}*", prefix);
            }
        }
        check!(nos == (1..=n).collect(), "bag", "a bag of {} is numbered {:?}", n, nos);
    }
    ps.sort();
    Ok(ps)
}

fn p25(src: &mut Src, case: &mut Case) -> Res {
    let c = Cfg { depth: 2, ..Cfg::default() };
    let mut md = gen_model(src, &c);
    if src.chance(1, 8) {
        md = respelled(src, &md);
        case.tag("names in several cases");
    }
    let m = to_model_shuffled(&md, src);
    let named = src.chance(1, 3).then(|| format!("https://example.org/{}", gen_name(src, false)));
    case.input(&(&md, &named), rich(&md));
    case.sample(|| format!("{:?} as {:?}", md, named));
    case.tag_if(!md.meta.is_empty(), "metadata");
    case.tag_if(md.shapes.values().any(|s| matches!(&s.kind, K::Service(v) if !v.renames.is_empty())), "renames");
    case.tag_if(md.shapes.values().any(|s| matches!(&s.kind, K::Resource(v) if v.identifiers.len() > 1)), "identifiers");
    case.tag_if(md.shapes.values().any(|s| s.kind == K::Unresolved && !s.traits.is_empty()), "applied elsewhere");

    let model_iri = named.as_ref().map(|n| IRIRef::from(IRI::from_str(n).unwrap()));
    let graph = guard("model_to_rdf", || model_to_rdf(&m, model_iri.clone(), graph_factory()))?
        .map_err(|e| Fail::new("error", e.to_string()))?;
    let mut g: Triples = BTreeMap::new();
    for st in graph.borrow().statements() {
        let s = match (st.subject().as_iri(), st.subject().as_blank()) {
            (Some(i), _) => Sub::Iri(i.to_string()),
            (_, Some(b)) => Sub::Blank(b.clone()),
            _ => fail!("subject", "a subject of another kind: {:?}", st),
        };
        let o = st.object();
        let o = match (o.as_iri(), o.as_blank(), o.as_literal()) {
            (Some(i), _, _) => Ob::N(N::Iri(i.to_string())),
            (_, Some(b), _) => Ob::Blank(b.clone()),
            (_, _, Some(l)) => {
                check!(l.language().is_none(), "language", "a literal with a language: {:?}", l.lexical_form());
                Ob::N(literal(l.lexical_form(), l.data_type().map(|t| t.as_iri().to_string()).as_deref()))
            }
            _ => fail!("object", "an object of another kind: {:?}", st),
        };
        g.entry(s).or_default().insert((st.predicate().to_string(), o));
    }

    let (model, shapes) = want_graph(&md, &m.smithy_version().to_string());
    let root: Vec<Sub> = g
        .iter()
        .filter(|(_, ps)| ps.contains(&(format!("{}type", RDF), Ob::N(N::Iri(smithy("Model"))))))
        .map(|(s, _)| s.clone())
        .collect();
    check!(root.len() == 1, "model-subject", "the subjects of type smithy:Model are {:?}", root);
    match (&named, &root[0]) {
        (Some(n), Sub::Iri(i)) => check!(n == i, "model-subject", "the model is {}, not {}", i, n),
        (None, Sub::Blank(_)) => {}
        _ => fail!("model-subject", "the model was to be {:?} and is {:?}", named, root[0]),
    }
    let mut seen = BTreeSet::new();
    let got_model = tree(&g, &root[0], &mut seen)?;
    same("model", &model, &got_model)?;
    let mut got = BTreeMap::new();
    for s in g.keys().filter(|s| **s != root[0]) {
        if let Sub::Iri(i) = s {
            got.insert(i.clone(), tree(&g, s, &mut seen)?);
        }
    }
    for (urn, ps) in &shapes {
        same(urn, ps, got.get(urn).map(|p| p.as_slice()).unwrap_or(&[]))?;
    }
    for urn in got.keys() {
        check!(shapes.contains_key(urn), "extra-subject", "{} is no shape of the model: {:?}", urn, got[urn]);
    }
    let loose: Vec<&Sub> = g.keys().filter(|s| !seen.contains(s)).collect();
    check!(loose.is_empty(), "loose", "blank nodes nothing refers to: {:?}", loose);

    // the writer starts from the same graph
    if src.chance(1, 16) {
        let mut out: Vec<u8> = Vec::new();
        let mut w = match &model_iri {
            Some(i) => RdfWriter::new(i.clone()),
            None => RdfWriter::default(),
        };
        use atelier_core::io::ModelWriter;
        if src.bool() {
            let other = to_model(&gen_model(src, &Cfg { text: Text::Plain, depth: 0, max_shapes: 4, ..Cfg::default() }));
            let mut before: Vec<u8> = Vec::new();
            let _ = guard("write before", || w.write(&mut before, &other))?;
        }
        let r = guard("write", || w.write(&mut out, &m))?;
        check!(r.is_ok(), "write", "the writer failed: {:?}", r.err().map(|e| e.to_string()));
        let text = String::from_utf8(out).map_err(|e| Fail::new("write", e.to_string()))?;
        if let Some(n) = &named {
            check!(text.contains(n.as_str()), "write", "{} is not in {}", n, text);
        }
        case.tag("written");
    }
    Ok(())
}

fn same(what: &str, want: &[(String, N)], got: &[(String, N)]) -> Res {
    if want == got {
        return Ok(());
    }
    let missing: Vec<_> = want.iter().filter(|w| !got.contains(w)).collect();
    let extra: Vec<_> = got.iter().filter(|g| !want.contains(g)).collect();
    let sig = match (missing.first(), extra.first()) {
        (Some((p, _)), _) | (None, Some((p, _))) => p.rsplit('#').next().unwrap_or("").trim_end_matches(|c: char| c.is_ascii_digit()),
        _ => "repeated",
    };
    fail!(format!("graph-{}", sig), "{}: missing {:#?}, extra {:#?}", what, missing, extra)
}

pub static P25: Prop = Prop {
    id: "P25",
    quick: 8_000,
    thorough: 500_000,
    rule: "a generated model is turned into an RDF graph, and the tree below each subject is compared with the one the mapping in the book gives; non-trivial: two or more shapes, one of them not simple",
    assumptions: &[
        "the numbers of the members of a bag carry no meaning beyond running from one",
        "an integer may be an xsd:long or, as the book has it, an xsd:signedLong; text may be a plain literal or an xsd:string",
        "the RDF crate escapes the text of a literal when it is made; the text before that is what is compared",
        "serializing the graph as Turtle belongs to another crate",
    ],
    run: p25,
    explicit: no_explicit,
    known: no_known,
};
