//! P12-P14: the Smithy IDL representation.

use crate::engine::*;
use crate::model::*;
use crate::props::p03_model::{folded_md, respaced};
use crate::props::p09_json::{carried, scramble, snap_model, special_all};
use crate::{check, fail};
use atelier_core::io::{read_model_from_string, write_model_to_string};
use atelier_core::model::{HasIdentity, Model, NamespaceID};
use atelier_core::Version;
use atelier_json::{JsonReader, JsonWriter};
use atelier_smithy::{SmithyReader, SmithyWriter};
use std::collections::{BTreeMap, BTreeSet};

pub const NS: &str = "example.idl";

pub fn read(text: &str) -> Result<Result<Model, String>, Fail> {
    read_bytes(text.as_bytes())
}

fn read_bytes(b: &[u8]) -> Result<Result<Model, String>, Fail> {
    Ok(guard("read", || read_model_from_string(&mut SmithyReader::default(), b))?.map_err(|e| e.to_string()))
}

/// The same, by a reader that may have read something else before.
fn read_used(src: &mut Src, text: &str) -> Result<Result<Model, String>, Fail> {
    let mut r = SmithyReader::default();
    if src.chance(1, 12) {
        let first = src.pick(&[
            "$version: \"1.0\"\nmetadata k = [1]\nnamespace example.idl\nuse a.b#Foo\nlist Items { member: Foo }\n@required string Name",
            "namespace a.b\nstring String\nstructure S { a: ",
            "namespace a.b\nstring A\ninteger A",
            text,
        ]);
        let _ = guard("read before", || read_model_from_string(&mut r, first.as_bytes()))?;
    }
    Ok(guard("read", || read_model_from_string(&mut r, text.as_bytes()))?.map_err(|e| e.to_string()))
}

fn write(m: &Model, ns: &str) -> Result<String, Fail> {
    let ns = NamespaceID::new_unchecked(ns);
    guard("write", || write_model_to_string(&mut SmithyWriter::new(ns), m))?
        .map_err(|e| Fail::new("write-error", e.to_string()))
}

fn is_ident(s: &str) -> bool {
    let t = s.trim_start_matches('_');
    t.starts_with(|c: char| c.is_ascii_alphabetic()) && t.chars().all(|c| c.is_ascii_alphanumeric() || c == '_')
}

fn is_id(s: &str) -> bool {
    let (root, member) = match s.split_once('$') {
        Some((r, m)) => (r, Some(m)),
        None => (s, None),
    };
    let (ns, name) = match root.split_once('#') {
        Some((n, r)) => (Some(n), r),
        None => (None, root),
    };
    ns.map(|n| n.split('.').all(is_ident)).unwrap_or(true) && is_ident(name) && member.map(is_ident).unwrap_or(true)
}

const WORDS: [&str; 3] = ["true", "false", "null"];

/// Texts that quoted strings can hold without escapes (what escapes mean is a known finding).
fn quotable(s: &str) -> bool {
    s.chars().all(|c| c >= ' ' && c != '"' && c != '\\')
}

fn clean_text(s: &str) -> String {
    s.chars().filter(|c| *c >= ' ' && *c != '"' && *c != '\\').collect()
}

/// Only lines without blanks at either end, as text blocks and doc comments agree on those.
fn blockable(s: &str) -> bool {
    !s.contains("\"\"\"")
        && !s.ends_with('"')
        && s.chars().all(|c| c == '\n' || c == '\t' || (c >= ' ' && c != '\\'))
        && s.split('\n').all(|l| l.trim() == l)
}

/// `key` may be any text that can be quoted, keys further down have to be names.
fn clean_value(v: &mut V, top: bool, multi_line: bool) {
    match v {
        V::Str(s) => {
            if !(multi_line && blockable(s)) {
                *s = clean_text(s)
            }
        }
        V::Arr(a) => a.iter_mut().for_each(|v| clean_value(v, false, multi_line)),
        V::Obj(o) => {
            *o = std::mem::take(o)
                .into_iter()
                .map(|(k, mut v)| {
                    clean_value(&mut v, false, multi_line);
                    let k = if top { clean_text(&k) } else { k };
                    (k, v)
                })
                .filter(|(k, _)| top || is_ident(k))
                .collect()
        }
        _ => {}
    }
}

fn has_member(k: &K, name: &str) -> bool {
    let is = |m: &str| m.eq_ignore_ascii_case(name);
    match k {
        K::List(_) | K::Set(_) => is("member"),
        K::Map(_, _) => is("key") || is("value"),
        K::Struct(ms) | K::Union(ms) => ms.keys().any(|m| is(m)),
        _ => false,
    }
}

/// Takes out what the known findings are about, and what is applied to a member as if the shape were
/// defined elsewhere: in a document that is applied to the member.
fn clean(md: &mut Md, multi_line: bool) {
    let all = md.shapes.clone();
    md.shapes.retain(|id, _| match id.split_once('$') {
        None => true,
        Some((root, m)) => !all.iter().any(|(i, s)| i.eq_ignore_ascii_case(root) && has_member(&s.kind, m)),
    });
    md.meta = std::mem::take(&mut md.meta)
        .into_iter()
        .map(|(k, mut v)| {
            clean_value(&mut v, false, multi_line);
            (clean_text(&k), v)
        })
        .collect();
    for s in md.shapes.values_mut() {
        each_traits(s, &mut |t| t.values_mut().flatten().for_each(|v| clean_value(v, true, multi_line)));
        if let K::Service(v) = &mut s.kind {
            v.version = clean_text(&v.version);
            if v.version.is_empty() {
                v.version = "1".into();
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------
// Text of a model
// ------------------------------------------------------------------------------------------------

#[derive(Default, Clone)]
struct Doc {
    control: Vec<String>,
    meta: Vec<String>,
    namespace: Option<String>,
    uses: Vec<String>,
    shapes: Vec<String>,
}

struct Names {
    imports: BTreeSet<Sid>,
    locals: BTreeSet<String>,
    assumed: BTreeSet<Sid>,
    /// ids of the model by their lower case form
    taken: BTreeMap<String, Sid>,
}

impl Names {
    /// What a relative name means; `false` if nothing is known about it.
    fn meaning(&self, name: &str, is_trait: bool) -> Option<(Sid, bool)> {
        let uses: Vec<&Sid> = self.imports.iter().filter(|i| name_of(i) == name).collect();
        // what a name means that only differs by case from another is not specified
        let near = |n: &str| n != name && n.eq_ignore_ascii_case(name);
        if self.imports.iter().any(|i| near(name_of(i))) || self.locals.iter().any(|n| near(n)) {
            return None;
        }
        match uses.len() {
            0 => {
                let prelude: &[&str] = if is_trait { &PRELUDE_TRAITS } else { &PRELUDE_SHAPES };
                if self.locals.contains(name) {
                    Some((format!("{}#{}", NS, name), true))
                } else if prelude.contains(&name) {
                    Some((format!("smithy.api#{}", name), true))
                } else {
                    Some((format!("{}#{}", NS, name), false))
                }
            }
            1 => Some((uses[0].clone(), true)),
            _ => None,
        }
    }

    fn spell(&mut self, src: &mut Src, id: &str, is_trait: bool) -> String {
        let relative = match self.meaning(name_of(id), is_trait) {
            Some((m, known)) if m == id && self.taken.entry(id.to_lowercase()).or_insert_with(|| id.to_string()) == id => src.chance(if known { 3 } else { 1 }, 4).then(|| known),
            _ => None,
        };
        match relative {
            Some(known) => {
                if !known {
                    self.assumed.insert(id.to_string());
                }
                name_of(id).to_string()
            }
            None => id.to_string(),
        }
    }
}

fn comment(src: &mut Src, out: &mut String) {
    out.push_str("//");
    let t: String = gen_text(src, Text::Printable).chars().filter(|c| *c == '\t' || *c >= ' ').collect();
    out.push_str(t.trim_start_matches('/'));
    out.push_str(src.pick(&["\n", "\r\n"]));
}

/// Optional space.
fn ws(src: &mut Src, out: &mut String) {
    for _ in 0..src.weighted(&[12, 4, 1]) {
        match src.weighted(&[6, 3, 1, 1, 1, 1]) {
            0 => out.push(' '),
            1 => out.push('\n'),
            2 => out.push('\t'),
            3 => out.push_str("\r\n"),
            4 => out.push(','),
            _ => comment(src, out),
        }
    }
}

/// Space that separates.
fn sep(src: &mut Src, out: &mut String) {
    out.push_str(src.pick(&[" ", "\n", ", ", ",", "\t", "\r\n"]));
    ws(src, out);
}

fn quote(s: &str) -> String {
    format!("\"{}\"", s)
}

fn float_text(src: &mut Src, f: f64) -> String {
    let mut t = match src.usize(3) {
        0 => format!("{:?}", f),
        1 => format!("{:e}", f),
        _ => format!("{:E}", f),
    };
    match t.find(|c| c == 'e' || c == 'E') {
        Some(i) => {
            if src.chance(1, 4) && !t[i + 1..].starts_with('-') {
                t.insert(i + 1, '+');
            }
        }
        None => {
            if src.chance(1, 4) {
                t.push('0')
            }
        }
    }
    t
}

fn block(src: &mut Src, s: &str, out: &mut String) {
    out.push_str("\"\"\"");
    out.push_str(src.pick(&["\n", " \n", "\t\n"]));
    out.push_str(s);
    out.push_str("\"\"\"");
}

fn value_text(src: &mut Src, v: &V, out: &mut String) {
    match v {
        V::Null => out.push_str("null"),
        V::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
        V::Int(i) => out.push_str(&i.to_string()),
        V::Flt(b) => {
            let t = float_text(src, f64::from_bits(*b));
            out.push_str(&t)
        }
        V::Str(s) => {
            if !quotable(s) || (blockable(s) && src.chance(1, 6)) {
                block(src, s, out)
            } else if is_id(s) && !WORDS.contains(&s.as_str()) && src.chance(1, 3) {
                out.push_str(s)
            } else {
                out.push_str(&quote(s))
            }
        }
        V::Arr(a) => {
            out.push('[');
            ws(src, out);
            for (i, v) in a.iter().enumerate() {
                if i > 0 {
                    sep(src, out);
                }
                value_text(src, v, out);
                ws(src, out);
            }
            out.push(']');
        }
        V::Obj(o) => {
            out.push('{');
            ws(src, out);
            pairs_text(src, o, false, out);
            out.push('}');
        }
    }
}

fn key_text(src: &mut Src, k: &str) -> String {
    if is_ident(k) && src.chance(3, 4) {
        k.to_string()
    } else {
        quote(k)
    }
}

fn pairs_text(src: &mut Src, o: &BTreeMap<String, V>, any_key: bool, out: &mut String) {
    let mut l: Vec<_> = o.iter().collect();
    src.shuffle(&mut l);
    for (i, (k, v)) in l.into_iter().enumerate() {
        if i > 0 {
            sep(src, out);
        }
        if any_key {
            out.push_str(&key_text(src, k));
        } else {
            out.push_str(k);
        }
        ws(src, out);
        out.push(':');
        ws(src, out);
        value_text(src, v, out);
        ws(src, out);
    }
}

fn trait_text(src: &mut Src, names: &mut Names, id: &str, v: &Option<V>, out: &mut String) {
    out.push('@');
    out.push_str(&names.spell(src, id, true));
    match v {
        Some(V::Obj(o)) if !o.is_empty() => {
            out.push('(');
            ws(src, out);
            if src.bool() || !o.keys().all(|k| is_ident(k)) {
                pairs_text(src, o, true, out);
            } else {
                out.push('{');
                pairs_text(src, o, false, out);
                out.push('}');
            }
            ws(src, out);
            out.push(')');
        }
        None | Some(V::Obj(_)) => match src.usize(3) {
            0 => {}
            1 => {
                out.push('(');
                ws(src, out);
                out.push(')');
            }
            _ => out.push_str("({})"),
        },
        Some(v) => {
            out.push('(');
            ws(src, out);
            value_text(src, v, out);
            ws(src, out);
            out.push(')');
        }
    }
}

const DOC: &str = "smithy.api#documentation";

/// Arrays to be joined in this order.
fn pieces(src: &mut Src, a: &[V]) -> Vec<V> {
    let mut all = Vec::new();
    let mut rest = a.to_vec();
    while rest.len() > 1 && all.len() < 5 {
        let tail = rest.split_off(src.usize(rest.len() + 1));
        all.push(V::Arr(rest));
        rest = tail;
    }
    all.push(V::Arr(rest));
    all
}

/// Put the texts anywhere, but in the order given.
fn place(src: &mut Src, into: &mut Vec<String>, texts: Vec<String>) {
    let mut at = into.len();
    for t in texts.into_iter().rev() {
        at = src.usize(at + 1);
        into.insert(at, t);
    }
}

/// Some traits (or a part of their value) to write elsewhere; `rest` is what is left.
fn split_traits(src: &mut Src, t: &T, all: bool) -> (T, Vec<(Sid, Option<V>)>) {
    let mut here = t.clone();
    let mut there = Vec::new();
    for (k, v) in t {
        if all || src.chance(1, 5) {
            here.remove(k);
            match v {
                // the same statement, twice
                Some(V::Arr(a)) if a.len() % 2 == 0 && a[..a.len() / 2] == a[a.len() / 2..] && src.bool() => {
                    let half = Some(V::Arr(a[..a.len() / 2].to_vec()));
                    there.push((k.clone(), half.clone()));
                    there.push((k.clone(), half));
                }
                Some(V::Arr(a)) if src.bool() => there.extend(pieces(src, a).into_iter().map(|p| (k.clone(), Some(p)))),
                _ => there.push((k.clone(), v.clone())),
            }
        } else if let (Some(V::Arr(a)), true) = (v, src.chance(1, 3)) {
            let at = src.usize(a.len() + 1);
            let more = at + src.usize(a.len() + 1 - at);
            here.insert(k.clone(), Some(V::Arr(a[..at].to_vec())));
            there.push((k.clone(), Some(V::Arr(a[at..more].to_vec()))));
            if more < a.len() || src.chance(1, 4) {
                there.push((k.clone(), Some(V::Arr(a[more..].to_vec()))));
            }
        } else if src.chance(1, 12) && !matches!(v, Some(V::Arr(_))) {
            // the same, twice
            there.push((k.clone(), v.clone()));
        }
    }
    (here, there)
}

/// Documentation comments and traits in front of a shape or member.
fn traits_text(src: &mut Src, names: &mut Names, t: &T, out: &mut String) {
    let mut l: Vec<_> = t.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    src.shuffle(&mut l);
    let mut more = Vec::new();
    for (k, v) in l.iter_mut() {
        if let Some(V::Arr(a)) = v {
            if a.len() > 1 && src.chance(1, 6) {
                let at = src.usize(a.len() + 1);
                more.push((k.clone(), Some(V::Arr(a.split_off(at)))));
            }
        }
    }
    l.extend(more);
    let comment_at = l.iter().position(|(k, v)| {
        k == DOC && matches!(v, Some(V::Str(s)) if s.split('\n').all(|l| l.trim_start() == l && l.chars().all(|c| c >= ' ' || c == '\t')))
    });
    if let Some(at) = comment_at {
        if src.chance(2, 3) {
            let (_, v) = l.remove(at);
            if let Some(V::Str(s)) = v {
                ws(src, out);
                for line in s.split('\n') {
                    out.push_str("///");
                    out.push_str(src.pick(&[" ", "", "  ", "\t"]));
                    out.push_str(line);
                    out.push_str(src.pick(&["\n", "\r\n"]));
                    ws(src, out);
                }
            }
        }
    }
    for (k, v) in &l {
        ws(src, out);
        trait_text(src, names, k, v, out);
        sep(src, out);
    }
}

fn ref_value(src: &mut Src, names: &mut Names, id: &Sid) -> String {
    let s = names.spell(src, id, false);
    if WORDS.contains(&s.as_str()) || src.chance(1, 6) {
        quote(&s)
    } else {
        s
    }
}

fn refs_text(src: &mut Src, names: &mut Names, ids: &[Sid]) -> String {
    let mut out = String::from("[");
    ws(src, &mut out);
    for (i, id) in ids.iter().enumerate() {
        if i > 0 {
            sep(src, &mut out);
        }
        out.push_str(&ref_value(src, names, id));
        ws(src, &mut out);
    }
    out.push(']');
    out
}

/// A `{ key: value }` body with the pairs in any order.
fn body_text(src: &mut Src, mut pairs: Vec<(String, String)>, out: &mut String) {
    src.shuffle(&mut pairs);
    out.push('{');
    ws(src, out);
    for (i, (k, v)) in pairs.into_iter().enumerate() {
        if i > 0 {
            sep(src, out);
        }
        out.push_str(&k);
        ws(src, out);
        out.push(':');
        ws(src, out);
        out.push_str(&v);
        ws(src, out);
    }
    out.push('}');
}

/// The text of a shape and of the applications of its traits elsewhere.
fn shape_text(src: &mut Src, names: &mut Names, id: &Sid, s: &S, bare: bool) -> (String, Vec<String>) {
    let mut out = String::new();
    let mut applied: Vec<(String, Sid, Option<V>)> = Vec::new();
    let (here, there) = if bare { (T::new(), vec![]) } else { split_traits(src, &s.traits, false) };
    applied.extend(there.into_iter().map(|(k, v)| (String::new(), k, v)));
    traits_text(src, names, &here, &mut out);
    ws(src, &mut out);
    out.push_str(s.kind.name());
    sep(src, &mut out);
    out.push_str(name_of(id));
    let member = |src: &mut Src, names: &mut Names, name: &str, m: &Mem, apply_all: bool, applied: &mut Vec<(String, Sid, Option<V>)>| {
        let (here, there) = if bare { (T::new(), vec![]) } else { split_traits(src, &m.traits, apply_all) };
        applied.extend(there.into_iter().map(|(k, v)| (format!("${}", name), k, v)));
        let mut t = String::new();
        traits_text(src, names, &here, &mut t);
        t.push_str(name);
        (t, names.spell(src, &m.target, false))
    };
    let mut pairs: Vec<(String, String)> = Vec::new();
    match &s.kind {
        K::Simple(_) => {}
        K::List(m) | K::Set(m) => pairs.push(member(src, names, "member", m, true, &mut applied)),
        K::Map(k, v) => {
            pairs.push(member(src, names, "key", k, false, &mut applied));
            pairs.push(member(src, names, "value", v, false, &mut applied));
        }
        K::Struct(ms) | K::Union(ms) => {
            for (n, m) in ms {
                pairs.push(member(src, names, n, m, false, &mut applied));
            }
        }
        K::Service(v) => {
            let mut t = String::new();
            value_text(src, &V::Str(v.version.clone()), &mut t);
            pairs.push((key_text(src, "version"), t));
            for (k, l) in [("operations", &v.operations), ("resources", &v.resources)] {
                if !l.is_empty() || src.chance(1, 8) {
                    pairs.push((key_text(src, k), refs_text(src, names, l)));
                }
            }
            if !v.renames.is_empty() || src.chance(1, 8) {
                let l = v
                    .renames
                    .iter()
                    .map(|(k, n)| {
                        let n = if WORDS.contains(&n.as_str()) || src.bool() { quote(n) } else { n.clone() };
                        (quote(k), n)
                    })
                    .collect();
                let mut t = String::new();
                body_text(src, l, &mut t);
                pairs.push((key_text(src, "rename"), t));
            }
        }
        K::Operation(v) => {
            for (k, t) in [("input", &v.input), ("output", &v.output)] {
                if let Some(t) = t {
                    pairs.push((key_text(src, k), ref_value(src, names, t)));
                }
            }
            if !v.errors.is_empty() || src.chance(1, 8) {
                pairs.push((key_text(src, "errors"), refs_text(src, names, &v.errors)));
            }
        }
        K::Resource(v) => {
            if !v.identifiers.is_empty() || src.chance(1, 8) {
                let l = v.identifiers.iter().map(|(k, t)| (key_text(src, k), ref_value(src, names, t))).collect();
                let mut t = String::new();
                body_text(src, l, &mut t);
                pairs.push((key_text(src, "identifiers"), t));
            }
            for (k, t) in LIFECYCLE.iter().zip(&v.lifecycle) {
                if let Some(t) = t {
                    pairs.push((key_text(src, k), ref_value(src, names, t)));
                }
            }
            for (k, l) in [("operations", &v.operations), ("collectionOperations", &v.collection_operations), ("resources", &v.resources)] {
                if !l.is_empty() || src.chance(1, 8) {
                    pairs.push((key_text(src, k), refs_text(src, names, l)));
                }
            }
        }
        K::Unresolved => {}
    }
    if !matches!(s.kind, K::Simple(_)) {
        sep(src, &mut out);
        body_text(src, pairs, &mut out);
    }
    let applied = applied
        .into_iter()
        .map(|(m, k, v)| {
            let shape = names.spell(src, id, false);
            apply_text(src, names, &format!("{}{}", shape, m), &k, &v)
        })
        .collect();
    (out, applied)
}

fn apply_text(src: &mut Src, names: &mut Names, to: &str, k: &Sid, v: &Option<V>) -> String {
    let mut t = String::from("apply");
    sep(src, &mut t);
    t.push_str(to);
    sep(src, &mut t);
    trait_text(src, names, k, v, &mut t);
    t
}

/// A model in the default namespace plus forward references, and the text that describes it.
fn document(src: &mut Src, md: &mut Md) -> (Doc, bool) {
    if src.chance(1, 8) {
        // something applied to a shape, or a member, whose name the prelude has as well
        let name = if src.bool() { src.pick(&PRELUDE_SHAPES) } else { src.pick(&PRELUDE_TRAITS) };
        let id = format!("{}#{}", if src.bool() { "smithy.api" } else { NS }, name);
        let to = if src.bool() { format!("{}${}", id, gen_ident(src)) } else { id.clone() };
        if !md.shapes.keys().any(|i| i.eq_ignore_ascii_case(&id) || i.eq_ignore_ascii_case(&to)) {
            let mut traits = T::new();
            traits.insert(format!("smithy.api#{}", src.pick(&["private", "sensitive", "box"])), Some(V::Obj(BTreeMap::new())));
            md.shapes.insert(to, S { traits, kind: K::Unresolved });
        }
    }
    // forward references that a document cannot express
    md.shapes.retain(|id, s| s.kind != K::Unresolved || !s.traits.is_empty() || (ns_of(id) != NS && !is_member_id(id)));
    let mut names = Names {
        imports: md.shapes.iter().filter(|(_, s)| s.kind == K::Unresolved && s.traits.is_empty()).map(|(k, _)| k.clone()).collect(),
        locals: md.shapes.iter().filter(|(_, s)| s.kind != K::Unresolved).map(|(k, _)| name_of(k).to_string()).collect(),
        assumed: BTreeSet::new(),
        taken: md.shapes.keys().map(|k| (k.to_lowercase(), k.clone())).collect(),
    };
    for (id, s) in &md.shapes {
        if s.kind == K::Unresolved && ns_of(id) != NS && !is_member_id(id) && src.chance(1, 3) {
            names.imports.insert(id.clone());
        }
    }
    let mut doc = Doc::default();
    match src.usize(4) {
        0 => {}
        1 => doc.control.push("$version: 1.0".into()),
        2 => doc.control.push("$version:\"1.0\"".into()),
        _ => doc.control.push("$\"version\" : \"1\"".into()),
    }
    if src.chance(1, 6) {
        let v = gen_value(src, &Cfg { text: Text::Plain, floats: false, ..Cfg::default() }, 1);
        let mut v = v;
        clean_value(&mut v, false, false);
        let mut t = format!("$ {} :", src.pick(&["extra", "\"operationInputSuffix\"", "\"a b\""]));
        value_text(src, &v, &mut t);
        let at = src.usize(doc.control.len() + 1);
        doc.control.insert(at, t);
    }
    let mut split = false;
    for (k, v) in &md.meta {
        let mut texts = Vec::new();
        let mut one = |src: &mut Src, v: &V| {
            let mut t = String::from("metadata");
            sep(src, &mut t);
            t.push_str(&key_text(src, k));
            ws(src, &mut t);
            t.push('=');
            ws(src, &mut t);
            value_text(src, v, &mut t);
            texts.push(t);
        };
        match v {
            V::Arr(a) => {
                let parts = if src.chance(1, 3) { pieces(src, a) } else { vec![v.clone()] };
                split = split || parts.len() > 1;
                for v in &parts {
                    one(src, v);
                }
            }
            _ => {
                one(src, v);
                if src.chance(1, 10) {
                    one(src, v);
                }
            }
        }
        place(src, &mut doc.meta, texts);
    }
    if md.shapes.is_empty() && src.chance(1, 3) {
        return (doc, split);
    }
    doc.namespace = Some({
        let mut t = String::from("namespace");
        t.push(' ');
        ws(src, &mut t);
        t.push_str(NS);
        t
    });
    for i in &names.imports {
        let mut t = String::from("use");
        sep(src, &mut t);
        t.push_str(i);
        doc.uses.push(t);
    }
    src.shuffle(&mut doc.uses);
    let mut ids: Vec<_> = md.shapes.keys().cloned().collect();
    src.shuffle(&mut ids);
    for id in ids {
        let s = md.shapes[&id].clone();
        if s.kind == K::Unresolved {
            for (k, v) in &s.traits {
                // how to spell the shape, possibly a member
                let to = match id.split_once('$') {
                    Some((root, m)) => format!("{}${}", if src.bool() { root.to_string() } else { relative(&names, root) }, m),
                    None => {
                        if src.bool() {
                            id.clone()
                        } else {
                            relative(&names, &id)
                        }
                    }
                };
                let parts = match v {
                    Some(V::Arr(a)) if src.chance(1, 3) => pieces(src, a).into_iter().map(Some).collect(),
                    _ => vec![v.clone()],
                };
                split = split || parts.len() > 1;
                let texts = parts.iter().map(|v| apply_text(src, &mut names, &to, k, v)).collect();
                place(src, &mut doc.shapes, texts);
            }
            continue;
        }
        let (text, applied) = shape_text(src, &mut names, &id, &s, false);
        split = split || !applied.is_empty();
        doc.shapes.push(text);
        place(src, &mut doc.shapes, applied);
        if src.chance(1, 20) {
            let (text, _) = shape_text(src, &mut names, &id, &s, true);
            let at = src.usize(doc.shapes.len() + 1);
            doc.shapes.insert(at, text);
        }
    }
    for id in names.assumed {
        md.shapes.entry(id).or_insert_with(|| S { traits: T::new(), kind: K::Unresolved });
    }
    (doc, split)
}

fn relative(names: &Names, id: &str) -> String {
    match names.meaning(name_of(id), false) {
        Some((m, _)) if m == id => name_of(id).to_string(),
        _ => id.to_string(),
    }
}

fn assemble(src: &mut Src, d: &Doc) -> String {
    let mut out = String::new();
    ws(src, &mut out);
    let all = d.control.iter().chain(&d.meta).chain(d.namespace.iter()).chain(&d.uses).chain(&d.shapes);
    for (i, t) in all.enumerate() {
        if i > 0 {
            out.push('\n');
            ws(src, &mut out);
        }
        out.push_str(t);
    }
    if src.bool() {
        out.push('\n');
        ws(src, &mut out);
    }
    out
}

/// One part of the document becomes certainly wrong.
fn break_doc(src: &mut Src, d: &mut Doc) -> Option<&'static str> {
    let at = src.usize(d.shapes.len() + 1);
    let ns = d.namespace.is_some();
    let mut add = |why: &'static str, t: String| {
        if ns {
            d.shapes.insert(at, t);
            Some(why)
        } else {
            None
        }
    };
    let sp = {
        let mut s = String::new();
        ws(src, &mut s);
        s
    };
    let n = "Zz9Broken";
    match src.usize(16) {
        0 => {
            let b = src.pick(&["", "other: String", "member: String member: String", "member: String, x: String", "member String", "member: "]);
            add("list body", format!("{} {} {{{}{}}}", src.pick(&["list", "set"]), n, sp, b))
        }
        1 => {
            let b = src.pick(&[
                "",
                "key: String",
                "value: String",
                "key: String key: String",
                "key: String value: String value: String",
                "key: String value: String other: String",
                "member: String",
            ]);
            add("map body", format!("map {} {{{}{}}}", n, sp, b))
        }
        2 => {
            let b: String = if src.bool() {
                // a name twice, at any two places
                let mut names: Vec<String> = Vec::new();
                for n in src.list(1, 5, gen_ident) {
                    if !names.iter().any(|m| m.eq_ignore_ascii_case(&n)) {
                        names.push(n);
                    }
                }
                let again = src.pick(&names);
                let again = match src.usize(3) {
                    0 => again.to_uppercase(),
                    1 => again.to_lowercase(),
                    _ => again,
                };
                let at = src.usize(names.len() + 1);
                names.insert(at, again);
                let to = src.pick(&["String", "Blob"]);
                names.iter().map(|n| format!("{}: {}", n, if src.bool() { to } else { "String" })).collect::<Vec<_>>().join(src.pick(&[" ", ", ", "\n"]))
            } else {
                src.pick(&["a: String a: Blob", "a: String a: String", "a: String A: String", "aB: String cd: String Ab: Blob", "a", "a: ", "a: String$b", "a: x.y#B$c", "1a: String", "a-b: String", "a: 1", "a: \"String\"", "\"a\": String", "a: {}", "a: a..b#C", "a: _"]).to_string()
            };
            add("structure body", format!("{} {} {{{}{}}}", src.pick(&["structure", "union"]), n, sp, b))
        }
        3 => {
            let b = src.pick(&[
                "",
                "operations: [Op]",
                "version: 1",
                "version: \"\"",
                "version: []",
                "version: \"1\" operations: Op",
                "version: \"1\" operations: {}",
                "version: \"1\" operations: [1]",
                "version: \"1\" operations: [[Op]]",
                "version: \"1\" operations: [\"1a\"]",
                "version: \"1\" operations: [Op$m]",
                "version: \"1\" resources: \"Rs\"",
                "version: \"1\" resources: [true]",
                "version: \"1\" rename: [Op]",
                "version: \"1\" rename: {\"a#B\": 1}",
                "version: \"1\" rename: {\"a#B\": \"1x\"}",
                "version: \"1\" rename: {\"B\": \"X\"}",
                "version: \"1\" rename: {\"a#B\": \"X\", \"a#b\": \"Y\"}",
                "version: \"1\" rename: {\"a.c#B\": \"X\" \"A.C#B\": \"X\"}",
                "version: \"1\" unknown: \"X\"",
                "version: \"1\" errors: {}",
                "Version: \"1\"",
            ]);
            add("service body", format!("service {} {{{}{}}}", n, sp, b))
        }
        4 => {
            let b = src.pick(&[
                "input: 1", "input: [A]", "input: {}", "input: null", "input: \"1a\"", "output: true", "output: A$b", "errors: A", "errors: [1]",
                "errors: {a: A}", "unknown: A", "version: \"1\"", "input", "input: ", "error: A",
            ]);
            add("operation body", format!("operation {} {{{}{}}}", n, sp, b))
        }
        5 => {
            let b = src.pick(&[
                "identifiers: [A]",
                "identifiers: {a: 1}",
                "identifiers: {a: {}}",
                "identifiers: {\"1a\": A}",
                "identifiers: {a: A, A: B}",
                "identifiers: {idOf: A, b: A \"IDof\": A}",
                "identifiers: A",
                "create: 1",
                "put: [A]",
                "read: {}",
                "update: null",
                "delete: \"a b\"",
                "list: [A]",
                "operations: A",
                "collectionOperations: {}",
                "collectionOperations: [1]",
                "resources: A",
                "unknown: A",
                "input: A",
            ]);
            add("resource body", format!("resource {} {{{}{}}}", n, sp, b))
        }
        6 => {
            let t = src.pick(&["strng Zz9", "String Zz9", "string 1a", "string a-b", "string a.b", "string _", "string", "string a#B", "string \"A\"", "List Zz9 { member: String }", "struct Zz9 {}", "structure {}", "resource Zz9", "structure Zz9", "structure Zz9 {", "structure Zz9 { a: String", "list Zz9 }", "enum Zz9 {}", "string Zz9 {}", "string é"]);
            // an open end is only one if nothing follows
            let d2 = d;
            if ns {
                d2.shapes.push(t.to_string());
                Some("statement")
            } else {
                None
            }
        }
        7 => {
            let t = src.pick(&[
                "@t(1) @t(2)", "@t @t(2)", "@t(\"a\") @t(\"b\")", "@t([1]) @t(1)", "@t(a: 1) @t(a: 2)", "@t(true) @t(false)", "@", "@1", "@t(", "@t)", "@t(a: )", "@t(: 1)", "@t(a = 1)", "@t(a: 1, 2)",
                "@t(1, 2)", "@t (1)", "@t\t({})", "@t(01)", "@t(-)", "@t(1 .5)", "@t([1)", "@t({a: 1)", "@t(a: 1}", "@t$m", "@t(\"a)", "@t(1.)", "@t(.5)", "@t(+1)", "@t(1e)", "@t(--1)", "@t('a')", "@t(\"\"\"a\"\")", "@t(a.b)",
                "@x.y#", "@#t", "/// a\n@smithy.api#documentation(\"b\")",
            ]);
            add("trait", format!("{}{}\nstring {}", t, sp, n))
        }
        8 => {
            let t = src.pick(&[
                "apply", "apply Zz9", "apply @t", "apply Zz9 t", "apply 1a @t", "apply a# @t", "apply Zz9 @t @u", "apply Zz9 {}", "apply Zz9$ @t", "apply Zz9 @t(1)\napply Zz9 @t(2)", "apply Zz9 @", "apply",
            ]);
            if ns {
                d.shapes.push(t.to_string());
                Some("apply")
            } else {
                None
            }
        }
        9 => {
            let t = src.pick(&["use a.b#C", "namespace a.b", "metadata a = 1", "$version: \"1.0\""]);
            if ns && !(d.shapes.is_empty() && t.starts_with("use")) {
                d.shapes.push(t.to_string());
                Some("out of order")
            } else {
                None
            }
        }
        10 => {
            if d.shapes.is_empty() && d.uses.is_empty() {
                return None;
            }
            d.namespace = match src.usize(3) {
                0 => None,
                _ => Some(src.pick(&["namespace {}", "namespace 1a", "namespace a..b", "namespace a.", "namespace \"a\"", "namespace a#b", "Namespace a.b", "namespace a-b", "namespace .a"]).to_string()),
            };
            Some("namespace")
        }
        11 => {
            let t = src.pick(&["use C", "use a.b", "use a.b#", "use #C", "use a.b#C$d", "use \"a.b#C\"", "use a.b#1", "Use a.b#C", "use"]);
            if ns {
                let at = src.usize(d.uses.len() + 1);
                d.uses.insert(at, t.to_string());
                // the next line could be taken for the rest of the statement
                if matches!(t, "use" | "use a.b" | "use a.b#" | "use C") && at + 1 < d.uses.len() {
                    d.uses.swap(at, at + 1);
                    let t = d.uses.remove(at + 1);
                    d.uses.push(t);
                }
                Some("use")
            } else {
                None
            }
        }
        12 => {
            let t = src.pick(&["$version: \"2.0\"", "$version: 3", "$version: true", "$version: \"\"", "$version: \"1.0.0.0\"", "$version: \"one\"", "$version = \"1.0\"", "$: 1", "$version:", "version: \"1.0\"", "$version: [1]"]);
            d.control = vec![t.to_string()];
            Some("control")
        }
        13 => {
            let t = src.pick(&[
                "metadata zz = 1\nmetadata zz = 2",
                "metadata zz = [1]\nmetadata zz = 2",
                "metadata zz = {a: 1}\nmetadata zz = {a: 2}",
                "metadata zz",
                "metadata = 1",
                "metadata zz : 1",
                "metadata zz = ",
                "metadata zz = {a 1}",
                "metadata zz = [1",
                "metadata 1a = 1",
                "metadata a-b = 1",
                "metadata zz = 'x'",
                "metadata zz = 01",
                "metadata zz = -00",
                "metadata zz = 007.5",
                "metadata zz = 0x1F",
                "metadata zz = 1 2",
                "metadata zz = \"x",
                "Metadata zz = 1",
            ]);
            d.meta.push(t.to_string());
            Some("metadata")
        }
        14 => {
            // two definitions that conflict
            let (a, b) = src.pick(&[
                ("string", "blob"),
                ("list", "set"),
                ("structure", "union"),
                ("structure-a", "structure-b"),
                ("list-a", "list"),
                ("operation", "resource"),
                ("string", "structure"),
            ]);
            let text = |k: &str| match k {
                "list" | "set" => format!("{} {} {{ member: String }}", k, n),
                "list-a" => format!("list {} {{ member: Blob }}", n),
                "structure" | "union" => format!("{} {} {{ a: String }}", k, n),
                "structure-a" => format!("structure {} {{ a: Blob, b: String }}", n),
                "structure-b" => format!("structure {} {{ a: Blob, b: Blob }}", n),
                "operation" | "resource" => format!("{} {} {{}}", k, n),
                _ => format!("{} {}", k, n),
            };
            add("conflicting definitions", format!("{}\n{}{}", text(a), sp, text(b)))
        }
        _ => {
            // a name imported twice
            if !ns {
                return None;
            }
            d.uses.push("use qq.one#Zz9Amb".into());
            d.uses.push("use qq.two#Zz9Amb".into());
            d.shapes.push(src.pick(&["structure Zz8 { a: Zz9Amb }", "list Zz8 { member: Zz9Amb }", "operation Zz8 { input: Zz9Amb }", "@Zz9Amb\nstring Zz8"]).to_string());
            Some("ambiguous name")
        }
    }
}

fn gen_idl_model(src: &mut Src, text: Text, namespaces: Vec<&'static str>) -> Md {
    let c = Cfg { text, namespaces, ..Cfg::default() };
    gen_model(src, &c)
}

/// Shapes of other namespaces become forward references.
fn localise(md: &mut Md) {
    for (id, s) in md.shapes.iter_mut() {
        if ns_of(id) != NS {
            s.kind = K::Unresolved;
        }
    }
}

fn compare(sig: &str, want: &Md, m: &Model, text: &str) -> Res {
    let mut got = from_model(m)?;
    snap_model(want, &mut got);
    if let Some(d) = diff(want, &got) {
        fail!(sig, "{}\n{}", d, text);
    }
    Ok(())
}

const OTHER_SPACES: [&str; 9] = ["true", "null.false", "solo", "a.b.c.d.e.f.g.h.i", "_x.__y9", "Upper.Case_2", "smithy.apis", "smithy", "list.string.use"];

/// The text with the usual namespace, in any case, replaced.
fn respace(text: &str, space: &str) -> String {
    let lower = text.to_ascii_lowercase();
    let mut out = String::with_capacity(text.len());
    let mut at = 0;
    while let Some(i) = lower[at..].find(NS) {
        out.push_str(&text[at..at + i]);
        out.push_str(space);
        at += i + NS.len();
    }
    out.push_str(&text[at..]);
    out
}

fn p12(src: &mut Src, case: &mut Case) -> Res {
    let text = src.pick(&[Text::Plain, Text::Printable, Text::Wild]);
    let mut md = gen_idl_model(src, text, vec![NS, NS, NS, "other.ns", "smithy.api"]);
    localise(&mut md);
    // trait values and metadata with documentation
    for s in md.shapes.values_mut() {
        each_traits(s, &mut |t| {
            if src.chance(1, 8) {
                let mut d = gen_text(src, text);
                if src.chance(1, 4) {
                    // a line break in Markdown
                    d.push_str(src.pick(&["  ", " ", " \t"]));
                }
                t.insert(DOC.into(), Some(V::Str(d)));
            }
        });
    }
    clean(&mut md, true);
    let (mut doc, split) = document(src, &mut md);
    let broken = if src.chance(1, 4) { break_doc(src, &mut doc) } else { None };
    let mut text = assemble(src, &doc);
    if src.chance(1, 6) {
        // a namespace of another form
        let space = src.pick(&OTHER_SPACES);
        case.tag("other namespace");
        text = respace(&text, space);
        md = each_string(&md, &|s| respace(s, space));
    }
    case.input(&text, broken.is_some() || rich(&md));
    case.tag_if(broken.is_some(), "to be refused");
    case.tag_if(split && broken.is_none(), "apply statements");
    case.tag_if(text.contains("\"\"\""), "text blocks");
    case.tag_if(text.contains("///"), "documentation comments");
    case.sample(|| text.clone());
    match (read_used(src, &text)?, broken) {
        (Ok(m), None) => {
            let (want, mut got) = (carried(&md), from_model(&m)?);
            snap_model(&want, &mut got);
            if let Some(d) = diff(&want, &got) {
                fail!("meaning", "{}\n{}", d, text);
            }
            check!(m.smithy_version() == &Version::V10, "version", "{:?}", m.smithy_version());
        }
        (Err(e), None) => fail!("refused", "valid, but {}\n{}", e, text),
        (Ok(_), Some(b)) => fail!("accepted", "broken ({}), but accepted:\n{}", b, text),
        (Err(_), Some(_)) => {}
    }
    Ok(())
}

pub static P12: Prop = Prop {
    id: "P12",
    quick: 150_000,
    thorough: 3_000_000,
    rule: "IDL documents written by an independent generator (any order, spacing, comments, commas, number and name spelling, documentation comments, text blocks, imports, apply statements, split and repeated definitions) are read and compared with the model they describe; a quarter of the documents holds one certain error and has to be refused; non-trivial: refused, or two or more shapes, one of them not simple",
    assumptions: &[
        "strings are written without escapes, text blocks without indentation, quoted keys not inside nested objects, and traits of list and set members by apply statements: what the reader does with those is a known finding",
        "arrays concatenated from several statements are compared as multisets",
    ],
    run: p12,
    explicit: no_explicit,
    known: p12_known,
};

// ------------------------------------------------------------------------------------------------
// P13
// ------------------------------------------------------------------------------------------------

fn p13(src: &mut Src, case: &mut Case) -> Res {
    let text = src.pick(&[Text::Plain, Text::Printable, Text::Wild]);
    let spaces: Vec<&'static str> = if src.chance(1, 3) { vec![NS, NS, "other.ns", "smithy.api"] } else { vec![NS, "example.two"] };
    let mut md = gen_idl_model(src, text, spaces.clone());
    clean(&mut md, false);
    if src.chance(1, 8) {
        special_all(src, &mut md);
    }
    let mut ns = src.pick(&spaces).to_string();
    if src.chance(1, 5) {
        let space = src.pick(&OTHER_SPACES);
        case.tag("other namespace");
        md = each_string(&md, &|s| respace(s, space));
        ns = respace(&ns, space);
    }
    let ns = ns.as_str();
    let m = to_model_shuffled(&md, src);
    let mut want = carried(&md);
    want.shapes.retain(|id, s| {
        if s.kind == K::Unresolved {
            !s.traits.is_empty() || !is_member_id(id)
        } else {
            ns_of(id) == ns
        }
    });
    case.input(&(ns, &md), rich(&want));
    case.tag_if(want.shapes.values().any(|s| s.kind == K::Unresolved), "forward references");
    case.tag_if(want.shapes.len() < md.shapes.len(), "shapes in other namespaces");
    let mut w = SmithyWriter::new(NamespaceID::new_unchecked(ns));
    if src.chance(1, 12) {
        // the writer has written something else before, with other shapes of the same names
        case.tag("writer used before");
        let mut other = Md::default();
        let mut names: Vec<Sid> = md.shapes.keys().cloned().collect();
        for s in md.shapes.values() {
            names.extend(shape_refs(&s.kind).into_iter().cloned());
            names.extend(s.traits.keys().cloned());
        }
        let mut seen = BTreeSet::new();
        for n in names {
            if seen.insert(name_of(&n).to_lowercase()) && src.chance(2, 3) {
                let (space, kind) = if src.chance(2, 3) { (ns, K::Simple("string")) } else { ("z.z", K::Unresolved) };
                other.shapes.insert(format!("{}#{}", space, name_of(&n)), S { traits: T::new(), kind });
            }
        }
        let _ = guard("write before", || write_model_to_string(&mut w, &to_model(&other)))?;
    }
    let t = guard("write", || write_model_to_string(&mut w, &m))?.map_err(|e| Fail::new("write-error", e.to_string()))?;
    case.sample(|| t.clone());
    let back = match read(&t)? {
        Err(e) => fail!("unreadable", "what was written cannot be read: {}\n{}", e, t),
        Ok(b) => b,
    };
    compare("round-trip", &want, &back, &t)?;
    // a namespace is the same in any case
    if src.chance(1, 12) {
        let recased: String = ns.chars().map(|c| if src.bool() { c.to_ascii_uppercase() } else { c }).collect();
        case.tag("namespace in another case");
        let other = to_model_shuffled(&respaced(src, &md), src);
        let t = write(&other, &recased)?;
        match read(&t)? {
            Err(e) => fail!("unreadable-recased", "what was written for {} cannot be read: {}\n{}", recased, e, t),
            Ok(b) => {
                check!(b.shapes().count() == back.shapes().count(), "recased-count", "{} has {} shapes, {} has {}\n{}", ns, back.shapes().count(), recased, b.shapes().count(), t);
                for s in back.shapes() {
                    check!(b.has_shape(s.id()), "recased-shape", "{} is missing from what is written for {}\n{}", s.id(), recased, t);
                }
                let b = to_model(&folded_md(&from_model(&b)?));
                compare("recased", &folded_md(&want), &b, &t)?;
            }
        }
    }
    // the other representation says the same
    let j = guard("write", || write_model_to_string(&mut JsonWriter::default(), &back))?
        .map_err(|e| Fail::new("write-error", e.to_string()))?;
    match guard("read", || read_model_from_string(&mut JsonReader::default(), &j))? {
        Err(e) => fail!("conversion", "{}\n{}", e, j),
        Ok(b) => compare("conversion", &want, &b, &j)?,
    }
    Ok(())
}

pub static P13: Prop = Prop {
    id: "P13",
    quick: 150_000,
    thorough: 3_000_000,
    rule: "generated models of all shape kinds with shapes and forward references in several namespaces are written for one namespace, read back and compared with the shapes of that namespace and the forward references; then converted to JSON and back; non-trivial: two or more shapes, one of them not simple",
    assumptions: &[
        "the writer writes one namespace, as documented; a trait without value reads back as the empty object, special numbers as strings",
        "strings hold no quotes, backslashes and control characters, and keys of nested objects are identifiers: what the reader does with those is a known finding",
        "floating point numbers may be off by the rounding of the JSON library (4 units in the last place)",
    ],
    run: p13,
    explicit: no_explicit,
    known: p13_known,
};


fn meta_back(v: &V) -> Result<Option<V>, Fail> {
    let mut md = Md::default();
    md.meta.insert("k".into(), v.clone());
    let t = write(&to_model(&md), NS)?;
    match read(&t)? {
        Err(_) => Ok(None),
        Ok(m) => Ok(from_model(&m)?.meta.remove("k")),
    }
}

fn back_differs(v: V) -> Option<String> {
    match meta_back(&v) {
        Ok(Some(b)) if b == v => None,
        Ok(b) => Some(format!("metadata k = {:?} written and read again is {:?}", v, b)),
        Err(f) => Some(f.detail),
    }
}

fn p13_known() -> Vec<Known> {
    vec![
        Known { sig: "escapes", probe: || back_differs(V::Str("a\"b\\c".into())) },
        Known { sig: "escapes-control", probe: || back_differs(V::Str("a\nb".into())) },
        Known { sig: "nested-keys", probe: || back_differs(V::Obj([("a b".to_string(), V::Int(1))].into_iter().collect())) },
    ]
}

/// The value of metadata `k` in the text.
fn meta_read(text: &str, want: V) -> Option<String> {
    let t = format!("metadata k = {}\n", text);
    match read(&t) {
        Ok(Ok(m)) => {
            let got = from_model(&m).ok()?.meta.remove("k");
            if got.as_ref() == Some(&want) {
                None
            } else {
                Some(format!("{:?} means {:?}, but is read as {:?}", t, want, got))
            }
        }
        Ok(Err(e)) => Some(format!("{:?}: {}", t, e)),
        Err(f) => Some(f.detail),
    }
}

fn list_member_traits() -> Option<String> {
    let t = format!("namespace {}\nlist L {{ @required member: String }}\n", NS);
    match read(&t) {
        Ok(Ok(m)) => match from_model(&m).ok()?.shapes.remove(&format!("{}#L", NS)) {
            Some(S { kind: K::List(m), .. }) if m.traits.contains_key("smithy.api#required") => None,
            s => Some(format!("{:?} is read as {:?}", t, s)),
        },
        Ok(Err(e)) => Some(format!("{:?}: {}", t, e)),
        Err(f) => Some(f.detail),
    }
}

fn p12_known() -> Vec<Known> {
    vec![
        Known { sig: "escapes", probe: || meta_read("\"a\\\"b\\nc\\u00e9\"", V::Str("a\"b\ncé".into())) },
        Known { sig: "text-block-indent", probe: || meta_read("\"\"\"\n    one\n      two\n    \"\"\"", V::Str("one\n  two\n".into())) },
        Known {
            sig: "nested-keys",
            probe: || meta_read("{ \"a\": 1 }", V::Obj([("a".to_string(), V::Int(1))].into_iter().collect())),
        },
        Known { sig: "list-member-traits", probe: list_member_traits },
    ]
}

// ------------------------------------------------------------------------------------------------
// P14
// ------------------------------------------------------------------------------------------------

const PIECES: [&str; 64] = [
    "{", "}", "[", "]", "(", ")", ":", ",", "\"", "\"\"\"", "\\", "\\u12", "@", "#", "$", ".", "=", "//", "///", "\n", "\r", " ", "null", "true", "1", "-", "1e9", "1e999", "01",
    "99999999999999999999", "$version: 1.0\n", "metadata ", "namespace ", "use ", "apply ", "structure ", "union ", "list ", "set ", "map ", "service ", "operation ", "resource ",
    "string ", "bigDecimal ", "member", "key", "value", "version", "rename", "identifiers", "input", "errors", "operations", "create", "a.b#C", "a.b#C$d", "String", "@required", "@t(",
    "_", "é", "\u{0}", "\u{10ffff}",
];

static CORPUS: [&str; 7] = [
    include_str!("../../corpus/motd.smithy"),
    include_str!("../../corpus/waiters.smithy"),
    include_str!("../../corpus/weather.smithy"),
    include_str!("../../corpus/smithy-api-mqtt.smithy"),
    "namespace a.b\nuse c.d#E\napply E @t\n/// doc\n@u(a: [1, {b: 2}], c: \"\"\"\n  x\"\"\")\nstructure S { @required a: E }\n",
    "$version: 1.0\nmetadata a = [1]\nmetadata a = [2]\nnamespace x\nservice S { version: \"1\", operations: [O], rename: {\"a#B\": C} }\noperation O { input: I, errors: [E] }\n",
    "namespace y\nresource R { identifiers: {a: String}, create: C, collectionOperations: [D], resources: [] }\nmap M { key: String, @t value: M }\n",
];

/// A statement of the grammar's form whose properties have any values.
fn odd_statement(src: &mut Src) -> String {
    const KINDS: [&str; 9] = ["structure", "union", "list", "set", "map", "service", "operation", "resource", "string"];
    const PROPERTIES: [&str; 21] = [
        "version", "operations", "resources", "rename", "input", "output", "errors", "identifiers", "create", "put", "read", "update", "delete", "list",
        "collectionOperations", "member", "key", "value", "other", "\"errors\"", "\"of any kind\"",
    ];
    let c = Cfg { text: Text::Wild, depth: 2, ..Cfg::default() };
    let value = |src: &mut Src| {
        let mut v = gen_value(src, &c, 2);
        if src.bool() {
            v = V::Str(gen_text(src, Text::Wild).repeat(1 + src.usize(12)));
        }
        clean_value(&mut v, false, true);
        let mut t = String::new();
        value_text(src, &v, &mut t);
        t
    };
    let mut t = String::new();
    if src.chance(1, 4) {
        t.push_str(&format!("@t({})\n", value(src)));
    }
    t.push_str(&format!("{} {}", src.pick(&KINDS), gen_name(src, true)));
    if !src.chance(1, 8) {
        t.push_str(" {");
        for _ in 0..src.range(0, 3) {
            let p = src.pick(&PROPERTIES);
            t.push_str(&format!(" {}: {},", p, value(src)));
        }
        t.push('}');
    }
    t.push('\n');
    t
}

fn p14(src: &mut Src, case: &mut Case) -> Res {
    let bytes: Vec<u8> = match src.weighted(&[6, 3, 2, 1, 2]) {
        4 => {
            let mut t = String::from("namespace a.b\n");
            if src.chance(1, 6) {
                let mut v = gen_value(src, &Cfg::default(), 2);
                clean_value(&mut v, false, true);
                t = format!("${}: ", src.pick(&["version", "other", "\"version\""]));
                value_text(src, &v, &mut t);
                t.push_str("\nnamespace a.b\n");
            }
            for _ in 0..src.range(1, 3) {
                t.push_str(&odd_statement(src));
            }
            t.into_bytes()
        }
        0 => {
            let text = src.pick(&[Text::Plain, Text::Wild]);
            let c = Cfg { text, namespaces: vec![NS, "other.ns"], max_shapes: 4, ..Cfg::default() };
            let mut md = gen_model(src, &c);
            localise(&mut md);
            clean(&mut md, true);
            let (mut doc, _) = document(src, &mut md);
            for _ in 0..src.usize(3) {
                let _ = break_doc(src, &mut doc);
            }
            if src.chance(1, 4) {
                src.shuffle(&mut doc.shapes);
            }
            let t = assemble(src, &doc);
            scramble(src, &t, &PIECES, 6)
        }
        1 => {
            let t = src.pick(&CORPUS);
            // a piece of it, as most of the parser works on statements
            let lines: Vec<&str> = t.lines().collect();
            let from = src.usize(lines.len());
            let n = 1 + src.usize(40);
            let mut t = lines[from..(from + n).min(lines.len())].join("\n");
            if src.bool() {
                t = format!("namespace a.b\n{}\n", t);
            }
            scramble(src, &t, &PIECES, 8)
        }
        2 => src.list(0, 30, |s| s.pick(&PIECES)).concat().into_bytes(),
        _ => {
            let n = src.pick(&[3usize, 20, 60]);
            let (a, z) = src.pick(&[("[", "]"), ("{k:", "}"), ("[{k:", "}]"), ("[ \n", ",]")]);
            let mid = format!("{}1{}", a.repeat(n), z.repeat(if src.chance(1, 4) { n / 2 } else { n }));
            match src.usize(4) {
                0 => format!("metadata k = {}\n", mid),
                1 => format!("$k: {}\n", mid),
                2 => format!("namespace a\n@t({})\nstring S\n", mid),
                _ => format!("namespace a\noperation O {{ errors: {} }}\n", mid),
            }
            .into_bytes()
        }
    };
    case.input(&bytes, bytes.len() > 20);
    case.sample(|| String::from_utf8_lossy(&bytes).to_string());
    let result = read_bytes(&bytes)?;
    if let (true, Ok(text)) = (src.chance(1, 30), std::str::from_utf8(&bytes)) {
        // the tree the parser can show is that of a document
        let mut tree: Vec<u8> = Vec::new();
        match guard("parse_and_debug_model", || atelier_smithy::parser::parse_and_debug_model(&mut tree, text))? {
            Ok(()) => check!(!tree.is_empty(), "tree", "an empty tree"),
            Err(e) => check!(result.is_err() && !e.to_string().is_empty(), "tree", "the document is read, but its tree is refused: {}", e),
        }
    }
    match result {
        Err(e) => check!(!e.is_empty(), "message", "an empty error message"),
        Ok(m) => {
            case.tag("accepted");
            let md = match from_model(&m) {
                // names are the same whatever their case
                Err(e) if e.sig == "member-name-case" => {
                    case.tag("member name in another case");
                    return Ok(());
                }
                r => r?,
            };
            check!(m.smithy_version() == &Version::V10, "version", "{:?}", m.smithy_version());
            let lower: BTreeSet<String> = md.shapes.keys().map(|k| k.to_lowercase()).collect();
            check!(lower.len() == md.shapes.len(), "case", "{:?}", md.shapes.keys());
            // every id is one that can be written down
            for (id, s) in &md.shapes {
                let mut ids = vec![id.clone()];
                ids.extend(shape_refs(&s.kind).into_iter().cloned());
                each_traits(&mut s.clone(), &mut |t| ids.extend(t.keys().cloned()));
                for i in ids {
                    check!(i.contains('#') && is_id(&i), "id", "{:?} in {:?}", i, id);
                }
            }
            let j = guard("write", || write_model_to_string(&mut JsonWriter::default(), &m))?
                .map_err(|e| Fail::new("write-error", e.to_string()))?;
            match guard("read", || read_model_from_string(&mut JsonReader::default(), &j))? {
                Err(e) => fail!("json", "what was read from\n{}\ncannot be read from JSON: {}\n{}", String::from_utf8_lossy(&bytes), e, j),
                Ok(b) => compare("json", &carried(&md), &b, &j)?,
            }
            let ns: BTreeSet<String> = md.shapes.iter().filter(|(_, s)| s.kind != K::Unresolved).map(|(k, _)| ns_of(k).to_string()).collect();
            let mut plain = md.clone();
            clean(&mut plain, false);
            for n in ns {
                let t = write(&m, &n)?;
                if plain == md {
                    match read(&t)? {
                        Err(e) => fail!("unreadable", "what was read and written again cannot be read: {}\n{}", e, t),
                        Ok(b) => {
                            let want = fold_namespaces(&carried(&md));
                            let mut got = fold_namespaces(&from_model(&b)?);
                            snap_model(&want, &mut got);
                            if let Some(d) = diff(&want, &got) {
                                fail!("round-trip", "{}\n{}", d, t);
                            }
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

pub static P14: Prop = Prop {
    id: "P14",
    quick: 800_000,
    thorough: 8_000_000,
    rule: "byte-level and structural edits of generated and of real documents, statements whose properties have any values, token soup and nesting; reading has to return (a model that survives conversion to JSON and a round trip, or an error with a message), never to crash or hang; non-trivial: longer than 20 bytes",
    assumptions: &["values are nested at most 60 deep: the parser is recursive", "the round trip is only compared without the strings and keys that are known findings"],
    run: p14,
    explicit: no_explicit,
    known: no_known,
};
