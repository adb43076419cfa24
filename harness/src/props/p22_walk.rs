//! P22, P23: the model visitor and the line-oriented form.

use crate::engine::*;
use crate::model::*;
use crate::props::p03_model::{lower_lines, respelled};
use crate::{check, fail};
use atelier_core::io::debug::DebugWriter as Debugger;
use atelier_core::io::lines::{make_line_oriented_form, LineOrientedWriter};
use atelier_core::io::{write_model_to_string, ModelWriter};
use atelier_core::model::shapes::{
    AppliedTraits, ListOrSet, Map, Operation, Resource, Service, ShapeKind, Simple, StructureOrUnion,
};
use atelier_core::model::values::Value;
use atelier_core::model::visitor::{walk_model, MemberVisitor, ModelVisitor};
use atelier_core::model::{Identifier, ShapeID};
use std::cell::RefCell;
use std::collections::BTreeMap;

// ------------------------------------------------------------------------------------------------
// P22
// ------------------------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Ev {
    Meta(String, V),
    Shape(&'static str, Sid, S),
    Member(Sid, String, Sid, Option<T>),
}

struct Rec {
    log: RefCell<Vec<Ev>>,
    members: bool,
    /// fail at this call
    fail_at: Option<usize>,
}

impl Rec {
    fn say(&self, e: Ev) -> Result<(), usize> {
        let n = self.log.borrow().len();
        self.log.borrow_mut().push(e);
        if self.fail_at == Some(n) {
            Err(n)
        } else {
            Ok(())
        }
    }
    fn shape(&self, method: &'static str, id: &ShapeID, traits: &AppliedTraits, body: ShapeKind) -> Result<(), usize> {
        self.say(Ev::Shape(method, id.to_string(), S { traits: from_traits(traits), kind: from_kind(&body) }))
    }
}

impl ModelVisitor for Rec {
    type Error = usize;
    fn metadata(&self, key: &str, value: &Value) -> Result<(), usize> {
        self.say(Ev::Meta(key.to_string(), from_value(value)))
    }
    fn simple_shape(&self, id: &ShapeID, t: &AppliedTraits, s: &Simple) -> Result<(), usize> {
        self.shape("simple_shape", id, t, ShapeKind::Simple(s.clone()))
    }
    fn list(&self, id: &ShapeID, t: &AppliedTraits, s: &ListOrSet) -> Result<(), usize> {
        self.shape("list", id, t, ShapeKind::List(s.clone()))
    }
    fn set(&self, id: &ShapeID, t: &AppliedTraits, s: &ListOrSet) -> Result<(), usize> {
        self.shape("set", id, t, ShapeKind::Set(s.clone()))
    }
    fn map(&self, id: &ShapeID, t: &AppliedTraits, s: &Map) -> Result<(), usize> {
        self.shape("map", id, t, ShapeKind::Map(s.clone()))
    }
    fn structure(&self, id: &ShapeID, t: &AppliedTraits, s: &StructureOrUnion) -> Result<(), usize> {
        self.shape("structure", id, t, ShapeKind::Structure(s.clone()))
    }
    fn union(&self, id: &ShapeID, t: &AppliedTraits, s: &StructureOrUnion) -> Result<(), usize> {
        self.shape("union", id, t, ShapeKind::Union(s.clone()))
    }
    fn service(&self, id: &ShapeID, t: &AppliedTraits, s: &Service) -> Result<(), usize> {
        self.shape("service", id, t, ShapeKind::Service(s.clone()))
    }
    fn operation(&self, id: &ShapeID, t: &AppliedTraits, s: &Operation) -> Result<(), usize> {
        self.shape("operation", id, t, ShapeKind::Operation(s.clone()))
    }
    fn resource(&self, id: &ShapeID, t: &AppliedTraits, s: &Resource) -> Result<(), usize> {
        self.shape("resource", id, t, ShapeKind::Resource(s.clone()))
    }
    fn unresolved_id(&self, id: &ShapeID, t: &AppliedTraits) -> Result<(), usize> {
        self.shape("unresolved_id", id, t, ShapeKind::Unresolved)
    }
    fn member_visitor(&self) -> Option<&dyn MemberVisitor<Error = usize>> {
        if self.members {
            Some(self)
        } else {
            None
        }
    }
}

impl MemberVisitor for Rec {
    type Error = usize;
    fn member(&self, p: &ShapeID, n: &Identifier, t: &ShapeID, traits: Option<&AppliedTraits>) -> Result<(), usize> {
        self.say(Ev::Member(p.to_string(), n.to_string(), t.to_string(), traits.map(from_traits)))
    }
}

struct Ignore;
impl ModelVisitor for Ignore {
    type Error = String;
}

fn method(k: &K) -> &'static str {
    match k {
        K::Simple(_) => "simple_shape",
        K::Unresolved => "unresolved_id",
        k => k.name(),
    }
}

/// (name, targets) of the members of the kinds other than aggregates.
fn plain_members(k: &K) -> Vec<(&'static str, Sid)> {
    let mut r: Vec<(&'static str, Sid)> = Vec::new();
    match k {
        K::Service(s) => {
            s.operations.iter().for_each(|t| r.push(("operations", t.clone())));
            s.resources.iter().for_each(|t| r.push(("resources", t.clone())));
        }
        K::Operation(o) => {
            o.input.iter().for_each(|t| r.push(("input", t.clone())));
            o.output.iter().for_each(|t| r.push(("output", t.clone())));
            o.errors.iter().for_each(|t| r.push(("errors", t.clone())));
        }
        K::Resource(o) => {
            for (n, t) in LIFECYCLE.iter().zip(&o.lifecycle) {
                t.iter().for_each(|t| r.push((n, t.clone())));
            }
            o.operations.iter().for_each(|t| r.push(("operations", t.clone())));
            o.collection_operations.iter().for_each(|t| r.push(("collectionOperations", t.clone())));
            o.resources.iter().for_each(|t| r.push(("resources", t.clone())));
        }
        _ => {}
    }
    r
}

fn expected_members(id: &Sid, s: &S) -> Vec<Ev> {
    let mut r: Vec<Ev> = members_of(&s.kind)
        .into_iter()
        .map(|(n, m)| Ev::Member(id.clone(), n, m.target.clone(), Some(m.traits.clone())))
        .collect();
    r.extend(plain_members(&s.kind).into_iter().map(|(n, t)| Ev::Member(id.clone(), n.to_string(), t, None)));
    r.sort();
    r
}

fn p22(src: &mut Src, case: &mut Case) -> Res {
    let c = Cfg { depth: 1, text: Text::Plain, ..Cfg::default() };
    let mut md = gen_model(src, &c);
    if src.chance(1, 8) {
        md = respelled(src, &md);
        case.tag("names in several cases");
    }
    let m = to_model_shuffled(&md, src);
    let members = src.chance(5, 6);
    let rec = Rec { log: RefCell::new(vec![]), members, fail_at: None };
    case.input(&(&md, members), rich(&md) && members);
    case.tag_if(!members, "without member visitor");
    case.sample(|| format!("{:?}", md));
    let r = guard("walk_model", || walk_model(&m, &rec))?;
    check!(r.is_ok(), "error", "the walk failed without reason at {:?}", r);
    let log = rec.log.into_inner();
    let mut meta = BTreeMap::new();
    let mut shapes: BTreeMap<Sid, S> = BTreeMap::new();
    let mut i = 0;
    while i < log.len() {
        match &log[i] {
            Ev::Meta(k, v) => {
                check!(meta.insert(k.clone(), v.clone()).is_none(), "metadata", "{:?} visited twice", k);
                i += 1;
            }
            Ev::Shape(how, id, s) => {
                check!(*how == method(&s.kind), "method", "{} {} visited as {}", s.kind.name(), id, how);
                check!(shapes.insert(id.clone(), s.clone()).is_none(), "shape", "{} visited twice", id);
                let mut got: Vec<Ev> = Vec::new();
                i += 1;
                while let Some(e @ Ev::Member(..)) = log.get(i) {
                    got.push(e.clone());
                    i += 1;
                }
                got.sort();
                let want = match md.shapes.get(id) {
                    Some(s) if members => expected_members(id, s),
                    _ => vec![],
                };
                check!(got == want, "members", "{} {}: want {:?}, got {:?}", s.kind.name(), id, want, got);
            }
            e => fail!("stray", "{:?} does not follow its shape", e),
        }
    }
    if let Some(d) = diff(&md, &Md { meta, shapes }) {
        fail!("visited", "{}", d);
    }
    // a failing visitor
    if !log.is_empty() {
        let at = src.usize(log.len());
        let rec = Rec { log: RefCell::new(vec![]), members, fail_at: Some(at) };
        let r = guard("walk_model", || walk_model(&m, &rec))?;
        check!(r == Err(at), "stop", "call {} failed, the walk returned {:?}", at, r);
        let log2 = rec.log.into_inner();
        check!(log2.len() == at + 1, "stop", "call {} failed and the walk went on: {:?}", at, log2);
        check!(log2 == log[..at + 1], "stable", "two walks differ: {:?} and {:?}", log, log2);
    }
    check!(guard("walk_model", || walk_model(&m, &Ignore))?.is_ok(), "default", "the default visitor fails");
    Ok(())
}

pub static P22: Prop = Prop {
    id: "P22",
    quick: 300_000,
    thorough: 2_000_000,
    rule: "generated models of all shape kinds walked by a recording visitor (with and without a member visitor, and failing at a random call); the recorded calls are compared with the reference model; non-trivial: two or more shapes, one of them not simple, with a member visitor",
    assumptions: &["the order of shapes, of metadata and of the members within a shape is free"],
    run: p22,
    explicit: no_explicit,
    known: no_known,
};

// ------------------------------------------------------------------------------------------------
// P23
// ------------------------------------------------------------------------------------------------

fn value_lines(prefix: &str, v: &V, out: &mut Vec<String>) {
    match v {
        V::Null => out.push(format!("{}()", prefix)),
        V::Bool(b) => out.push(format!("{}{}", prefix, b)),
        V::Int(i) => out.push(format!("{}{}", prefix, i)),
        V::Flt(b) => out.push(format!("{}{}", prefix, f64::from_bits(*b))),
        V::Str(s) => out.push(format!("{}\"{}\"", prefix, s)),
        V::Arr(a) if a.is_empty() => out.push(format!("{}[]", prefix)),
        V::Obj(o) if o.is_empty() => out.push(format!("{}{{}}", prefix)),
        V::Arr(a) => a.iter().enumerate().for_each(|(i, v)| value_lines(&format!("{}[{}]=", prefix, i), v, out)),
        V::Obj(o) => o.iter().for_each(|(k, v)| value_lines(&format!("{}{{{}}}=", prefix, k), v, out)),
    }
}

fn trait_lines(prefix: &str, t: &T, out: &mut Vec<String>) {
    for (id, v) in t {
        match v {
            None => out.push(format!("{}::trait::{}", prefix, id)),
            Some(v) => value_lines(&format!("{}::trait::{}<=", prefix, id), v, out),
        }
    }
}

/// The form, as its documentation describes it.
pub fn expected_lines(md: &Md) -> Vec<String> {
    let mut out = Vec::new();
    for (k, v) in &md.meta {
        value_lines(&format!("meta::{}<=", k), v, &mut out);
    }
    for (id, s) in &md.shapes {
        let p = format!("{}::{}", s.kind.name(), id);
        out.push(p.clone());
        trait_lines(&p, &s.traits, &mut out);
        for (n, m) in members_of(&s.kind) {
            out.push(format!("{}::{}=>{}", p, n, m.target));
            trait_lines(&format!("{}::{}", p, n), &m.traits, &mut out);
        }
        for (n, t) in plain_members(&s.kind) {
            let n = match n {
                "operations" => "operation",
                "resources" => "resource",
                "errors" => "error",
                "collectionOperations" => "collection_operation",
                n => n,
            };
            out.push(format!("{}::{}=>{}", p, n, t));
        }
        match &s.kind {
            K::Service(v) => {
                out.push(format!("{}::version<={:?}", p, v.version));
                v.renames.iter().for_each(|(k, n)| out.push(format!("{}::rename::{}<={}", p, k, n)));
            }
            K::Resource(r) => {
                r.identifiers.iter().for_each(|(k, t)| out.push(format!("{}::identifier::{}=>{}", p, k, t)))
            }
            _ => {}
        }
    }
    out.sort();
    out
}

/// Only what the form keeps: the order of targets and the type of a number are not part of it.
fn normal(md: &Md) -> Md {
    fn value(v: &mut V) {
        match v {
            V::Flt(b) => {
                let text = format!("{}", f64::from_bits(*b));
                if let Ok(i) = text.parse::<i64>() {
                    if text != "-0" {
                        *v = V::Int(i)
                    }
                }
            }
            V::Arr(a) => a.iter_mut().for_each(value),
            V::Obj(o) => o.values_mut().for_each(value),
            _ => {}
        }
    }
    let mut r = md.clone();
    r.meta.values_mut().for_each(value);
    for s in r.shapes.values_mut() {
        each_traits(s, &mut |t| t.values_mut().flatten().for_each(value));
        match &mut s.kind {
            K::Service(v) => {
                v.operations.sort();
                v.resources.sort();
            }
            K::Operation(o) => o.errors.sort(),
            K::Resource(r) => {
                r.operations.sort();
                r.collection_operations.sort();
                r.resources.sort();
            }
            _ => {}
        }
    }
    r
}

/// Keys have to be identifiers: that is all the form provides for.
pub fn simple_keys(v: &mut V) {
    match v {
        V::Arr(a) => a.iter_mut().for_each(simple_keys),
        V::Obj(o) => {
            let old = std::mem::take(o);
            for (i, (k, mut v)) in old.into_iter().enumerate() {
                simple_keys(&mut v);
                let ok = !k.is_empty()
                    && k.chars().all(|c| c.is_ascii_alphanumeric() || c == '_')
                    && !k.starts_with(|c: char| c.is_ascii_digit());
                o.insert(if ok { k } else { format!("key{}", i) }, v);
            }
        }
        _ => {}
    }
}

fn simple_model_keys(md: &mut Md) {
    let mut meta = V::Obj(std::mem::take(&mut md.meta));
    simple_keys(&mut meta);
    if let V::Obj(o) = meta {
        md.meta = o;
    }
    for s in md.shapes.values_mut() {
        each_traits(s, &mut |t| t.values_mut().flatten().for_each(simple_keys));
    }
}

/// Another model, close to the first.
fn neighbour(src: &mut Src, c: &Cfg, md: &Md) -> Md {
    let mut r = md.clone();
    let ids: Vec<Sid> = md.shapes.keys().cloned().collect();
    if ids.is_empty() || src.chance(1, 6) {
        let k = gen_name(src, false);
        r.meta.insert(k, gen_value(src, c, 2));
        return r;
    }
    let id = src.pick(&ids);
    if is_member_id(&id) {
        r.shapes.remove(&id);
        return r;
    }
    match src.usize(6) {
        0 => {
            r.shapes.remove(&id);
        }
        1 => {
            let s = gen_variant(src, c, &r.shapes[&id], &ids);
            r.shapes.insert(id, s);
        }
        2 => {
            if let Some(s) = r.shapes.get_mut(&id) {
                tweak_kind(src, c, &mut s.kind, &ids);
            }
        }
        3 => {
            // the same trait on a member instead of the shape, or the other way round
            if let Some(s) = r.shapes.get_mut(&id) {
                let names: Vec<String> = members_of(&s.kind).into_iter().map(|(n, _)| n).collect();
                if !names.is_empty() {
                    let n = src.pick(&names);
                    let t = std::mem::take(&mut s.traits);
                    if let Some(m) = member_mut(&mut s.kind, &n) {
                        s.traits = std::mem::replace(&mut m.traits, t);
                    }
                }
            }
        }
        4 => {
            // a value one level deeper, or as text
            if let Some(s) = r.shapes.get_mut(&id) {
                let how = src.usize(5);
                each_traits(s, &mut |t| {
                    t.values_mut().for_each(|v| {
                        *v = match (how, v.take()) {
                            (0, Some(v)) => Some(V::Arr(vec![v])),
                            (1, Some(V::Arr(a))) => a.into_iter().next(),
                            (2, Some(V::Int(i))) => Some(V::Str(i.to_string())),
                            (3, None) => Some(V::Null),
                            (4, Some(V::Null)) => None,
                            (_, v) => v,
                        }
                    })
                });
            }
        }
        _ => {
            if let Some(s) = r.shapes.remove(&id) {
                let id = format!("{}x", id.split('$').next().unwrap_or(""));
                r.shapes.insert(id, s);
            }
        }
    }
    r
}

fn p23(src: &mut Src, case: &mut Case) -> Res {
    let c = Cfg { text: if src.bool() { Text::Printable } else { Text::Plain }, ..Cfg::default() };
    let mut md = gen_model(src, &c);
    simple_model_keys(&mut md);
    let m = to_model_shuffled(&md, src);
    let want = expected_lines(&md);
    case.input(&md, rich(&md));
    case.sample(|| want.join("\n"));
    let got = guard("make_line_oriented_form", || make_line_oriented_form(&m))?;
    if got != want {
        for l in &want {
            check!(got.contains(l), "missing-line", "no line {:?} in {:#?}", l, got);
        }
        for l in &got {
            check!(want.contains(l), "extra-line", "unexpected line {:?}, want {:#?}", l, want);
        }
        fail!("lines", "want {:#?}, got {:#?}", want, got);
    }
    let mut writer = LineOrientedWriter::default();
    if src.chance(1, 12) {
        let other = to_model(&gen_model(src, &Cfg { text: Text::Plain, depth: 0, max_shapes: 4, ..Cfg::default() }));
        guard("write before", || write_model_to_string(&mut writer, &other))?.map_err(|e| Fail::new("write", e.to_string()))?;
        case.tag("writer used before");
    }
    let text = guard("write", || write_model_to_string(&mut writer, &m))?
        .map_err(|e| Fail::new("write", e.to_string()))?;
    let all: String = want.iter().map(|l| format!("{}\n", l)).collect();
    check!(text == all, "written", "written {:?}, the form is {:?}", text, all);
    if src.chance(1, 6) {
        // names in other cases are only that
        case.tag("names in other cases");
        let other = respelled(src, &md);
        let m = to_model_shuffled(&other, src);
        let again = guard("write", || write_model_to_string(&mut LineOrientedWriter::default(), &m))?.map_err(|e| Fail::new("write", e.to_string()))?;
        check!(lower_lines(&again) == lower_lines(&text), "case", "the form is\n{}\nand with names in other cases\n{}", text, again);
    }
    // the debugging writer never fails
    let mut out: Vec<u8> = Vec::new();
    let r = guard("debug", || Debugger::default().write(&mut out, &m))?;
    check!(r.is_ok() && !out.is_empty(), "debug", "the debug writer wrote {} bytes: {:?}", out.len(), r.is_ok());
    // one form, one model
    let mut near = neighbour(src, &c, &md);
    simple_model_keys(&mut near);
    if near.shapes.keys().map(|k| k.to_lowercase()).collect::<std::collections::BTreeSet<_>>().len() == near.shapes.len() {
        let same = normal(&near) == normal(&md);
        case.tag_if(!same, "told apart");
        let other = guard("make_line_oriented_form", || make_line_oriented_form(&to_model_shuffled(&near, src)))?;
        check!((other == got) == same, "told-apart", "equal: {}\n{:?}\n{:?}\nforms\n{:?}\n{:?}", same, md, near, got, other);
    }
    Ok(())
}

pub static P23: Prop = Prop {
    id: "P23",
    quick: 150_000,
    thorough: 1_500_000,
    rule: "generated models built in random order; the lines are compared with those a reference writes from the documentation, and with those of a neighbouring model; non-trivial: two or more shapes, one of them not simple",
    assumptions: &[
        "keys of metadata and objects are identifiers, as the documented productions have it",
        "a number is written in its natural form, so 1 and 1.0 look alike; the order of array-valued targets is not kept",
        "strings are put between quotes as they are, which the existing tests pin",
    ],
    run: p23,
    explicit: no_explicit,
    known: no_known,
};
