//! The reference representation of a Smithy model, independent of the types under test, with
//! generators, a builder into the real `Model` and an extractor back from it.

use crate::engine::{Fail, Res, Src};
use atelier_core::model::shapes::{
    AppliedTraits, HasTraits, ListOrSet, Map, MemberShape, Operation, Resource, Service, ShapeKind,
    Simple, StructureOrUnion, TopLevelShape,
};
use atelier_core::model::values::{Number, Value};
use atelier_core::model::{HasIdentity, Identifier, Model, NamespaceID, ShapeID};
use atelier_core::Version;
use std::collections::{BTreeMap, BTreeSet};

// ------------------------------------------------------------------------------------------------
// Reference types
// ------------------------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum V {
    Null,
    Bool(bool),
    Int(i64),
    /// bit pattern of an f64
    Flt(u64),
    Str(String),
    Arr(Vec<V>),
    Obj(BTreeMap<String, V>),
}

pub type Sid = String;
pub type T = BTreeMap<Sid, Option<V>>;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Mem {
    pub target: Sid,
    pub traits: T,
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct Svc {
    pub version: String,
    pub operations: Vec<Sid>,
    pub resources: Vec<Sid>,
    pub renames: BTreeMap<Sid, String>,
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct Opn {
    pub input: Option<Sid>,
    pub output: Option<Sid>,
    pub errors: Vec<Sid>,
}

pub const LIFECYCLE: [&str; 6] = ["create", "put", "read", "update", "delete", "list"];

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct Rsc {
    pub identifiers: BTreeMap<String, Sid>,
    /// indexed like `LIFECYCLE`
    pub lifecycle: [Option<Sid>; 6],
    pub operations: Vec<Sid>,
    pub collection_operations: Vec<Sid>,
    pub resources: Vec<Sid>,
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum K {
    Simple(&'static str),
    List(Mem),
    Set(Mem),
    Map(Mem, Mem),
    Struct(BTreeMap<String, Mem>),
    Union(BTreeMap<String, Mem>),
    Service(Svc),
    Operation(Opn),
    Resource(Rsc),
    Unresolved,
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct S {
    pub traits: T,
    pub kind: K,
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct Md {
    pub meta: BTreeMap<String, V>,
    pub shapes: BTreeMap<Sid, S>,
}

pub const SIMPLES: [&str; 13] = [
    "string", "boolean", "integer", "blob", "document", "byte", "short", "long", "float", "double",
    "bigInteger", "bigDecimal", "timestamp",
];

pub const PRELUDE_SHAPES: [&str; 20] = [
    "String", "Blob", "BigInteger", "BigDecimal", "Timestamp", "Document", "Boolean",
    "PrimitiveBoolean", "Byte", "PrimitiveByte", "Short", "PrimitiveShort", "Integer",
    "PrimitiveInteger", "Long", "PrimitiveLong", "Float", "PrimitiveFloat", "Double",
    "PrimitiveDouble",
];

pub const PRELUDE_TRAITS: [&str; 59] = [
    "documentation", "required", "deprecated", "tags", "pattern", "length", "range", "error",
    "sensitive", "since", "title", "enum", "private", "readonly", "idempotent", "http", "trait",
    "externalDocumentation", "paginated", "references", "xmlName", "jsonName", "box", "streaming",
    "auth", "authDefinition", "cors", "endpoint", "eventHeader", "eventPayload", "examples",
    "hostLabel", "httpApiKeyAuth", "httpBasicAuth", "httpBearerAuth", "httpChecksumRequired",
    "httpDigestAuth", "httpError", "httpHeader", "httpLabel", "httpPayload", "httpPrefixHeaders",
    "httpQuery", "idRef", "idempotencyToken", "mediaType", "noReplace", "optionalAuth",
    "protocolDefinition", "requiresLength", "resourceIdentifier", "retryable", "suppress",
    "timestampFormat", "uniqueItems", "unstable", "xmlAttribute", "xmlFlattened", "xmlNamespace",
];

impl K {
    pub fn name(&self) -> &'static str {
        match self {
            K::Simple(s) => s,
            K::List(_) => "list",
            K::Set(_) => "set",
            K::Map(_, _) => "map",
            K::Struct(_) => "structure",
            K::Union(_) => "union",
            K::Service(_) => "service",
            K::Operation(_) => "operation",
            K::Resource(_) => "resource",
            K::Unresolved => "unresolved",
        }
    }
}

pub fn ns_of(id: &str) -> &str {
    id.split('#').next().unwrap_or("")
}

pub fn name_of(id: &str) -> &str {
    id.split('#').nth(1).unwrap_or("").split('$').next().unwrap_or("")
}

pub fn is_member_id(id: &str) -> bool {
    id.contains('$')
}

pub fn flt(f: f64) -> V {
    V::Flt(f.to_bits())
}

// ------------------------------------------------------------------------------------------------
// To and from the real types
// ------------------------------------------------------------------------------------------------

pub fn sid(s: &str) -> ShapeID {
    // built from components, so that the parser under test is not part of the construction
    let (ns, rest) = s.split_once('#').expect("shape id");
    match rest.split_once('$') {
        Some((n, m)) => ShapeID::new_unchecked(ns, n, Some(m)),
        None => ShapeID::new_unchecked(ns, rest, None),
    }
}

pub fn ident(s: &str) -> Identifier {
    Identifier::new_unchecked(s)
}

pub fn to_value(v: &V) -> Value {
    match v {
        V::Null => Value::None,
        V::Bool(b) => Value::Boolean(*b),
        V::Int(i) => Value::Number(Number::Integer(*i)),
        V::Flt(b) => Value::Number(Number::Float(f64::from_bits(*b))),
        V::Str(s) => Value::String(s.clone()),
        V::Arr(a) => Value::Array(a.iter().map(to_value).collect()),
        V::Obj(o) => Value::Object(o.iter().map(|(k, v)| (k.clone(), to_value(v))).collect()),
    }
}

pub fn from_value(v: &Value) -> V {
    match v {
        Value::None => V::Null,
        Value::Boolean(b) => V::Bool(*b),
        Value::Number(Number::Integer(i)) => V::Int(*i),
        Value::Number(Number::Float(f)) => flt(*f),
        Value::String(s) => V::Str(s.clone()),
        Value::Array(a) => V::Arr(a.iter().map(from_value).collect()),
        Value::Object(o) => V::Obj(o.iter().map(|(k, v)| (k.clone(), from_value(v))).collect()),
    }
}

pub fn to_traits(t: &T) -> AppliedTraits {
    t.iter().map(|(k, v)| (sid(k), v.as_ref().map(to_value))).collect()
}

pub fn from_traits(t: &AppliedTraits) -> T {
    t.iter().map(|(k, v)| (k.to_string(), v.as_ref().map(from_value))).collect()
}

pub fn to_member(name: &str, m: &Mem) -> MemberShape {
    MemberShape::with_traits(ident(name), sid(&m.target), to_traits(&m.traits))
}

pub fn from_member(m: &MemberShape) -> Mem {
    Mem { target: m.target().to_string(), traits: from_traits(m.traits()) }
}

pub fn simple_kind(name: &str) -> Simple {
    match name {
        "blob" => Simple::Blob,
        "boolean" => Simple::Boolean,
        "document" => Simple::Document,
        "string" => Simple::String,
        "byte" => Simple::Byte,
        "short" => Simple::Short,
        "integer" => Simple::Integer,
        "long" => Simple::Long,
        "float" => Simple::Float,
        "double" => Simple::Double,
        "bigInteger" => Simple::BigInteger,
        "bigDecimal" => Simple::BigDecimal,
        "timestamp" => Simple::Timestamp,
        _ => panic!("not a simple shape {}", name),
    }
}

pub fn simple_name(s: &Simple) -> &'static str {
    match s {
        Simple::Blob => "blob",
        Simple::Boolean => "boolean",
        Simple::Document => "document",
        Simple::String => "string",
        Simple::Byte => "byte",
        Simple::Short => "short",
        Simple::Integer => "integer",
        Simple::Long => "long",
        Simple::Float => "float",
        Simple::Double => "double",
        Simple::BigInteger => "bigInteger",
        Simple::BigDecimal => "bigDecimal",
        Simple::Timestamp => "timestamp",
    }
}

pub fn to_kind(k: &K) -> ShapeKind {
    let members = |m: &BTreeMap<String, Mem>| {
        StructureOrUnion::with_members(&m.iter().map(|(n, m)| to_member(n, m)).collect::<Vec<_>>())
    };
    match k {
        K::Simple(s) => ShapeKind::Simple(simple_kind(s)),
        K::List(m) => ShapeKind::List(ListOrSet::from(to_member("member", m))),
        K::Set(m) => ShapeKind::Set(ListOrSet::from(to_member("member", m))),
        K::Map(k, v) => ShapeKind::Map(Map::from(to_member("key", k), to_member("value", v))),
        K::Struct(m) => ShapeKind::Structure(members(m)),
        K::Union(m) => ShapeKind::Union(members(m)),
        K::Service(s) => {
            let mut r = Service::new(&s.version);
            for o in &s.operations {
                r.add_operation(sid(o));
            }
            for o in &s.resources {
                r.add_resource(sid(o));
            }
            r.set_renames(s.renames.iter().map(|(k, v)| (sid(k), ident(v))).collect());
            ShapeKind::Service(r)
        }
        K::Operation(o) => {
            let mut r = Operation::default();
            if let Some(i) = &o.input {
                r.set_input(sid(i));
            }
            if let Some(i) = &o.output {
                r.set_output(sid(i));
            }
            for e in &o.errors {
                r.add_error(sid(e));
            }
            ShapeKind::Operation(r)
        }
        K::Resource(o) => {
            let mut r = Resource::default();
            r.set_identifiers(o.identifiers.iter().map(|(k, v)| (ident(k), sid(v))).collect());
            for (i, l) in o.lifecycle.iter().enumerate() {
                if let Some(t) = l {
                    let t = sid(t);
                    match i {
                        0 => r.set_create(t),
                        1 => r.set_put(t),
                        2 => r.set_read(t),
                        3 => r.set_update(t),
                        4 => r.set_delete(t),
                        _ => r.set_list(t),
                    }
                }
            }
            for x in &o.operations {
                r.add_operation(sid(x));
            }
            for x in &o.collection_operations {
                r.add_collection_operation(sid(x));
            }
            for x in &o.resources {
                r.add_resource(sid(x));
            }
            ShapeKind::Resource(r)
        }
        K::Unresolved => ShapeKind::Unresolved,
    }
}

pub fn to_shape(id: &str, s: &S) -> TopLevelShape {
    TopLevelShape::with_traits(sid(id), to_kind(&s.kind), to_traits(&s.traits))
}

/// Builds the real model. Only used with case-insensitively distinct ids, so nothing is merged.
pub fn to_model(m: &Md) -> Model {
    let mut model = Model::new(Version::V10);
    for (k, v) in &m.meta {
        let _ = model.add_metadata(k.clone(), to_value(v)).unwrap_or_else(|e| panic!("add_metadata: {}", e));
    }
    for (id, s) in &m.shapes {
        model.add_shape(to_shape(id, s)).unwrap_or_else(|e| panic!("add_shape: {}", e));
    }
    model
}

/// As `to_model`, adding things in an order chosen by `src`.
pub fn to_model_shuffled(m: &Md, src: &mut Src) -> Model {
    let mut model = Model::new(Version::V10);
    let mut meta: Vec<_> = m.meta.iter().collect();
    src.shuffle(&mut meta);
    for (k, v) in meta {
        let _ = model.add_metadata(k.clone(), to_value(v)).unwrap_or_else(|e| panic!("add_metadata: {}", e));
    }
    let mut shapes: Vec<_> = m.shapes.iter().collect();
    src.shuffle(&mut shapes);
    for (id, s) in shapes {
        model.add_shape(to_shape(id, s)).unwrap_or_else(|e| panic!("add_shape: {}", e));
    }
    model
}

fn strs<'a>(i: impl Iterator<Item = &'a ShapeID>) -> Vec<Sid> {
    i.map(|s| s.to_string()).collect()
}

fn opt(s: &Option<ShapeID>) -> Option<Sid> {
    s.as_ref().map(|s| s.to_string())
}

pub fn from_kind(k: &ShapeKind) -> K {
    let members = |s: &StructureOrUnion| s.members().map(|m| (m.id().to_string(), from_member(m))).collect();
    match k {
        ShapeKind::Simple(s) => K::Simple(simple_name(s)),
        ShapeKind::List(l) => K::List(from_member(l.member())),
        ShapeKind::Set(l) => K::Set(from_member(l.member())),
        ShapeKind::Map(m) => K::Map(from_member(m.key()), from_member(m.value())),
        ShapeKind::Structure(s) => K::Struct(members(s)),
        ShapeKind::Union(s) => K::Union(members(s)),
        ShapeKind::Service(s) => K::Service(Svc {
            version: s.version().clone(),
            operations: strs(s.operations()),
            resources: strs(s.resources()),
            renames: s.renames().map(|(k, v)| (k.to_string(), v.to_string())).collect(),
        }),
        ShapeKind::Operation(o) => K::Operation(Opn {
            input: opt(o.input()),
            output: opt(o.output()),
            errors: strs(o.errors()),
        }),
        ShapeKind::Resource(r) => K::Resource(Rsc {
            identifiers: r.identifiers().map(|(k, v)| (k.to_string(), v.to_string())).collect(),
            lifecycle: [
                opt(r.create()),
                opt(r.put()),
                opt(r.read()),
                opt(r.update()),
                opt(r.delete()),
                opt(r.list()),
            ],
            operations: strs(r.operations()),
            collection_operations: strs(r.collection_operations()),
            resources: strs(r.resources()),
        }),
        ShapeKind::Unresolved => K::Unresolved,
    }
}

/// Checks names inside a shape body that the reference form leaves implicit.
fn well_named(s: &TopLevelShape) -> Res {
    let bad = |m: &MemberShape, want: &str| {
        let got = m.id().to_string();
        if got != want {
            let sig = if got.eq_ignore_ascii_case(want) { "member-name-case" } else { "member-name" };
            Err(Fail::new(sig, format!("the `{}` member of {} is named `{}`", want, s.id(), got)))
        } else {
            Ok(())
        }
    };
    match s.body() {
        ShapeKind::List(l) | ShapeKind::Set(l) => bad(l.member(), "member"),
        ShapeKind::Map(m) => {
            bad(m.key(), "key")?;
            bad(m.value(), "value")
        }
        _ => Ok(()),
    }
}

/// The model's full content in reference form.
pub fn from_model(m: &Model) -> Result<Md, Fail> {
    let mut r = Md::default();
    for (k, v) in m.metadata() {
        r.meta.insert(k.clone(), from_value(v));
    }
    for s in m.shapes() {
        well_named(s)?;
        let prev = r.shapes.insert(
            s.id().to_string(),
            S { traits: from_traits(s.traits()), kind: from_kind(s.body()) },
        );
        if prev.is_some() {
            return Err(Fail::new("duplicate-shape", format!("two shapes with id {}", s.id())));
        }
    }
    Ok(r)
}

/// First difference between two reference models, in words.
pub fn diff(want: &Md, got: &Md) -> Option<String> {
    for (k, v) in &want.meta {
        match got.meta.get(k) {
            None => return Some(format!("metadata {:?} missing", k)),
            Some(g) if g != v => return Some(format!("metadata {:?}: want {:?}, got {:?}", k, v, g)),
            _ => {}
        }
    }
    for k in got.meta.keys() {
        if !want.meta.contains_key(k) {
            return Some(format!("unexpected metadata {:?} = {:?}", k, got.meta[k]));
        }
    }
    for (id, s) in &want.shapes {
        match got.shapes.get(id) {
            None => return Some(format!("shape {} missing (want {:?}); got shapes {:?}", id, s, got.shapes.keys().collect::<Vec<_>>())),
            Some(g) if g.kind != s.kind => {
                return Some(format!("shape {}: want {:?}, got {:?}", id, s.kind, g.kind))
            }
            Some(g) if g.traits != s.traits => {
                return Some(format!("shape {} traits: want {:?}, got {:?}", id, s.traits, g.traits))
            }
            _ => {}
        }
    }
    for id in got.shapes.keys() {
        if !want.shapes.contains_key(id) {
            return Some(format!("unexpected shape {}: {:?}", id, got.shapes[id]));
        }
    }
    None
}

pub fn shape_refs(k: &K) -> Vec<&Sid> {
    let mut r: Vec<&Sid> = Vec::new();
    match k {
        K::Simple(_) | K::Unresolved => {}
        K::List(m) | K::Set(m) => r.push(&m.target),
        K::Map(a, b) => {
            r.push(&a.target);
            r.push(&b.target);
        }
        K::Struct(m) | K::Union(m) => r.extend(m.values().map(|m| &m.target)),
        K::Service(s) => {
            r.extend(&s.operations);
            r.extend(&s.resources);
            r.extend(s.renames.keys());
        }
        K::Operation(o) => {
            r.extend(&o.input);
            r.extend(&o.output);
            r.extend(&o.errors);
        }
        K::Resource(x) => {
            r.extend(x.identifiers.values());
            r.extend(x.lifecycle.iter().flatten());
            r.extend(&x.operations);
            r.extend(&x.collection_operations);
            r.extend(&x.resources);
        }
    }
    r
}

/// Every shape reference of a body (rename keys apart), changeable.
pub fn each_ref(k: &mut K, f: &mut dyn FnMut(&mut Sid)) {
    match k {
        K::Simple(_) | K::Unresolved => {}
        K::List(m) | K::Set(m) => f(&mut m.target),
        K::Map(a, b) => {
            f(&mut a.target);
            f(&mut b.target);
        }
        K::Struct(m) | K::Union(m) => m.values_mut().for_each(|m| f(&mut m.target)),
        K::Service(s) => s.operations.iter_mut().chain(s.resources.iter_mut()).for_each(f),
        K::Operation(o) => o.input.iter_mut().chain(o.output.iter_mut()).chain(o.errors.iter_mut()).for_each(f),
        K::Resource(x) => x
            .identifiers
            .values_mut()
            .chain(x.lifecycle.iter_mut().flatten())
            .chain(x.operations.iter_mut())
            .chain(x.collection_operations.iter_mut())
            .chain(x.resources.iter_mut())
            .for_each(f),
    }
}

/// Every collection of applied traits of a shape: its own and those of its members.
pub fn each_traits(s: &mut S, f: &mut dyn FnMut(&mut T)) {
    f(&mut s.traits);
    match &mut s.kind {
        K::List(m) | K::Set(m) => f(&mut m.traits),
        K::Map(a, b) => {
            f(&mut a.traits);
            f(&mut b.traits);
        }
        K::Struct(m) | K::Union(m) => m.values_mut().for_each(|m| f(&mut m.traits)),
        _ => {}
    }
}

/// The model with all namespaces in lower case: they are the same whatever their case.
pub fn fold_namespaces(md: &Md) -> Md {
    fn low(id: &str) -> Sid {
        match id.split_once('#') {
            Some((n, rest)) => format!("{}#{}", n.to_lowercase(), rest),
            None => id.to_string(),
        }
    }
    let mut out = Md { meta: md.meta.clone(), shapes: BTreeMap::new() };
    for (id, s) in &md.shapes {
        let mut s = s.clone();
        each_ref(&mut s.kind, &mut |r| *r = low(r));
        if let K::Service(v) = &mut s.kind {
            v.renames = v.renames.iter().map(|(k, n)| (low(k), n.clone())).collect();
        }
        each_traits(&mut s, &mut |t| *t = t.iter().map(|(k, v)| (low(k), v.clone())).collect());
        out.shapes.insert(low(id), s);
    }
    out
}

/// The model with every id, name, key and text replaced.
pub fn each_string(md: &Md, f: &dyn Fn(&str) -> String) -> Md {
    fn value(v: &V, f: &dyn Fn(&str) -> String) -> V {
        match v {
            V::Str(s) => V::Str(f(s)),
            V::Arr(l) => V::Arr(l.iter().map(|v| value(v, f)).collect()),
            V::Obj(o) => V::Obj(o.iter().map(|(k, v)| (f(k), value(v, f))).collect()),
            v => v.clone(),
        }
    }
    let mut out = Md { meta: md.meta.iter().map(|(k, v)| (f(k), value(v, f))).collect(), shapes: BTreeMap::new() };
    for (id, s) in &md.shapes {
        let mut s = s.clone();
        each_ref(&mut s.kind, &mut |r| *r = f(r));
        if let K::Service(v) = &mut s.kind {
            v.version = f(&v.version);
            v.renames = v.renames.iter().map(|(k, n)| (f(k), n.clone())).collect();
        }
        each_traits(&mut s, &mut |t| *t = t.iter().map(|(k, v)| (f(k), v.as_ref().map(|v| value(v, f)))).collect());
        out.shapes.insert(f(id), s);
    }
    out
}

/// The members of a shape by name.
pub fn members_of(k: &K) -> Vec<(String, &Mem)> {
    match k {
        K::List(m) | K::Set(m) => vec![("member".into(), m)],
        K::Map(a, b) => vec![("key".into(), a), ("value".into(), b)],
        K::Struct(m) | K::Union(m) => m.iter().map(|(n, m)| (n.clone(), m)).collect(),
        _ => vec![],
    }
}

pub fn member_mut<'a>(k: &'a mut K, name: &str) -> Option<&'a mut Mem> {
    match (k, name) {
        (K::List(m), "member") | (K::Set(m), "member") => Some(m),
        (K::Map(a, _), "key") => Some(a),
        (K::Map(_, b), "value") => Some(b),
        (K::Struct(m), n) | (K::Union(m), n) => m.get_mut(n),
        _ => None,
    }
}

// ------------------------------------------------------------------------------------------------
// Generators
// ------------------------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Text {
    /// letters, digits, blanks
    Plain,
    /// anything printable, plus newlines and tabs
    Printable,
    /// any Unicode scalar value
    Wild,
}

#[derive(Clone)]
pub struct Cfg {
    pub namespaces: Vec<&'static str>,
    pub max_shapes: usize,
    pub text: Text,
    pub null_values: bool,
    pub floats: bool,
    pub meta: bool,
    pub member_traits: bool,
    pub renames: bool,
    pub unresolved: bool,
    pub operation_kinds: bool,
    pub depth: u32,
    /// probability (in 8ths) that a reference goes to a shape defined in the model
    pub closed: u64,
    pub keywordish: bool,
    pub empty_struct: bool,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            namespaces: vec![
                "example.one",
                "example.two",
                "other",
                "example",
                "smithy",
                "smithy.apis",
                "com.a_rather.long.and.deep.name_space.example1",
                "com.a_rather.long.and.deep.name_space.example2",
            ],
            max_shapes: 12,
            text: Text::Wild,
            null_values: true,
            floats: true,
            meta: true,
            member_traits: true,
            renames: true,
            unresolved: true,
            operation_kinds: true,
            depth: 3,
            closed: 6,
            keywordish: true,
            empty_struct: true,
        }
    }
}

pub const NAMES: [&str; 24] = [
    "A", "Bee", "City", "GetCity", "Forecast", "Date", "Weather", "CityId", "ListOfThings", "X1",
    "fooBar", "Foo_Bar", "_Hidden", "HTTPThing", "Message", "Error5", "z", "Zed", "Item", "Outcome",
    "Kind", "Name2", "Body", "Coordinates",
];

pub const KEYWORDISH: [&str; 28] = [
    "structure", "service", "list", "use", "apply", "metadata", "namespace", "nullable", "trueish",
    "falsey", "stringThing", "null", "true", "member", "key", "value", "resource", "mapping",
    "unionized", "setting", "operationX", "__dunder", "String", "Integer", "required", "tags",
    "documentation", "trait",
];

pub fn gen_name(src: &mut Src, keywordish: bool) -> String {
    match src.weighted(&[12, 3, if keywordish { 3 } else { 0 }]) {
        0 => src.pick(&NAMES).to_string(),
        1 => gen_ident(src),
        _ => src.pick(&KEYWORDISH).to_string(),
    }
}

/// Any identifier of the grammar (leading underscores, a letter, then letters, digits, underscores).
pub fn gen_ident(src: &mut Src) -> String {
    const FIRST: &[u8] = b"abcxyzABCXYZ";
    const REST: &[u8] = b"abzABZ019_";
    let mut s = String::new();
    for _ in 0..src.weighted(&[8, 2, 1]) {
        s.push('_');
    }
    s.push(*src.choose(FIRST) as char);
    for c in src.list(0, 8, |s| *s.choose(REST) as char) {
        s.push(c);
    }
    if src.chance(1, 60) {
        s = s.repeat(1 + src.usize(14));
    }
    s
}

pub fn gen_text(src: &mut Src, t: Text) -> String {
    if src.chance(1, 4) {
        return src
            .pick(&[
                "", "abc", "some text", "2020-01-01", "true", "12", "null", "a.b#C", "a.b#C$d", "true.a#B", "null#B", "false$m", "nullable",
            ])
            .to_string();
    }
    let chars = src.list(0, 12, |s| gen_char(s, t));
    let text: String = chars.into_iter().collect();
    if src.chance(1, 24) {
        // longer than a line, or than what a message might quote
        return text.repeat(1 + src.usize(30));
    }
    text
}

pub fn gen_char(src: &mut Src, t: Text) -> char {
    let class = match t {
        Text::Plain => src.weighted(&[10, 3]),
        Text::Printable => src.weighted(&[10, 3, 5, 2, 2]),
        Text::Wild => src.weighted(&[10, 3, 5, 2, 2, 2, 1]),
    };
    match class {
        0 => (b'a' + src.below(26) as u8) as char,
        1 => *src.choose(&[' ', '0', '7', 'Z', '-', '_']),
        2 => *src.choose(&[
            '"', '\\', '\'', '/', '{', '}', '[', ']', ':', ',', '.', '#', '$', '@', '<', '>', '&', '(', ')', '=', '*',
            '|', '`', '%', '!', '?', ';', '~', '^', '+',
        ]),
        3 => *src.choose(&['\n', '\t']),
        4 => *src.choose(&['é', 'ß', 'Ж', '日', '😀', '\u{a0}', 'İ', 'ǅ']),
        5 => *src.choose(&['\r', '\u{0}', '\u{1}', '\u{8}', '\u{b}', '\u{c}', '\u{1f}', '\u{7f}']),
        _ => *src.choose(&['\u{85}', '\u{200b}', '\u{2028}', '\u{feff}', '\u{fffd}', '\u{e000}', '\u{10ffff}', '\u{301}']),
    }
}

pub fn gen_float(src: &mut Src) -> f64 {
    match src.weighted(&[6, 3, 2]) {
        0 => src.range(-500, 500) as f64 / 8.0,
        1 => src.pick(&[
            0.0, -0.0, 1.0, -1.0, 0.1, 1e10, 1e-7, 1.5e300, 2.5e-300, 123456789.125, 1e21, 9007199254740993.0, 5e-324,
            1.7976931348623157e308,
        ]),
        _ => {
            let f = f64::from_bits(src.below(u64::MAX));
            if f.is_finite() {
                f
            } else {
                2.5
            }
        }
    }
}

pub fn gen_int(src: &mut Src) -> i64 {
    match src.weighted(&[8, 2, 1]) {
        0 => src.range(0, 20),
        1 => src.range(-2000, 2000),
        _ => src.pick(&[i64::MAX, i64::MIN, i64::MAX - 1, u32::MAX as i64, -1, i32::MIN as i64, 1 << 53]),
    }
}

pub fn gen_value(src: &mut Src, c: &Cfg, depth: u32) -> V {
    let w = [
        6,
        3,
        4,
        if c.floats { 2 } else { 0 },
        if c.null_values { 1 } else { 0 },
        if depth > 0 { 3 } else { 0 },
        if depth > 0 { 3 } else { 0 },
    ];
    match src.weighted(&w) {
        0 => V::Str(gen_text(src, c.text)),
        1 => V::Bool(src.bool()),
        2 => V::Int(gen_int(src)),
        3 => flt(gen_float(src)),
        4 => V::Null,
        5 if src.chance(1, 400) => V::Arr(src.list(95, 130, |s| gen_value(s, c, 0))),
        5 if src.chance(1, 30) => V::Arr(src.list(5, 30, |s| gen_value(s, c, 0))),
        5 if src.chance(1, 60) => {
            // deeper than usual
            let mut v = gen_value(src, c, 0);
            for _ in 0..3 + src.usize(7) {
                v = if src.bool() { V::Arr(vec![v]) } else { V::Obj([(gen_key(src, c), v)].into_iter().collect()) };
            }
            v
        }
        5 if src.chance(1, 20) => {
            let v = gen_value(src, c, depth - 1);
            let n = 2 + src.usize(4);
            V::Arr(vec![v; n])
        }
        5 => V::Arr(src.list(0, 4, |s| gen_value(s, c, depth - 1))),
        _ => gen_object(src, c, depth - 1),
    }
}

pub fn gen_key(src: &mut Src, c: &Cfg) -> String {
    if src.chance(2, 3) {
        gen_name(src, c.keywordish)
    } else {
        gen_text(src, c.text)
    }
}

pub fn gen_object(src: &mut Src, c: &Cfg, depth: u32) -> V {
    let most = if src.chance(1, 40) { 20 } else { 4 };
    let pairs = src.list(0, most, |s| (gen_key(s, c), gen_value(s, c, if most > 4 { 0 } else { depth })));
    V::Obj(pairs.into_iter().collect())
}

pub fn gen_traits(src: &mut Src, c: &Cfg) -> T {
    if !src.chance(2, 5) {
        return T::new();
    }
    let most = if src.chance(1, 40) { 12 } else { 3 };
    let list = src.list(1, most, |s| {
        let id = match s.weighted(&[5, 2]) {
            0 => {
                // the first ones more often
                let n = if s.chance(3, 4) { 24 } else { PRELUDE_TRAITS.len() };
                format!("smithy.api#{}", s.pick(&PRELUDE_TRAITS[..n]))
            }
            _ => {
                let ns = s.pick(&c.namespaces);
                format!("{}#{}", ns, s.pick(&["myTrait", "otherTrait", "Marker", "third_trait"]))
            }
        };
        let v = match s.weighted(&[3, 5]) {
            0 => None,
            _ => Some(gen_value(s, c, c.depth)),
        };
        (id, v)
    });
    list.into_iter().collect()
}

pub fn gen_ref(src: &mut Src, c: &Cfg, ids: &[Sid]) -> Sid {
    let pool: Vec<&Sid> = ids.iter().filter(|i| !is_member_id(i)).collect();
    if !pool.is_empty() && src.chance(c.closed, 8) {
        return (*src.choose(&pool)).clone();
    }
    match src.weighted(&[6, 2]) {
        0 => format!("smithy.api#{}", src.pick(&PRELUDE_SHAPES)),
        _ => {
            let ns = src.pick(&c.namespaces);
            // ids are the same whatever their case, so no two here differ in case only
            let name = match src.weighted(&[12, 3, if c.keywordish { 3 } else { 0 }]) {
                0 => src.pick(&NAMES).to_string(),
                1 => format!("{}q", gen_ident(src).to_lowercase()),
                _ => src.pick(&KEYWORDISH).to_string(),
            };
            let id = format!("{}#{}", ns, name);
            pool.into_iter().find(|i| i.eq_ignore_ascii_case(&id)).cloned().unwrap_or(id)
        }
    }
}

pub fn gen_member(src: &mut Src, c: &Cfg, ids: &[Sid]) -> Mem {
    Mem {
        target: gen_ref(src, c, ids),
        traits: if c.member_traits { gen_traits(src, c) } else { T::new() },
    }
}

pub fn gen_members(src: &mut Src, c: &Cfg, ids: &[Sid]) -> BTreeMap<String, Mem> {
    let most = if src.chance(1, 50) { 20 } else { 5 };
    let list = src.list(if c.empty_struct { 0 } else { 1 }, most, |s| {
        let name = match s.weighted(&[5, 2, 2]) {
            0 => s.pick(&["name", "cityId", "value2", "items", "nextToken", "date"]).to_string(),
            1 => gen_ident(s),
            _ => gen_name(s, c.keywordish),
        };
        (name, gen_member(s, c, ids))
    });
    let mut seen = BTreeSet::new();
    list.into_iter().filter(|(n, _)| seen.insert(n.to_lowercase())).collect()
}

pub fn gen_kind(src: &mut Src, c: &Cfg, ids: &[Sid]) -> K {
    let o = if c.operation_kinds { 1 } else { 0 };
    let many = if src.chance(1, 40) { 12 } else { 0 };
    match src.weighted(&[4, 2, 2, 2, 6, 3, 2 * o, 3 * o, 3 * o]) {
        0 => K::Simple(src.pick(&SIMPLES)),
        1 => K::List(gen_member(src, c, ids)),
        2 => K::Set(gen_member(src, c, ids)),
        3 => K::Map(gen_member(src, c, ids), gen_member(src, c, ids)),
        4 => K::Struct(gen_members(src, c, ids)),
        5 => K::Union(gen_members(src, c, ids)),
        6 => K::Service(Svc {
            version: {
                let v = gen_text(src, c.text);
                if v.is_empty() {
                    "1.0".into()
                } else {
                    v
                }
            },
            operations: src.list(0, 3 + many, |s| gen_ref(s, c, ids)),
            resources: src.list(0, 3 + many, |s| gen_ref(s, c, ids)),
            renames: if c.renames && src.chance(1, 3) {
                let l = src.list(1, 2 + many, |s| (gen_ref(s, c, ids), gen_ident(s)));
                let mut seen = BTreeSet::new();
                l.into_iter().filter(|(k, _)| seen.insert(k.to_lowercase())).collect()
            } else {
                BTreeMap::new()
            },
        }),
        7 => K::Operation(Opn {
            input: if src.bool() { Some(gen_ref(src, c, ids)) } else { None },
            output: if src.bool() { Some(gen_ref(src, c, ids)) } else { None },
            errors: src.list(0, 3 + many, |s| gen_ref(s, c, ids)),
        }),
        _ => K::Resource(Rsc {
            identifiers: {
                let l = src.list(0, 3 + many, |s| {
                    let name = match s.weighted(&[4, if many > 0 { 4 } else { 1 }]) {
                        0 => s.pick(&["id", "cityId", "name", "_k"]).to_string(),
                        _ => gen_ident(s),
                    };
                    (name, gen_ref(s, c, ids))
                });
                let mut seen = BTreeSet::new();
                l.into_iter().filter(|(n, _)| seen.insert(n.to_lowercase())).collect()
            },
            lifecycle: {
                let mut l: [Option<Sid>; 6] = Default::default();
                for x in l.iter_mut() {
                    if src.chance(1, 3) {
                        *x = Some(gen_ref(src, c, ids));
                    }
                }
                l
            },
            operations: src.list(0, 2 + many, |s| gen_ref(s, c, ids)),
            collection_operations: src.list(0, 2 + many, |s| gen_ref(s, c, ids)),
            resources: src.list(0, 2 + many, |s| gen_ref(s, c, ids)),
        }),
    }
}

/// Shape ids, unique without regard to case.
pub fn gen_ids(src: &mut Src, c: &Cfg, min: usize) -> Vec<Sid> {
    let most = match src.below(1500) {
        1 => c.max_shapes * 15,
        2..=15 => c.max_shapes * 3,
        _ => c.max_shapes,
    };
    let ids = src.list(min, most, |s| {
        let ns = s.pick(&c.namespaces);
        format!("{}#{}", ns, gen_name(s, c.keywordish))
    });
    let mut seen = BTreeSet::new();
    ids.into_iter().filter(|i| seen.insert(i.to_lowercase())).collect()
}

pub fn gen_model(src: &mut Src, c: &Cfg) -> Md {
    let ids = gen_ids(src, c, 0);
    let mut m = Md::default();
    for id in &ids {
        let kind = if c.unresolved && src.chance(1, 10) {
            K::Unresolved
        } else {
            gen_kind(src, c, &ids)
        };
        let traits = gen_traits(src, c);
        if kind == K::Unresolved && src.chance(1, 3) {
            // traits applied to a member of a shape defined elsewhere
            let id = format!("{}${}", id, gen_ident(src));
            m.shapes.insert(id, S { traits, kind });
        } else {
            if c.unresolved && kind != K::Unresolved && src.chance(1, 16) {
                // something applied to a member, of this shape, which it may not even have
                let name = match &kind {
                    K::Struct(ms) | K::Union(ms) if !ms.is_empty() && src.chance(1, 3) => {
                        let names: Vec<&String> = ms.keys().collect();
                        src.pick(&names).clone()
                    }
                    _ => gen_ident(src),
                };
                let traits = if src.chance(1, 3) { T::new() } else { gen_traits(src, c) };
                m.shapes.insert(format!("{}${}", id, name), S { traits, kind: K::Unresolved });
            }
            m.shapes.insert(id.clone(), S { traits, kind });
        }
    }
    if c.meta {
        let most = if src.chance(1, 40) { 12 } else { 3 };
        for (k, v) in src.list(0, most, |s| (gen_key(s, c), gen_value(s, c, c.depth))) {
            m.meta.insert(k, v);
        }
    }
    m
}

/// True when the model has enough structure to be worth counting.
pub fn rich(m: &Md) -> bool {
    m.shapes.len() >= 2
        && m.shapes.values().any(|s| !matches!(s.kind, K::Simple(_) | K::Unresolved))
}

pub fn namespace(s: &str) -> NamespaceID {
    NamespaceID::new_unchecked(s)
}

// ------------------------------------------------------------------------------------------------
// Reference merging rules (Smithy 1.0, "merging models")
// ------------------------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Conflict {
    Shape,
    Trait,
    Metadata,
}

pub fn v_eq(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::Flt(x), V::Flt(y)) => f64::from_bits(*x) == f64::from_bits(*y),
        (V::Arr(x), V::Arr(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| v_eq(a, b)),
        (V::Obj(x), V::Obj(y)) => {
            x.len() == y.len() && x.iter().zip(y).all(|((k, a), (l, b))| k == l && v_eq(a, b))
        }
        _ => a == b,
    }
}

pub fn merge_trait(a: &Option<V>, b: &Option<V>) -> Result<Option<V>, Conflict> {
    match (a, b) {
        (Some(V::Arr(x)), Some(V::Arr(y))) => {
            let mut r = x.clone();
            r.extend(y.iter().cloned());
            Ok(Some(V::Arr(r)))
        }
        (None, None) => Ok(None),
        (Some(x), Some(y)) if v_eq(x, y) => Ok(a.clone()),
        _ => Err(Conflict::Trait),
    }
}

pub fn merge_traits(a: &T, b: &T) -> Result<T, Conflict> {
    let mut r = a.clone();
    for (k, v) in b {
        let same = r.keys().find(|x| x.eq_ignore_ascii_case(k)).cloned();
        match same {
            Some(x) => {
                let m = merge_trait(&r[&x], v)?;
                r.insert(x, m);
            }
            None => {
                r.insert(k.clone(), v.clone());
            }
        }
    }
    Ok(r)
}

fn merge_member(a: &Mem, b: &Mem) -> Result<Mem, Conflict> {
    if !a.target.eq_ignore_ascii_case(&b.target) {
        return Err(Conflict::Shape);
    }
    Ok(Mem { target: a.target.clone(), traits: merge_traits(&a.traits, &b.traits)? })
}

fn merge_members(a: &BTreeMap<String, Mem>, b: &BTreeMap<String, Mem>) -> Result<BTreeMap<String, Mem>, Conflict> {
    // shape conflicts first: they win over trait conflicts
    if a.len() != b.len() || a.iter().any(|(k, m)| b.get(k).map(|n| n.target != m.target).unwrap_or(true)) {
        return Err(Conflict::Shape);
    }
    a.iter().map(|(k, m)| Ok((k.clone(), merge_member(m, &b[k])?))).collect()
}

pub fn merge_shape(a: &S, b: &S) -> Result<S, Conflict> {
    let kind = match (&a.kind, &b.kind) {
        (K::Unresolved, k) => Ok(k.clone()),
        (k, K::Unresolved) => Ok(k.clone()),
        (K::List(x), K::List(y)) => merge_member(x, y).map(K::List),
        (K::Set(x), K::Set(y)) => merge_member(x, y).map(K::Set),
        (K::Map(k, v), K::Map(l, w)) => {
            if k.target != l.target || v.target != w.target {
                Err(Conflict::Shape)
            } else {
                merge_member(k, l).and_then(|k| Ok(K::Map(k, merge_member(v, w)?)))
            }
        }
        (K::Struct(x), K::Struct(y)) => merge_members(x, y).map(K::Struct),
        (K::Union(x), K::Union(y)) => merge_members(x, y).map(K::Union),
        (x, y) if x == y => Ok(x.clone()),
        _ => Err(Conflict::Shape),
    }?;
    Ok(S { traits: merge_traits(&a.traits, &b.traits)?, kind })
}

/// The two bodies differ, but only in the case of names: whether that is a conflict is not specified.
pub fn case_variant(a: &S, b: &S) -> bool {
    let strip = |s: &S| {
        let mut k = s.kind.clone();
        match &mut k {
            K::List(m) | K::Set(m) => m.traits.clear(),
            K::Map(a, b) => {
                a.traits.clear();
                b.traits.clear();
            }
            K::Struct(m) | K::Union(m) => m.values_mut().for_each(|m| m.traits.clear()),
            _ => {}
        }
        k
    };
    let (x, y) = (strip(a), strip(b));
    x != y && format!("{:?}", x).to_lowercase() == format!("{:?}", y).to_lowercase()
}

pub fn merge_meta(a: &V, b: &V) -> Result<V, Conflict> {
    match (a, b) {
        (V::Arr(x), V::Arr(y)) => {
            let mut r = x.clone();
            r.extend(y.iter().cloned());
            Ok(V::Arr(r))
        }
        _ if v_eq(a, b) => Ok(a.clone()),
        _ => Err(Conflict::Metadata),
    }
}

pub fn merge_models(a: &Md, b: &Md) -> Result<Md, Conflict> {
    let mut r = a.clone();
    for (k, v) in &b.meta {
        let m = match r.meta.get(k) {
            Some(x) => merge_meta(x, v)?,
            None => v.clone(),
        };
        r.meta.insert(k.clone(), m);
    }
    for (id, s) in &b.shapes {
        let m = match r.shapes.get(id) {
            Some(x) => merge_shape(x, s)?,
            None => s.clone(),
        };
        r.shapes.insert(id.clone(), m);
    }
    Ok(r)
}

/// A second definition of the same shape: equal, differing in traits only, or differing in kind.
pub fn gen_variant(src: &mut Src, c: &Cfg, s: &S, ids: &[Sid]) -> S {
    let mut r = s.clone();
    match src.weighted(&[3, 6, 3, 3, 2]) {
        0 => {}
        1 => {
            r.traits = vary_traits(src, c, &s.traits);
            match &mut r.kind {
                K::List(m) | K::Set(m) => m.traits = vary_traits(src, c, &m.traits),
                K::Map(k, v) => {
                    k.traits = vary_traits(src, c, &k.traits);
                    v.traits = vary_traits(src, c, &v.traits);
                }
                K::Struct(m) | K::Union(m) => {
                    for x in m.values_mut() {
                        if src.bool() {
                            x.traits = vary_traits(src, c, &x.traits);
                        }
                    }
                }
                _ => {}
            }
        }
        2 => tweak_kind(src, c, &mut r.kind, ids),
        3 => {
            r.kind = K::Unresolved;
            r.traits = vary_traits(src, c, &s.traits);
        }
        _ => {
            r.kind = gen_kind(src, c, ids);
            if src.bool() {
                r.traits = vary_traits(src, c, &s.traits);
            }
        }
    }
    r
}

pub fn vary_traits(src: &mut Src, c: &Cfg, t: &T) -> T {
    let mut r = T::new();
    for (k, v) in t {
        match src.weighted(&[4, 2, 1]) {
            0 => {
                r.insert(k.clone(), v.clone());
            }
            1 => {}
            _ => {
                let v = if src.chance(1, 4) { None } else { Some(gen_value(src, c, 2)) };
                r.insert(k.clone(), v);
            }
        }
    }
    if src.bool() {
        for (k, v) in gen_traits(src, c) {
            if !t.contains_key(&k) {
                r.insert(k, v);
            }
        }
    }
    r
}

/// One small change to the body.
pub fn tweak_kind(src: &mut Src, c: &Cfg, k: &mut K, ids: &[Sid]) {
    match k {
        K::Simple(s) => *s = src.pick(&SIMPLES),
        K::List(m) => {
            if src.bool() {
                m.target = gen_ref(src, c, ids)
            } else {
                *k = K::Set(m.clone())
            }
        }
        K::Set(m) => {
            if src.bool() {
                m.target = gen_ref(src, c, ids)
            } else {
                *k = K::List(m.clone())
            }
        }
        K::Map(a, b) => match src.usize(3) {
            0 => a.target = gen_ref(src, c, ids),
            1 => b.target = gen_ref(src, c, ids),
            _ => std::mem::swap(a, b),
        },
        K::Struct(m) => match src.usize(4) {
            3 => *k = K::Union(m.clone()),
            _ => tweak_members(src, c, m, ids),
        },
        K::Union(m) => match src.usize(4) {
            3 => *k = K::Struct(m.clone()),
            _ => tweak_members(src, c, m, ids),
        },
        K::Service(s) => match src.usize(4) {
            0 => s.version.push('1'),
            1 => s.operations.push(gen_ref(src, c, ids)),
            2 => {
                if s.resources.pop().is_none() {
                    s.resources.push(gen_ref(src, c, ids));
                }
            }
            _ => {
                let k = gen_ref(src, c, ids);
                if !s.renames.keys().any(|x| x.eq_ignore_ascii_case(&k)) {
                    s.renames.insert(k, gen_ident(src));
                }
            }
        },
        K::Operation(o) => match src.usize(4) {
            0 => o.input = Some(gen_ref(src, c, ids)),
            1 => o.output = Some(gen_ref(src, c, ids)),
            2 => o.errors.push(gen_ref(src, c, ids)),
            _ => o.input = None,
        },
        K::Resource(r) => match src.usize(5) {
            0 => {
                r.identifiers.insert("extra".into(), gen_ref(src, c, ids));
            }
            1 => {
                let i = src.usize(6);
                r.lifecycle[i] = Some(gen_ref(src, c, ids));
            }
            2 => r.operations.push(gen_ref(src, c, ids)),
            3 => r.collection_operations.push(gen_ref(src, c, ids)),
            _ => r.resources.push(gen_ref(src, c, ids)),
        },
        K::Unresolved => {}
    }
}

fn tweak_members(src: &mut Src, c: &Cfg, m: &mut BTreeMap<String, Mem>, ids: &[Sid]) {
    let names: Vec<String> = m.keys().cloned().collect();
    match src.usize(4) {
        0 => {
            m.insert("added".into(), gen_member(src, c, ids));
        }
        1 if !names.is_empty() => {
            // renamed: same number of members, different names
            let n = src.pick(&names);
            let x = m.remove(&n).unwrap();
            m.insert("renamed".into(), x);
        }
        2 if !names.is_empty() => {
            let n = src.pick(&names);
            m.remove(&n);
        }
        _ if !names.is_empty() => {
            let n = src.pick(&names);
            m.get_mut(&n).unwrap().target = gen_ref(src, c, ids);
        }
        _ => {
            m.insert("added".into(), gen_member(src, c, ids));
        }
    }
}
