//! P07 (name resolution in the builder) and P08 (the builder builds what it was told).

use super::p03_model::{folded, sorted_arrays, with_names};
use crate::engine::*;
use crate::model::*;
use crate::{check, fail};
use atelier_core::builder::traits as tb;
use atelier_core::builder::*;
use atelier_core::model::values::{Number, Value, ValueMap};
use atelier_core::model::{Model, ShapeID};
use atelier_core::Version;
use std::collections::{BTreeMap, BTreeSet};
use std::convert::TryFrom;

const NS: &str = "example.one";

// ------------------------------------------------------------------------------------------------
// Driving the builder from a description with names spelled locally or in full
// ------------------------------------------------------------------------------------------------

fn value(src: &mut Src, v: &V) -> Value {
    match v {
        V::Null => Value::None,
        V::Bool(b) => match src.below(2) {
            0 => ValueBuilder::boolean(*b).into(),
            _ => (*b).into(),
        },
        V::Int(i) => match src.below(3) {
            0 => ValueBuilder::integer(*i).into(),
            1 => ValueBuilder::number(Number::from(*i)).into(),
            _ => (*i).into(),
        },
        V::Flt(f) => {
            let f = f64::from_bits(*f);
            match src.below(3) {
                0 => ValueBuilder::float(f).into(),
                1 => ValueBuilder::number(Number::from(f)).into(),
                _ => f.into(),
            }
        }
        V::Str(s) => match src.below(2) {
            0 => ValueBuilder::string(s).into(),
            _ => s.to_string().into(),
        },
        V::Arr(a) => {
            let mut b = ValueBuilder::array();
            for x in a {
                if src.bool() {
                    let v = value(src, x);
                    b.push(v);
                    continue;
                }
                match x {
                    V::Bool(x) => b.boolean(*x),
                    V::Int(x) if src.bool() => b.number((*x).into()),
                    V::Int(x) => b.integer(*x),
                    V::Flt(x) => b.float(f64::from_bits(*x)),
                    V::Str(x) => b.string(x),
                    x => {
                        let v = value(src, x);
                        b.push(v)
                    }
                };
            }
            if src.bool() {
                b.into()
            } else {
                (&mut b).into()
            }
        }
        V::Obj(o) => {
            let mut b = ValueBuilder::object();
            for (k, x) in o {
                if src.bool() {
                    let v = value(src, x);
                    b.insert(k, v);
                    continue;
                }
                match x {
                    V::Bool(x) => b.boolean(k, *x),
                    V::Int(x) if src.bool() => b.number(k, (*x).into()),
                    V::Int(x) => b.integer(k, *x),
                    V::Flt(x) => b.float(k, f64::from_bits(*x)),
                    V::Str(x) if src.bool() => b.reference(k, x),
                    V::Str(x) => b.string(k, x),
                    x => {
                        let v = value(src, x);
                        b.insert(k, v)
                    }
                };
            }
            if src.bool() {
                b.into()
            } else {
                (&mut b).into()
            }
        }
    }
}

fn a_trait(src: &mut Src, name: &str, v: &Option<V>) -> TraitBuilder {
    let v = match v {
        None => return TraitBuilder::new(name),
        Some(v) => v,
    };
    if *v == V::Obj(BTreeMap::new()) && src.bool() {
        return TraitBuilder::annotation(name);
    }
    if src.bool() {
        return TraitBuilder::with_value(name, value(src, v));
    }
    let mut t = TraitBuilder::new(name);
    match v {
        V::Bool(x) => t.boolean(*x),
        V::Int(x) if src.bool() => t.number((*x).into()),
        V::Int(x) => t.integer(*x),
        V::Flt(x) => t.float(f64::from_bits(*x)),
        V::Str(x) => match x.parse::<ShapeID>() {
            Ok(id) if id.to_string() == *x => t.reference(id),
            _ => t.string(x),
        },
        V::Arr(x) => {
            let a = x.iter().map(|x| value(src, x)).collect();
            t.array(a)
        }
        V::Obj(x) => {
            let o: ValueMap = x.iter().map(|(k, x)| (k.clone(), value(src, x))).collect();
            t.object(o)
        }
        v => {
            let v = value(src, v);
            t.value(v)
        }
    };
    t
}

fn member(src: &mut Src, name: &str, m: &Mem) -> MemberBuilder {
    let mut b = match m.target.strip_prefix("smithy.api#") {
        Some("Blob") if src.bool() => MemberBuilder::blob(name),
        Some("Boolean") if src.bool() => MemberBuilder::boolean(name),
        Some("Document") if src.bool() => MemberBuilder::document(name),
        Some("String") if src.bool() => MemberBuilder::string(name),
        Some("Byte") if src.bool() => MemberBuilder::byte(name),
        Some("Short") if src.bool() => MemberBuilder::short(name),
        Some("Integer") if src.bool() => MemberBuilder::integer(name),
        Some("Long") if src.bool() => MemberBuilder::long(name),
        Some("Float") if src.bool() => MemberBuilder::float(name),
        Some("Double") if src.bool() => MemberBuilder::double(name),
        Some("BigInteger") if src.bool() => MemberBuilder::big_integer(name),
        Some("BigDecimal") if src.bool() => MemberBuilder::big_decimal(name),
        Some("Timestamp") if src.bool() => MemberBuilder::timestamp(name),
        _ if src.bool() => MemberBuilder::with_target(name, m.target.parse().unwrap()),
        _ => MemberBuilder::new(name, &m.target),
    };
    for (k, v) in &m.traits {
        b.apply_trait(a_trait(src, k, v));
    }
    b
}

fn struct_members(src: &mut Src, b: &mut StructureBuilder, ms: &BTreeMap<String, Mem>) {
    for (n, m) in ms {
        if m.traits.is_empty() && src.bool() {
            match m.target.as_str() {
                "Blob" if src.bool() => b.blob(n),
                "Boolean" if src.bool() => b.boolean(n),
                "Document" if src.bool() => b.document(n),
                "String" if src.bool() => b.string(n),
                "Byte" if src.bool() => b.byte(n),
                "Short" if src.bool() => b.short(n),
                "Integer" if src.bool() => b.integer(n),
                "Long" if src.bool() => b.long(n),
                "Float" if src.bool() => b.float(n),
                "Double" if src.bool() => b.double(n),
                "BigInteger" if src.bool() => b.big_integer(n),
                "BigDecimal" if src.bool() => b.big_decimal(n),
                "Timestamp" if src.bool() => b.timestamp(n),
                t => b.member(n, t),
            };
        } else {
            b.add_member(member(src, n, m));
        }
    }
}

/// One of the helpers named after a prelude trait.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum H {
    Boxed,
    Deprecated(Option<String>, Option<String>),
    Documentation(String),
    Error(bool),
    External(Vec<(String, String)>),
    Idempotent,
    Length(Option<u32>, Option<u32>),
    NoReplace,
    Paginated([Option<String>; 4]),
    Pattern(String),
    Private,
    Range(Option<u32>, Option<u32>),
    Readonly,
    References(Vec<V>),
    Required,
    RequiresLength,
    Sensitive,
    Streaming,
    Since(String),
    Tags(Vec<String>),
    Title(String),
    Trait,
    UniqueItems,
    Unstable,
}

fn gen_helper(src: &mut Src) -> H {
    let t = |s: &mut Src| gen_text(s, Text::Wild);
    let o = |s: &mut Src| if s.bool() { Some(gen_text(s, Text::Wild)) } else { None };
    let n = |s: &mut Src| -> (Option<u32>, Option<u32>) {
        let a = s.below(1000) as u32;
        let b = s.below(1000) as u32;
        match s.below(3) {
            0 => (Some(a), None),
            1 => (None, Some(b)),
            _ => (Some(a), Some(b)),
        }
    };
    match src.below(24) {
        0 => H::Documentation(t(src)),
        1 => H::Boxed,
        2 => H::Deprecated(o(src), o(src)),
        3 => H::Error(src.bool()),
        4 => {
            let l = src.list(0, 3, |s| (gen_text(s, Text::Wild), gen_text(s, Text::Wild)));
            let m: BTreeMap<String, String> = l.into_iter().collect();
            H::External(m.into_iter().collect())
        }
        5 => H::Idempotent,
        6 => {
            let (a, b) = n(src);
            H::Length(a, b)
        }
        7 => H::NoReplace,
        8 => H::Paginated([o(src), o(src), o(src), o(src)]),
        9 => H::Pattern(format!("p{}", t(src))),
        10 => H::Private,
        11 => {
            let (a, b) = n(src);
            H::Range(a, b)
        }
        12 => H::Readonly,
        13 => {
            let c = Cfg::default();
            H::References(src.list(0, 2, |s| gen_object(s, &c, 1)))
        }
        14 => H::Required,
        15 => H::RequiresLength,
        16 => H::Sensitive,
        17 => H::Streaming,
        18 => H::Since(format!("s{}", t(src))),
        19 => H::Tags(src.list(0, 3, |s| gen_text(s, Text::Wild))),
        20 => H::Title(t(src)),
        21 => H::Trait,
        22 => H::UniqueItems,
        _ => H::Unstable,
    }
}

impl H {
    fn id(&self) -> &'static str {
        match self {
            H::Boxed => "smithy.api#box",
            H::Deprecated(_, _) => "smithy.api#deprecated",
            H::Documentation(_) => "smithy.api#documentation",
            H::Error(_) => "smithy.api#error",
            H::External(_) => "smithy.api#externalDocumentation",
            H::Idempotent => "smithy.api#idempotent",
            H::Length(_, _) => "smithy.api#length",
            H::NoReplace => "smithy.api#noReplace",
            H::Paginated(_) => "smithy.api#paginated",
            H::Pattern(_) => "smithy.api#pattern",
            H::Private => "smithy.api#private",
            H::Range(_, _) => "smithy.api#range",
            H::Readonly => "smithy.api#readonly",
            H::References(_) => "smithy.api#references",
            H::Required => "smithy.api#required",
            H::RequiresLength => "smithy.api#requiresLength",
            H::Sensitive => "smithy.api#sensitive",
            H::Streaming => "smithy.api#streaming",
            H::Since(_) => "smithy.api#since",
            H::Tags(_) => "smithy.api#tags",
            H::Title(_) => "smithy.api#title",
            H::Trait => "smithy.api#trait",
            H::UniqueItems => "smithy.api#uniqueItems",
            H::Unstable => "smithy.api#unstable",
        }
    }

    fn value(&self) -> Option<V> {
        let obj = |l: Vec<(&str, Option<V>)>| {
            V::Obj(l.into_iter().filter_map(|(k, v)| v.map(|v| (k.to_string(), v))).collect())
        };
        let s = |t: &Option<String>| t.clone().map(V::Str);
        let n = |t: &Option<u32>| t.map(|t| V::Int(t as i64));
        Some(match self {
            H::Deprecated(m, d) => obj(vec![("message", s(m)), ("since", s(d))]),
            H::Documentation(t) | H::Pattern(t) | H::Since(t) | H::Title(t) => V::Str(t.clone()),
            H::Error(c) => V::Str(if *c { "client" } else { "server" }.into()),
            H::External(l) => V::Obj(l.iter().map(|(k, v)| (k.clone(), V::Str(v.clone()))).collect()),
            H::Length(a, b) | H::Range(a, b) => obj(vec![("min", n(a)), ("max", n(b))]),
            H::Paginated([a, b, c, d]) => {
                obj(vec![("inputToken", s(a)), ("outputToken", s(b)), ("items", s(c)), ("pageSize", s(d))])
            }
            H::References(l) => V::Arr(l.clone()),
            H::Tags(l) => V::Arr(l.iter().map(|t| V::Str(t.clone())).collect()),
            _ => return None,
        })
    }

    fn builder(&self, src: &mut Src) -> TraitBuilder {
        fn s(t: &Option<String>) -> Option<&str> {
            t.as_deref()
        }
        match self {
            H::Boxed => tb::boxed(),
            H::Deprecated(m, d) => tb::deprecated(s(m), s(d)),
            H::Documentation(t) => tb::documentation(t),
            H::Error(c) => tb::error_source(source(*c)),
            H::External(l) => tb::external_documentation(&pairs(l)),
            H::Idempotent => tb::idempotent(),
            H::Length(Some(a), None) if src.bool() => tb::length_min(*a as usize),
            H::Length(None, Some(a)) if src.bool() => tb::length_max(*a as usize),
            H::Length(a, b) => tb::length(a.map(|a| a as usize), b.map(|a| a as usize)),
            H::NoReplace => tb::no_replace(),
            H::Paginated([a, b, c, d]) => tb::paginated(s(a), s(b), s(c), s(d)),
            H::Pattern(t) => tb::pattern(t),
            H::Private => tb::private(),
            H::Range(Some(a), None) if src.bool() => tb::range_min(*a as usize),
            H::Range(None, Some(a)) if src.bool() => tb::range_max(*a as usize),
            H::Range(a, b) => tb::range(a.map(|a| a as usize), b.map(|a| a as usize)),
            H::Readonly => tb::readonly(),
            H::References(l) => tb::references(value(src, &V::Arr(l.clone()))),
            H::Required => tb::required(),
            H::RequiresLength => tb::requires_length(),
            H::Sensitive => tb::sensitive(),
            H::Streaming => tb::streaming(),
            H::Since(t) => tb::since(t),
            H::Tags(l) => tb::tagged(&l.iter().map(|t| t.as_str()).collect::<Vec<_>>()),
            H::Title(t) => tb::title(t),
            H::Trait => tb::a_trait(),
            H::UniqueItems => tb::unique_items(),
            H::Unstable => tb::unstable(),
        }
    }
}

fn source(client: bool) -> tb::ErrorSource {
    if client {
        tb::ErrorSource::Client
    } else {
        tb::ErrorSource::Server
    }
}

fn pairs(l: &[(String, String)]) -> Vec<(&str, &str)> {
    l.iter().map(|(k, v)| (k.as_str(), v.as_str())).collect()
}

/// Applies a helper through a method of the shape builder if it has one.
macro_rules! by_method {
    ($src:expr, $b:expr, $h:expr $(, $pat:pat => $call:expr)*) => {
        match $h {
            H::Documentation(t) if $src.bool() => { $b.documentation(t); }
            H::External(l) if $src.bool() => { $b.external_documentation(&pairs(l)); }
            H::Deprecated(m, d) if $src.bool() => { $b.deprecated(m.as_deref(), d.as_deref()); }
            H::Private if $src.bool() => { $b.private(); }
            H::Since(t) if $src.bool() => { $b.since(t); }
            H::Tags(l) if $src.bool() => { $b.tagged(&l.iter().map(|t| t.as_str()).collect::<Vec<_>>()); }
            H::Unstable if $src.bool() => { $b.unstable(); }
            $($pat if $src.bool() => { $call; })*
            h => { let t = h.builder($src); $b.apply_trait(t); }
        }
    };
}

/// The builder as it is, or as fluent calls on it pass it on.
fn pass<B: for<'a> From<&'a mut B>>(src: &mut Src, mut b: B) -> B {
    match src.bool() {
        true => b,
        false => B::from(&mut b),
    }
}

/// Adds the definition of a shape; names in it may be local.
fn define(src: &mut Src, b: &mut ModelBuilder, name: &str, s: &S, helpers: &[H]) {
    macro_rules! traits {
        ($x:expr) => {
            for (k, v) in &s.traits {
                $x.apply_trait(a_trait(src, k, v));
            }
        };
    }
    match &s.kind {
        K::Simple(k) => {
            let mut x = if src.bool() {
                match *k {
                    "blob" => SimpleShapeBuilder::blob(name),
                    "boolean" => SimpleShapeBuilder::boolean(name),
                    "document" => SimpleShapeBuilder::document(name),
                    "string" => SimpleShapeBuilder::string(name),
                    "byte" => SimpleShapeBuilder::byte(name),
                    "short" => SimpleShapeBuilder::short(name),
                    "integer" => SimpleShapeBuilder::integer(name),
                    "long" => SimpleShapeBuilder::long(name),
                    "float" => SimpleShapeBuilder::float(name),
                    "double" => SimpleShapeBuilder::double(name),
                    "bigInteger" => SimpleShapeBuilder::big_integer(name),
                    "bigDecimal" => SimpleShapeBuilder::big_decimal(name),
                    _ => SimpleShapeBuilder::timestamp(name),
                }
            } else {
                SimpleShapeBuilder::new(name, simple_kind(k))
            };
            traits!(x);
            for h in helpers {
                by_method!(src, x, h, H::Boxed => x.boxed(), H::Sensitive => x.sensitive(), H::Streaming => x.streaming());
            }
            b.simple_shape(pass(src, x));
        }
        K::List(m) | K::Set(m) => {
            let mut x = match src.below(3) {
                0 if m.traits.is_empty() => ListBuilder::new(name, &m.target),
                1 if m.traits.is_empty() => ListBuilder::with_target(name, m.target.parse().unwrap()),
                _ => {
                    let mut x = ListBuilder::new(name, "smithy.api#Blob");
                    if src.chance(1, 4) {
                        let mut other = MemberBuilder::new("member", before(src).unwrap_or(&m.target));
                        other.required().private();
                        x.target(other);
                    }
                    x.target(member(src, "member", m));
                    x
                }
            };
            traits!(x);
            for h in helpers {
                by_method!(src, x, h, H::Sensitive => x.sensitive(), H::UniqueItems => x.unique_items());
            }
            if let K::List(_) = s.kind {
                b.list(pass(src, x));
            } else {
                b.set(pass(src, x));
            }
        }
        K::Map(k, v) => {
            let mut x = MapBuilder::new(name, &k.target, &v.target);
            if src.chance(1, 5) {
                let mut other = MemberBuilder::new("key", before(src).unwrap_or(&k.target));
                x.key(other.required().clone());
                x.key(member(src, "key", k));
            } else if !k.traits.is_empty() || src.bool() {
                x.key(member(src, "key", k));
            }
            if src.chance(1, 5) {
                let mut other = MemberBuilder::new("value", before(src).unwrap_or(&v.target));
                x.value(other.required().clone());
                x.value(member(src, "value", v));
            } else if !v.traits.is_empty() || src.bool() {
                x.value(member(src, "value", v));
            }
            traits!(x);
            for h in helpers {
                by_method!(src, x, h);
            }
            b.map(pass(src, x));
        }
        K::Struct(ms) | K::Union(ms) => {
            let mut x = StructureBuilder::new(name);
            struct_members(src, &mut x, ms);
            traits!(x);
            for h in helpers {
                by_method!(src, x, h, H::Error(c) => x.error_source(source(*c)), H::Sensitive => x.sensitive());
            }
            if let K::Struct(_) = s.kind {
                b.structure(pass(src, x));
            } else {
                b.union(pass(src, x));
            }
        }
        K::Service(v) => {
            let late = src.bool();
            let mut x = if src.bool() {
                ServiceBuilder::new(name, &v.version)
            } else {
                let mut x = ServiceBuilder::new(name, "?");
                if !late {
                    x.version(&v.version);
                }
                x
            };
            each(src, &v.operations, |l| match l {
                Ok(one) => drop(x.operation(one)),
                Err(all) => drop(x.operations(all)),
            });
            each(src, &v.resources, |l| match l {
                Ok(one) => drop(x.resource(one)),
                Err(all) => drop(x.resources(all)),
            });
            for (k, n) in &v.renames {
                if before(src).is_some() {
                    x.rename(k, "Spare");
                }
                x.rename(k, n);
            }
            let spare = before(src).is_some();
            if spare {
                x.version("spare");
            }
            if spare || late || src.chance(1, 8) {
                x.version(&v.version);
            }
            traits!(x);
            for h in helpers {
                by_method!(src, x, h, H::Sensitive => x.sensitive(), H::Title(t) => x.title(t),
                    H::Paginated([a, b, c, d]) => x.paginated(a.as_deref(), b.as_deref(), c.as_deref(), d.as_deref()));
            }
            b.service(pass(src, x));
        }
        K::Operation(o) => {
            let mut x = OperationBuilder::new(name);
            if let Some(i) = &o.input {
                if let Some(other) = before(src) {
                    x.input(other);
                }
                x.input(i);
            }
            if let Some(i) = &o.output {
                if let Some(other) = before(src) {
                    x.output(other);
                }
                x.output(i);
            }
            each(src, &o.errors, |l| match l {
                Ok(one) => drop(x.error(one)),
                Err(all) => drop(x.errors(all)),
            });
            traits!(x);
            for h in helpers {
                by_method!(src, x, h, H::Sensitive => x.sensitive(), H::Idempotent => x.idempotent(), H::Readonly => x.readonly(),
                    H::Paginated([a, b, c, d]) => x.paginated(a.as_deref(), b.as_deref(), c.as_deref(), d.as_deref()));
            }
            b.operation(pass(src, x));
        }
        K::Resource(r) => {
            let mut x = ResourceBuilder::new(name);
            for (k, v) in &r.identifiers {
                if let Some(other) = before(src) {
                    x.identifier(k, other);
                }
                x.identifier(k, v);
            }
            for (i, v) in r.lifecycle.iter().enumerate() {
                for v in v.iter().flat_map(|v| before(src).map(|o| o.to_string()).into_iter().chain(Some(v.clone()))) {
                    let v = &v;
                    match LIFECYCLE[i] {
                        "create" => x.create(v),
                        "put" => x.put(v),
                        "read" => x.read(v),
                        "update" => x.update(v),
                        "delete" => x.delete(v),
                        _ => x.list(v),
                    };
                }
            }
            each(src, &r.operations, |l| match l {
                Ok(one) => drop(x.operation(one)),
                Err(all) => drop(x.operations(all)),
            });
            each(src, &r.collection_operations, |l| match l {
                Ok(one) => drop(x.collection_operation(one)),
                Err(all) => drop(x.collection_operations(all)),
            });
            each(src, &r.resources, |l| match l {
                Ok(one) => drop(x.resource(one)),
                Err(all) => drop(x.resources(all)),
            });
            traits!(x);
            for h in helpers {
                by_method!(src, x, h, H::NoReplace => x.no_replace(), H::Title(t) => x.title(t));
            }
            b.resource(pass(src, x));
        }
        K::Unresolved => {
            if s.traits.is_empty() && helpers.is_empty() && src.bool() {
                b.uses(name);
            } else {
                let mut x = ReferenceBuilder::new(name);
                traits!(x);
                for h in helpers {
                    by_method!(src, x, h);
                }
                b.reference(x);
            }
        }
    }
}

/// One at a time, as one slice, or some of each.
fn each(src: &mut Src, l: &[Sid], mut f: impl FnMut(Result<&str, &[&str]>)) {
    let all: Vec<&str> = l.iter().map(|x| x.as_str()).collect();
    match src.weighted(&[4, 4, 2]) {
        0 => all.iter().for_each(|x| f(Ok(x))),
        1 => f(Err(&all)),
        _ => {
            let mut at = 0;
            while at < all.len() {
                if src.bool() {
                    f(Ok(all[at]));
                    at += 1;
                } else {
                    let n = 1 + src.usize(all.len() - at);
                    f(Err(&all[at..at + n]));
                    at += n;
                }
                if src.chance(1, 4) {
                    f(Err(&[]));
                }
            }
        }
    }
}

/// What is set by a call before the one that counts.
fn before(src: &mut Src) -> Option<&'static str> {
    match src.chance(1, 5) {
        true => Some(src.pick(&["smithy.api#Blob", "spare.one#Thing", "String"])),
        false => None,
    }
}

// ------------------------------------------------------------------------------------------------
// P07
// ------------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Hash)]
enum Op {
    Use(Sid),
    /// spelled name, definition with spelled names
    Def(String, S),
    Apply(String, String, Option<V>),
    Meta(String, V),
}

const POOL: [&str; 12] = [
    "Alpha", "Beta", "Gamma", "String", "Blob", "PrimitiveLong", "required", "tags", "myTrait", "marker", "Delta", "private",
];

fn spell(src: &mut Src) -> String {
    let n = src.pick(&POOL);
    match src.weighted(&[6, 1, 1, 1, 2]) {
        0 => n.to_string(),
        4 => src.pick(&PRELUDE_SHAPES).to_string(),
        1 => format!("{}#{}", NS, n),
        2 => format!("smithy.api#{}", n),
        _ => format!("{}#{}", src.pick(&["other.ns", "third"]), n),
    }
}

fn spelled_traits(src: &mut Src) -> T {
    if src.chance(1, 2) {
        return T::new();
    }
    let c = Cfg { floats: false, ..Cfg::default() };
    src.list(1, 2, |s| (spell(s), gen_trait_value(s, &c))).into_iter().collect()
}

fn gen_trait_value(s: &mut Src, c: &Cfg) -> Option<V> {
    match s.weighted(&[2, 3, 3]) {
        0 => None,
        1 => Some(V::Arr(s.list(0, 3, |s| gen_value(s, c, 0)))),
        _ => Some(gen_value(s, c, 1)),
    }
}

struct Names {
    imports: BTreeSet<Sid>,
    locals: BTreeSet<String>,
}

enum Resolved {
    Known(Sid),
    Assumed(Sid),
    Ambiguous,
}

impl Names {
    fn resolve(&self, name: &str, is_trait: bool) -> Resolved {
        if name.contains('#') {
            return Resolved::Known(name.to_string());
        }
        let uses: Vec<&Sid> = self.imports.iter().filter(|i| name_of(i) == name).collect();
        match uses.len() {
            1 => Resolved::Known(uses[0].clone()),
            0 => {
                if self.locals.contains(name) {
                    Resolved::Known(format!("{}#{}", NS, name))
                } else if (is_trait && ["required", "tags", "private"].contains(&name))
                    || (!is_trait && PRELUDE_SHAPES.contains(&name))
                {
                    Resolved::Known(format!("smithy.api#{}", name))
                } else {
                    Resolved::Assumed(format!("{}#{}", NS, name))
                }
            }
            _ => Resolved::Ambiguous,
        }
    }
}

/// What the program means, or `None` if it has to be refused.
fn meaning(ops: &[Op]) -> Option<Md> {
    let names = Names {
        imports: ops.iter().filter_map(|o| if let Op::Use(i) = o { Some(i.clone()) } else { None }).collect(),
        locals: ops
            .iter()
            .filter_map(|o| match o {
                Op::Def(n, _) if ns_of(n) == NS || !n.contains('#') => Some(if n.contains('#') { name_of(n).to_string() } else { n.clone() }),
                // an applied-to shape of this namespace is known in this namespace
                _ => None,
            })
            .collect(),
    };
    let mut md = Md::default();
    let mut assumed: BTreeSet<Sid> = BTreeSet::new();
    let mut ok = true;
    let mut res = |n: &str, t: bool, assumed: &mut BTreeSet<Sid>| -> Sid {
        match names.resolve(n, t) {
            Resolved::Known(i) => i,
            Resolved::Assumed(i) => {
                assumed.insert(i.clone());
                i
            }
            Resolved::Ambiguous => {
                ok = false;
                n.to_string()
            }
        }
    };
    let mut late: Vec<(Sid, Option<String>, T)> = Vec::new();
    let mut trait_conflict = false;
    for o in ops {
        match o {
            Op::Use(i) => late.push((i.clone(), None, T::new())),
            Op::Def(n, s) => {
                let id = if n.contains('#') { n.clone() } else { format!("{}#{}", NS, n) };
                let mut s = s.clone();
                each_ref(&mut s.kind, &mut |r| *r = res(r, false, &mut assumed));
                each_traits(&mut s, &mut |t| {
                    let mut out = T::new();
                    for (k, v) in t.iter() {
                        let one: T = [(res(k, true, &mut assumed), v.clone())].into_iter().collect();
                        match merge_traits(&out, &one) {
                            Ok(m) => out = m,
                            Err(_) => trait_conflict = true,
                        }
                    }
                    *t = out;
                });
                let s = match md.shapes.get(&id) {
                    None => s,
                    Some(first) => match merge_shape(first, &s) {
                        Ok(m) => m,
                        Err(_) => {
                            trait_conflict = true;
                            s
                        }
                    },
                };
                md.shapes.insert(id, s);
            }
            Op::Apply(target, t, v) => {
                let tid = res(t, true, &mut assumed);
                let (shape, member) = match target.split_once('$') {
                    Some((s, m)) => (s.to_string(), Some(m.to_string())),
                    None => (target.clone(), None),
                };
                let mut alone: BTreeSet<Sid> = BTreeSet::new();
                let id = res(&shape, false, if member.is_some() { &mut alone } else { &mut assumed });
                late.push((id, member, [(tid, v.clone())].into_iter().collect()));
            }
            Op::Meta(k, v) => {
                md.meta.insert(k.clone(), v.clone());
            }
        }
    }
    for (id, member, t) in late {
        let known = match (&member, md.shapes.get_mut(&id)) {
            (Some(m), Some(s)) => member_mut(&mut s.kind, m).is_some(),
            (m, _) => m.is_none(),
        };
        let (id, member) = if known { (id, member) } else { (format!("{}${}", id, member.unwrap()), None) };
        let s = md.shapes.entry(id).or_insert_with(|| S { traits: T::new(), kind: K::Unresolved });
        let to = match &member {
            None => &mut s.traits,
            Some(m) => &mut member_mut(&mut s.kind, m).unwrap().traits,
        };
        match merge_traits(to, &t) {
            Ok(m) => *to = m,
            Err(_) => trait_conflict = true,
        }
    }
    for id in assumed {
        md.shapes.entry(id).or_insert_with(|| S { traits: T::new(), kind: K::Unresolved });
    }
    if ok && !trait_conflict {
        Some(md)
    } else {
        None
    }
}

fn p07(src: &mut Src, case: &mut Case) -> Res {
    let c = Cfg { namespaces: vec![NS], floats: false, renames: false, ..Cfg::default() };
    let mut ops: Vec<Op> = Vec::new();
    if src.chance(2, 3) {
        for i in src.list(0, 3, |s| format!("{}#{}", s.pick(&["other.ns", "third", "smithy.api"]), s.pick(&POOL))) {
            if !ops.iter().any(|o| matches!(o, Op::Use(x) if *x == i)) {
                ops.push(Op::Use(i));
            }
        }
    }
    let imports: BTreeSet<String> = ops.iter().map(|o| if let Op::Use(i) = o { name_of(i).to_string() } else { String::new() }).collect();
    let first = ops.len();
    let mut defs: Vec<(String, S)> = Vec::new();
    for _ in 0..1 + src.below(5) {
        let n = src.pick(&POOL).to_string();
        if defs.iter().any(|(d, _)| d.split('#').last() == Some(&n)) {
            continue;
        }
        let mut s = S { traits: spelled_traits(src), kind: gen_kind(src, &c, &[]) };
        each_ref(&mut s.kind, &mut |r| *r = spell(src));
        if let K::Map(k, v) = &mut s.kind {
            k.traits = spelled_traits(src);
            v.traits = spelled_traits(src);
        } else if let K::List(m) | K::Set(m) = &mut s.kind {
            m.traits = spelled_traits(src);
        } else if let K::Struct(m) | K::Union(m) = &mut s.kind {
            m.values_mut().for_each(|m| m.traits = spelled_traits(src));
        }
        let name = match src.weighted(&[5, 1, 1]) {
            0 => n,
            1 => format!("{}#{}", NS, n),
            _ => format!("elsewhere#{}", n),
        };
        defs.push((name, s));
    }
    for (n, s) in &defs {
        ops.push(Op::Def(n.clone(), s.clone()));
    }
    // a shape defined twice, or more
    for _ in 0..src.weighted(&[20, 4, 1, 1, 1, 1]) {
        let (n, first) = src.pick(&defs);
        let mut s = S { traits: spelled_traits(src), kind: first.kind.clone() };
        match src.below(4) {
            0 => tweak_kind(src, &c, &mut s.kind, &[]),
            1 => {
                s.kind = gen_kind(src, &c, &[]);
                each_ref(&mut s.kind, &mut |r| *r = spell(src));
            }
            _ => {}
        }
        if !case_variant(&first, &s) {
            case.tag("defined twice");
            case.tag_if(ops.iter().filter(|o| matches!(o, Op::Def(..))).count() > defs.len() + 2, "many redefinitions");
            ops.push(Op::Def(n, s));
        }
    }
    let after_defs = ops.len();
    // applications of traits to shapes, anywhere after the imports
    let n = src.below(4);
    for _ in 0..n {
        let target = match src.weighted(&[3, 1, 1]) {
            0 => src.pick(&defs).0,
            1 => format!("{}#{}", src.pick(&["other.ns", "third", NS]), src.pick(&POOL)),
            // a local name that means the same wherever the statement stands
            _ => src.pick(&["Alpha", "Beta", "Gamma", "marker", "required", "tags", "String", "Blob"]).to_string(),
        };
        let prelude = PRELUDE_SHAPES.contains(&target.as_str()) && defs.iter().any(|(d, _)| d.split('#').last() == Some(&target));
        if !target.contains('#') && (imports.contains(&target) || prelude) {
            continue;
        }
        let op = Op::Apply(target, spell(src), gen_trait_value(src, &c));
        let at = first + src.usize(ops.len() - first + 1);
        ops.insert(at, op);
    }
    let _ = after_defs;
    // applications of traits to members come after the definition
    for _ in 0..src.below(3) {
        let (name, s) = src.pick(&defs);
        let ms: Vec<String> = members_of(&s.kind).into_iter().map(|(n, _)| n).collect();
        let m = match ms.is_empty() || src.chance(1, 6) {
            true => "nowhere".to_string(),
            false => src.pick(&ms),
        };
        case.tag_if(m == "nowhere", "unknown member");
        let id = match name.split_once('#') {
            Some(_) if src.bool() || !name.starts_with(NS) => name,
            Some((_, n)) if !imports.contains(n) => n.to_string(),
            None if src.bool() && !imports.contains(&name) => name,
            Some(_) => name,
            None => format!("{}#{}", NS, name),
        };
        ops.push(Op::Apply(format!("{}${}", id, m), spell(src), gen_trait_value(src, &c)));
    }
    // also to members of what is not defined here
    if src.chance(1, 6) {
        let shape = src.pick(&POOL);
        if !imports.contains(shape) && !defs.iter().any(|(d, _)| d.split('#').last() == Some(shape)) {
            case.tag("member of the prelude or of nothing");
            let at = first + src.usize(ops.len() - first + 1);
            ops.insert(at, Op::Apply(format!("{}${}", shape, src.pick(&["key", "one"])), spell(src), gen_trait_value(src, &c)));
        }
    }
    if src.chance(1, 4) {
        // metadata set again is replaced
        for k in src.list(1, 3, |s| s.pick(&["k", "k", "K"])) {
            ops.push(Op::Meta(k.into(), gen_value(src, &c, 2)));
        }
    }
    case.input(&ops, defs.iter().any(|(_, s)| !matches!(s.kind, K::Simple(_))));
    case.sample(|| format!("{:?}", ops));

    let want = meaning(&ops);
    // names in another case are the same names, except those of the prelude
    let another = src.chance(1, 5);
    case.tag_if(another, "in another case");
    if another {
        let mut name = |n: &str| -> String {
            let local = n.split('#').last().unwrap().split('$').next().unwrap().to_lowercase();
            let fixed = PRELUDE_SHAPES.iter().chain(&PRELUDE_TRAITS).any(|p| p.to_lowercase() == local);
            match src.below(4) {
                0 if !fixed => n.to_uppercase(),
                1 if !fixed => n.to_lowercase(),
                _ => n.to_string(),
            }
        };
        ops = ops
            .into_iter()
            .map(|o| match o {
                Op::Use(i) => Op::Use(name(&i)),
                Op::Def(n, s) => Op::Def(name(&n), with_names(&s, &mut name)),
                Op::Apply(t, k, v) => Op::Apply(name(&t), name(&k), v),
                o => o,
            })
            .collect();
    }
    let early = src.chance(1, 10);
    case.tag_if(early, "made before it was complete");
    let got = guard("builder", || {
        let mut b = ModelBuilder::new(Version::V10, NS);
        let mut i = 0;
        while i < ops.len() {
            // metadata set one by one, or several keys in one call
            let mut together = ValueMap::new();
            while let Some(Op::Meta(k, v)) = ops.get(i + together.len()) {
                if together.contains_key(k) || !src.chance(2, 3) {
                    break;
                }
                together.insert(k.clone(), to_value(v));
            }
            if !together.is_empty() {
                i += together.len();
                b.meta_data_from(together);
                continue;
            }
            let o = &ops[i];
            i += 1;
            if early && src.chance(1, 3) {
                // making a model of what is there so far changes nothing
                let _ = Model::try_from(&mut b);
            }
            match o {
                Op::Use(i) => {
                    b.uses(i);
                }
                Op::Def(n, s) => define(src, &mut b, n, s, &[]),
                Op::Apply(t, k, v) => {
                    let t2 = a_trait(src, k, v);
                    b.apply(t, t2);
                }
                Op::Meta(k, v) => {
                    b.meta_data(k.clone(), to_value(v));
                }
            }
        }
        if src.bool() {
            Model::try_from(b)
        } else {
            Model::try_from(&mut b)
        }
    })?;
    match (want, got) {
        (None, Err(_)) => case.tag("refused"),
        (None, Ok(m)) => fail!("accepted", "an ambiguous name or conflicting trait went unnoticed in {:?}, giving {:?}", ops, from_model(&m)?),
        (Some(_), Err(e)) => fail!("refused", "{} for {:?}", e, ops),
        (Some(w), Ok(m)) => {
            let g = from_model(&m)?;
            case.tag_if(w.shapes.values().any(|s| s.kind == K::Unresolved), "unresolved");
            case.tag_if(!imports.is_empty(), "imports");
            // The order in which the arrays of several definitions are joined is not documented.
            let mut defined = BTreeSet::new();
            let once = ops.iter().all(|o| match o {
                Op::Def(n, _) => defined.insert(name_of(n).to_lowercase()),
                _ => true,
            });
            let fold = |m: &Md| {
                let mut m = if once && !another { m.clone() } else { sorted_arrays(m) };
                if another {
                    m.shapes = m.shapes.iter().map(|(i, s)| (i.to_lowercase(), folded(s))).collect();
                }
                m
            };
            if let Some(d) = diff(&fold(&w), &fold(&g)) {
                fail!("built", "{} for {:?}", d, ops);
            }
            check!(
                m.is_complete() == !w.shapes.values().any(|s| s.kind == K::Unresolved),
                "complete",
                "completeness {} for {:?}",
                m.is_complete(),
                ops
            );
        }
    }
    Ok(())
}

pub static P07: Prop = Prop {
    id: "P07",
    quick: 250_000,
    thorough: 2_000_000,
    rule: "generated sequences of uses, definitions (of all kinds), trait applications to shapes and members and metadata, with names spelled locally or in full from a small pool shared by imports, local shapes and the prelude, against a reference resolver; non-trivial: some definition is not a simple shape",
    assumptions: &["an annotation trait's value may be absent or an empty object"],
    run: p07,
    explicit: no_explicit,
    known: no_known,
};

// ------------------------------------------------------------------------------------------------
// P08
// ------------------------------------------------------------------------------------------------

fn none_for_empty(m: &Md) -> Md {
    let mut m = m.clone();
    for s in m.shapes.values_mut() {
        each_traits(s, &mut |t| {
            for v in t.values_mut() {
                if *v == Some(V::Obj(BTreeMap::new())) {
                    *v = None;
                }
            }
        });
    }
    m
}

fn p08(src: &mut Src, case: &mut Case) -> Res {
    let c = Cfg { namespaces: vec![NS, "example.two", "other"], ..Cfg::default() };
    let mut want = gen_model(src, &c);
    want.shapes.retain(|k, _| !is_member_id(k));
    let plain = want.clone();
    // helpers, for traits that are not there yet
    let mut helpers: BTreeMap<(Sid, Option<String>), Vec<H>> = BTreeMap::new();
    for (id, s) in want.shapes.iter_mut() {
        let mut places: Vec<Option<String>> = vec![None];
        places.extend(members_of(&s.kind).into_iter().map(|(n, _)| Some(n)));
        for p in places {
            for h in src.list(0, 2, gen_helper) {
                let t = match &p {
                    None => &mut s.traits,
                    Some(m) => &mut member_mut(&mut s.kind, m).unwrap().traits,
                };
                if t.contains_key(h.id()) {
                    continue;
                }
                t.insert(h.id().to_string(), h.value());
                helpers.entry((id.clone(), p.clone())).or_default().push(h);
            }
        }
    }
    // what may be spelled with its name only
    let taken: BTreeSet<&str> = plain.shapes.iter().filter(|(_, s)| s.kind == K::Unresolved).map(|(i, _)| name_of(i)).collect();
    let lower: BTreeSet<String> = taken.iter().map(|n| n.to_lowercase()).collect();
    let here: BTreeSet<String> = plain.shapes.keys().filter(|i| ns_of(i) == NS).map(|i| name_of(i).to_lowercase()).collect();
    let prelude: BTreeSet<String> = PRELUDE_SHAPES.iter().map(|n| n.to_lowercase()).collect();
    let mut assumed: BTreeSet<Sid> = BTreeSet::new();
    let mut locals = 0;
    let mut short = |src: &mut Src, id: &Sid| -> String {
        let n = name_of(id).to_string();
        let low = n.to_lowercase();
        let fits = match ns_of(id) {
            NS => !lower.contains(&low) && (here.contains(&low) || !prelude.contains(&low)),
            "smithy.api" => PRELUDE_SHAPES.contains(&n.as_str()) && !lower.contains(&low) && !here.contains(&low),
            _ => false,
        };
        let recased = assumed.iter().any(|a: &Sid| a != id && a.eq_ignore_ascii_case(id));
        if fits && !recased && src.bool() {
            locals += 1;
            if ns_of(id) == NS && !here.contains(&low) {
                assumed.insert(id.clone());
            }
            n
        } else {
            id.clone()
        }
    };
    let mut b = ModelBuilder::new(Version::V10, NS);
    let mut order: Vec<&Sid> = plain.shapes.keys().collect();
    src.shuffle(&mut order);
    let ids = order.clone();
    case.input(&want, rich(&want));
    case.sample(|| format!("{:?}", want));
    let mut after: Vec<(String, TraitBuilder)> = Vec::new();
    for id in ids {
        let mut s = plain.shapes[id].clone();
        each_ref(&mut s.kind, &mut |r| *r = short(src, r));
        let name = match s.kind {
            K::Unresolved => id.clone(),
            _ if ns_of(id) == NS && src.bool() => name_of(id).to_string(),
            _ => id.clone(),
        };
        // some traits are applied separately
        if src.chance(1, 4) && s.kind != K::Unresolved {
            for (k, v) in std::mem::take(&mut s.traits) {
                after.push((id.clone(), a_trait(src, &k, &v)));
            }
        }
        for ((_, m), hs) in helpers.iter().filter(|((i, m), _)| i == id && m.is_some()) {
            for h in hs {
                let t = h.builder(src);
                after.push((format!("{}${}", id, m.clone().unwrap()), t));
            }
        }
        let own = helpers.get(&(id.clone(), None)).cloned().unwrap_or_default();
        guard("define", || define(src, &mut b, &name, &s, &own))?;
    }
    for (id, t) in after {
        guard("apply", || {
            b.apply(&id, t);
        })?;
    }
    if src.bool() {
        let m: ValueMap = plain.meta.iter().map(|(k, v)| (k.clone(), value(src, v))).collect();
        b.meta_data_from(m);
    } else {
        for (k, v) in &plain.meta {
            let v = value(src, v);
            b.meta_data(k.clone(), v);
        }
    }
    for id in assumed {
        if !want.shapes.keys().any(|k| k.eq_ignore_ascii_case(&id)) {
            want.shapes.insert(id, S { traits: T::new(), kind: K::Unresolved });
        }
    }
    case.tag_if(locals > 0, "local names");
    case.tag_if(!helpers.is_empty(), "trait helpers");
    let n = b.shape_name("Thing").to_string();
    check!(n == format!("{}#Thing", NS), "shape-name", "shape_name gives {}", n);
    match guard("build", || Model::try_from(b))? {
        Err(e) => fail!("refused", "{} for {:?}", e, want),
        Ok(m) => {
            let g = from_model(&m)?;
            if let Some(d) = diff(&none_for_empty(&want), &none_for_empty(&g)) {
                fail!("built", "{} for {:?}", d, want);
            }
            check!(*m.smithy_version() == Version::V10, "version", "smithy version {}", m.smithy_version());
        }
    }
    Ok(())
}

pub static P08: Prop = Prop {
    id: "P08",
    quick: 200_000,
    thorough: 800_000,
    rule: "generated models built call by call through varying builder methods, typed member constructors, value builders and prelude trait helpers, and compared with the model read back; non-trivial: at least two shapes, one of them not simple",
    assumptions: &["an annotation trait's value may be absent or an empty object"],
    run: p08,
    explicit: no_explicit,
    known: no_known,
};
