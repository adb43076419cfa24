//! P15 selectors: what is built is what was meant, and prints as text that parses back.
//! P16 selectors: the parser reads exactly the documented grammar.

use crate::engine::*;
use crate::model::*;
use crate::{check, fail};
use atelier_core::builder::selector::{AttributeBuilder, ScopedAttributeBuilder, SelectorBuilder};
use atelier_core::model::selector::*;
use atelier_core::model::values::Number;
use atelier_core::model::{Identifier, ShapeID};
use atelier_smithy::parse_selector;
use std::str::FromStr;

// --- the reference selector ------------------------------------------------------------------

#[derive(Clone, Debug)]
enum Val {
    Text(String),
    Int(i64),
    Flt(f64),
    Id(String),
    Abs(String),
}

#[derive(Clone, Debug)]
enum Seg {
    Val(Val),
    Fun(String),
}

#[derive(Clone, Debug)]
struct K {
    id: String,
    path: Vec<Seg>,
}

#[derive(Clone, Debug)]
struct C {
    op: usize,
    rhs: Vec<Val>,
    ci: bool,
}

#[derive(Clone, Debug)]
enum SV {
    Val(Val),
    Ctx(Vec<Seg>),
}

#[derive(Clone, Debug)]
struct A {
    lhs: SV,
    op: usize,
    rhs: Vec<SV>,
    ci: bool,
}

#[derive(Clone, Debug)]
enum N {
    Fwd,
    Rev,
    FwdTo(Vec<String>),
    RevTo(Vec<String>),
    All,
}

#[derive(Clone, Debug)]
enum E {
    Type(usize),
    Attr(K, Option<C>),
    Scoped(Option<K>, Vec<A>),
    Nb(N),
    Fun(String, Vec<Sel>),
    Def(String, Sel),
    Ref(String),
}

type Sel = Vec<E>;

pub const TYPES: [(&str, ShapeType); 26] = [
    ("*", ShapeType::Any),
    ("number", ShapeType::Number),
    ("simpleType", ShapeType::SimpleType),
    ("collection", ShapeType::Collection),
    ("blob", ShapeType::Blob),
    ("boolean", ShapeType::Boolean),
    ("document", ShapeType::Document),
    ("string", ShapeType::String),
    ("integer", ShapeType::Integer),
    ("byte", ShapeType::Byte),
    ("short", ShapeType::Short),
    ("long", ShapeType::Long),
    ("float", ShapeType::Float),
    ("double", ShapeType::Double),
    ("bigDecimal", ShapeType::BigDecimal),
    ("bigInteger", ShapeType::BigInteger),
    ("timestamp", ShapeType::Timestamp),
    ("list", ShapeType::List),
    ("set", ShapeType::Set),
    ("map", ShapeType::Map),
    ("structure", ShapeType::Structure),
    ("union", ShapeType::Union),
    ("service", ShapeType::Service),
    ("operation", ShapeType::Operation),
    ("resource", ShapeType::Resource),
    ("member", ShapeType::Member),
];

const OPS: [(&str, Comparator); 14] = [
    ("=", Comparator::StringEqual),
    ("!=", Comparator::StringNotEqual),
    ("^=", Comparator::StringStartsWith),
    ("$=", Comparator::StringEndsWith),
    ("*=", Comparator::StringContains),
    ("?=", Comparator::StringExists),
    (">", Comparator::NumberGreaterThan),
    (">=", Comparator::NumberGreaterOrEqual),
    ("<", Comparator::NumberLessThan),
    ("<=", Comparator::NumberLessOrEqual),
    ("{=}", Comparator::ProjectionEqual),
    ("{!=}", Comparator::ProjectionNotEqual),
    ("{<}", Comparator::ProjectionSubset),
    ("{<<}", Comparator::ProjectionProperSubset),
];

fn same<T: std::fmt::Debug>(a: &T, b: &T) -> bool {
    // by text, so that ids compare with regard to case
    dbg(a) == dbg(b)
}

// --- generation ------------------------------------------------------------------------------

fn name(src: &mut Src) -> String {
    match src.weighted(&[5, 3]) {
        0 => gen_ident(src),
        _ => src
            .pick(&[
                "i", "id", "service", "trait", "var", "length", "keys", "values", "projection", "test", "is", "not", "topdown",
                "string", "e5", "E", "x_", "_a", "__b", "inf", "NaN", "True", "I", "true", "false", "null", "and", "or", "s",
            ])
            .to_string(),
    }
}

fn text(src: &mut Src) -> String {
    let n = 1 + src.usize(6);
    let mut s = String::new();
    // one of the two quotes at most, as the other is needed around the text
    let quote = src.pick(&['"', '\'']);
    for _ in 0..n {
        let c = match src.weighted(&[6, 4, 2]) {
            0 => src.pick(&['a', 'i', 'Z', '0', ' ', '-', '.']),
            1 => src.pick(&['[', ']', '(', ')', '@', '{', '}', ',', ':', '|', '&', '$', '>', '<', '=', '~', '*', '#', '/', quote]),
            _ => gen_char(src, Text::Wild),
        };
        if c >= ' ' && c != '\\' && (c == quote || (c != '"' && c != '\'')) {
            s.push(c);
        }
    }
    if s.is_empty() {
        s.push_str(src.pick(&["true", "false", "x", "1"]));
    }
    if src.chance(1, 40) {
        s = s.repeat(1 + src.usize(40));
    }
    s
}

fn float(src: &mut Src) -> f64 {
    let f = match src.weighted(&[4, 3, 2, 1]) {
        0 => src.range(-4000, 4000) as f64 / 8.0,
        1 => src.pick(&[0.0, -0.0, 1.0, -1.0, 0.5, 1e21, 1e-7, 1e300, f64::MAX, f64::MIN_POSITIVE, 5e-324, 1e16, 123456789.0]),
        2 => src.range(-1000, 1000) as f64,
        _ => f64::from_bits(src.below(u64::MAX)),
    };
    if f.is_finite() {
        f
    } else {
        1.5
    }
}

fn abs(src: &mut Src) -> String {
    format!("{}#{}", src.list(1, 3, name).join("."), name(src))
}

fn val(src: &mut Src) -> Val {
    match src.weighted(&[4, 3, 2, 3, 2]) {
        0 => Val::Text(match src.weighted(&[5, 1]) {
            0 => text(src),
            _ => src.pick(&["true", "false"]).to_string(),
        }),
        1 => Val::Int(src.pick(&[0, 1, -1, 7, 500, i64::MAX, i64::MIN, -42, 1_000_000])),
        2 => Val::Flt(float(src)),
        3 => Val::Id(name(src)),
        _ => Val::Abs(abs(src)),
    }
}

/// A value a comparator is meant for.
fn fitting(src: &mut Src, op: usize) -> Val {
    match OPS[op].1 {
        Comparator::StringExists => Val::Text(src.pick(&["true", "false"]).to_string()),
        Comparator::NumberGreaterThan
        | Comparator::NumberGreaterOrEqual
        | Comparator::NumberLessThan
        | Comparator::NumberLessOrEqual => match src.bool() {
            true => Val::Int(src.range(-99, 99)),
            false => Val::Flt(float(src)),
        },
        _ => val(src),
    }
}

/// A few, and now and then a lot.
fn several<T>(src: &mut Src, few: usize, f: impl FnMut(&mut Src) -> T) -> Vec<T> {
    let most = if src.chance(1, 20) { 12 } else { few };
    src.list(1, most, f)
}

fn seg(src: &mut Src) -> Seg {
    match src.weighted(&[3, 2]) {
        0 => Seg::Val(val(src)),
        _ => Seg::Fun(name(src)),
    }
}

fn key(src: &mut Src) -> K {
    K { id: name(src), path: if src.chance(1, 20) { several(src, 6, seg) } else { src.list(0, 3, seg) } }
}

fn sv(src: &mut Src) -> SV {
    match src.weighted(&[3, 2]) {
        0 => SV::Val(val(src)),
        _ => SV::Ctx(several(src, 3, seg)),
    }
}

fn sel(src: &mut Src, depth: usize) -> Sel {
    src.list(1, 4, |src| ex(src, depth))
}

fn ex(src: &mut Src, depth: usize) -> E {
    let deep = if depth == 0 { 0 } else { 3 };
    match src.weighted(&[4, 5, 4, 4, deep, deep, 2]) {
        0 => E::Type(src.usize(TYPES.len())),
        1 => E::Attr(
            key(src),
            if src.chance(3, 4) {
                let op = src.usize(OPS.len());
                let rhs = match src.weighted(&[12, 10, 2]) {
                    0 => vec![fitting(src, op)],
                    1 => several(src, 3, val),
                    _ => several(src, 4, |src| fitting(src, op)),
                };
                Some(C { op, rhs, ci: src.chance(1, 3) })
            } else {
                None
            },
        ),
        2 => E::Scoped(
            if src.chance(2, 3) { Some(key(src)) } else { None },
            several(src, 3, |src| {
                let op = src.usize(OPS.len());
                let rhs = match src.weighted(&[12, 10, 2]) {
                    0 => vec![SV::Val(fitting(src, op))],
                    1 => several(src, 3, sv),
                    _ => several(src, 4, |src| SV::Val(fitting(src, op))),
                };
                A { lhs: sv(src), op, rhs, ci: src.chance(1, 3) }
            }),
        ),
        3 => E::Nb(match src.usize(5) {
            0 => N::Fwd,
            1 => N::Rev,
            2 => N::FwdTo(several(src, 3, name)),
            3 => N::RevTo(several(src, 3, name)),
            _ => N::All,
        }),
        4 => E::Fun(name(src), if depth == 1 { several(src, 3, |src| sel(src, 0)) } else { src.list(1, 3, |src| sel(src, depth - 1)) }),
        5 => E::Def(name(src), sel(src, depth - 1)),
        _ => E::Ref(name(src)),
    }
}

fn size(s: &Sel) -> usize {
    s.iter()
        .map(|e| match e {
            E::Fun(_, a) => 1 + a.iter().map(size).sum::<usize>(),
            E::Def(_, s) => 1 + size(s),
            E::Attr(_, Some(_)) | E::Scoped(..) => 2,
            _ => 1,
        })
        .sum()
}

fn tags(s: &Sel, case: &mut Case) {
    for e in s {
        match e {
            E::Type(_) => case.tag("shape-type"),
            E::Attr(_, c) => {
                case.tag("attribute");
                case.tag_if(c.as_ref().map(|c| c.ci).unwrap_or(false), "case-insensitive");
                case.tag_if(c.as_ref().map(|c| c.op >= 6 && c.op < 10).unwrap_or(false), "numeric-comparison");
            }
            E::Scoped(k, a) => {
                case.tag("scoped");
                case.tag_if(k.is_none(), "scoped-without-key");
                case.tag_if(a.len() > 1, "two-assertions");
            }
            E::Nb(_) => case.tag("neighbor"),
            E::Fun(_, a) => {
                case.tag("function");
                a.iter().for_each(|s| tags(s, case));
            }
            E::Def(_, s) => {
                case.tag("variable");
                tags(s, case);
            }
            E::Ref(_) => case.tag("variable-reference"),
        }
    }
}

// --- to the real API, by any of the equivalent ways --------------------------------------------

fn r_id(src: &mut Src, s: &str) -> Identifier {
    if src.bool() {
        Identifier::from_str(s).expect("identifier")
    } else {
        Identifier::new_unchecked(s)
    }
}

fn r_num(src: &mut Src, v: &Val) -> Number {
    match (v, src.bool()) {
        (Val::Int(i), true) => Number::Integer(*i),
        (Val::Int(i), false) => (*i).into(),
        (Val::Flt(f), true) => Number::Float(*f),
        (Val::Flt(f), false) => (*f).into(),
        _ => unreachable!(),
    }
}

fn r_val(src: &mut Src, v: &Val) -> Value {
    match v {
        Val::Text(t) => match src.usize(3) {
            0 => Value::Text(t.clone()),
            1 => t.as_str().into(),
            _ => t.clone().into(),
        },
        Val::Int(i) => match src.usize(3) {
            0 => (*i).into(),
            1 => r_num(src, v).into(),
            _ => Value::Number(r_num(src, v)),
        },
        Val::Flt(f) => match src.usize(3) {
            0 => (*f).into(),
            1 => r_num(src, v).into(),
            _ => Value::Number(r_num(src, v)),
        },
        Val::Id(s) => match src.bool() {
            true => r_id(src, s).into(),
            false => Value::RootShapeIdentifier(r_id(src, s)),
        },
        Val::Abs(s) => match src.bool() {
            true => ShapeID::from_str(s).expect("shape id").into(),
            false => Value::AbsoluteRootShapeIdentifier(ShapeID::new_unchecked(
                s.split('#').next().unwrap(),
                s.split('#').nth(1).unwrap(),
                None,
            )),
        },
    }
}

fn r_seg(src: &mut Src, s: &Seg) -> KeyPathSegment {
    match (s, src.bool()) {
        (Seg::Val(v), true) => r_val(src, v).into(),
        (Seg::Val(v), false) => KeyPathSegment::Value(r_val(src, v)),
        (Seg::Fun(f), true) => r_id(src, f).into(),
        (Seg::Fun(f), false) => KeyPathSegment::FunctionProperty(r_id(src, f)),
    }
}

fn r_segs(src: &mut Src, s: &[Seg]) -> Vec<KeyPathSegment> {
    s.iter().map(|s| r_seg(src, s)).collect()
}

/// Edits of a list that leave it as it is.
macro_rules! stir {
    ($src:expr, $o:expr, $gone:expr, $all:ident, $set:ident, $add:ident, $append:ident, $remove:ident) => {
        match $src.usize(10) {
            0 => {
                $o.$add($gone.clone());
                $o.$append(&[$gone.clone(), $gone.clone()]);
                $o.$remove(&$gone);
            }
            1 => {
                let mut list: Vec<_> = vec![$gone.clone()];
                for x in $o.$all() {
                    list.push(x.clone());
                    list.push($gone.clone());
                }
                $o.$set(&list);
                $o.$remove(&$gone);
                $o.$remove(&$gone);
            }
            2 => {
                let list: Vec<_> = $o.$all().cloned().collect();
                $o.$set(&[]);
                $o.$append(&[]);
                $o.$append(&list);
            }
            _ => {}
        }
    };
}

/// The same name, which is equal to it, in upper case.
fn upper(id: &Identifier) -> Identifier {
    Identifier::new_unchecked(&id.to_string().to_uppercase())
}

fn r_key(src: &mut Src, k: &K) -> Key {
    let mut key = r_key_as_is(src, k);
    let gone: KeyPathSegment = Value::from("\u{1}gone").into();
    stir!(src, key, gone, path, set_path, add_path_segment, append_path, remove_path_segment);
    if src.chance(1, 5) {
        let id = key.identifier().clone();
        key.set_identifier(upper(&id));
        key.set_identifier(id);
    }
    key
}

fn r_key_as_is(src: &mut Src, k: &K) -> Key {
    let id = r_id(src, &k.id);
    let path = r_segs(src, &k.path);
    match src.usize(5) {
        0 => Key::with_path(id, &path),
        1 => {
            let mut key = Key::new(id);
            for p in path {
                key.add_path_segment(p);
            }
            key
        }
        2 => {
            let mut key: Key = id.into();
            key.append_path(&path);
            key
        }
        3 => {
            let mut key = Key::with_path(Identifier::new_unchecked("other"), &[KeyPathSegment::Value("gone".into())]);
            key.set_identifier(id);
            key.set_path(&path);
            key
        }
        _ => {
            let mut key = Key::new(id);
            let at = src.usize(path.len() + 1);
            key.append_path(&path[..at]);
            key.append_path(&path[at..]);
            key
        }
    }
}

/// Values all of which are numbers.
fn r_nums(src: &mut Src, vs: &[Val]) -> Option<Vec<Number>> {
    if vs.iter().all(|v| matches!(v, Val::Int(_) | Val::Flt(_))) {
        Some(vs.iter().map(|v| r_num(src, v)).collect())
    } else {
        None
    }
}

fn truth(vs: &[Val]) -> Option<bool> {
    match vs {
        [Val::Text(t)] if t == "true" => Some(true),
        [Val::Text(t)] if t == "false" => Some(false),
        _ => None,
    }
}

fn r_cmp(src: &mut Src, c: &C) -> AttributeComparison {
    let mut cmp = r_cmp_as_is(src, c);
    let gone = Value::from("\u{1}gone");
    stir!(src, cmp, gone, rhs_values, set_rhs_values, add_value, append_rhs_values, remove_value);
    if src.chance(1, 5) {
        let (op, ci) = (cmp.comparator().clone(), cmp.is_case_insensitive());
        cmp.set_comparator(OPS[src.usize(OPS.len())].1.clone());
        cmp.set_case_insensitive(src.bool());
        cmp.set_comparator(op);
        cmp.set_case_insensitive(ci);
    }
    cmp
}

fn r_cmp_as_is(src: &mut Src, c: &C) -> AttributeComparison {
    type AC = AttributeComparison;
    let op = OPS[c.op].1.clone();
    let vals: Vec<Value> = c.rhs.iter().map(|v| r_val(src, v)).collect();
    let nums = r_nums(src, &c.rhs);
    if !c.ci && src.chance(2, 3) {
        // by the helper named after the comparator, where it fits
        let one = vals.len() == 1;
        let v = vals[0].clone();
        let n = nums.as_ref().map(|n| n[0].clone());
        match (&op, one, n) {
            (Comparator::StringEqual, true, _) => return AC::string_equal(v),
            (Comparator::StringNotEqual, true, _) => return AC::string_not_equal(v),
            (Comparator::StringStartsWith, true, _) => return AC::string_starts_with(v),
            (Comparator::StringEndsWith, true, _) => return AC::string_ends_with(v),
            (Comparator::StringContains, true, _) => return AC::string_contains(v),
            (Comparator::StringExists, true, _) if truth(&c.rhs).is_some() => return AC::string_exists(truth(&c.rhs).unwrap()),
            (Comparator::NumberGreaterThan, true, Some(n)) => return AC::number_greater(n),
            (Comparator::NumberGreaterOrEqual, true, Some(n)) => return AC::number_greater_or_equal(n),
            (Comparator::NumberLessThan, true, Some(n)) => return AC::number_less(n),
            (Comparator::NumberLessOrEqual, true, Some(n)) => return AC::number_less_or_equal(n),
            (Comparator::ProjectionEqual, true, _) => return AC::projection_equal(v),
            (Comparator::ProjectionNotEqual, true, _) => return AC::projection_not_equal(v),
            (Comparator::ProjectionSubset, _, _) => return AC::projection_subset(&vals),
            (Comparator::ProjectionProperSubset, _, _) => return AC::projection_proper_subset(&vals),
            _ => {}
        }
    }
    match (c.ci, src.usize(3)) {
        (true, 0) => AC::new_case_insensitive(op, &vals),
        (false, 0) => AC::new(op, &vals),
        (ci, 1) => {
            let mut r = AC::new(op, &vals[..1]);
            for v in &vals[1..] {
                r.add_value(v.clone());
            }
            r.set_case_insensitive(ci);
            r
        }
        (ci, _) => {
            let mut r = AC::new_case_insensitive(Comparator::StringContains, &["gone".into()]);
            r.set_comparator(op);
            r.set_rhs_values(&vals);
            r.set_case_insensitive(ci);
            r
        }
    }
}

fn known_key(k: &str) -> Option<usize> {
    ["id", "service", "trait", "var"].iter().position(|n| *n == k)
}

fn r_attr(src: &mut Src, k: &K, c: &Option<C>) -> AttributeSelector {
    if src.bool() {
        let key = r_key(src, k);
        return match c {
            None => match src.usize(3) {
                0 => AttributeSelector::new(key),
                1 => key.into(),
                _ => {
                    let mut a = AttributeSelector::with_comparison(key, AttributeComparison::string_equal("gone".into()));
                    a.unset_comparison();
                    a
                }
            },
            Some(c) => {
                let c = r_cmp(src, c);
                if src.bool() {
                    AttributeSelector::with_comparison(key, c)
                } else {
                    let mut a = AttributeSelector::new(key);
                    a.set_comparison(c);
                    a
                }
            }
        };
    }
    let mut b = b_attr(src, k, c);
    if src.bool() {
        (&mut b).into()
    } else {
        b.into()
    }
}

fn b_attr(src: &mut Src, k: &K, c: &Option<C>) -> AttributeBuilder {
    let mut b = match known_key(&k.id) {
        Some(0) => AttributeBuilder::named_id(),
        Some(1) => AttributeBuilder::named_service(),
        Some(2) => AttributeBuilder::named_trait(),
        Some(3) => AttributeBuilder::named_var(),
        _ => AttributeBuilder::named(r_id(src, &k.id)),
    };
    if src.chance(1, 3) {
        let p = r_segs(src, &k.path);
        b.path(&p);
    } else {
        for s in &k.path {
            if src.bool() {
                let s = r_seg(src, s);
                b.path_segment(s);
            } else {
                match s {
                    Seg::Fun(f) => b.path_segment_for_function(r_id(src, f)),
                    Seg::Val(Val::Text(t)) => b.path_segment_for_text(t),
                    Seg::Val(Val::Id(i)) => b.path_segment_for_id(r_id(src, i)),
                    Seg::Val(Val::Abs(i)) => b.path_segment_for_shape(ShapeID::from_str(i).unwrap()),
                    Seg::Val(n) => b.path_segment_for_number(r_num(src, n)),
                };
            }
        }
    }
    if let Some(c) = c {
        let op = OPS[c.op].1.clone();
        let vals: Vec<Value> = c.rhs.iter().map(|v| r_val(src, v)).collect();
        let nums = r_nums(src, &c.rhs);
        match (src.usize(3), &op, nums, truth(&c.rhs)) {
            (0, ..) => {
                let c = r_cmp(src, c);
                b.compare(c);
            }
            (1, ..) => {
                b.string_compare(op, &vals, c.ci);
            }
            (_, Comparator::StringEqual, _, _) => {
                b.string_equal(&vals, c.ci);
            }
            (_, Comparator::StringNotEqual, _, _) => {
                b.string_not_equal(&vals, c.ci);
            }
            (_, Comparator::StringStartsWith, _, _) => {
                b.string_starts_with(&vals, c.ci);
            }
            (_, Comparator::StringEndsWith, _, _) => {
                b.string_ends_with(&vals, c.ci);
            }
            (_, Comparator::StringContains, _, _) => {
                b.string_contains(&vals, c.ci);
            }
            (_, Comparator::StringExists, _, Some(t)) => {
                b.string_exists(t, c.ci);
            }
            (_, Comparator::NumberGreaterThan, Some(n), _) if !c.ci => {
                b.number_greater(&n);
            }
            (_, Comparator::NumberGreaterOrEqual, Some(n), _) if !c.ci => {
                b.number_greater_or_equal(&n);
            }
            (_, Comparator::NumberLessThan, Some(n), _) if !c.ci => {
                b.number_less(&n);
            }
            (_, Comparator::NumberLessOrEqual, Some(n), _) if !c.ci => {
                b.number_less_or_equal(&n);
            }
            (_, Comparator::ProjectionEqual, _, _) if !c.ci => {
                b.projection_equal(&vals);
            }
            (_, Comparator::ProjectionNotEqual, _, _) if !c.ci => {
                b.projection_not_equal(&vals);
            }
            (_, Comparator::ProjectionSubset, _, _) if !c.ci => {
                b.projection_subset(&vals);
            }
            (_, Comparator::ProjectionProperSubset, _, _) if !c.ci => {
                b.projection_proper_subset(&vals);
            }
            _ => {
                let c = r_cmp(src, c);
                b.compare(c);
            }
        }
    }
    b
}

fn r_sv(src: &mut Src, v: &SV) -> ScopedValue {
    match v {
        SV::Ctx(p) => {
            let p = r_segs(src, p);
            match src.usize(3) {
                0 => ScopedValue::ContextValue(p),
                1 => p.into(),
                _ => p.as_slice().into(),
            }
        }
        SV::Val(v) => match src.usize(3) {
            0 => ScopedValue::Value(r_val(src, v)),
            1 => r_val(src, v).into(),
            _ => match v {
                Val::Text(t) if src.bool() => t.as_str().into(),
                Val::Text(t) => t.clone().into(),
                Val::Int(i) if src.bool() => (*i).into(),
                Val::Flt(f) if src.bool() => (*f).into(),
                Val::Int(_) | Val::Flt(_) => r_num(src, v).into(),
                Val::Id(i) => r_id(src, i).into(),
                Val::Abs(i) => ShapeID::from_str(i).unwrap().into(),
            },
        },
    }
}

fn sv_num(src: &mut Src, vs: &[SV]) -> Option<Number> {
    match vs {
        [SV::Val(v @ Val::Int(_))] | [SV::Val(v @ Val::Flt(_))] => Some(r_num(src, v)),
        _ => None,
    }
}

fn sv_truth(vs: &[SV]) -> Option<bool> {
    match vs {
        [SV::Val(v)] => truth(&[v.clone()]),
        _ => None,
    }
}

fn r_assert(src: &mut Src, a: &A) -> ScopedAttributeAssertion {
    let mut it = r_assert_as_is(src, a);
    let gone = ScopedValue::from("\u{1}gone");
    stir!(src, it, gone, rhs_values, set_rhs_values, add_value, append_rhs_values, remove_value);
    if src.chance(1, 5) {
        let (lhs, op, ci) = (it.lhs_value().clone(), it.comparator().clone(), it.is_case_insensitive());
        it.set_lhs_value(match &lhs {
            ScopedValue::Value(Value::RootShapeIdentifier(id)) => Value::RootShapeIdentifier(upper(id)).into(),
            _ => gone,
        });
        it.set_comparator(OPS[src.usize(OPS.len())].1.clone());
        it.set_case_insensitive(src.bool());
        it.set_lhs_value(lhs);
        it.set_comparator(op);
        it.set_case_insensitive(ci);
    }
    it
}

fn r_assert_as_is(src: &mut Src, a: &A) -> ScopedAttributeAssertion {
    type SA = ScopedAttributeAssertion;
    let op = OPS[a.op].1.clone();
    let lhs = r_sv(src, &a.lhs);
    let vals: Vec<ScopedValue> = a.rhs.iter().map(|v| r_sv(src, v)).collect();
    if !a.ci && src.chance(2, 3) {
        let one = vals.len() == 1;
        let v = vals[0].clone();
        let n = sv_num(src, &a.rhs);
        let l = lhs.clone();
        match (&op, one, n, sv_truth(&a.rhs)) {
            (Comparator::StringEqual, true, ..) => return SA::string_equal(l, v),
            (Comparator::StringNotEqual, true, ..) => return SA::string_not_equal(l, v),
            (Comparator::StringStartsWith, true, ..) => return SA::string_starts_with(l, v),
            (Comparator::StringEndsWith, true, ..) => return SA::string_ends_with(l, v),
            (Comparator::StringContains, true, ..) => return SA::string_contains(l, v),
            (Comparator::StringExists, true, _, Some(t)) => return SA::string_exists(l, t),
            (Comparator::NumberGreaterThan, true, Some(n), _) => return SA::number_greater(l, n),
            (Comparator::NumberGreaterOrEqual, true, Some(n), _) => return SA::number_greater_or_equal(l, n),
            (Comparator::NumberLessThan, true, Some(n), _) => return SA::number_less(l, n),
            (Comparator::NumberLessOrEqual, true, Some(n), _) => return SA::number_less_or_equal(l, n),
            (Comparator::ProjectionEqual, true, ..) => return SA::projection_equal(l, v),
            (Comparator::ProjectionNotEqual, true, ..) => return SA::projection_not_equal(l, v),
            (Comparator::ProjectionSubset, ..) => return SA::projection_subset(l, &vals),
            (Comparator::ProjectionProperSubset, ..) => return SA::projection_proper_subset(l, &vals),
            _ => {}
        }
    }
    match (a.ci, src.usize(3)) {
        (true, 0) => SA::new_case_insensitive(lhs, op, &vals),
        (false, 0) => SA::new(lhs, op, &vals),
        (ci, 1) => {
            let mut r = SA::new(lhs, op, &vals[..1]);
            for v in &vals[1..] {
                r.add_value(v.clone());
            }
            r.set_case_insensitive(ci);
            r
        }
        (ci, _) => {
            let mut r = SA::new_case_insensitive("gone".into(), Comparator::StringContains, &["gone".into()]);
            r.set_lhs_value(lhs);
            r.set_comparator(op);
            r.set_rhs_values(&vals);
            r.set_case_insensitive(ci);
            r
        }
    }
}

fn r_scoped(src: &mut Src, k: &Option<K>, asserts: &[A]) -> ScopedAttributeSelector {
    let mut it = r_scoped_as_is(src, k, asserts);
    let gone = ScopedAttributeAssertion::new("\u{1}gone".into(), Comparator::StringEqual, &["\u{1}gone".into()]);
    stir!(src, it, gone, assertions, set_assertions, add_assertion, append_assertions, remove_assertion);
    if src.chance(1, 5) {
        if let Some(key) = it.key().clone() {
            let mut other = key.clone();
            other.set_identifier(upper(key.identifier()));
            it.unset_key();
            it.set_key(other);
            it.set_key(key);
        }
    }
    it
}

fn r_scoped_as_is(src: &mut Src, k: &Option<K>, asserts: &[A]) -> ScopedAttributeSelector {
    if src.bool() {
        let list: Vec<ScopedAttributeAssertion> = asserts.iter().map(|a| r_assert(src, a)).collect();
        return match (k, src.bool()) {
            (None, true) => ScopedAttributeSelector::new(&list),
            (None, false) => {
                let mut s = ScopedAttributeSelector::with_key(Key::new(Identifier::new_unchecked("gone")), &list);
                s.unset_key();
                s
            }
            (Some(k), true) => ScopedAttributeSelector::with_key(r_key(src, k), &list),
            (Some(k), false) => {
                let mut s = ScopedAttributeSelector::new(&list[..1]);
                s.set_key(r_key(src, k));
                s.append_assertions(&list[1..]);
                s
            }
        };
    }
    let mut b = b_scoped(src, k, asserts);
    if src.bool() {
        (&mut b).into()
    } else {
        b.into()
    }
}

fn b_scoped(src: &mut Src, k: &Option<K>, asserts: &[A]) -> ScopedAttributeBuilder {
    let mut b = match k {
        None => ScopedAttributeBuilder::default(),
        Some(k) => {
            let mut b = match known_key(&k.id) {
                Some(0) => ScopedAttributeBuilder::new_id(),
                Some(1) => ScopedAttributeBuilder::new_service(),
                Some(2) => ScopedAttributeBuilder::new_trait(),
                Some(3) => ScopedAttributeBuilder::new_var(),
                _ => ScopedAttributeBuilder::named(r_id(src, &k.id)),
            };
            if src.chance(1, 3) {
                let p = r_segs(src, &k.path);
                b.path(&p);
            } else {
                for s in &k.path {
                    if src.bool() {
                        let s = r_seg(src, s);
                        b.path_segment(s);
                    } else {
                        match s {
                            Seg::Fun(f) => b.path_segment_for_function(r_id(src, f)),
                            Seg::Val(Val::Text(t)) => b.path_segment_for_text(t),
                            Seg::Val(Val::Id(i)) => b.path_segment_for_id(r_id(src, i)),
                            Seg::Val(Val::Abs(i)) => b.path_segment_for_shape(ShapeID::from_str(i).unwrap()),
                            Seg::Val(n) => b.path_segment_for_number(r_num(src, n)),
                        };
                    }
                }
            }
            b
        }
    };
    for a in asserts {
        let op = OPS[a.op].1.clone();
        let l = r_sv(src, &a.lhs);
        let vals: Vec<ScopedValue> = a.rhs.iter().map(|v| r_sv(src, v)).collect();
        let one = vals.len() == 1;
        let v = vals[0].clone();
        match (src.usize(3), &op, sv_num(src, &a.rhs), sv_truth(&a.rhs)) {
            (0, ..) => {
                let a = r_assert(src, a);
                b.assertion(a);
            }
            (1, ..) => {
                b.string_assertion(l, op, &vals, a.ci);
            }
            (_, Comparator::StringEqual, ..) if one => {
                b.string_equal(l, v, a.ci);
            }
            (_, Comparator::StringNotEqual, ..) if one => {
                b.string_not_equal(l, v, a.ci);
            }
            (_, Comparator::StringStartsWith, ..) if one => {
                b.string_starts_with(l, v, a.ci);
            }
            (_, Comparator::StringEndsWith, ..) if one => {
                b.string_ends_with(l, v, a.ci);
            }
            (_, Comparator::StringContains, ..) if one => {
                b.string_contains(l, v, a.ci);
            }
            (_, Comparator::StringExists, _, Some(t)) if !a.ci => {
                b.string_exists(l, t);
            }
            (_, Comparator::NumberGreaterThan, Some(n), _) if !a.ci => {
                b.number_greater(l, n);
            }
            (_, Comparator::NumberGreaterOrEqual, Some(n), _) if !a.ci => {
                b.number_greater_or_equal(l, n);
            }
            (_, Comparator::NumberLessThan, Some(n), _) if !a.ci => {
                b.number_less(l, n);
            }
            (_, Comparator::NumberLessOrEqual, Some(n), _) if !a.ci => {
                b.number_less_or_equal(l, n);
            }
            (_, Comparator::ProjectionEqual, ..) if one && !a.ci => {
                b.projection_equal(l, v);
            }
            (_, Comparator::ProjectionNotEqual, ..) if one && !a.ci => {
                b.projection_not_equal(l, v);
            }
            (_, Comparator::ProjectionSubset, ..) if !a.ci => {
                b.projection_subset(l, &vals);
            }
            (_, Comparator::ProjectionProperSubset, ..) if !a.ci => {
                b.projection_proper_subset(l, &vals);
            }
            _ => {
                let a = r_assert(src, a);
                b.assertion(a);
            }
        }
    }
    b
}

fn r_nb(src: &mut Src, n: &N) -> NeighborSelector {
    match n {
        N::Fwd => NeighborSelector::ForwardUndirected,
        N::Rev => NeighborSelector::ReverseUndirected,
        N::FwdTo(v) => NeighborSelector::ForwardDirected(v.iter().map(|i| r_id(src, i)).collect()),
        N::RevTo(v) => NeighborSelector::ReverseDirected(v.iter().map(|i| r_id(src, i)).collect()),
        N::All => NeighborSelector::ForwardRecursiveDirected,
    }
}

fn r_ex(src: &mut Src, e: &E) -> SelectorExpression {
    match e {
        E::Type(t) => match src.usize(3) {
            0 => TYPES[*t].1.clone().into(),
            1 => SelectorExpression::ShapeType(TYPES[*t].1.clone()),
            _ => ShapeType::from_str(TYPES[*t].0).expect("shape type").into(),
        },
        E::Attr(k, c) => match src.chance(1, 4) {
            true => b_attr(src, k, c).into(),
            false => r_attr(src, k, c).into(),
        },
        E::Scoped(k, a) => match src.chance(1, 4) {
            true => b_scoped(src, k, a).into(),
            false => r_scoped(src, k, a).into(),
        },
        E::Nb(n) => r_nb(src, n).into(),
        E::Fun(n, args) => {
            let args: Vec<Selector> = args.iter().map(|s| r_sel(src, s)).collect();
            let n = r_id(src, n);
            if src.bool() {
                Function::new(n, &args).into()
            } else {
                let mut f = Function::new(upper(&n), &args[..1]);
                for a in &args[1..] {
                    f.add_argument(a.clone());
                }
                let gone: Selector = SelectorExpression::VariableReference(VariableReference::new(Identifier::new_unchecked("gone__"))).into();
                stir!(src, f, gone, arguments, set_arguments, add_argument, append_arguments, remove_argument);
                f.set_name(n);
                f.into()
            }
        }
        E::Def(n, s) => {
            let s = r_sel(src, s);
            let n = r_id(src, n);
            if src.bool() {
                VariableDefinition::new(n, s).into()
            } else {
                let mut d = VariableDefinition::new(
                    Identifier::new_unchecked("gone"),
                    SelectorExpression::ShapeType(ShapeType::Any).into(),
                );
                d.set_name(upper(&n));
                d.set_name(n);
                d.set_selector(s);
                d.into()
            }
        }
        E::Ref(n) => {
            let n = r_id(src, n);
            match src.usize(3) {
                0 => VariableReference::new(n).into(),
                1 => VariableReference::from(n).into(),
                _ => VariableDefinition::new(n, SelectorExpression::ShapeType(ShapeType::Any).into()).new_reference().into(),
            }
        }
    }
}

/// The shape type helpers of the builder, first to start with and then to add one.
const STARTS: [fn() -> SelectorBuilder; 26] = [
    SelectorBuilder::any_shape,
    SelectorBuilder::any_number,
    SelectorBuilder::any_simple_type,
    SelectorBuilder::any_collection,
    SelectorBuilder::blob,
    SelectorBuilder::boolean,
    SelectorBuilder::document,
    SelectorBuilder::string,
    SelectorBuilder::integer,
    SelectorBuilder::byte,
    SelectorBuilder::short,
    SelectorBuilder::long,
    SelectorBuilder::float,
    SelectorBuilder::double,
    SelectorBuilder::big_decimal,
    SelectorBuilder::big_integer,
    SelectorBuilder::timestamp,
    SelectorBuilder::list,
    SelectorBuilder::set,
    SelectorBuilder::map,
    SelectorBuilder::structure,
    SelectorBuilder::union,
    SelectorBuilder::service,
    SelectorBuilder::operation,
    SelectorBuilder::resource,
    SelectorBuilder::member,
];

const ADDS: [fn(&mut SelectorBuilder) -> &mut SelectorBuilder; 26] = [
    SelectorBuilder::add_any_shape,
    SelectorBuilder::add_any_number,
    SelectorBuilder::add_any_simple_type,
    SelectorBuilder::add_any_collection,
    SelectorBuilder::add_blob,
    SelectorBuilder::add_boolean,
    SelectorBuilder::add_document,
    SelectorBuilder::add_string,
    SelectorBuilder::add_integer,
    SelectorBuilder::add_byte,
    SelectorBuilder::add_short,
    SelectorBuilder::add_long,
    SelectorBuilder::add_float,
    SelectorBuilder::add_double,
    SelectorBuilder::add_big_decimal,
    SelectorBuilder::add_big_integer,
    SelectorBuilder::add_timestamp,
    SelectorBuilder::add_list,
    SelectorBuilder::add_set,
    SelectorBuilder::add_map,
    SelectorBuilder::add_structure,
    SelectorBuilder::add_union,
    SelectorBuilder::add_service,
    SelectorBuilder::add_operation,
    SelectorBuilder::add_resource,
    SelectorBuilder::add_member,
];

fn b_start(src: &mut Src, e: &E) -> SelectorBuilder {
    type B = SelectorBuilder;
    if src.chance(1, 3) {
        return B::from(r_ex(src, e));
    }
    match e {
        E::Type(t) if src.chance(1, 4) => B::shape(TYPES[*t].1.clone()),
        E::Type(t) => STARTS[*t](),
        E::Attr(k, c) => match src.usize(3) {
            0 => b_attr(src, k, c).into(),
            1 => (&mut b_attr(src, k, c)).into(),
            _ => B::attribute(r_attr(src, k, c)),
        },
        E::Scoped(k, a) => match src.usize(3) {
            0 => b_scoped(src, k, a).into(),
            1 => (&mut b_scoped(src, k, a)).into(),
            _ => B::scoped_attribute(r_scoped(src, k, a)),
        },
        E::Nb(n) if src.chance(1, 4) => B::neighbor(r_nb(src, n)),
        E::Fun(n, args) if src.chance(1, 4) => {
            let args: Vec<Selector> = args.iter().map(|s| r_sel(src, s)).collect();
            B::function(Function::new(r_id(src, n), &args))
        }
        E::Def(n, s) if src.chance(1, 4) => {
            let s = r_sel(src, s);
            B::variable_definition(VariableDefinition::new(r_id(src, n), s))
        }
        E::Ref(n) if src.chance(1, 4) => B::variable_reference(VariableReference::new(r_id(src, n))),
        E::Nb(n) => match n {
            N::Fwd => B::forward_undirected(),
            N::Rev => B::reverse_undirected(),
            N::All => B::forward_recursive_directed(),
            N::FwdTo(v) => {
                let v: Vec<Identifier> = v.iter().map(|i| r_id(src, i)).collect();
                B::forward_directed(&v)
            }
            N::RevTo(v) => {
                let v: Vec<Identifier> = v.iter().map(|i| r_id(src, i)).collect();
                B::reverse_directed(&v)
            }
        },
        E::Fun(n, args) => {
            let args: Vec<B> = args.iter().map(|s| b_sel(src, s)).collect();
            match (n.as_str(), src.chance(3, 4)) {
                ("test", true) => B::fn_test(&args),
                ("is", true) => B::fn_is(&args),
                ("not", true) => B::fn_not(&args),
                ("topdown", true) => B::fn_topdown(&args),
                _ => B::function_from(r_id(src, n), &args),
            }
        }
        E::Def(n, s) => {
            let s = b_sel(src, s);
            B::variable_definition_from(r_id(src, n), s)
        }
        E::Ref(n) => B::variable_reference_from(r_id(src, n)),
    }
}

fn b_add(src: &mut Src, b: &mut SelectorBuilder, e: &E) {
    if src.chance(1, 3) {
        let e = r_ex(src, e);
        b.add(e);
        return;
    }
    match e {
        E::Type(t) if src.chance(1, 4) => {
            b.add_shape(TYPES[*t].1.clone());
        }
        E::Type(t) => {
            ADDS[*t](b);
        }
        E::Attr(k, c) => {
            if src.bool() {
                let a = r_attr(src, k, c);
                b.add_attribute(a);
            } else {
                let k = r_key(src, k);
                let c = c.as_ref().map(|c| r_cmp(src, c));
                b.add_attribute_from(k, c);
            }
        }
        E::Scoped(k, a) => {
            let a = r_scoped(src, k, a);
            b.add_scoped_attribute(a);
        }
        E::Nb(n) if src.chance(1, 4) => {
            b.add_neighbor(r_nb(src, n));
        }
        E::Fun(n, args) if src.chance(1, 4) => {
            let args: Vec<Selector> = args.iter().map(|s| r_sel(src, s)).collect();
            b.add_function(Function::new(r_id(src, n), &args));
        }
        E::Def(n, s) if src.chance(1, 4) => {
            let s = r_sel(src, s);
            b.add_variable_definition(VariableDefinition::new(r_id(src, n), s));
        }
        E::Ref(n) if src.chance(1, 4) => {
            b.add_variable_reference(VariableReference::new(r_id(src, n)));
        }
        E::Nb(n) => {
            match n {
                N::Fwd => b.add_forward_undirected(),
                N::Rev => b.add_reverse_undirected(),
                N::All => b.add_forward_recursive_directed(),
                N::FwdTo(v) => {
                    let v: Vec<Identifier> = v.iter().map(|i| r_id(src, i)).collect();
                    b.add_forward_directed(&v)
                }
                N::RevTo(v) => {
                    let v: Vec<Identifier> = v.iter().map(|i| r_id(src, i)).collect();
                    b.add_reverse_directed(&v)
                }
            };
        }
        E::Fun(n, args) => {
            let args: Vec<SelectorBuilder> = args.iter().map(|s| b_sel(src, s)).collect();
            match (n.as_str(), src.chance(3, 4)) {
                ("test", true) => b.add_test_function(&args),
                ("is", true) => b.add_is_function(&args),
                ("not", true) => b.add_not_function(&args),
                ("topdown", true) => b.add_topdown_function(&args),
                _ => b.add_function_from(r_id(src, n), &args),
            };
        }
        E::Def(n, s) => {
            let s = b_sel(src, s);
            b.add_variable_definition_from(r_id(src, n), s);
        }
        E::Ref(n) => {
            b.add_variable_reference_from(r_id(src, n));
        }
    }
}

fn b_sel(src: &mut Src, s: &Sel) -> SelectorBuilder {
    let mut b = b_start(src, &s[0]);
    for e in &s[1..] {
        b_add(src, &mut b, e);
    }
    b
}

fn r_sel(src: &mut Src, s: &Sel) -> Selector {
    if s.len() == 1 && src.chance(1, 3) {
        match (&s[0], src.bool()) {
            (E::Attr(k, c), true) => return b_attr(src, k, c).into(),
            (E::Attr(k, c), false) => return (&mut b_attr(src, k, c)).into(),
            (E::Scoped(k, a), true) => return b_scoped(src, k, a).into(),
            (E::Scoped(k, a), false) => return (&mut b_scoped(src, k, a)).into(),
            (e, _) => return r_ex(src, e).into(),
        }
    }
    match src.usize(6) {
        4 => {
            let v: Vec<Selector> = (&mut b_sel(src, s)).into();
            assert_eq!(v.len(), 1);
            v[0].clone()
        }
        5 => {
            let b = <SelectorBuilder as From<&mut SelectorBuilder>>::from(&mut b_sel(src, s));
            assert!(!b.is_empty());
            b.into()
        },
        0 => {
            let v: Vec<SelectorExpression> = s.iter().map(|e| r_ex(src, e)).collect();
            v.into()
        }
        1 => {
            let mut r = Selector::default();
            for e in s {
                let e = r_ex(src, e);
                r.add_expression(e);
            }
            r
        }
        2 => b_sel(src, s).into(),
        _ => {
            let mut b = b_sel(src, s);
            (&mut b).into()
        }
    }
}

// --- and back ----------------------------------------------------------------------------------

fn o_val(v: &Value) -> Val {
    let kinds = [v.is_text(), v.is_number(), v.is_root_shape_id(), v.is_absolute_root_shape_id()];
    let out = match v {
        Value::Text(t) => (0, Val::Text(t.clone())),
        Value::Number(Number::Integer(i)) => (1, Val::Int(*i)),
        Value::Number(Number::Float(f)) => (1, Val::Flt(*f)),
        Value::RootShapeIdentifier(i) => (2, Val::Id(i.to_string())),
        Value::AbsoluteRootShapeIdentifier(i) => (3, Val::Abs(i.to_string())),
    };
    if kinds.iter().filter(|k| **k).count() != 1 || !kinds[out.0] {
        return Val::Text(format!("kind tests of {:?} give {:?}", v, kinds));
    }
    out.1
}

fn o_seg(s: &KeyPathSegment) -> Seg {
    match (s.as_value(), s.as_function_property()) {
        (Some(v), None) => Seg::Val(o_val(v)),
        (None, Some(f)) => Seg::Fun(f.to_string()),
        _ => Seg::Fun(format!("neither or both: {:?}", s)),
    }
}

fn o_key(k: &Key) -> K {
    K { id: k.identifier().to_string(), path: k.path().map(o_seg).collect() }
}

fn o_op(c: &Comparator) -> usize {
    OPS.iter().position(|(_, o)| o == c).unwrap()
}

fn o_sv(v: &ScopedValue) -> SV {
    match (v.as_value(), v.as_context_value()) {
        (Some(v), None) => SV::Val(o_val(v)),
        (None, Some(p)) => SV::Ctx(p.map(o_seg).collect()),
        _ => SV::Val(Val::Text("neither or both".into())),
    }
}

fn o_ex(e: &SelectorExpression) -> E {
    match e {
        SelectorExpression::ShapeType(t) => E::Type(TYPES.iter().position(|(_, x)| x == t).unwrap()),
        SelectorExpression::AttributeSelector(a) => E::Attr(
            o_key(a.key()),
            a.comparison().as_ref().map(|c| C {
                op: o_op(c.comparator()),
                rhs: c.rhs_values().map(o_val).collect(),
                ci: c.is_case_insensitive(),
            }),
        ),
        SelectorExpression::ScopedAttributeSelector(s) => E::Scoped(
            s.key().as_ref().map(o_key),
            s.assertions()
                .map(|a| A {
                    lhs: o_sv(a.lhs_value()),
                    op: o_op(a.comparator()),
                    rhs: a.rhs_values().map(o_sv).collect(),
                    ci: a.is_case_insensitive(),
                })
                .collect(),
        ),
        SelectorExpression::NeighborSelector(n) => E::Nb(match n {
            NeighborSelector::ForwardUndirected => N::Fwd,
            NeighborSelector::ReverseUndirected => N::Rev,
            NeighborSelector::ForwardDirected(v) => N::FwdTo(v.iter().map(|i| i.to_string()).collect()),
            NeighborSelector::ReverseDirected(v) => N::RevTo(v.iter().map(|i| i.to_string()).collect()),
            NeighborSelector::ForwardRecursiveDirected => N::All,
        }),
        SelectorExpression::Function(f) => E::Fun(f.name().to_string(), f.arguments().map(o_sel).collect()),
        SelectorExpression::VariableDefinition(d) => E::Def(d.name().to_string(), o_sel(d.selector())),
        SelectorExpression::VariableReference(r) => E::Ref(r.name().to_string()),
    }
}

fn o_sel(s: &Selector) -> Sel {
    s.expressions().map(o_ex).collect()
}

// --- P15 ---------------------------------------------------------------------------------------

fn parsed(text: &str) -> Result<Result<Sel, String>, Fail> {
    guard("parse_selector", || parse_selector(text).map(|s| o_sel(&s)).map_err(|e| e.to_string()))
}

fn p15(src: &mut Src, case: &mut Case) -> Res {
    let want = sel(src, 2);
    case.input(&dbg(&want), size(&want) >= 2);
    tags(&want, case);
    let real = guard("building", || r_sel(src, &want))?;
    let built = guard("reading back", || o_sel(&real))?;
    check!(same(&built, &want), "built", "meant {:?}\nbuilt {:?}", want, built);
    let text = guard("Display", || real.to_string())?;
    case.sample(|| text.clone());
    let back = parsed(&text)?;
    match &back {
        Ok(b) => check!(same(b, &want), "reparsed", "{} parses as {:?}\nmeant {:?}", text, b, want),
        Err(e) => fail!("refused", "{} is refused: {}", text, e),
    }
    // the same selector built another way is equal, and prints the same
    let other = guard("building again", || r_sel(src, &want))?;
    check!(other == real, "unequal", "built twice: {:?} and {:?}", real, other);
    check!(other.to_string() == text, "printed", "built twice, prints {} and {}", text, other);
    Ok(())
}

// --- P16: an independent rendering, and an independent parser -------------------------------------

fn sp(src: &mut Src, out: &mut String) {
    match src.weighted(&[6, 3, 1]) {
        0 => {}
        1 => out.push(' '),
        _ => {
            for _ in 0..1 + src.usize(3) {
                out.push(src.pick(&[' ', '\t', '\n', '\r']));
            }
        }
    }
}

/// Tokens with any whitespace between them; always some where two names or numbers would run together.
fn w(src: &mut Src, out: &mut String, tok: &str) {
    let glue = |c: char| c.is_ascii_alphanumeric() || c == '_' || c == '.' || c == '#' || c == '-';
    let need = match (out.chars().last(), tok.chars().next()) {
        (Some(a), Some(b)) => glue(a) && glue(b),
        _ => false,
    };
    let before = out.len();
    sp(src, out);
    if need && out.len() == before {
        out.push(' ');
    }
    out.push_str(tok);
}

fn t_val(src: &mut Src, out: &mut String, v: &Val) {
    let t = match v {
        Val::Text(t) => {
            let q = if t.contains('"') {
                '\''
            } else if t.contains('\'') || src.bool() {
                '"'
            } else {
                '\''
            };
            format!("{}{}{}", q, t, q)
        }
        Val::Int(0) if src.chance(1, 4) => "-0".to_string(),
        Val::Int(i) => i.to_string(),
        Val::Flt(f) => {
            // any spelling of the same number that does not read as an integer
            let mut forms = vec![format!("{:?}", f), format!("{:e}", f), format!("{:E}", f)];
            if f.fract() == 0.0 && f.abs() < 1e15 {
                forms.push(format!("{:.1}", f));
                forms.push(format!("{:.3}", f));
                forms.push(format!("{:?}e+0", f));
                forms.push(format!("{:?}E0", f));
                forms.push(format!("{:?}e-00", f));
            }
            src.pick(&forms)
        }
        Val::Id(i) => i.clone(),
        Val::Abs(i) => i.clone(),
    };
    w(src, out, &t);
}

fn t_segs(src: &mut Src, out: &mut String, segs: &[Seg]) {
    for (i, s) in segs.iter().enumerate() {
        if i > 0 {
            w(src, out, "|");
        }
        match s {
            Seg::Val(v) => t_val(src, out, v),
            Seg::Fun(f) => {
                w(src, out, "(");
                w(src, out, f);
                w(src, out, ")");
            }
        }
    }
}

fn t_key(src: &mut Src, out: &mut String, k: &K) {
    w(src, out, &k.id);
    if !k.path.is_empty() {
        w(src, out, "|");
        t_segs(src, out, &k.path);
    }
}

fn t_names(src: &mut Src, out: &mut String, v: &[String]) {
    for (i, n) in v.iter().enumerate() {
        if i > 0 {
            w(src, out, ",");
        }
        w(src, out, n);
    }
}

fn t_sv(src: &mut Src, out: &mut String, v: &SV) {
    match v {
        SV::Val(v) => t_val(src, out, v),
        SV::Ctx(p) => {
            w(src, out, "@{");
            t_segs(src, out, p);
            w(src, out, "}");
        }
    }
}

fn t_sel(src: &mut Src, out: &mut String, s: &Sel) {
    for e in s {
        match e {
            E::Type(t) => w(src, out, TYPES[*t].0),
            E::Attr(k, c) => {
                w(src, out, "[");
                t_key(src, out, k);
                if let Some(c) = c {
                    w(src, out, OPS[c.op].0);
                    for (i, v) in c.rhs.iter().enumerate() {
                        if i > 0 {
                            w(src, out, ",");
                        }
                        t_val(src, out, v);
                    }
                    if c.ci {
                        w(src, out, "i");
                    }
                }
                w(src, out, "]");
            }
            E::Scoped(k, a) => {
                w(src, out, "[@");
                if let Some(k) = k {
                    t_key(src, out, k);
                }
                w(src, out, ":");
                for (i, a) in a.iter().enumerate() {
                    if i > 0 {
                        w(src, out, "&&");
                    }
                    t_sv(src, out, &a.lhs);
                    w(src, out, OPS[a.op].0);
                    for (i, v) in a.rhs.iter().enumerate() {
                        if i > 0 {
                            w(src, out, ",");
                        }
                        t_sv(src, out, v);
                    }
                    if a.ci {
                        w(src, out, "i");
                    }
                }
                w(src, out, "]");
            }
            E::Nb(N::Fwd) => w(src, out, ">"),
            E::Nb(N::Rev) => w(src, out, "<"),
            E::Nb(N::All) => w(src, out, "~>"),
            E::Nb(N::FwdTo(v)) => {
                // `<` then `-[` would read as `<-[`
                if out.ends_with('<') {
                    out.push(' ');
                }
                w(src, out, "-[");
                t_names(src, out, v);
                w(src, out, "]->");
            }
            E::Nb(N::RevTo(v)) => {
                w(src, out, "<-[");
                t_names(src, out, v);
                w(src, out, "]-");
            }
            E::Fun(n, args) => {
                w(src, out, ":");
                w(src, out, n);
                w(src, out, "(");
                for (i, a) in args.iter().enumerate() {
                    if i > 0 {
                        w(src, out, ",");
                    }
                    t_sel(src, out, a);
                }
                w(src, out, ")");
            }
            E::Def(n, s) => {
                w(src, out, "$");
                w(src, out, n);
                w(src, out, "(");
                t_sel(src, out, s);
                w(src, out, ")");
            }
            E::Ref(n) => {
                w(src, out, "${");
                w(src, out, n);
                w(src, out, "}");
            }
        }
    }
}

/// A recursive descent parser for the documented grammar, on its own.
struct P<'a> {
    s: &'a str,
    at: usize,
}

impl<'a> P<'a> {
    fn ws(&mut self) {
        while let Some(c) = self.s[self.at..].chars().next() {
            if matches!(c, ' ' | '\t' | '\r' | '\n') {
                self.at += 1;
            } else {
                break;
            }
        }
    }

    /// The token, after any whitespace.
    fn tok(&mut self, t: &str) -> bool {
        let from = self.at;
        self.ws();
        if self.s[self.at..].starts_with(t) {
            self.at += t.len();
            true
        } else {
            self.at = from;
            false
        }
    }

    fn need(&mut self, t: &str) -> Option<()> {
        if self.tok(t) {
            Some(())
        } else {
            None
        }
    }

    fn ident_len(s: &str) -> usize {
        let b = s.as_bytes();
        let mut i = 0;
        while i < b.len() && b[i] == b'_' {
            i += 1;
        }
        if i >= b.len() || !b[i].is_ascii_alphabetic() {
            return 0;
        }
        while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
            i += 1;
        }
        i
    }

    fn ident(&mut self) -> Option<String> {
        let from = self.at;
        self.ws();
        let n = Self::ident_len(&self.s[self.at..]);
        if n == 0 {
            self.at = from;
            return None;
        }
        let r = self.s[self.at..self.at + n].to_string();
        self.at += n;
        Some(r)
    }

    fn value(&mut self) -> Option<Val> {
        self.ws();
        let rest = &self.s[self.at..];
        let first = rest.chars().next()?;
        if first == '"' || first == '\'' {
            let body = &rest[1..];
            let end = body.find(|c: char| c == first || c < ' ' || c == '\\')?;
            if end == 0 || !body[end..].starts_with(first) {
                return None;
            }
            self.at += 1 + end + 1;
            return Some(Val::Text(body[..end].to_string()));
        }
        if first == '-' || first.is_ascii_digit() {
            let b = rest.as_bytes();
            let digits = |mut i: usize| {
                while i < b.len() && b[i].is_ascii_digit() {
                    i += 1;
                }
                i
            };
            let mut i = if first == '-' { 1 } else { 0 };
            if i >= b.len() || !b[i].is_ascii_digit() {
                return None;
            }
            i = if b[i] == b'0' { i + 1 } else { digits(i) };
            let mut float = false;
            if i < b.len() && b[i] == b'.' && digits(i + 1) > i + 1 {
                i = digits(i + 1);
                float = true;
            }
            if i < b.len() && (b[i] == b'e' || b[i] == b'E') {
                let mut j = i + 1;
                if j < b.len() && (b[j] == b'+' || b[j] == b'-') {
                    j += 1;
                }
                if digits(j) > j {
                    i = digits(j);
                    float = true;
                }
            }
            let t = &rest[..i];
            self.at += i;
            return Some(match t.parse::<i64>() {
                Ok(v) if !float => Val::Int(v),
                _ => Val::Flt(t.parse::<f64>().unwrap()),
            });
        }
        // an absolute id has no whitespace in it
        let n = Self::ident_len(rest);
        if n == 0 {
            return None;
        }
        let mut i = n;
        loop {
            if rest[i..].starts_with('.') && Self::ident_len(&rest[i + 1..]) > 0 {
                i += 1 + Self::ident_len(&rest[i + 1..]);
            } else {
                break;
            }
        }
        if rest[i..].starts_with('#') && Self::ident_len(&rest[i + 1..]) > 0 {
            i += 1 + Self::ident_len(&rest[i + 1..]);
            self.at += i;
            return Some(Val::Abs(rest[..i].to_string()));
        }
        self.at += n;
        Some(Val::Id(rest[..n].to_string()))
    }

    fn segs(&mut self) -> Option<Vec<Seg>> {
        let mut r = Vec::new();
        loop {
            r.push(if self.tok("(") {
                let f = self.ident()?;
                self.need(")")?;
                Seg::Fun(f)
            } else {
                Seg::Val(self.value()?)
            });
            if !self.tok("|") {
                return Some(r);
            }
        }
    }

    fn key(&mut self) -> Option<K> {
        let id = self.ident()?;
        let path = if self.tok("|") { self.segs()? } else { vec![] };
        Some(K { id, path })
    }

    fn op(&mut self) -> Option<usize> {
        // longest first
        let mut order: Vec<usize> = (0..OPS.len()).collect();
        order.sort_by_key(|i| std::cmp::Reverse(OPS[*i].0.len()));
        order.into_iter().find(|i| self.tok(OPS[*i].0))
    }

    fn sv(&mut self) -> Option<SV> {
        if self.tok("@{") {
            let p = self.segs()?;
            self.need("}")?;
            Some(SV::Ctx(p))
        } else {
            Some(SV::Val(self.value()?))
        }
    }

    fn names(&mut self) -> Option<Vec<String>> {
        let mut r = vec![self.ident()?];
        while self.tok(",") {
            r.push(self.ident()?);
        }
        Some(r)
    }

    fn expr(&mut self, depth: usize) -> Option<E> {
        if depth > 200 {
            return None;
        }
        if self.tok("*") {
            return Some(E::Type(0));
        }
        if self.tok("[@") {
            let key = if self.tok(":") {
                None
            } else {
                let k = self.key()?;
                self.need(":")?;
                Some(k)
            };
            let mut list = Vec::new();
            loop {
                let lhs = self.sv()?;
                let op = self.op()?;
                let mut rhs = vec![self.sv()?];
                while self.tok(",") {
                    rhs.push(self.sv()?);
                }
                let ci = self.tok("i");
                list.push(A { lhs, op, rhs, ci });
                if !self.tok("&&") {
                    break;
                }
            }
            self.need("]")?;
            return Some(E::Scoped(key, list));
        }
        if self.tok("[") {
            let k = self.key()?;
            if self.tok("]") {
                return Some(E::Attr(k, None));
            }
            let op = self.op()?;
            let mut rhs = vec![self.value()?];
            while self.tok(",") {
                rhs.push(self.value()?);
            }
            let ci = self.tok("i");
            self.need("]")?;
            return Some(E::Attr(k, Some(C { op, rhs, ci })));
        }
        if self.tok("~>") {
            return Some(E::Nb(N::All));
        }
        if self.tok("-[") {
            let v = self.names()?;
            self.need("]->")?;
            return Some(E::Nb(N::FwdTo(v)));
        }
        let from = self.at;
        if self.tok("<-[") {
            if let Some(v) = self.names() {
                if self.tok("]-") {
                    return Some(E::Nb(N::RevTo(v)));
                }
            }
            self.at = from;
        }
        if self.tok("<") {
            return Some(E::Nb(N::Rev));
        }
        if self.tok(">") {
            return Some(E::Nb(N::Fwd));
        }
        if self.tok("${") {
            let n = self.ident()?;
            self.need("}")?;
            return Some(E::Ref(n));
        }
        if self.tok("$") {
            let n = self.ident()?;
            self.need("(")?;
            let s = self.sel(depth + 1)?;
            self.need(")")?;
            return Some(E::Def(n, s));
        }
        if self.tok(":") {
            let n = self.ident()?;
            self.need("(")?;
            let mut args = vec![self.sel(depth + 1)?];
            while self.tok(",") {
                args.push(self.sel(depth + 1)?);
            }
            self.need(")")?;
            return Some(E::Fun(n, args));
        }
        let n = self.ident()?;
        TYPES.iter().position(|(t, _)| *t == n).map(E::Type)
    }

    fn sel(&mut self, depth: usize) -> Option<Sel> {
        let mut r = vec![self.expr(depth)?];
        loop {
            self.ws();
            match self.s[self.at..].chars().next() {
                None | Some(')') | Some(',') => return Some(r),
                _ => r.push(self.expr(depth)?),
            }
        }
    }
}

fn reference(s: &str) -> Option<Sel> {
    let mut p = P { s, at: 0 };
    let r = p.sel(0)?;
    p.ws();
    if p.at == s.len() {
        Some(r)
    } else {
        None
    }
}

const TOKENS: [&str; 62] = [
    "*", "string", "list", "member", "strings", "[", "]", "[@", ":", "&&", "=", "!=", "^=", "$=", "*=", "?=", ">", ">=", "<", "<=",
    "{=}", "{!=}", "{<}", "{<<}", "-[", "]->", "<-[", "]-", "~>", "$", "${", "}", "@{", "|", "(", ")", ",", "i", "'a'", "\"b\"", "'",
    "\"", "1", "-1", "1.5", "1e5", "0", "01", "-", ".", "#", "a.b#c", "trait", "id|name", " ", "\n", "\\", "is", "_", "!", "é", "&",
];

fn scramble(src: &mut Src, s: &str) -> String {
    let mut cs: Vec<char> = s.chars().collect();
    for _ in 0..1 + src.weighted(&[5, 3, 1]) {
        let at = src.usize(cs.len() + 1);
        match src.weighted(&[4, 4, 2, 2, 1, 3, 2, 1]) {
            0 => {
                let t = src.pick(&TOKENS);
                for (i, c) in t.chars().enumerate() {
                    cs.insert(at + i, c);
                }
            }
            1 => {
                let n = 1 + src.usize(2);
                for _ in 0..n {
                    if at < cs.len() {
                        cs.remove(at);
                    }
                }
            }
            2 => {
                if at < cs.len() {
                    cs[at] = gen_char(src, Text::Wild);
                }
            }
            3 => {
                let to = src.usize(cs.len() + 1);
                let (a, b) = (at.min(to), at.max(to));
                let part: Vec<char> = cs[a..b.min(a + 12)].to_vec();
                let here = src.usize(cs.len() + 1);
                for (i, c) in part.into_iter().enumerate() {
                    cs.insert(here + i, c);
                }
            }
            4 => cs.truncate(at),
            5 => {
                // a space inside a token of punctuation
                let inside: Vec<usize> = (1..cs.len()).filter(|&i| cs[i - 1].is_ascii_punctuation() && cs[i].is_ascii_punctuation()).collect();
                if !inside.is_empty() {
                    cs.insert(inside[src.usize(inside.len())], src.pick(&[' ', '\t', '\n']));
                }
            }
            6 => {
                // a letter in the other case, a lone one if there is any
                let letters: Vec<usize> = (0..cs.len()).filter(|&i| cs[i].is_ascii_alphabetic()).collect();
                let lone: Vec<usize> = letters.iter().copied().filter(|&i| (i == 0 || !cs[i - 1].is_alphanumeric()) && (i + 1 == cs.len() || !cs[i + 1].is_alphanumeric())).collect();
                let of = if lone.is_empty() || src.bool() { &letters } else { &lone };
                if !of.is_empty() {
                    let i = of[src.usize(of.len())];
                    cs[i] = if cs[i].is_ascii_lowercase() { cs[i].to_ascii_uppercase() } else { cs[i].to_ascii_lowercase() };
                }
            }
            _ => {
                if at < cs.len() {
                    cs.insert(at, cs[at]);
                }
            }
        }
    }
    cs.into_iter().collect()
}

fn finite(s: &Sel) -> bool {
    let d = dbg(s);
    // the texts and names of a selector may say `inf` too, which only makes this stricter
    !d.contains("Flt(inf") && !d.contains("Flt(-inf")
}

fn p16(src: &mut Src, case: &mut Case) -> Res {
    let meant = sel(src, 2);
    let mut text = String::new();
    t_sel(src, &mut text, &meant);
    sp(src, &mut text);
    let kind = src.weighted(&[4, 5, 2]);
    let text = match kind {
        0 => text,
        1 => scramble(src, &text),
        _ => src.list(0, 10, |src| src.pick(&TOKENS).to_string() + src.pick(&["", "", " "])).concat(),
    };
    let want = reference(&text);
    case.input(&text, text.len() >= 8);
    case.sample(|| format!("{:?}: {}", text, want.is_some()));
    case.tag(match (kind, want.is_some()) {
        (0, _) => "valid",
        (_, true) => "edited-valid",
        _ => "edited-invalid",
    });
    if kind == 0 {
        tags(&meant, case);
        match &want {
            Some(s) if same(s, &meant) => {}
            other => panic!("the two references disagree on {:?}: {:?} for {:?}", text, other, meant),
        }
    }
    let got = parsed(&text)?;
    match (&got, &want) {
        (Err(e), None) => check!(!e.is_empty(), "message", "no message for {:?}", text),
        (Ok(g), Some(s)) => {
            check!(same(g, s), "read-otherwise", "{:?}\nread as {:?}\nwant    {:?}", text, g, s);
            if finite(s) {
                let printed = guard("Display", || parse_selector(&text).map(|s| s.to_string()).unwrap_or_default())?;
                match parsed(&printed)? {
                    Ok(again) => check!(same(&again, s), "reprinted", "{:?} prints as {} which reads as {:?}", text, printed, again),
                    Err(e) => fail!("reprint-refused", "{:?} prints as {} which is refused: {}", text, printed, e),
                }
            }
        }
        (Ok(g), None) => fail!("accepted", "{:?} is not a selector, read as {:?}", text, g),
        (Err(e), Some(s)) => fail!("refused", "{:?} is {:?}, refused: {}", text, s, e),
    }
    Ok(())
}

/// Nothing but the result: the parser is a library, used by tools that write to standard output.
fn quiet() -> Res {
    let exe = std::env::current_exe().map_err(|e| Fail::new("internal", e.to_string()))?;
    for text in ["*", "[trait|httpError > 500]", "service -[operation]-> operation", ":not("] {
        let out = std::process::Command::new(&exe)
            .args(["parse-selector", text])
            .output()
            .map_err(|e| Fail::new("internal", e.to_string()))?;
        check!(out.stdout.is_empty(), "stdout", "parsing {:?} writes {:?} to standard output", text, String::from_utf8_lossy(&out.stdout));
    }
    Ok(())
}

/// Only for `quiet`, in a process of its own.
pub fn parse_only(text: &str) {
    let _ = parse_selector(text);
}

fn long() -> Res {
    // long rather than deep
    let many = vec!["[id|name = 'x', \"y\", 3 i]"; 3000].join(" > ");
    let r = parsed(&many)?;
    check!(matches!(&r, Ok(s) if s.len() == 5999), "long", "a selector of 5999 expressions is not read so");
    let args = format!(":is({})", vec!["string"; 3000].join(","));
    match parsed(&args)? {
        Ok(s) => check!(matches!(&s[0], E::Fun(_, a) if a.len() == 3000), "long", "a function of 3000 arguments is not read so"),
        Err(e) => fail!("long", "a function of 3000 arguments: {}", e),
    }
    let deep = format!("{}*{}", ":not(".repeat(60), ")".repeat(60));
    check!(parsed(&deep)?.is_ok(), "deep", "60 nested functions are refused");
    Ok(())
}

pub static P15: Prop = Prop {
    id: "P15",
    quick: 500_000,
    thorough: 20_000_000,
    rule: "generated selectors of every expression kind, each built by a random choice of the equivalent constructors, setters, helpers and builders; read back through the accessors, printed and parsed; non-trivial: two or more parts",
    assumptions: &[
        "selector text has no escapes, so text that is empty, or has control characters, a backslash or both kinds of quote, has no printed form",
        "numbers are finite, lists of values, arguments and relationships are not empty, absolute ids have no member",
    ],
    run: p15,
    explicit: no_explicit,
    known: no_known,
};

pub static P16: Prop = Prop {
    id: "P16",
    quick: 500_000,
    thorough: 20_000_000,
    rule: "selectors written by an independent writer in any spacing, quotes and number spelling, the same with one to three edits, and sequences of tokens; parsed and compared with an independent parser; non-trivial: 8 or more characters",
    assumptions: &["nesting is bounded, as the parser recurses"],
    run: p16,
    explicit: || {
        vec![
            Explicit { name: "nothing on standard output".into(), run: Box::new(quiet) },
            Explicit { name: "long and nested".into(), run: Box::new(long) },
        ]
    },
    known: no_known,
};
