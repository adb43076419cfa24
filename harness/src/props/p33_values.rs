//! P33: values, kinds of shapes and names of constants.

use crate::engine::*;
use crate::model::*;
use crate::{check, fail};
use atelier_core::action::{ActionIssue, IssueLevel};
use atelier_core::builder::traits::ErrorSource;
use atelier_core::builder::values::{ArrayBuilder, ObjectBuilder, ValueBuilder};
use atelier_core::builder::id::ShapeName;
use atelier_core::model::shapes::Simple;
use atelier_core::model::values::{Number, Value, ValueMap};
use atelier_core::model::{HasIdentity, ShapeID};
use atelier_core::prelude::{defined_prelude_shapes, defined_prelude_traits, prelude_namespace_id, prelude_shape_named};
use atelier_core::Version;
use std::collections::BTreeSet;
use std::str::FromStr;

fn p33(src: &mut Src, case: &mut Case) -> Res {
    match src.weighted(&[4, 4, 3, 2, 2]) {
        0 => values(src, case),
        1 => kinds(src, case),
        2 => names(src, case),
        3 => issues(src, case),
        _ => prelude(src, case),
    }
}

// ------------------------------------------------------------------------------------------------

fn an_id(src: &mut Src) -> ShapeID {
    let member = if src.chance(1, 3) { format!("${}", gen_ident(src)) } else { String::new() };
    sid(&format!("{}#{}{}", src.pick(&["example.one", "a", "smithy.api"]), gen_name(src, true), member))
}

/// A value, made in one of the ways there are.
fn make(src: &mut Src, v: &V) -> Value {
    match v {
        V::Null => Value::None,
        V::Bool(b) => match src.below(3) {
            0 => Value::from(*b),
            1 => ValueBuilder::boolean(*b).into(),
            _ => {
                let mut b = ValueBuilder::boolean(*b);
                let _ = Value::from(&mut b);
                (&mut b).into()
            }
        },
        V::Int(i) => {
            let i = *i;
            let small = match src.below(6) {
                0 => i8::try_from(i).ok().map(|i| (Value::from(i), Number::from(i))),
                1 => i16::try_from(i).ok().map(|i| (Value::from(i), Number::from(i))),
                2 => i32::try_from(i).ok().map(|i| (Value::from(i), Number::from(i))),
                _ => None,
            };
            let (a, b) = small.unwrap_or_else(|| (Value::from(i), Number::from(i)));
            match src.below(4) {
                0 => a,
                1 => Value::from(b),
                2 => ValueBuilder::number(b).into(),
                _ => ValueBuilder::integer(i).into(),
            }
        }
        V::Flt(f) => {
            let f = f64::from_bits(*f);
            let narrow = f as f32;
            match src.below(6) {
                0 if f64::from(narrow) == f => Value::from(narrow),
                1 if f64::from(narrow) == f => Value::from(Number::from(narrow)),
                2 => Value::from(Number::from(f)),
                3 => ValueBuilder::float(f).into(),
                4 => ValueBuilder::number(f.into()).into(),
                _ => Value::from(f),
            }
        }
        V::Str(s) => match src.below(3) {
            0 => Value::from(s.as_str()),
            1 => ValueBuilder::string(s).into(),
            _ => Value::from(s.clone()),
        },
        V::Arr(vs) => {
            let list: Vec<Value> = vs.iter().map(|v| make(src, v)).collect();
            match src.below(3) {
                0 => Value::from(list.as_slice()),
                1 => Value::from(list),
                _ => {
                    let mut b = if src.bool() { ArrayBuilder::default() } else { ValueBuilder::array() };
                    for (v, made) in vs.iter().zip(list) {
                        if src.chance(1, 8) {
                            // what is made of it on the way does not change it
                            let _ = Value::from(&mut b);
                        }
                        let _ = match v {
                            V::Int(i) => b.integer(*i),
                            V::Flt(f) if src.bool() => b.float(f64::from_bits(*f)),
                            V::Flt(f) => b.number(f64::from_bits(*f).into()),
                            V::Bool(x) => b.boolean(*x),
                            V::Str(s) => b.string(s),
                            _ => b.push(made),
                        };
                    }
                    if src.bool() {
                        let _ = Value::from(&mut b);
                        return (&mut b).into();
                    }
                    b.into()
                }
            }
        }
        V::Obj(vs) => {
            let map: ValueMap = vs.iter().map(|(k, v)| (k.clone(), make(src, v))).collect();
            if src.bool() {
                return Value::from(map);
            }
            let mut b = if src.bool() { ObjectBuilder::default() } else { ValueBuilder::object() };
            for (k, v) in vs {
                if src.chance(1, 8) {
                    // of two values with the same key the last one counts
                    let other = make(src, &V::Arr(vec![V::Bool(true)]));
                    let _ = Value::from(b.insert(k, other));
                }
                let _ = match v {
                    V::Int(i) => b.integer(k, *i),
                    V::Flt(f) if src.bool() => b.float(k, f64::from_bits(*f)),
                    V::Flt(f) => b.number(k, f64::from_bits(*f).into()),
                    V::Bool(x) => b.boolean(k, *x),
                    V::Str(s) if ShapeID::is_valid(s) && src.bool() => b.reference(k, s),
                    V::Str(s) => b.string(k, s),
                    _ => b.insert(k, map[k].clone()),
                };
            }
            if src.bool() {
                let _ = Value::from(&mut b);
                return (&mut b).into();
            }
            b.into()
        }
    }
}

fn values(src: &mut Src, case: &mut Case) -> Res {
    let c = Cfg::default();
    let v = gen_value(src, &c, 3);
    case.input(&("value", &v), true);
    case.sample(|| format!("value {:?}", v));
    case.tag("value");
    let made = guard("make", || make(src, &v))?;
    check!(from_value(&made) == v, "made", "{:?} is made of {:?}", made, v);
    check_value(&made)?;

    // texts
    match &made {
        Value::Number(n) => {
            let text = n.to_string();
            match n {
                Number::Integer(i) => check!(text == i.to_string(), "number-text", "{:?} prints as {}", n, text),
                Number::Float(f) => check!(text.parse::<f64>().map(f64::to_bits) == Ok(f.to_bits()), "number-text", "{:?} prints as {}", n, text),
            }
            check!(made.to_string() == text, "value-text", "{:?} prints as {}", made, made);
        }
        Value::Boolean(b) => check!(made.to_string() == b.to_string(), "value-text", "{:?} prints as {}", made, made),
        Value::String(s) => check!(made.to_string() == format!("\"{}\"", s), "value-text", "{:?} prints as {}", made, made),
        Value::Array(vs) => {
            let each: Vec<String> = vs.iter().map(|v| v.to_string()).collect();
            if !vs.iter().any(|v| v.is_object() || v.is_array()) {
                check!(made.to_string() == format!("[ {} ]", each.join(", ")), "value-text", "{:?} prints as {}", made, made);
            }
        }
        _ => {}
    }

    // equality
    let w = if src.bool() { v.clone() } else { gen_value(src, &c, 2) };
    let other = make(src, &w);
    check!((made == other) == v_eq(&v, &w), "equal", "{:?} == {:?} is {}", made, other, made == other);
    let id = an_id(src);
    check!(Value::from(&id) == Value::String(id.to_string()) && Value::from(id.clone()) == Value::from(&id), "id-value", "{} becomes {:?}", id, Value::from(&id));
    Ok(())
}

/// Each value is exactly one kind of value, and gives what it has.
fn check_value(v: &Value) -> Res {
    let is = [v.is_array(), v.is_object(), v.is_number(), v.is_boolean(), v.is_string(), v.is_none()];
    let has = [v.as_array().is_some(), v.as_object().is_some(), v.as_number().is_some(), v.as_boolean().is_some(), v.as_string().is_some()];
    let (at, same) = match v {
        Value::Array(x) => (0, v.as_array() == Some(x)),
        Value::Object(x) => (1, v.as_object() == Some(x)),
        Value::Number(x) => (2, v.as_number() == Some(x)),
        Value::Boolean(x) => (3, v.as_boolean() == Some(x)),
        Value::String(x) => (4, v.as_string() == Some(x)),
        Value::None => (5, true),
    };
    for (i, b) in is.iter().enumerate() {
        check!(*b == (i == at), "is", "{:?}: {:?}", v, is);
    }
    for (i, b) in has.iter().enumerate() {
        check!(*b == (i == at), "as", "{:?}: {:?}", v, has);
    }
    check!(same, "as", "{:?} is not what it has", v);
    match v {
        Value::Array(vs) => vs.iter().try_for_each(check_value),
        Value::Object(vs) => vs.values().try_for_each(check_value),
        _ => Ok(()),
    }
}

// ------------------------------------------------------------------------------------------------

fn kinds(src: &mut Src, case: &mut Case) -> Res {
    let c = Cfg { max_shapes: 4, ..Cfg::default() };
    let md = gen_model(src, &c);
    case.input(&("kinds", &md), !md.shapes.is_empty());
    case.sample(|| format!("kinds {:?}", md));
    case.tag("kinds");
    let m = to_model(&md);
    for shape in m.shapes() {
        let id = shape.id().to_string();
        let want = &md.shapes[&id];
        let b = shape.body();
        let of_body = [
            b.is_simple(),
            b.is_list(),
            b.is_set(),
            b.is_map(),
            b.is_structure(),
            b.is_union(),
            b.is_service(),
            b.is_operation(),
            b.is_resource(),
            b.is_unresolved(),
        ];
        let of_shape = [
            shape.is_simple(),
            shape.is_list(),
            shape.is_set(),
            shape.is_map(),
            shape.is_structure(),
            shape.is_union(),
            shape.is_service(),
            shape.is_operation(),
            shape.is_resource(),
            shape.is_unresolved(),
        ];
        let parts = [
            b.as_simple().is_some(),
            b.as_list().is_some(),
            b.as_set().is_some(),
            b.as_map().is_some(),
            b.as_structure().is_some(),
            b.as_union().is_some(),
            b.as_service().is_some(),
            b.as_operation().is_some(),
            b.as_resource().is_some(),
        ];
        let at = match &want.kind {
            K::Simple(_) => 0,
            K::List(_) => 1,
            K::Set(_) => 2,
            K::Map(_, _) => 3,
            K::Struct(_) => 4,
            K::Union(_) => 5,
            K::Service(_) => 6,
            K::Operation(_) => 7,
            K::Resource(_) => 8,
            K::Unresolved => 9,
        };
        for i in 0..10 {
            check!(of_body[i] == (i == at), "kind-is", "{} is a {}, but {:?}", id, want.kind.name(), of_body);
            check!(of_shape[i] == (i == at), "kind-is", "{} is a {}, but {:?}", id, want.kind.name(), of_shape);
            check!(i == 9 || parts[i] == (i == at), "kind-as", "{} is a {}, but {:?}", id, want.kind.name(), parts);
        }
        check!(shape.is_prelude_shape() == (ns_of(&id) == "smithy.api"), "prelude-shape", "{}: {}", id, shape.is_prelude_shape());

        // members by name, in any case
        let members = members_of(&want.kind);
        let mut asked: Vec<String> = vec!["member".into(), "key".into(), "value".into(), gen_name(src, true)];
        asked.extend(members.iter().map(|(n, _)| n.clone()));
        for n in asked {
            let n = if src.chance(1, 4) { n.to_uppercase() } else { n };
            let want = members.iter().find(|(m, _)| m.eq_ignore_ascii_case(&n));
            let got = shape.member(&ident(&n));
            check!(shape.has_member(&ident(&n)) == want.is_some(), "has-member", "{} has a member {}: {}", id, n, want.is_none());
            match (want, got) {
                (None, None) => {}
                (Some((name, w)), Some(g)) => {
                    check!(from_member(g) == **w && g.id().to_string() == *name, "member", "{}${} is {:?} not {:?}", id, n, g, w);
                }
                (w, g) => fail!("member", "{}${} is {:?} not {:?}", id, n, g, w),
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------

const SOURCES: [&str; 2] = ["client", "server"];
const VERSIONS: [&str; 2] = ["1.0", "1"];
const FORMATS: [&str; 3] = ["json", "smithy", "uml"];

/// A name, or something like it.
fn near(src: &mut Src, names: &[&str]) -> String {
    let mut n = src.choose(names).to_string();
    match src.weighted(&[4, 1, 1, 1, 1, 1, 1]) {
        0 => {}
        1 => n = n.to_uppercase(),
        2 => n = n[..1].to_uppercase() + &n[1..],
        3 => n.push_str(src.pick(&[" ", "s", "0", ".0", "\n"])),
        4 => n.insert_str(0, src.pick(&[" ", "v", "0", "Big"])),
        5 => {
            n.pop();
        }
        _ => n = gen_text(src, Text::Wild),
    }
    n
}

fn names(src: &mut Src, case: &mut Case) -> Res {
    let s = src.pick(&[0, 1, 2, 3, 4]);
    let known: &[&str] = [&SIMPLES[..], &VERSIONS, &SOURCES, &FORMATS, &[]][s];
    let text = if s == 4 {
        match src.below(4) {
            0 => gen_name(src, true),
            1 => format!("{}#{}", src.pick(&["a.b", "one", "smithy.api"]), gen_name(src, true)),
            2 => format!("{}#{}${}", src.pick(&["a.b", "example.one", "one"]), gen_name(src, true), gen_name(src, true)),
            _ => near(src, &["a.b#C", "C$d", "a.b", "#C", "a#b$c$d"]),
        }
    } else {
        near(src, known)
    };
    let want = known.contains(&text.as_str());
    case.input(&("name", s, &text), true);
    case.sample(|| format!("name {} {:?}", s, text));
    case.tag("name");
    let got: Result<String, String> = guard("parse", || match s {
        0 => Simple::from_str(&text).map(|x| x.to_string()).map_err(|e| e.to_string()),
        1 => Version::from_str(&text).map(|x| x.to_string()).map_err(|e| e.to_string()),
        2 => ErrorSource::from_str(&text).map(|x| x.to_string()).map_err(|e| e.to_string()),
        3 => cargo_atelier::FileFormat::from_str(&text).map(|x| x.to_string()).map_err(|e| e.to_string()),
        _ => ShapeName::from_str(&text).map(|x| x.to_string()).map_err(|e| e.to_string()),
    })?;
    if s == 4 {
        let id = ShapeID::from_str(&text).ok();
        let local = atelier_core::model::Identifier::from_str(&text).ok();
        check!(got.is_ok() == (id.is_some() || local.is_some()), "shape-name", "{:?} is read as {:?}", text, got);
        if let Ok(n) = ShapeName::from_str(&text) {
            check!(n.to_string() == text, "shape-name", "{:?} prints as {}", text, n);
            check!(n.is_qualified() == id.is_some() && n.is_local() == local.is_some(), "shape-name", "{:?} is {:?}", text, n);
            check!(n.as_qualified() == id.as_ref() && n.as_local() == local.as_ref(), "shape-name", "{:?} is {:?}", text, n);
            check!(n.namespace() == id.as_ref().map(|i| i.namespace()), "shape-name", "namespace of {:?}", n);
            check!(n.member_name() == id.as_ref().and_then(|i| i.member_name().as_ref()), "shape-name", "member of {:?}", n);
            let name = id.as_ref().map(|i| i.shape_name().clone()).or_else(|| local.clone());
            check!(Some(n.shape_name()) == name.as_ref(), "shape-name", "name of {:?}", n);
            // an id that is the same, the same in another case, without its member, or any other
            let other = match (src.below(4), &id, &local) {
                (0, Some(i), _) => i.clone(),
                (1, Some(i), _) => sid(&i.to_string().to_uppercase()),
                (2, Some(i), _) => sid(i.to_string().split('$').next().unwrap()),
                (0, None, Some(l)) => sid(&format!("a.b#{}", l)),
                (1, None, Some(l)) => sid(&format!("a.b#{}", l.to_string().to_lowercase())),
                _ => sid("a.b#C"),
            };
            check!(n.eq_qualified(&other) == (id.as_ref() == Some(&other)), "shape-name", "{:?} equals {}", n, other);
            check!(n.eq_local(other.shape_name()) == (local.as_ref() == Some(other.shape_name())), "shape-name", "{:?} equals {}", n, other.shape_name());
        }
        return Ok(());
    }
    check!(got.is_ok() == want, "name", "{:?} is read as {:?}, the names are {:?}", text, got, known);
    match got {
        Ok(t) => check!(t == text || (s == 1 && t == "1.0"), "name-text", "{:?} prints as {:?}", text, t),
        Err(e) => check!(!e.is_empty(), "no-message", "{:?} is refused without a message", text),
    }
    if s == 0 && want {
        check!(simple_name(&Simple::from_str(&text).unwrap()) == text, "name", "{} is read as {:?}", text, Simple::from_str(&text));
    }
    if s == 2 && want {
        check!(matches!((ErrorSource::from_str(&text).unwrap(), &*text), (ErrorSource::Client, "client") | (ErrorSource::Server, "server")), "name", "{}", text);
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------

fn issues(src: &mut Src, case: &mut Case) -> Res {
    let reporter = gen_text(src, Text::Wild);
    let message = format!("{}.", gen_text(src, Text::Wild));
    let at = src.bool().then(|| an_id(src));
    let l = src.usize(3);
    let level = [IssueLevel::Info, IssueLevel::Warning, IssueLevel::Error][l].clone();
    let name = ["info", "warning", "error"][l];
    case.input(&("issue", &reporter, &message, at.as_ref().map(|i| i.to_string()), l), true);
    case.sample(|| format!("issue {} {:?} {:?} {:?}", name, reporter, message, at));
    case.tag("issue");
    let short = src.bool();
    let issue = match (short, l, at.clone()) {
        (false, _, None) => ActionIssue::new(level.clone(), &reporter, &message),
        (false, _, Some(a)) => ActionIssue::new_at(level.clone(), &reporter, &message, a),
        (_, 0, None) => ActionIssue::info(&reporter, &message),
        (_, 0, Some(a)) => ActionIssue::info_at(&reporter, &message, a),
        (_, 1, None) => ActionIssue::warning(&reporter, &message),
        (_, 1, Some(a)) => ActionIssue::warning_at(&reporter, &message, a),
        (_, _, None) => ActionIssue::error(&reporter, &message),
        (_, _, Some(a)) => ActionIssue::error_at(&reporter, &message, a),
    };
    check!(issue.level() == &level, "issue", "level {:?} not {:?}", issue.level(), level);
    check!(issue.reporter() == &reporter, "issue", "reporter {:?} not {:?}", issue.reporter(), reporter);
    check!(issue.message() == &message, "issue", "message {:?} not {:?}", issue.message(), message);
    check!(issue.locus() == &at, "issue", "locus {:?} not {:?}", issue.locus(), at);
    check!(level.to_string() == name, "issue", "{:?} prints as {}", level, level);
    let text = issue.to_string();
    let place = at.map(|i| format!(" {}", i)).unwrap_or_default();
    check!(text == format!("{} {}{}: {}", reporter, name, place, message), "issue-text", "{:?} prints as {:?}", issue, text);
    Ok(())
}

// ------------------------------------------------------------------------------------------------

/// Shapes of the prelude that are not traits, but that traits use.
const PRELUDE_HELPERS: [&str; 13] = [
    "AuthTraitReference", "EnumConstantBodyName", "EnumDefinition", "Example", "HttpApiKeyLocations", "NonEmptyString",
    "NonEmptyStringList", "NonEmptyStringMap", "Reference", "StructurallyExclusive", "TraitShapeId", "TraitShapeIdList",
    "recommended",
];

fn prelude(src: &mut Src, case: &mut Case) -> Res {
    let pool: BTreeSet<&str> = PRELUDE_SHAPES.iter().chain(&PRELUDE_TRAITS).cloned().collect();
    let pool: Vec<&str> = pool.into_iter().collect();
    let n = near(src, &pool);
    case.input(&("prelude", &n), true);
    case.sample(|| format!("prelude {:?}", n));
    case.tag("prelude");
    check!(prelude_namespace_id().to_string() == "smithy.api", "prelude", "the prelude is {}", prelude_namespace_id());
    check!(defined_prelude_shapes().contains(n.as_str()) == PRELUDE_SHAPES.contains(&n.as_str()), "prelude", "{:?} is a shape of the prelude", n);
    if !PRELUDE_HELPERS.contains(&n.as_str()) {
        check!(defined_prelude_traits().contains(n.as_str()) == PRELUDE_TRAITS.contains(&n.as_str()), "prelude", "{:?} is a trait of the prelude", n);
    }
    let got = guard("prelude_shape_named", || prelude_shape_named(&n))?;
    let want = format!("smithy.api#{}", n);
    match got {
        Ok(id) => check!(id.to_string() == want && ShapeID::is_valid(&want), "prelude", "{:?} becomes {}", n, id),
        Err(_) => check!(!ShapeID::is_valid(&want) || n.contains('$'), "prelude", "{:?} is refused", n),
    }
    Ok(())
}

pub static P33: Prop = Prop {
    id: "P33",
    quick: 3_000_000,
    thorough: 20_000_000,
    rule: "values made in each way there is, shapes of each kind, names and texts like them, issues, and names in the prelude; non-trivial: all but empty models",
    assumptions: &["an independent list of the names in the Smithy 1.0 prelude"],
    run: p33,
    explicit: no_explicit,
    known: no_known,
};
