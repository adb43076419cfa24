//! P27: selecting the shapes of a model by type.

use crate::engine::*;
use crate::model::*;
use crate::props::p03_model::respelled;
use crate::props::p15_selector::TYPES;
use crate::{check, fail};
use atelier_core::model::selector::{Selector, SelectorExpression, ShapeType};
use atelier_core::model::ShapeID;
use atelier_query::evaluate::query;
use atelier_query::Projection;
use atelier_smithy::parse_selector;
use std::collections::BTreeSet;

/// What the documentation of the shape types has each match.
fn matches(ty: &str, k: &K) -> bool {
    match (ty, k) {
        ("*", _) => true,
        ("number", K::Simple(n)) => {
            ["byte", "short", "integer", "long", "float", "double", "bigDecimal", "bigInteger"].contains(n)
        }
        ("simpleType", K::Simple(_)) => true,
        ("collection", K::List(_) | K::Set(_)) => true,
        (_, K::Unresolved) => false,
        (t, k) => t == k.name(),
    }
}

fn p27(src: &mut Src, case: &mut Case) -> Res {
    let c = Cfg { text: Text::Plain, depth: 0, max_shapes: 16, namespaces: vec!["example.one", "example.two", "smithy.api", "a"], ..Cfg::default() };
    let mut md = gen_model(src, &c);
    if src.chance(1, 8) {
        md = respelled(src, &md);
        case.tag("names in several cases");
    }
    let m = to_model_shuffled(&md, src);
    // a mere reference is no shape of the model
    md.shapes.retain(|_, s| s.kind != K::Unresolved);
    let shapes: Vec<&K> = md.shapes.values().map(|s| &s.kind).collect();
    let wanted = if shapes.is_empty() { None } else { Some(shapes[src.below(shapes.len() as u64) as usize]) };
    let types: Vec<(&str, ShapeType)> = src.list(0, 5, |s| {
        let some: Vec<&(&str, ShapeType)> = match wanted {
            Some(k) if s.chance(3, 4) => TYPES.iter().filter(|(t, _)| matches(t, k)).collect(),
            _ => TYPES.iter().collect(),
        };
        (*s.pick(&some)).clone()
    });
    // members are shapes of another kind, which this evaluator does not have
    let types: Vec<_> = types.into_iter().filter(|(n, _)| *n != "member").collect();
    let text = types.iter().map(|(n, _)| *n).collect::<Vec<_>>().join(" ");
    let selector = if !types.is_empty() && src.bool() {
        parse_selector(&text).map_err(|e| Fail::new("parse", e.to_string()))?
    } else {
        let es: Vec<SelectorExpression> = types.iter().map(|(_, t)| t.clone().into()).collect();
        Selector::from(es)
    };
    case.input(&(&md, &text), rich(&md) && !types.is_empty());
    case.sample(|| format!("{} of {:?}", text, md.shapes.iter().map(|(k, s)| format!("{}: {}", k, s.kind.name())).collect::<Vec<_>>()));
    let want: BTreeSet<&Sid> =
        md.shapes.iter().filter(|(_, s)| types.iter().all(|(t, _)| matches(t, &s.kind))).map(|(i, _)| i).collect();
    case.tag(match want.len() {
        0 => "none",
        n if n == md.shapes.len() => "all",
        _ => "some",
    });
    let got = guard("query", || query(&selector, &m))?;
    let ids: Vec<ShapeID> = match (got.as_shapes(), got.is_empty()) {
        (Some(s), false) => s.cloned().collect(),
        (None, true) => vec![],
        _ => fail!("projection", "selecting shapes gave {:?}", got),
    };
    check!(got.is_shapes() == got.as_shapes().is_some() && !got.is_members() && !got.is_values(), "projection", "what is {:?}?", got);
    check!(got.as_members().is_none() && got.as_values().is_none(), "projection", "what is {:?}?", got);
    let texts: BTreeSet<String> = ids.iter().map(|i| i.to_string()).collect();
    let want: BTreeSet<String> = want.into_iter().cloned().collect();
    check!(texts == want, "selected", "{} selects {:?}, not {:?}", text, texts, want);
    check!(texts.len() == ids.len(), "twice", "{} selects {:?}", text, ids);
    let all: BTreeSet<String> = Projection::from(&m).as_shapes().into_iter().flatten().map(|i| i.to_string()).collect();
    check!(all == md.shapes.keys().cloned().collect(), "all", "the projection of the model is {:?}", all);
    Ok(())
}

/// For the `query` subcommand.
pub fn query_only() {
    let mut src = Src::random(7);
    let m = to_model(&gen_model(&mut src, &Cfg::default()));
    let _ = query(&Selector::from(vec![SelectorExpression::ShapeType(ShapeType::Any)]), &m);
}

fn quiet() -> Res {
    let exe = std::env::current_exe().map_err(|e| Fail::new("internal", e.to_string()))?;
    let out = std::process::Command::new(&exe).arg("query").output().map_err(|e| Fail::new("internal", e.to_string()))?;
    check!(out.stdout.is_empty(), "stdout", "a query writes {:?} to standard output", String::from_utf8_lossy(&out.stdout));
    Ok(())
}

pub static P27: Prop = Prop {
    id: "P27",
    quick: 500_000,
    thorough: 2_000_000,
    rule: "a generated model is queried by up to three shape types in a row, built or parsed, and the ids selected are compared with those the documentation of the types matches; non-trivial: a rich model and at least one type",
    assumptions: &[
        "selection by anything but shape types is not implemented in this crate, and neither are members",
        "a reference to a shape that is not there is not a shape of the model",
    ],
    run: p27,
    explicit: || vec![Explicit { name: "a query writes nothing to standard output".into(), run: Box::new(quiet) }],
    known: no_known,
};
