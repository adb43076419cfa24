//! P03 the model as a container, P04 shape merging, P05 trait conflicts, P06 metadata and model
//! merging.

use crate::engine::*;
use crate::model::*;
use crate::{check, fail};
use atelier_core::error::ErrorKind;
use atelier_core::model::shapes::{
    HasTraits, ListOrSet, Map, MemberShape, Operation, Resource, Service, ShapeKind, StructureOrUnion, TopLevelShape,
};
use atelier_core::model::{HasIdentity, Model, ShapeID};
use atelier_core::Version;
use std::collections::{BTreeMap, BTreeSet, HashMap};

// ------------------------------------------------------------------------------------------------
// P03
// ------------------------------------------------------------------------------------------------

fn recase_name(src: &mut Src, id: &str) -> String {
    if src.chance(1, 5) {
        id.to_uppercase()
    } else {
        id.to_string()
    }
}

/// A history of additions, removals and replacements against a map.
fn p03(src: &mut Src, case: &mut Case) -> Res {
    match src.weighted(&[4, 1, 2, 2, 1]) {
        0 => history(src, case),
        1 => members(src, case),
        2 => collections(src, case),
        3 => shape_views(src, case),
        _ => parts(src, case),
    }
}

fn history(src: &mut Src, case: &mut Case) -> Res {
    case.tag("model history");
    let c = Cfg { max_shapes: 6, depth: 2, ..Cfg::default() };
    let mut ids = gen_ids(src, &c, 2);
    if src.chance(1, 3) {
        // a member can only be referred to
        let id = src.pick(&ids);
        let member = format!("{}${}", id, gen_ident(src));
        ids.push(member);
    }
    let keys = ["author", "version", "", "a key", "Ünï", "Author"];
    let mut model = Model::new(Version::V10);
    let mut want = Md::default();
    let mut log: Vec<String> = Vec::new();
    let steps = src.list(1, 16, |s| s.weighted(&[5, 2, 2, 3, 1, 2]));
    for step in steps {
        let i = src.pick(&ids);
        let probe = recase_name(src, &i);
        match step {
            0 => {
                let s = S { traits: gen_traits(src, &c), kind: if src.chance(1, 5) { K::Unresolved } else { gen_kind(src, &c, &ids) } };
                let known = want.shapes.contains_key(&i);
                log.push(format!("add {} {}{}", i, s.kind.name(), if known { " (again)" } else { "" }));
                if is_member_id(&i) && s.kind != K::Unresolved && !known {
                    let r = guard("add_shape", || model.add_shape(to_shape(&i, &s)))?;
                    case.tag("a member as a shape");
                    check!(r.is_err(), "add-member", "adding {} as a {} is accepted", i, s.kind.name());
                } else if known {
                    // the same definition again changes nothing but array-valued traits
                    let mut again = want.shapes[&i].clone();
                    again.traits = T::new();
                    strip_member_traits(&mut again.kind);
                    let r = guard("add_shape", || model.add_shape(to_shape(&i, &again)))?;
                    check!(r.is_ok(), "re-add", "adding the same definition of {} again failed: {:?}", i, r.err());
                } else {
                    let r = guard("add_shape", || model.add_shape(to_shape(&i, &s)))?;
                    check!(r.is_ok(), "add", "adding {} failed: {:?}", i, r.err());
                    want.shapes.insert(i.clone(), s);
                }
            }
            1 => {
                log.push(format!("remove {}", probe));
                let got = model.remove_shape(&sid(&probe));
                let had = want.shapes.remove(&i);
                check!(got.is_some() == had.is_some(), "remove-result", "remove_shape({}) = {:?}, had {:?}", probe, got, had);
                if let (Some(g), Some(h)) = (got, had) {
                    let g = S { traits: from_traits(g.traits()), kind: from_kind(g.body()) };
                    check!(g == h, "remove-value", "remove_shape({}) = {:?}, had {:?}", probe, g, h);
                }
            }
            2 => {
                let kind = if is_member_id(&i) { K::Unresolved } else { gen_kind(src, &c, &ids) };
                log.push(format!("replace body of {} by {}", probe, kind.name()));
                match (model.shape_mut(&sid(&probe)), want.shapes.get_mut(&i)) {
                    (Some(g), Some(w)) => {
                        g.set_body(to_kind(&kind));
                        w.kind = kind;
                    }
                    (None, None) => {}
                    (g, w) => fail!("shape-mut", "shape_mut({}) found: {}, expected {}", probe, g.is_some(), w.is_some()),
                }
            }
            3 => {
                let k = src.pick(&keys).to_string();
                let v = gen_value(src, &c, 2);
                let wanted = match want.meta.get(&k) {
                    Some(old) => merge_meta(old, &v),
                    None => Ok(v.clone()),
                };
                log.push(format!("metadata {:?} = {:?}", k, v));
                let r = guard("add_metadata", || model.add_metadata(k.clone(), to_value(&v)))?;
                check!(r.is_ok() == wanted.is_ok(), "metadata-add", "add_metadata({:?}, {:?}) = {:?}, want {:?}", k, v, r, wanted);
                if let Ok(w) = wanted {
                    want.meta.insert(k, w);
                }
            }
            4 => {
                let k = src.pick(&keys).to_string();
                log.push(format!("remove metadata {:?}", k));
                let got = model.remove_metadata(&k).map(|v| from_value(&v));
                let had = want.meta.remove(&k);
                check!(got == had, "metadata-remove", "remove_metadata({:?}) = {:?}, had {:?}", k, got, had);
            }
            _ => {
                // a member id is only allowed for an unresolved shape
                let s = S { traits: gen_traits(src, &c), kind: gen_kind(src, &c, &ids) };
                let id = format!("{}$m", i);
                log.push(format!("add member id {} {}", id, s.kind.name()));
                let r = guard("add_shape", || model.add_shape(to_shape(&id, &s)))?;
                check!(r.is_err(), "member-shape", "a {} with the member id {} was accepted", s.kind.name(), id);
            }
        }
        views(&model, &want, &ids, &keys)?;
    }
    case.input(&format!("{:?}{:?}", log, want), want.shapes.len() > 1 || log.iter().any(|l| l.starts_with("remove")));
    case.tag_if(log.iter().any(|l| l.contains("(again)")), "re-added shape");
    case.sample(|| log.join("; "));
    Ok(())
}

fn strip_member_traits(k: &mut K) {
    match k {
        K::List(m) | K::Set(m) => m.traits.clear(),
        K::Map(a, b) => {
            a.traits.clear();
            b.traits.clear();
        }
        K::Struct(m) | K::Union(m) => m.values_mut().for_each(|m| m.traits.clear()),
        _ => {}
    }
}

fn views(model: &Model, want: &Md, ids: &[Sid], keys: &[&str]) -> Res {
    let got = from_model(model)?;
    if let Some(d) = diff(want, &got) {
        fail!("content", "{}", d);
    }
    check!(model.has_shapes() == !want.shapes.is_empty(), "has-shapes", "has_shapes() = {}", model.has_shapes());
    check!(model.has_metadata() == !want.meta.is_empty(), "has-metadata", "has_metadata() = {}", model.has_metadata());
    for i in ids {
        for text in [i.clone(), i.to_uppercase()] {
            let id = sid(&text);
            let there = want.shapes.contains_key(i);
            check!(model.has_shape(&id) == there, "has-shape", "has_shape({}) = {}", text, !there);
            let s = model.shape(&id);
            check!(s.is_some() == there, "shape", "shape({}) found: {}", text, !there);
            if let Some(s) = s {
                check!(s.is(&sid(i)), "shape-id", "shape({}) has id {}", text, s.id());
            }
        }
    }
    for k in keys {
        let there = want.meta.get(*k);
        check!(model.has_metadata_value(k) == there.is_some(), "has-metadata-value", "has_metadata_value({:?}) = {}", k, there.is_none());
        let got = model.metadata_value(k).map(from_value);
        check!(got.as_ref() == there, "metadata-value", "metadata_value({:?}) = {:?}", k, got);
    }
    let set = |f: &dyn Fn(&S) -> bool| -> BTreeSet<String> {
        want.shapes.iter().filter(|(_, s)| f(s)).map(|(k, _)| k.clone()).collect()
    };
    let defined = set(&|s| s.kind != K::Unresolved);
    let open = set(&|s| s.kind == K::Unresolved);
    let got: BTreeSet<String> = model.shape_names().map(|i| i.to_string()).collect();
    check!(got == defined, "shape-names", "shape_names() = {:?}, want {:?}", got, defined);
    check!(model.shape_names().count() == defined.len(), "shape-names-count", "shape_names() repeats an id");
    let got: BTreeSet<String> = model.unresolved_shape_names().map(|i| i.to_string()).collect();
    check!(got == open, "unresolved-names", "unresolved_shape_names() = {:?}, want {:?}", got, open);
    check!(model.is_complete() == open.is_empty(), "is-complete", "is_complete() = {} with unresolved {:?}", model.is_complete(), open);
    let ns: BTreeSet<String> = model.namespaces().iter().map(|n| n.to_string().to_lowercase()).collect();
    let want_ns: BTreeSet<String> = defined.iter().map(|i| ns_of(i).to_lowercase()).collect();
    check!(ns == want_ns, "namespaces", "namespaces() = {:?}, want {:?}", ns, want_ns);
    Ok(())
}

/// A structure's members against a map keyed by the case-folded name.
fn members(src: &mut Src, case: &mut Case) -> Res {
    case.tag("structure members");
    let names = ["a", "b", "fooBar", "cityId", "_x", "zz9"];
    let known = |n: &str| names.iter().find(|m| m.eq_ignore_ascii_case(n)).map(|m| m.to_string()).unwrap_or_default();
    let c = Cfg { depth: 1, ..Cfg::default() };
    let ids = vec!["x.y#Foo".to_string()];
    let mut body = StructureOrUnion::new();
    let mut want: BTreeMap<String, Mem> = BTreeMap::new();
    let mut log = Vec::new();
    if src.bool() {
        // of members given twice the last one counts
        let given = src.list(0, 5, |s| (s.pick(&names).to_string(), gen_member(s, &c, &ids)));
        log.push(format!("with {:?}", given));
        body = StructureOrUnion::with_members(&given.iter().map(|(n, m)| to_member(n, m)).collect::<Vec<_>>());
        want = given.into_iter().collect();
    }
    for step in src.list(1, 12, |s| s.usize(3)) {
        let n = src.pick(&names).to_string();
        match step {
            0 => {
                let m = gen_member(src, &c, &ids);
                log.push(format!("add {} -> {}", n, m.target));
                let spelt = recase_name(src, &n);
                let old = body.add_a_member(to_member(&spelt, &m));
                let had = want.insert(n.clone(), m);
                check!(old.as_ref().map(from_member) == had, "member-replace", "adding {} returned {:?}, had {:?}", n, old, had);
            }
            1 => {
                let t = gen_ref(src, &c, &ids);
                log.push(format!("add {} -> {}", n, t));
                body.add_member(ident(&recase_name(src, &n)), sid(&t));
                want.insert(n.clone(), Mem { target: t, traits: T::new() });
            }
            _ => {
                log.push(format!("remove {}", n));
                let old = body.remove_member(&ident(&n.to_uppercase()));
                let had = want.remove(&n);
                check!(old.as_ref().map(from_member) == had, "member-remove", "removing {} returned {:?}, had {:?}", n, old, had);
            }
        }
        let got: BTreeMap<String, Mem> = body.members().map(|m| (known(&m.id().to_string()), from_member(m))).collect();
        check!(got == want && body.members().count() == want.len(), "members", "members() = {:?}, want {:?}", got, want);
        check!(body.has_members() == !want.is_empty(), "has-members", "has_members() = {}", body.has_members());
        for n in &names {
            let id = ident(n);
            check!(body.has_member(&id) == want.contains_key(*n), "has-member", "has_member({}) = {}", n, body.has_member(&id));
            let m = body.member(&id).map(from_member);
            check!(m.as_ref() == want.get(*n), "member", "member({}) = {:?}", n, m);
        }
    }
    case.input(&log, log.len() > 1);
    case.sample(|| log.join("; "));
    Ok(())
}

fn texts<'a>(i: impl Iterator<Item = &'a ShapeID>) -> Vec<String> {
    i.map(|x| x.to_string()).collect()
}

/// The list- and map-valued properties of services, operations and resources.
fn collections(src: &mut Src, case: &mut Case) -> Res {
    case.tag("service, operation, resource collections");
    let pool = ["a.b#One", "a.b#Two", "c#Three", "smithy.api#String"];
    // where any id may be given, the same ones in another case too
    let spelt = ["a.b#One", "a.b#Two", "c#Three", "smithy.api#String", "A.b#one", "a.b#TWO"];
    let mut svc = Service::new("1");
    let mut opn = Operation::default();
    let mut rsc = Resource::default();
    // one reference list per collection
    let mut want: Vec<Vec<String>> = vec![Vec::new(); 6];
    let mut renames: BTreeMap<String, String> = BTreeMap::new();
    let mut idents: BTreeMap<String, String> = BTreeMap::new();
    let mut life: [Option<String>; 6] = Default::default();
    let mut log = Vec::new();
    macro_rules! edit {
        ($which:expr, $op:expr, $s:expr, $extra:expr, $obj:ident, $add:ident, $append:ident, $set:ident, $remove:ident, $all:ident, $has:ident) => {{
            match $op {
                0 => {
                    $obj.$add(sid($s));
                    want[$which].push($s.to_string());
                }
                1 => {
                    let more = [$s, $extra, $s, $extra, $extra];
                    let more = &more[..src.pick(&[2, 2, 1, 0, 5])];
                    $obj.$append(&more.iter().map(|s| sid(s)).collect::<Vec<_>>());
                    want[$which].extend(more.iter().map(|s| s.to_string()));
                }
                2 => {
                    let now = [$s, $extra, $s];
                    let now = &now[..src.pick(&[1, 2, 0, 3])];
                    $obj.$set(&now.iter().map(|s| sid(s)).collect::<Vec<_>>());
                    want[$which] = now.iter().map(|s| s.to_string()).collect();
                }
                _ => {
                    $obj.$remove(&sid(&recase_name(src, $s)));
                    want[$which].retain(|x| !x.eq_ignore_ascii_case($s));
                }
            }
            let got = texts($obj.$all());
            check!(got == want[$which], "collection", "{} = {:?}, want {:?}", stringify!($all), got, want[$which]);
            check!($obj.$has() != want[$which].is_empty(), "has-collection", "{}() = {}", stringify!($has), $obj.$has());
        }};
    }
    let mut inout: [Option<String>; 2] = Default::default();
    let mut version = "1".to_string();
    for (which, op) in src.list(1, 20, |s| (s.usize(12), s.usize(4))) {
        let s = if which == 6 || which == 10 { src.pick(&pool) } else { src.pick(&spelt) };
        let x = src.pick(&spelt);
        log.push(format!("{}.{} {}", which, op, s));
        match which {
            0 => edit!(0, op, s, x, svc, add_operation, append_operations, set_operations, remove_operation, operations, has_operations),
            1 => edit!(1, op, s, x, svc, add_resource, append_resources, set_resources, remove_resource, resources, has_resources),
            2 => edit!(2, op, s, x, opn, add_error, append_errors, set_errors, remove_error, errors, has_errors),
            3 => edit!(3, op, s, x, rsc, add_operation, append_operations, set_operations, remove_operation, operations, has_operations),
            4 => edit!(4, op, s, x, rsc, add_collection_operation, append_collection_operations, set_collection_operations, remove_collection_operation, collection_operations, has_collection_operations),
            5 => edit!(5, op, s, x, rsc, add_resource, append_resources, set_resources, remove_resource, resources, has_resources),
            6 => {
                if op < 2 {
                    let local = src.pick(&["Local", "LOCAL", "Other"]);
                    let old = svc.insert_rename_shape(sid(s), ident(local)).map(|i| i.to_string());
                    let had = renames.insert(s.to_string(), local.into());
                    check!(old == had, "rename-insert", "insert_rename_shape({}) = {:?}", s, old);
                } else {
                    let old = svc.remove_rename_shape(&sid(s)).map(|i| i.to_string());
                    let had = renames.remove(s);
                    check!(old == had, "rename-remove", "remove_rename_shape({}) = {:?}", s, old);
                }
                let got: BTreeMap<String, String> = svc.renames().map(|(k, v)| (k.to_string(), v.to_string())).collect();
                check!(got == renames, "renames", "{:?}", got);
                for p in pool {
                    check!(svc.has_rename_shape(&sid(p)) == renames.contains_key(p), "has-rename", "{}", p);
                }
                check!(svc.has_renames() == !renames.is_empty(), "has-renames", "{:?}", renames);
                for p in pool {
                    let got = svc.contains_rename_shape(&sid(&p.to_uppercase())).map(|i| i.to_string());
                    check!(got.as_ref() == renames.get(p), "rename", "contains_rename_shape({}) = {:?}", p, got);
                }
            }
            7 => {
                let n = src.pick(&["id", "name", "k"]);
                if op < 3 {
                    let old = rsc.add_identifier(ident(n), sid(s)).map(|i| i.to_string());
                    let had = idents.insert(n.to_string(), s.to_string());
                    check!(old == had, "identifier-add", "add_identifier({}) = {:?}", n, old);
                } else {
                    let old = rsc.remove_identifier(&ident(n)).map(|i| i.to_string());
                    let had = idents.remove(n);
                    check!(old == had, "identifier-remove", "remove_identifier({}) = {:?}", n, old);
                }
                let got: BTreeMap<String, String> = rsc.identifiers().map(|(k, v)| (k.to_string(), v.to_string())).collect();
                check!(got == idents, "identifiers", "{:?}", got);
                for p in ["id", "name", "k"] {
                    let i = ident(p);
                    check!(rsc.has_identifier(&i) == idents.contains_key(p), "has-identifier", "has_identifier({}) = {}", p, rsc.has_identifier(&i));
                    check!(rsc.identifier(&i).map(|x| x.to_string()) == idents.get(p).cloned(), "identifier", "{}", p);
                }
                check!(rsc.has_identifiers() == !idents.is_empty(), "has-identifiers", "{:?}", idents);
            }
            8 => {
                // anything but another operation, resource or service, which is ignored
                let shape = any_shape(src, s);
                let fits = !matches!(kind_of(&shape), "operation" | "resource" | "service" | "unresolved");
                let at = src.usize(3);
                log.push(format!("of a {}, {}", kind_of(&shape), at));
                match (op, at) {
                    (_, 2) => {
                        opn.add_error_shape(&shape);
                        if fits {
                            want[2].push(s.to_string());
                        }
                    }
                    (0, 0) => opn.set_input(sid(s)),
                    (0, 1) => opn.set_output(sid(s)),
                    (3, 0) => opn.unset_input(),
                    (3, 1) => opn.unset_output(),
                    (_, 0) => opn.set_input_shape(&shape),
                    _ => opn.set_output_shape(&shape),
                }
                if at < 2 {
                    match op {
                        0 => inout[at] = Some(s.to_string()),
                        3 => inout[at] = None,
                        _ if fits => inout[at] = Some(s.to_string()),
                        _ => {}
                    }
                }
                let got = texts(opn.errors());
                check!(got == want[2], "collection", "errors = {:?}, want {:?}", got, want[2]);
                for (i, (o, has)) in [(opn.input(), opn.has_input()), (opn.output(), opn.has_output())].iter().enumerate() {
                    check!(o.as_ref().map(|x| x.to_string()) == inout[i] && *has == inout[i].is_some(), "in-out", "{} is {:?} ({}), want {:?}", i, o, has, inout[i]);
                }
            }
            9 => {
                // only operations, or resources, which are added; others are ignored
                let shape = any_shape(src, s);
                let at = src.usize(5);
                log.push(format!("of a {}, {}", kind_of(&shape), at));
                match at {
                    0 => svc.add_operation_shape(&shape),
                    1 => svc.add_resource_shape(&shape),
                    2 => rsc.add_operation_shape(&shape),
                    3 => rsc.add_collection_operation_shape(&shape),
                    _ => rsc.add_resource_shape(&shape),
                }
                let at = [0, 1, 3, 4, 5][at];
                if kind_of(&shape) == if at == 1 || at == 5 { "resource" } else { "operation" } {
                    want[at].push(s.to_string());
                }
                let got = [texts(svc.operations()), texts(svc.resources()), texts(opn.errors()), texts(rsc.operations()), texts(rsc.collection_operations()), texts(rsc.resources())];
                check!(got[..] == want[..], "collection", "{:?}, want {:?}", got, want);
            }
            10 => {
                version = src.pick(&["2", "2020-01-01", " ", "é", "v", "V", "2 "]).to_string();
                svc.set_version(&version);
                check!(svc.version() == &version, "version", "{} not {}", svc.version(), version);
                if op == 0 {
                    renames = std::iter::once((s.to_string(), "Other".to_string())).collect();
                    svc.set_renames(renames.iter().map(|(k, v)| (sid(k), ident(v))).collect());
                }
                if op == 1 {
                    idents = std::iter::once(("k".to_string(), s.to_string())).collect();
                    rsc.set_identifiers(idents.iter().map(|(k, v)| (ident(k), sid(v))).collect());
                }
            }
            _ => {
                let at = src.usize(6);
                let shape = any_shape(src, s);
                let by_shape = op == 0;
                if by_shape {
                    match at {
                        0 => rsc.set_create_operation_shape(&shape),
                        1 => rsc.set_put_operation_shape(&shape),
                        2 => rsc.set_read_operation_shape(&shape),
                        3 => rsc.set_update_operation_shape(&shape),
                        4 => rsc.set_delete_operation_shape(&shape),
                        _ => rsc.set_list_operation_shape(&shape),
                    }
                }
                let v = if by_shape && kind_of(&shape) != "operation" {
                    life[at].clone()
                } else if op == 3 { None } else { Some(s.to_string()) };
                match (at, &v) {
                    _ if by_shape => {}
                    (0, Some(s)) => rsc.set_create(sid(s)),
                    (1, Some(s)) => rsc.set_put(sid(s)),
                    (2, Some(s)) => rsc.set_read(sid(s)),
                    (3, Some(s)) => rsc.set_update(sid(s)),
                    (4, Some(s)) => rsc.set_delete(sid(s)),
                    (_, Some(s)) => rsc.set_list(sid(s)),
                    (0, None) => rsc.unset_create(),
                    (1, None) => rsc.unset_put(),
                    (2, None) => rsc.unset_read(),
                    (3, None) => rsc.unset_update(),
                    (4, None) => rsc.unset_delete(),
                    (_, None) => rsc.unset_list(),
                }
                life[at] = v;
                let got = [
                    (rsc.create(), rsc.has_create()),
                    (rsc.put(), rsc.has_put()),
                    (rsc.read(), rsc.has_read()),
                    (rsc.update(), rsc.has_update()),
                    (rsc.delete(), rsc.has_delete()),
                    (rsc.list(), rsc.has_list()),
                ];
                for i in 0..6 {
                    check!(got[i].0.as_ref().map(|x| x.to_string()) == life[i], "lifecycle", "{} = {:?}, want {:?}", LIFECYCLE[i], got[i].0, life[i]);
                    check!(got[i].1 == life[i].is_some(), "has-lifecycle", "{}", LIFECYCLE[i]);
                }
                let any = life.iter().any(|l| l.is_some());
                check!(rsc.has_any_resource_operation() == any, "any-lifecycle", "{:?}", life);
            }
        }
    }
    // all of them, whatever was edited last
    let kinds = (from_kind(&ShapeKind::from(svc)), from_kind(&ShapeKind::from(opn)), from_kind(&ShapeKind::from(rsc)));
    let wanted = (
        K::Service(Svc { version, operations: want[0].clone(), resources: want[1].clone(), renames }),
        K::Operation(Opn { input: inout[0].clone(), output: inout[1].clone(), errors: want[2].clone() }),
        K::Resource(Rsc {
            identifiers: idents,
            lifecycle: life,
            operations: want[3].clone(),
            collection_operations: want[4].clone(),
            resources: want[5].clone(),
        }),
    );
    check!(kinds == wanted, "all", "{:?}, want {:?}", kinds, wanted);
    case.input(&log, log.len() > 1);
    case.sample(|| log.join("; "));
    Ok(())
}

fn any_shape(src: &mut Src, id: &str) -> TopLevelShape {
    let kind = match src.usize(6) {
        0 => K::Operation(Opn::default()),
        1 => K::Operation(Opn { input: Some("a.b#In".into()), ..Opn::default() }),
        2 => K::Resource(Rsc::default()),
        3 => K::Service(Svc { version: "1".into(), ..Svc::default() }),
        4 => K::Unresolved,
        _ => src.pick(&[K::Simple("string"), K::Struct(BTreeMap::new()), K::Union(BTreeMap::new()), K::List(Mem { target: "a.b#In".into(), traits: T::new() })]),
    };
    to_shape(id, &S { traits: T::new(), kind })
}

fn kind_of(s: &TopLevelShape) -> &'static str {
    from_kind(s.body()).name()
}

/// The parts of lists, sets and maps, and of shapes, which can be replaced.
fn parts(src: &mut Src, case: &mut Case) -> Res {
    case.tag("parts");
    let c = Cfg { depth: 1, ..Cfg::default() };
    let ids = gen_ids(src, &c, 2);
    let (k, v, l) = (gen_member(src, &c, &ids), gen_member(src, &c, &ids), gen_member(src, &c, &ids));
    let (t, u) = (gen_ref(src, &c, &ids), gen_ref(src, &c, &ids));
    let kind = gen_kind(src, &c, &ids);
    case.input(&(&k, &v, &l, &t, &u, &kind), true);
    case.sample(|| format!("{:?} {:?} {:?} {} {} {:?}", k, v, l, t, u, kind));
    let bare = |t: &Sid| Mem { target: t.clone(), traits: T::new() };

    let mut list = ListOrSet::new(sid(&t));
    check!(from_member(list.member()) == bare(&t) && list.member().id() == &ident("member"), "list-new", "{:?}", list);
    list.set_member(to_member("member", &l));
    check!(from_member(list.member()) == l, "list-set", "{:?} not {:?}", list, l);
    let other = Mem { target: if src.bool() { l.target.to_uppercase() } else { l.target.clone() }, traits: if src.bool() { T::new() } else { k.traits.clone() } };
    list.set_member(to_member("member", &other));
    check!(from_member(list.member()) == other, "list-set", "{:?} not {:?}", list, other);

    let mut map = Map::new(sid(&t), sid(&u));
    check!(from_member(map.key()) == bare(&t) && map.key().id() == &ident("key"), "map-new", "{:?}", map);
    check!(from_member(map.value()) == bare(&u) && map.value().id() == &ident("value"), "map-new", "{:?}", map);
    if src.bool() {
        map.set_key(to_member("key", &k));
        check!(from_member(map.key()) == k && from_member(map.value()) == bare(&u), "map-set", "{:?}", map);
    } else {
        map.set_value(to_member("value", &v));
        check!(from_member(map.key()) == bare(&t) && from_member(map.value()) == v, "map-set", "{:?}", map);
    }
    map.set_key(to_member("key", &l));
    map.set_value(to_member("value", &l));
    map.set_key(to_member("key", &other));
    check!(from_member(map.key()) == other && from_member(map.value()) == l, "map-set", "{:?}", map);
    map.set_value(to_member("value", &other));
    check!(from_member(map.key()) == other && from_member(map.value()) == other, "map-set", "{:?}", map);

    let mut m = MemberShape::new(ident("a"), sid(&t));
    check!(from_member(&m) == bare(&t) && m.id() == &ident("a"), "member-new", "{:?}", m);
    m = to_member("a", &l);
    m.set_target(sid(&u));
    check!(from_member(&m) == Mem { target: u.clone(), traits: l.traits.clone() } && m.id() == &ident("a"), "member-target", "{:?}", m);
    let respelt = u.to_uppercase();
    m.set_target(sid(&respelt));
    check!(m.target().to_string() == respelt, "member-target", "{} not {}", m.target(), respelt);
    m.set_target(sid(&u));
    m.set_id(ident("A"));
    check!(m.id().to_string() == "A", "member-id", "{} not A", m.id());
    m.set_id(ident("b"));
    check!(m.id() == &ident("b") && from_member(&m) == Mem { target: u.clone(), traits: l.traits }, "member-id", "{:?}", m);

    let (a, b) = (&ids[0], &ids[ids.len() - 1]);
    let mut shape = to_shape(a, &S { traits: k.traits.clone(), kind: kind.clone() });
    check!(shape.is(&sid(&a.to_uppercase())) && shape.is(&sid(b)) == a.eq_ignore_ascii_case(b), "is", "{} is {}", a, b);
    shape.set_id(sid(b));
    let now = S { traits: from_traits(shape.traits()), kind: from_kind(shape.body()) };
    check!(shape.id().to_string() == *b && now == S { traits: k.traits.clone(), kind: kind.clone() }, "shape-id", "{:?}", shape);
    let respelt = b.to_uppercase();
    shape.set_id(sid(&respelt));
    check!(shape.id().to_string() == respelt, "shape-id", "{} not {}", shape.id(), respelt);
    let plain = TopLevelShape::new(sid(a), to_kind(&kind));
    check!(plain.traits().is_empty() && from_kind(plain.body()) == kind && !plain.has_traits(), "shape-new", "{:?}", plain);
    if let K::Simple(n) = kind {
        check!(from_kind(&ShapeKind::from(simple_kind(n))) == kind, "simple", "{}", n);
    }
    if !matches!(kind, K::Service(_) | K::Operation(_) | K::Resource(_)) {
        check!(plain.has_members() == !matches!(kind, K::Simple(_) | K::Unresolved), "has-members", "{:?}", plain);
    }
    Ok(())
}

/// What a shape says about itself agrees with what it was built from.
fn shape_views(src: &mut Src, case: &mut Case) -> Res {
    case.tag("shape views");
    let namespaces = src.pick(&[&["example.one", "other"][..], &["smithy.api", "smithy.apis", "smithy"]]).to_vec();
    let c = Cfg { depth: 1, namespaces, ..Cfg::default() };
    let ids = gen_ids(src, &c, 1);
    let id = ids[0].clone();
    let k = if src.chance(1, 10) { K::Unresolved } else { gen_kind(src, &c, &ids) };
    let s = S { traits: gen_traits(src, &c), kind: k };
    case.input(&s, s.kind != K::Unresolved);
    case.sample(|| format!("{} {:?}", id, s));
    let t = to_shape(&id, &s);
    let want = match &s.kind {
        K::Simple(_) => "simple",
        k => k.name(),
    };
    let is = [
        ("simple", t.is_simple(), t.body().is_simple(), t.body().as_simple().is_some()),
        ("list", t.is_list(), t.body().is_list(), t.body().as_list().is_some()),
        ("set", t.is_set(), t.body().is_set(), t.body().as_set().is_some()),
        ("map", t.is_map(), t.body().is_map(), t.body().as_map().is_some()),
        ("structure", t.is_structure(), t.body().is_structure(), t.body().as_structure().is_some()),
        ("union", t.is_union(), t.body().is_union(), t.body().as_union().is_some()),
        ("service", t.is_service(), t.body().is_service(), t.body().as_service().is_some()),
        ("operation", t.is_operation(), t.body().is_operation(), t.body().as_operation().is_some()),
        ("resource", t.is_resource(), t.body().is_resource(), t.body().as_resource().is_some()),
        ("unresolved", t.is_unresolved(), t.body().is_unresolved(), want == "unresolved"),
    ];
    for (n, a, b, d) in is {
        let w = n == want;
        check!(a == w && b == w && d == w, "kind-predicate", "a {} answers is_{}: {} {} {}", want, n, a, b, d);
    }
    check!(t.is_prelude_shape() == (ns_of(&id) == "smithy.api"), "is-prelude", "{}", id);
    let mut ms: HashMap<String, Mem> = HashMap::new();
    match &s.kind {
        K::List(m) | K::Set(m) => {
            ms.insert("member".into(), m.clone());
        }
        K::Map(a, b) => {
            ms.insert("key".into(), a.clone());
            ms.insert("value".into(), b.clone());
        }
        K::Struct(m) | K::Union(m) => ms.extend(m.iter().map(|(k, v)| (k.clone(), v.clone()))),
        _ => {}
    }
    let mut names: Vec<String> = ms.keys().cloned().collect();
    names.extend(["member", "key", "value", "name", "operations", "id"].iter().map(|s| s.to_string()));
    for n in names {
        let i = ident(&recase_name(src, &n));
        let want = ms.iter().find(|(k, _)| k.eq_ignore_ascii_case(&n)).map(|x| x.1.clone());
        let got = t.member(&i).map(from_member);
        check!(got == want, "shape-member", "{} {}: member({}) = {:?}, want {:?}", s.kind.name(), id, n, got, want);
        check!(t.has_member(&i) == want.is_some(), "shape-has-member", "{} {}: has_member({})", s.kind.name(), id, n);
    }
    // trait lookups, with the id's case changed
    for (k, v) in &s.traits {
        for text in [k.clone(), k.to_uppercase()] {
            check!(t.has_trait(&sid(&text)), "has-trait", "has_trait({})", text);
            let got = t.trait_named(&sid(&text)).map(|v| v.as_ref().map(from_value));
            check!(got.as_ref() == Some(v), "trait-named", "trait_named({}) = {:?}, want {:?}", text, got, v);
        }
    }
    let h = |n: &str| s.traits.contains_key(&format!("smithy.api#{}", n));
    let preds = [
        ("documentation", t.has_documentation()),
        ("externalDocumentation", t.has_external_documentation()),
        ("length", t.has_length()),
        ("pattern", t.has_pattern()),
        ("requiresLength", t.has_required_length()),
        ("noReplace", t.is_no_replace()),
        ("uniqueItems", t.has_unique_items()),
        ("unstable", t.is_unstable()),
        ("box", t.is_boxed()),
        ("deprecated", t.is_deprecated()),
        ("error", t.is_error()),
        ("idempotent", t.is_idempotent()),
        ("paginated", t.is_paginated()),
        ("private", t.is_private()),
        ("readonly", t.is_readonly()),
        ("references", t.is_references()),
        ("required", t.is_required()),
        ("sensitive", t.is_sensitive()),
        ("streaming", t.is_streaming()),
        ("since", t.is_since()),
        ("tags", t.is_tagged()),
        ("title", t.is_titled()),
        ("trait", t.is_trait()),
    ];
    for (n, got) in preds {
        check!(got == h(n), "trait-predicate", "{}: {} with traits {:?}", n, got, s.traits.keys().collect::<Vec<_>>());
    }
    check!(t.has_traits() == !s.traits.is_empty(), "has-traits", "has_traits()");
    Ok(())
}

pub static P03: Prop = Prop {
    id: "P03",
    quick: 400_000,
    thorough: 1_500_000,
    rule: "histories of add/re-add/remove/replace on a model (and on structure members, service/operation/resource collections, and single shapes), every query compared with a reference map after every step; non-trivial: at least two live entries or a removal",
    assumptions: &["one thread; ids of one model are case-insensitively distinct unless they name the same shape"],
    run: p03,
    explicit: no_explicit,
    known: no_known,
};

// ------------------------------------------------------------------------------------------------
// P04
// ------------------------------------------------------------------------------------------------

fn conflict_of(e: &atelier_core::error::Error) -> Option<Conflict> {
    match e.kind() {
        ErrorKind::MergeShapeConflict(_) => Some(Conflict::Shape),
        ErrorKind::MergeTraitConflict(_) => Some(Conflict::Trait),
        ErrorKind::MergeMetadataConflict(_) => Some(Conflict::Metadata),
        _ => None,
    }
}

fn merge_cfg() -> Cfg {
    Cfg { null_values: false, depth: 2, max_shapes: 4, text: Text::Plain, ..Cfg::default() }
}

fn p04(src: &mut Src, case: &mut Case) -> Res {
    let c = merge_cfg();
    let ids = gen_ids(src, &c, 1);
    let id = ids[0].clone();
    let first = S {
        traits: gen_traits(src, &c),
        kind: if src.chance(1, 8) { K::Unresolved } else { gen_kind(src, &c, &ids) },
    };
    let mut defs = vec![first.clone()];
    for _ in 0..(1 + src.weighted(&[3, 1])) {
        let base = src.pick(&defs);
        defs.push(gen_variant(src, &c, &base, &ids));
    }
    case.input(&defs, true);
    case.sample(|| format!("{}: {:?}", id, defs));
    let mut model = Model::new(Version::V10);
    // an unrelated shape must stay as it was
    let other = S { traits: T::new(), kind: K::Simple("string") };
    model.add_shape(to_shape("zz.other#Unrelated", &other)).map_err(|e| Fail::new("add", e.to_string()))?;
    let mut want: Option<S> = None;
    for d in &defs {
        let next = match &want {
            None => Ok(folded(d)),
            Some(w) => merge_shape(w, &folded(d)),
        };
        // the same names in another case are the same names
        let spelled = if src.chance(1, 4) { recased(src, d) } else { d.clone() };
        case.tag_if(spelled != *d, "in another case");
        let got = guard("add_shape", || model.add_shape(to_shape(&id, &spelled)))?;
        match (&next, &got) {
            (Ok(_), Ok(())) => {}
            (Err(c), Err(e)) => {
                case.tag(if *c == Conflict::Shape { "shape conflict" } else { "trait conflict" });
                let k = conflict_of(e);
                // a definition may break both rules; either error is right then
                let both = want.as_ref().map(|w| merge_traits(&w.traits, &folded(d).traits).is_err()).unwrap_or(false);
                check!(k == Some(*c) || (both && k.is_some()), "conflict-kind", "{:?} over {:?}: {:?}, want a {:?} conflict", d, want, e.kind(), c);
                return Ok(());
            }
            (Ok(w), Err(e)) => fail!("rejected", "adding {:?} over {:?} failed ({}); it merges into {:?}", d, want, e, w),
            (Err(c), Ok(())) => fail!("accepted", "adding {:?} over {:?} was accepted; it is a {:?} conflict", d, want, c),
        }
        case.tag_if(want.is_some() && next.as_ref().ok() != want.as_ref(), "merged with change");
        want = next.ok();
        let shape = match model.shape(&sid(&id)) {
            Some(s) => s,
            None => fail!("lost", "{} is gone after adding {:?}", id, d),
        };
        let got = S { traits: from_traits(shape.traits()), kind: from_kind(shape.body()) };
        let w = want.clone().unwrap();
        check!(same_shape(&folded(&got), &folded(&w)), "merged", "{} merged into {:?}, want {:?}", id, got, w);
        let o = model.shape(&sid("zz.other#Unrelated")).map(|s| from_kind(s.body()));
        check!(o == Some(other.kind.clone()) && model.shapes().count() == 2, "others", "another shape changed: {:?}", o);
    }
    Ok(())
}

/// The same names of members, traits and shapes with their case changed by `f`.
pub fn with_names(s: &S, f: &mut dyn FnMut(&str) -> String) -> S {
    fn traits(t: &T, f: &mut dyn FnMut(&str) -> String) -> T {
        t.iter().map(|(k, v)| (f(k), v.clone())).collect()
    }
    fn member(m: &Mem, f: &mut dyn FnMut(&str) -> String) -> Mem {
        Mem { target: f(&m.target), traits: traits(&m.traits, f) }
    }
    let kind = match &s.kind {
        K::List(m) => K::List(member(m, f)),
        K::Set(m) => K::Set(member(m, f)),
        K::Map(a, b) => K::Map(member(a, f), member(b, f)),
        K::Struct(ms) => K::Struct(ms.iter().map(|(n, m)| (f(n), member(m, f))).collect()),
        K::Union(ms) => K::Union(ms.iter().map(|(n, m)| (f(n), member(m, f))).collect()),
        K::Service(v) => K::Service(Svc {
            version: v.version.clone(),
            operations: v.operations.iter().map(|i| f(i)).collect(),
            resources: v.resources.iter().map(|i| f(i)).collect(),
            renames: v.renames.iter().map(|(i, n)| (f(i), f(n))).collect(),
        }),
        K::Operation(v) => K::Operation(Opn {
            input: v.input.as_ref().map(|i| f(i)),
            output: v.output.as_ref().map(|i| f(i)),
            errors: v.errors.iter().map(|i| f(i)).collect(),
        }),
        K::Resource(v) => {
            let mut all = |ids: &Vec<Sid>| -> Vec<Sid> { ids.iter().map(|i| f(i)).collect() };
            let (operations, collection_operations, resources) = (all(&v.operations), all(&v.collection_operations), all(&v.resources));
            K::Resource(Rsc {
                identifiers: v.identifiers.iter().map(|(n, i)| (f(n), f(i))).collect(),
                lifecycle: v.lifecycle.clone().map(|o| o.map(|i| f(&i))),
                operations,
                collection_operations,
                resources,
            })
        }
        K::Simple(_) | K::Unresolved => s.kind.clone(),
    };
    S { traits: traits(&s.traits, f), kind }
}

fn recased(src: &mut Src, s: &S) -> S {
    with_names(s, &mut |n| match src.below(4) {
        0 => n.to_uppercase(),
        1 => n.to_lowercase(),
        _ => n.to_string(),
    })
}

/// The same model, with its names in other cases wherever they are used.
pub fn respelled(src: &mut Src, md: &Md) -> Md {
    let mut other = |n: &str| match src.weighted(&[4, 2, 1, 1]) {
        _ if n.starts_with("smithy.api#") => n.to_string(),
        0 => n.to_string(),
        1 => n.to_uppercase(),
        2 => n.to_lowercase(),
        // the namespace only
        _ => match n.split_once('#') {
            Some((ns, r)) => format!("{}#{}", ns.to_uppercase(), r),
            None => n.to_string(),
        },
    };
    with_all_names(md, &mut other)
}

/// The same model, with namespaces in other cases wherever they are used.
pub fn respaced(src: &mut Src, md: &Md) -> Md {
    let mut other = |n: &str| match n.split_once('#') {
        Some((ns, r)) if ns != "smithy.api" => match src.weighted(&[3, 2, 1]) {
            0 => n.to_string(),
            1 => format!("{}#{}", ns.to_uppercase(), r),
            _ => format!("{}#{}", ns.to_lowercase(), r),
        },
        _ => n.to_string(),
    };
    with_all_names(md, &mut other)
}

pub fn folded_md(md: &Md) -> Md {
    with_all_names(md, &mut |n| n.to_lowercase())
}

fn with_all_names(md: &Md, f: &mut dyn FnMut(&str) -> String) -> Md {
    let mut out = Md { meta: md.meta.clone(), ..Md::default() };
    for (id, s) in &md.shapes {
        let s = with_names(s, f);
        out.shapes.insert(f(id), s);
    }
    out
}

pub fn lower_lines(text: &str) -> Vec<String> {
    let mut l: Vec<String> = text.lines().map(|l| l.trim().to_ascii_lowercase()).collect();
    l.sort();
    l
}

pub fn folded(s: &S) -> S {
    with_names(s, &mut |n| n.to_lowercase())
}

/// Equality that reads 0.0 and -0.0 as the same number.
fn same_shape(a: &S, b: &S) -> bool {
    a == b || format!("{:?}", normal(a)) == format!("{:?}", normal(b))
}

fn normal(s: &S) -> S {
    let mut s = s.clone();
    each_value(&mut s, &mut |v| norm_v(v));
    s
}

pub fn norm_v(v: &mut V) {
    match v {
        V::Flt(b) if f64::from_bits(*b) == 0.0 => *b = 0,
        V::Arr(a) => a.iter_mut().for_each(norm_v),
        V::Obj(o) => o.values_mut().for_each(norm_v),
        _ => {}
    }
}

pub fn each_value(s: &mut S, f: &mut dyn FnMut(&mut V)) {
    fn each(t: &mut T, f: &mut dyn FnMut(&mut V)) {
        t.values_mut().flatten().for_each(f)
    }
    each(&mut s.traits, f);
    match &mut s.kind {
        K::List(m) | K::Set(m) => each(&mut m.traits, f),
        K::Map(a, b) => {
            each(&mut a.traits, f);
            each(&mut b.traits, f);
        }
        K::Struct(m) | K::Union(m) => m.values_mut().for_each(|m| each(&mut m.traits, f)),
        _ => {}
    }
}

pub static P04: Prop = Prop {
    id: "P04",
    quick: 800_000,
    thorough: 3_000_000,
    rule: "2-3 definitions of one shape id (equal, trait changes on the shape or its members, one-place body changes such as a renamed member, forward references, different kinds) added in turn and compared with the reference merge rules",
    assumptions: &["the oracle restates the Smithy 1.0 rules quoted in the documentation; lists of operations, errors and resources compare in order", "state after a reported conflict is not specified"],
    run: p04,
    explicit: no_explicit,
    known: no_known,
};

// ------------------------------------------------------------------------------------------------
// P05
// ------------------------------------------------------------------------------------------------

fn p05(src: &mut Src, case: &mut Case) -> Res {
    let c = Cfg { null_values: false, depth: 2, text: Text::Printable, ..Cfg::default() };
    let names = ["smithy.api#tags", "smithy.api#documentation", "a.b#mine", "a.b#other", "smithy.api#required"];
    let on_member = src.bool();
    let mut top = to_shape("a.b#S", &S { traits: T::new(), kind: K::Simple("string") });
    let mut mem = to_member("m", &Mem { target: "a.b#S".into(), traits: T::new() });
    let mut want = T::new();
    let mut pool: Vec<Option<V>> = vec![None, Some(V::Str("x".into())), Some(V::Arr(vec![])), Some(V::Arr(vec![V::Int(1)]))];
    let mut log = Vec::new();
    let mut merged = 0;
    for step in src.list(1, 12, |s| s.weighted(&[8, 1, 1])) {
        let n = src.pick(&names);
        let text = recase_name(src, n);
        match step {
            0 | 1 => {
                let v = if src.chance(2, 3) {
                    src.pick(&pool)
                } else {
                    let v = Some(gen_value(src, &c, 2));
                    pool.push(v.clone());
                    v
                };
                // step 1: several at once
                let batch: Vec<(String, Option<V>)> = if step == 1 {
                    names.iter().filter(|x| **x != n).take(2).map(|x| (x.to_string(), None)).chain([(n.to_string(), v.clone())]).collect()
                } else {
                    vec![(text.clone(), v.clone())]
                };
                let mut next = want.clone();
                let mut ok = true;
                let add: T = batch.iter().cloned().collect();
                match merge_traits(&next, &add) {
                    Ok(r) => next = r,
                    Err(_) => ok = false,
                }
                merged += batch.iter().filter(|(k, _)| want.keys().any(|w| w.eq_ignore_ascii_case(k))).count();
                log.push(format!("apply {:?}", batch));
                let r = guard("apply", || {
                    if step == 1 {
                        let t = to_traits(&add);
                        if on_member { mem.append_traits(&t) } else { top.append_traits(&t) }
                    } else if v.is_none() {
                        if on_member { mem.apply(sid(&text)) } else { top.apply(sid(&text)) }
                    } else if on_member {
                        mem.apply_with_value(sid(&text), v.as_ref().map(to_value))
                    } else {
                        top.apply_with_value(sid(&text), v.as_ref().map(to_value))
                    }
                })?;
                check!(r.is_ok() == ok, "conflict", "{} onto {:?}: {:?}, want ok = {}", log.last().unwrap(), want, r, ok);
                if !ok {
                    if step == 1 {
                        break;
                    }
                    // a refused single application changes nothing
                    case.tag("refused");
                } else {
                    want = next;
                }
            }
            _ => {
                log.push(format!("remove {}", text));
                if on_member { mem.remove_trait(&sid(&text)) } else { top.remove_trait(&sid(&text)) }
                want.retain(|k, _| !k.eq_ignore_ascii_case(n));
            }
        }
        let got = from_traits(if on_member { mem.traits() } else { top.traits() });
        // keys keep the case they first had; compare case-folded
        let fold = |t: &T| -> BTreeMap<String, String> {
            t.iter().map(|(k, v)| {
                let mut v = v.clone();
                if let Some(v) = v.as_mut() { norm_v(v) }
                (k.to_lowercase(), format!("{:?}", v))
            }).collect()
        };
        check!(fold(&got) == fold(&want), "traits", "after {}: {:?}, want {:?}", log.join("; "), got, want);
        check!(got.len() == want.len(), "traits-count", "{:?}", got);
    }
    // traits never carry a member id
    let r = guard("apply", || top.apply(sid("a.b#S$m")))?;
    check!(r.is_err(), "member-trait-id", "a member id was accepted as a trait");
    case.input(&log, merged > 0);
    case.tag_if(merged > 0, "same trait twice");
    case.sample(|| log.join("; "));
    Ok(())
}

pub static P05: Prop = Prop {
    id: "P05",
    quick: 800_000,
    thorough: 4_000_000,
    rule: "sequences of single and batch trait applications and removals on a shape or member, drawn from a small id pool with re-cased ids and a value pool with repeats; non-trivial: some trait is applied twice",
    assumptions: &["a trait without a value and a trait whose value is null are different values and are not mixed here"],
    run: p05,
    explicit: no_explicit,
    known: no_known,
};

// ------------------------------------------------------------------------------------------------
// P06
// ------------------------------------------------------------------------------------------------

fn p06(src: &mut Src, case: &mut Case) -> Res {
    let c = Cfg { max_shapes: 5, ..merge_cfg() };
    let mut ids = gen_ids(src, &c, 1);
    if src.chance(1, 3) {
        // references to members are of their own, whatever is known of the shape
        let of = src.pick(&ids);
        for m in ["value", "other"] {
            if src.bool() {
                ids.push(format!("{}${}", of, m));
            }
        }
    }
    let keys = ["author", "suppressions", "", "x y", "Author"];
    let values = Cfg { null_values: true, ..merge_cfg() };
    let n = 2 + src.usize(2);
    let mut models: Vec<Md> = Vec::new();
    for _ in 0..n {
        let mut m = Md::default();
        for id in &ids {
            if !src.chance(3, 5) {
                continue;
            }
            let earlier: Vec<S> = models.iter().filter_map(|p| p.shapes.get(id).cloned()).collect();
            let s = if earlier.is_empty() {
                S { traits: if src.chance(1, 4) { T::new() } else { gen_traits(src, &c) }, kind: if is_member_id(id) || src.chance(1, 6) { K::Unresolved } else { gen_kind(src, &c, &ids) } }
            } else {
                let e = src.pick(&earlier);
                // mostly compatible
                match src.weighted(&[5, 3, 1]) {
                    0 => {
                        let mut s = e.clone();
                        s.traits = compatible(src, &c, &e.traits);
                        s
                    }
                    1 => S { traits: compatible(src, &c, &e.traits), kind: K::Unresolved },
                    _ if is_member_id(id) => S { traits: gen_traits(src, &c), kind: K::Unresolved },
                    _ => gen_variant(src, &c, &e, &ids),
                }
            };
            case.tag_if(is_member_id(id), "reference to a member");
            m.shapes.insert(id.clone(), s);
        }
        for k in keys {
            if !src.chance(1, 3) {
                continue;
            }
            let earlier: Vec<V> = models.iter().filter_map(|p| p.meta.get(k).cloned()).collect();
            let v = match earlier.first() {
                Some(V::Arr(_)) if src.chance(7, 8) => V::Arr(src.list(0, 3, |s| gen_value(s, &values, 1))),
                Some(v) if src.chance(7, 8) => v.clone(),
                _ => gen_value(src, &values, 2),
            };
            m.meta.insert(k.to_string(), v);
        }
        models.push(m);
    }
    let overlap = ids.iter().any(|i| models.iter().filter(|m| m.shapes.contains_key(i)).count() > 1)
        || keys.iter().any(|k| models.iter().filter(|m| m.meta.contains_key(*k)).count() > 1);
    case.input(&models, overlap);
    case.tag_if(overlap, "overlapping");
    case.sample(|| format!("{:?}", models));

    // names in another case are the same names
    let fold = |m: &Md| Md {
        meta: m.meta.clone(),
        shapes: m.shapes.iter().map(|(i, s)| (i.to_lowercase(), folded(s))).collect(),
    };
    let mut want: Result<Md, Conflict> = Ok(fold(&models[0]));
    for m in &models[1..] {
        want = want.and_then(|w| merge_models(&w, &fold(m)));
    }
    let models: Vec<Md> = models
        .into_iter()
        .map(|mut m| {
            if src.chance(1, 5) {
                m.shapes = m.shapes.iter().map(|(i, s)| (if src.bool() { i.to_uppercase() } else { i.clone() }, recased(src, s))).collect();
            }
            m
        })
        .collect();
    let run = |order: &[usize], src: &mut Src| -> Result<Result<Md, String>, Fail> {
        let mut acc = to_model_shuffled(&models[order[0]], src);
        for i in &order[1..] {
            let m = to_model_shuffled(&models[*i], src);
            let r = guard("merge", || acc.merge(m))?;
            if let Err(e) = r {
                return Ok(Err(e.to_string()));
            }
        }
        Ok(Ok(fold(&from_model(&acc)?)))
    };
    let order: Vec<usize> = (0..n).collect();
    let got = run(&order, src)?;
    match (&want, &got) {
        (Ok(w), Ok(g)) => {
            if let Some(d) = diff(&fold_zero(w), &fold_zero(g)) {
                fail!("merged", "{} after merging {:?}", d, models);
            }
            case.tag_if(overlap, "merged overlapping");
        }
        (Err(_), Err(_)) => case.tag("conflict"),
        (Ok(_), Err(e)) => fail!("rejected", "merging {:?} failed: {}", models, e),
        (Err(c), Ok(_)) => fail!("accepted", "merging {:?} succeeded; it is a {:?} conflict", models, c),
    }
    // any other order: same outcome, up to the order of concatenated arrays
    let mut other = order.clone();
    src.shuffle(&mut other);
    let again = run(&other, src)?;
    check!(again.is_ok() == got.is_ok(), "order", "merge order {:?} gives {:?}, order {:?} gives {:?} for {:?}", order, got, other, again, models);
    if let (Ok(a), Ok(b)) = (&got, &again) {
        if let Some(d) = diff(&sorted_arrays(a), &sorted_arrays(b)) {
            fail!("order-content", "{} (orders {:?} and {:?})", d, order, other);
        }
    }
    Ok(())
}

fn compatible(src: &mut Src, c: &Cfg, t: &T) -> T {
    let mut r = T::new();
    for (k, v) in t {
        if src.bool() {
            let v = match v {
                Some(V::Arr(_)) => Some(V::Arr(src.list(0, 2, |s| gen_value(s, c, 1)))),
                v => v.clone(),
            };
            r.insert(k.clone(), v);
        }
    }
    r
}

pub fn fold_zero(m: &Md) -> Md {
    let mut m = m.clone();
    m.meta.values_mut().for_each(norm_v);
    m.shapes.values_mut().for_each(|s| each_value(s, &mut |v| norm_v(v)));
    m
}

pub fn sorted_arrays(m: &Md) -> Md {
    fn sort(v: &mut V) {
        if let V::Arr(a) = v {
            a.sort();
        }
    }
    let mut m = fold_zero(m);
    m.meta.values_mut().for_each(sort);
    m.shapes.values_mut().for_each(|s| each_value(s, &mut |v| sort(v)));
    m
}

pub static P06: Prop = Prop {
    id: "P06",
    quick: 300_000,
    thorough: 1_000_000,
    rule: "2-3 models over a shared pool of shape ids and metadata keys, mostly compatible, merged in two orders (with shuffled construction) and compared with the reference merge; non-trivial: some id or key occurs in two models",
    assumptions: &["the oracle restates the merging rules quoted in the documentation", "state after a reported conflict is not specified"],
    run: p06,
    explicit: no_explicit,
    known: no_known,
};

