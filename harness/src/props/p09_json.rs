//! P09-P11: the JSON AST representation.

use crate::engine::*;
use crate::model::*;
use crate::props::p03_model::respelled;
use crate::{check, fail};
use atelier_core::io::{read_model_from_string, write_model_to_string};
use atelier_core::model::Model;
use atelier_core::Version;
use atelier_json::{JsonReader, JsonWriter};
use std::collections::{BTreeMap, BTreeSet};

fn obj<const N: usize>(pairs: [(&str, V); N]) -> V {
    V::Obj(pairs.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}

fn s(t: &str) -> V {
    V::Str(t.to_string())
}

/// What JSON can carry: special numbers are strings, a trait without value is an empty object.
pub fn carried(md: &Md) -> Md {
    fn value(v: &mut V) {
        match v {
            V::Flt(b) => {
                let f = f64::from_bits(*b);
                if f.is_nan() {
                    *v = s("NaN")
                } else if f.is_infinite() {
                    *v = s(if f > 0.0 { "Infinity" } else { "-Infinity" })
                }
            }
            V::Arr(a) => a.iter_mut().for_each(value),
            V::Obj(o) => o.values_mut().for_each(value),
            _ => {}
        }
    }
    let mut r = md.clone();
    r.meta.values_mut().for_each(value);
    for x in r.shapes.values_mut() {
        each_traits(x, &mut |t| {
            t.values_mut().for_each(|v| match v {
                None => *v = Some(V::Obj(BTreeMap::new())),
                Some(v) => value(v),
            })
        });
    }
    r
}

fn traits_ast(o: &mut BTreeMap<String, V>, t: &T) {
    if !t.is_empty() {
        let m = t.iter().map(|(k, v)| (k.clone(), v.clone().unwrap_or(V::Obj(BTreeMap::new())))).collect();
        o.insert("traits".into(), V::Obj(m));
    }
}

fn member_ast(m: &Mem) -> V {
    let mut o = BTreeMap::new();
    o.insert("target".into(), s(&m.target));
    traits_ast(&mut o, &m.traits);
    V::Obj(o)
}

fn target_ast(t: &Sid) -> V {
    obj([("target", s(t))])
}

fn shape_ast(x: &S) -> V {
    let mut o: BTreeMap<String, V> = BTreeMap::new();
    let ty = if x.kind == K::Unresolved { "apply" } else { x.kind.name() };
    o.insert("type".into(), s(ty));
    traits_ast(&mut o, &x.traits);
    let put_list = |o: &mut BTreeMap<String, V>, k: &str, l: &Vec<Sid>| {
        if !l.is_empty() {
            o.insert(k.into(), V::Arr(l.iter().map(target_ast).collect()));
        }
    };
    match &x.kind {
        K::List(m) | K::Set(m) => {
            o.insert("member".into(), member_ast(m));
        }
        K::Map(k, v) => {
            o.insert("key".into(), member_ast(k));
            o.insert("value".into(), member_ast(v));
        }
        K::Struct(m) | K::Union(m) => {
            if !m.is_empty() {
                o.insert("members".into(), V::Obj(m.iter().map(|(k, m)| (k.clone(), member_ast(m))).collect()));
            }
        }
        K::Service(v) => {
            o.insert("version".into(), s(&v.version));
            put_list(&mut o, "operations", &v.operations);
            put_list(&mut o, "resources", &v.resources);
            if !v.renames.is_empty() {
                o.insert("rename".into(), V::Obj(v.renames.iter().map(|(k, n)| (k.clone(), s(n))).collect()));
            }
        }
        K::Operation(v) => {
            v.input.iter().for_each(|t| {
                o.insert("input".into(), target_ast(t));
            });
            v.output.iter().for_each(|t| {
                o.insert("output".into(), target_ast(t));
            });
            put_list(&mut o, "errors", &v.errors);
        }
        K::Resource(r) => {
            if !r.identifiers.is_empty() {
                let m = r.identifiers.iter().map(|(k, t)| (k.clone(), target_ast(t))).collect();
                o.insert("identifiers".into(), V::Obj(m));
            }
            for (n, t) in LIFECYCLE.iter().zip(&r.lifecycle) {
                t.iter().for_each(|t| {
                    o.insert(n.to_string(), target_ast(t));
                });
            }
            put_list(&mut o, "operations", &r.operations);
            put_list(&mut o, "collectionOperations", &r.collection_operations);
            put_list(&mut o, "resources", &r.resources);
        }
        K::Simple(_) | K::Unresolved => {}
    }
    V::Obj(o)
}

/// The JSON AST of the Smithy specification for a model (already `carried`).
pub fn ast(md: &Md) -> V {
    let mut o = BTreeMap::new();
    o.insert("smithy".into(), s("1.0"));
    if !md.meta.is_empty() {
        o.insert("metadata".into(), V::Obj(md.meta.clone()));
    }
    o.insert("shapes".into(), V::Obj(md.shapes.iter().map(|(k, x)| (k.clone(), shape_ast(x))).collect()));
    V::Obj(o)
}

fn from_json(j: &serde_json::Value) -> V {
    use serde_json::Value as J;
    match j {
        J::Null => V::Null,
        J::Bool(b) => V::Bool(*b),
        J::Number(n) => match n.as_i64() {
            Some(i) => V::Int(i),
            None => flt(n.as_f64().unwrap_or(f64::NAN)),
        },
        J::String(t) => V::Str(t.clone()),
        J::Array(a) => V::Arr(a.iter().map(from_json).collect()),
        J::Object(o) => V::Obj(o.iter().map(|(k, v)| (k.clone(), from_json(v))).collect()),
    }
}

fn near(a: f64, b: f64) -> bool {
    a.is_sign_negative() == b.is_sign_negative() && (a.to_bits() as i128 - b.to_bits() as i128).abs() <= 4
}

/// Numbers that differ by the rounding of the JSON library become equal.
pub fn snap(want: &V, got: &mut V) {
    match (want, got) {
        (V::Flt(a), V::Flt(b)) => {
            if near(f64::from_bits(*a), f64::from_bits(*b)) {
                *b = *a
            }
        }
        (V::Arr(a), V::Arr(b)) => a.iter().zip(b.iter_mut()).for_each(|(a, b)| snap(a, b)),
        (V::Obj(a), V::Obj(b)) => b.iter_mut().for_each(|(k, b)| {
            if let Some(a) = a.get(k) {
                snap(a, b)
            }
        }),
        _ => {}
    }
}

pub fn snap_model(want: &Md, got: &mut Md) {
    for (k, g) in got.meta.iter_mut() {
        if let Some(w) = want.meta.get(k) {
            snap(w, g);
        }
    }
    for (id, g) in got.shapes.iter_mut() {
        if let Some(w) = want.shapes.get(id) {
            let mut all: Vec<T> = Vec::new();
            each_traits(&mut w.clone(), &mut |t| all.push(t.clone()));
            let mut i = 0;
            each_traits(g, &mut |t| {
                if let Some(w) = all.get(i) {
                    for (k, g) in t.iter_mut() {
                        if let (Some(Some(w)), Some(g)) = (w.get(k), g.as_mut()) {
                            snap(w, g);
                        }
                    }
                }
                i += 1;
            });
        }
    }
}

fn read(text: &str) -> Result<Result<Model, String>, Fail> {
    Ok(guard("read", || read_model_from_string(&mut JsonReader::default(), text))?.map_err(|e| e.to_string()))
}

/// The same, by a reader that may have read something else before.
fn read_used(src: &mut Src, text: &str) -> Result<Result<Model, String>, Fail> {
    let mut r = JsonReader::default();
    if src.chance(1, 12) {
        let first = src.pick(&[
            r#"{"smithy":"1.0","metadata":{"k":[1]},"shapes":{"a.b#C":{"type":"string"},"a.b#Foo":{"type":"list","member":{"target":"a.b#C"}}}}"#,
            r#"{"smithy":"1.0","shapes":{"a.b#C":{"type":"str"#,
            r#"{"smithy":"1.0","shapes":{"a.b#C":{"type":"string"},"a.b#D":{"type":"unknown"}}}"#,
            text,
        ]);
        let _ = guard("read before", || read_model_from_string(&mut r, first))?;
    }
    Ok(guard("read", || read_model_from_string(&mut r, text))?.map_err(|e| e.to_string()))
}

fn compare(sig: &str, want: &Md, m: &Model) -> Res {
    let mut got = from_model(m)?;
    snap_model(want, &mut got);
    if let Some(d) = diff(want, &got) {
        fail!(sig, "{}", d);
    }
    Ok(())
}

/// Some numbers become special ones.
fn special(src: &mut Src, v: &mut V) {
    match v {
        V::Flt(b) => {
            if src.chance(1, 5) {
                *b = src.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::NAN]).to_bits()
            }
        }
        V::Arr(a) => a.iter_mut().for_each(|v| special(src, v)),
        V::Obj(o) => o.values_mut().for_each(|v| special(src, v)),
        _ => {}
    }
}

pub fn special_all(src: &mut Src, md: &mut Md) {
    let mut meta = V::Obj(std::mem::take(&mut md.meta));
    special(src, &mut meta);
    if let V::Obj(o) = meta {
        md.meta = o;
    }
    for x in md.shapes.values_mut() {
        each_traits(x, &mut |t| t.values_mut().flatten().for_each(|v| special(src, v)));
    }
}

fn p09(src: &mut Src, case: &mut Case) -> Res {
    let c = Cfg { text: src.pick(&[Text::Plain, Text::Printable, Text::Wild]), ..Cfg::default() };
    let mut md = gen_model(src, &c);
    if src.chance(1, 6) {
        special_all(src, &mut md);
    }
    if src.chance(1, 8) {
        md = respelled(src, &md);
        case.tag("names in several cases");
    }
    let m = to_model_shuffled(&md, src);
    let want = carried(&md);
    case.input(&md, rich(&md));
    case.tag_if(want.shapes.values().any(|x| matches!(&x.kind, K::Service(v) if !v.renames.is_empty())), "renames");
    case.tag_if(want.shapes.keys().any(|k| is_member_id(k)), "traits applied to foreign members");
    let write = |w: &mut JsonWriter| -> Result<String, Fail> {
        guard("write", || write_model_to_string(w, &m))?.map_err(|e| Fail::new("write-error", e.to_string()))
    };
    let mut writers = [JsonWriter::default(), JsonWriter::new(true)];
    if src.chance(1, 12) {
        // the writers have written something else before
        let other = to_model(&gen_model(src, &c));
        for w in &mut writers {
            let _ = guard("write before", || write_model_to_string(w, &other))?;
        }
    }
    let [w, p] = &mut writers;
    let plain = write(w)?;
    let pretty = write(p)?;
    case.sample(|| plain.clone());
    let parse = |t: &str| -> Result<V, Fail> {
        let j: serde_json::Value =
            serde_json::from_str(t).map_err(|e| Fail::new("not-json", format!("{}: {}", e, t)))?;
        Ok(from_json(&j))
    };
    let tree = ast(&want);
    for (how, text) in [("plain", &plain), ("pretty", &pretty)] {
        let mut got = parse(text)?;
        snap(&tree, &mut got);
        check!(got == tree, "ast", "{}: want {:?}, got {:?}", how, tree, got);
        match read(text)? {
            Err(e) => fail!("unreadable", "what was written cannot be read: {}\n{}", e, text),
            Ok(back) => {
                compare("round-trip", &want, &back)?;
                check!(back.smithy_version() == m.smithy_version(), "version", "{:?}", back.smithy_version());
                if how == "plain" {
                    // writing what was read changes nothing, save for the rounding of numbers
                    let again = guard("write", || write_model_to_string(&mut JsonWriter::default(), &back))?
                        .map_err(|e| Fail::new("write-error", e.to_string()))?;
                    if again != plain {
                        let mut got = parse(&again)?;
                        snap(&tree, &mut got);
                        check!(got == tree, "rewrite", "first\n{}\nthen\n{}", plain, again);
                    }
                }
            }
        }
    }
    Ok(())
}

pub static P09: Prop = Prop {
    id: "P09",
    quick: 120_000,
    thorough: 1_000_000,
    rule: "generated models of all shape kinds with any Unicode text in values and keys; the text written is parsed as JSON and compared with a reference AST, then read back and compared with the model; non-trivial: two or more shapes, one of them not simple",
    assumptions: &[
        "a trait without value is written as the empty object and so reads back as one",
        "infinite and not-a-number values are strings in JSON, as in Smithy",
        "floating point numbers may be off by the rounding of the JSON library (4 units in the last place)",
    ],
    run: p09,
    explicit: no_explicit,
    known: no_known,
};

// ------------------------------------------------------------------------------------------------
// P10
// ------------------------------------------------------------------------------------------------

fn ws(src: &mut Src, out: &mut String) {
    for _ in 0..src.weighted(&[12, 3, 1]) {
        out.push(src.pick(&[' ', '\n', '\t', '\r']));
    }
}

fn text_string(src: &mut Src, t: &str, out: &mut String) {
    out.push('"');
    for c in t.chars() {
        let must = c == '"' || c == '\\' || (c as u32) < 0x20;
        if must || src.chance(1, 12) {
            let short = match c {
                '"' => Some("\\\""),
                '\\' => Some("\\\\"),
                '/' => Some("\\/"),
                '\u{8}' => Some("\\b"),
                '\u{c}' => Some("\\f"),
                '\n' => Some("\\n"),
                '\r' => Some("\\r"),
                '\t' => Some("\\t"),
                _ => None,
            };
            match short {
                Some(e) if !src.chance(1, 4) => out.push_str(e),
                _ => {
                    for u in c.encode_utf16(&mut [0; 2]).iter() {
                        if src.bool() {
                            out.push_str(&format!("\\u{:04x}", u));
                        } else {
                            out.push_str(&format!("\\u{:04X}", u));
                        }
                    }
                }
            }
        } else {
            out.push(c);
        }
    }
    out.push('"');
}

fn number_text(src: &mut Src, f: f64) -> String {
    let mut t = match src.usize(3) {
        0 => format!("{:?}", f),
        1 => format!("{:e}", f),
        _ => format!("{:E}", f),
    };
    if let Some(i) = t.find(|c| c == 'e' || c == 'E') {
        if src.chance(1, 4) && !t[i + 1..].starts_with('-') {
            t.insert(i + 1, '+');
        }
    } else if t.contains('.') && src.chance(1, 4) {
        t.push('0');
    }
    t
}

/// JSON text for a tree, in any legal spelling.
pub fn render(src: &mut Src, v: &V, out: &mut String) {
    match v {
        V::Null => out.push_str("null"),
        V::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
        V::Int(i) => out.push_str(&i.to_string()),
        V::Flt(b) => {
            let t = number_text(src, f64::from_bits(*b));
            out.push_str(&t)
        }
        V::Str(t) => text_string(src, t, out),
        V::Arr(a) => {
            out.push('[');
            for (i, v) in a.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                ws(src, out);
                render(src, v, out);
                ws(src, out);
            }
            if a.is_empty() {
                ws(src, out);
            }
            out.push(']');
        }
        V::Obj(o) => {
            out.push('{');
            let mut l: Vec<_> = o.iter().collect();
            src.shuffle(&mut l);
            for (i, (k, v)) in l.into_iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                ws(src, out);
                text_string(src, k, out);
                ws(src, out);
                out.push(':');
                ws(src, out);
                render(src, v, out);
                ws(src, out);
            }
            if o.is_empty() {
                ws(src, out);
            }
            out.push('}');
        }
    }
}

fn at<'a>(v: &'a mut V, path: &[&str]) -> Option<&'a mut V> {
    let mut v = v;
    for p in path {
        match v {
            V::Obj(o) => v = o.get_mut(*p)?,
            _ => return None,
        }
    }
    Some(v)
}

fn keys(v: &V) -> Vec<String> {
    match v {
        V::Obj(o) => o.keys().cloned().collect(),
        _ => vec![],
    }
}

fn text_of(v: &V) -> &str {
    match v {
        V::Str(t) => t,
        _ => "",
    }
}

const BAD_IDS: [&str; 14] =
    ["", "Foo", "a.b#", "#Foo", "a..b#Foo", "1a#Foo", "a#1Foo", "a#Foo#Bar", "a#Foo$", "a#Foo Bar", "a-b#Foo", "a#Foo.Bar", " a#Foo", "a#_"];

fn not_object(src: &mut Src) -> V {
    src.pick(&[V::Null, s("text"), V::Bool(true), V::Int(3), V::Arr(vec![]), V::Arr(vec![s("x")])])
}

fn not_array(src: &mut Src) -> V {
    src.pick(&[V::Null, s("text"), V::Bool(true), V::Int(3), V::Obj(BTreeMap::new()), obj([("target", s("a#B"))])])
}

fn not_string(src: &mut Src) -> V {
    src.pick(&[V::Null, V::Bool(true), V::Int(1), flt(1.5), V::Arr(vec![]), V::Obj(BTreeMap::new())])
}

/// Breaks one required thing; the name of what was broken.
fn break_tree(src: &mut Src, tree: &mut V) -> Option<&'static str> {
    let ids = keys(at(tree, &["shapes"])?);
    let set = |tree: &mut V, path: &[&str], key: &str, v: Option<V>| {
        if let Some(V::Obj(o)) = at(tree, path) {
            match v {
                Some(v) => {
                    o.insert(key.to_string(), v);
                }
                None => {
                    o.remove(key);
                }
            }
        }
    };
    match src.usize(9) {
        0 => {
            let v = match src.usize(3) {
                0 => None,
                1 => Some(not_string(src)),
                _ => Some(src.pick(&[s(""), s("2.0"), s("1.1"), s("10"), s("1.0.0"), s("one")])),
            };
            set(tree, &[], "smithy", v);
            return Some("smithy version");
        }
        1 => {
            let k = src.pick(&["metadata", "shapes"]);
            let v = not_object(src);
            set(tree, &[], k, Some(v));
            return Some("metadata or shapes is not an object");
        }
        _ => {}
    }
    if ids.is_empty() {
        return None;
    }
    let id = src.pick(&ids);
    let ty = text_of(at(tree, &["shapes", &id, "type"])?).to_string();
    let path = ["shapes", id.as_str()];
    // every object with a target, as a path below the shape
    let mut spots: Vec<Vec<String>> = Vec::new();
    fn find(v: &V, here: &mut Vec<String>, spots: &mut Vec<Vec<String>>) {
        match v {
            V::Obj(o) => {
                if matches!(o.get("target"), Some(V::Str(_))) {
                    spots.push(here.clone());
                }
                for (k, v) in o {
                    if k != "traits" {
                        here.push(k.clone());
                        find(v, here, spots);
                        here.pop();
                    }
                }
            }
            V::Arr(a) => {
                for (i, v) in a.iter().enumerate() {
                    here.push(i.to_string());
                    find(v, here, spots);
                    here.pop();
                }
            }
            _ => {}
        }
    }
    find(at(tree, &path)?, &mut vec![], &mut spots);
    fn walk<'a>(v: &'a mut V, p: &[String]) -> Option<&'a mut V> {
        match p.split_first() {
            None => Some(v),
            Some((h, t)) => match v {
                V::Obj(o) => walk(o.get_mut(h)?, t),
                V::Arr(a) => walk(a.get_mut(h.parse::<usize>().ok()?)?, t),
                _ => None,
            },
        }
    }
    match src.usize(9) {
        7 => {
            // names that only differ in case are the same name
            let k = match ty.as_str() {
                "structure" | "union" => "members",
                "resource" => "identifiers",
                "service" => "rename",
                _ => "traits",
            };
            let k = if src.chance(1, 3) { "traits" } else { k };
            let v = match k {
                "rename" => [s("Name"), s("Other")],
                "traits" => [s("one"), s("two")],
                _ => [obj([("target", s("a#B"))]), obj([("target", s("a#C"))])],
            };
            let (x, y) = match k {
                "members" | "identifiers" => ("itsName", src.pick(&["ITSNAME", "itsname", "ItsName"])),
                _ => ("a.b#Xyz", src.pick(&["a.b#xyz", "A.b#Xyz", "A.B#XYZ"])),
            };
            let [v, w] = v;
            let w = if src.chance(1, 3) { v.clone() } else { w };
            let mut all: BTreeMap<String, V> = BTreeMap::new();
            for n in src.list(0, 3, gen_ident) {
                let e = if k == "rename" { s(&n) } else { v.clone() };
                let n = if matches!(k, "members" | "identifiers") { n } else { format!("b.c#{}", n) };
                if !all.keys().any(|a| a.eq_ignore_ascii_case(&n)) {
                    all.insert(n, e);
                }
            }
            all.insert(x.to_string(), v);
            all.insert(y.to_string(), w);
            set(tree, &path, k, Some(V::Obj(all)));
            Some("a name twice")
        }
        0 => {
            let v = match src.usize(3) {
                0 => None,
                1 => Some(not_string(src)),
                _ => Some(src.pick(&[s(""), s("String"), s("strin"), s("structures"), s("object"), s("unresolved"), s("LIST"), s("int"), s(" list"), s("string "), s("structure\n"), s("\tapply"), s("Member"), s("member")])),
            };
            set(tree, &path, "type", v);
            Some("type")
        }
        1 if !spots.is_empty() => {
            let spot = src.pick(&spots);
            let x = walk(at(tree, &path)?, &spot)?;
            match src.usize(4) {
                0 => {
                    if let V::Obj(o) = x {
                        o.remove("target");
                    }
                }
                1 => {
                    let v = not_string(src);
                    if let V::Obj(o) = x {
                        o.insert("target".into(), v);
                    }
                }
                2 => {
                    let v = s(src.choose(&BAD_IDS));
                    if let V::Obj(o) = x {
                        o.insert("target".into(), v);
                    }
                }
                _ => *x = not_object(src),
            }
            Some("target")
        }
        2 => {
            let k = match ty.as_str() {
                "list" | "set" => "member",
                "map" => src.pick(&["key", "value"]),
                "service" => "version",
                _ => return None,
            };
            let v = match src.usize(3) {
                0 => None,
                1 => Some(V::Null),
                _ if k == "version" => Some(not_string(src)),
                _ => Some(not_object(src)),
            };
            set(tree, &path, k, v);
            Some("a required property is missing")
        }
        3 => {
            let v = not_object(src);
            let k = match ty.as_str() {
                "structure" | "union" => "members",
                "service" => "rename",
                "resource" => "identifiers",
                _ => "traits",
            };
            set(tree, &path, k, Some(v));
            Some("not an object")
        }
        4 => {
            let v = not_array(src);
            let k = match ty.as_str() {
                "service" => src.pick(&["operations", "resources"]),
                "resource" => src.pick(&["operations", "resources", "collectionOperations"]),
                "operation" => "errors",
                _ => return None,
            };
            set(tree, &path, k, Some(v));
            Some("not an array")
        }
        5 => {
            let bad = src.pick(&BAD_IDS);
            let x = at(tree, &["shapes"])?;
            if let V::Obj(o) = x {
                let v = o.remove(&id)?;
                o.insert(bad.to_string(), v);
            }
            Some("shape id")
        }
        6 => {
            let bad = src.pick(&["", "1a", "a b", "a.b", "a$b", "_", "é"]);
            let (k, v) = match ty.as_str() {
                "structure" | "union" => ("members", obj([(bad, obj([("target", s("a#B"))]))])),
                "resource" => ("identifiers", obj([(bad, obj([("target", s("a#B"))]))])),
                "service" => match src.usize(3) {
                    0 => ("rename", obj([("a#B", s(bad))])),
                    1 => ("rename", obj([("B", s("C"))])),
                    _ => ("rename", obj([("a#B", V::Int(1))])),
                },
                _ => return None,
            };
            set(tree, &path, k, Some(v));
            Some("member name")
        }
        _ => {
            // a member cannot be applied as a trait
            let k = if src.chance(1, 4) { "a.b#Foo$bar" } else { src.choose(&BAD_IDS) }.to_string();
            let good = if src.bool() { vec![("a.b#Good".to_string(), V::Bool(true))] } else { vec![] };
            let traits = V::Obj([(k, V::Bool(true))].into_iter().chain(good).collect());
            // of the shape, or of one of its members
            let members: Vec<&Vec<String>> = spots
                .iter()
                .filter(|p| match ty.as_str() {
                    "list" | "set" | "map" => p.len() == 1,
                    "structure" | "union" => p.len() == 2 && p[0] == "members",
                    _ => false,
                })
                .collect();
            if !members.is_empty() && src.bool() {
                let spot = members[src.usize(members.len())].clone();
                if let Some(V::Obj(o)) = walk(at(tree, &path)?, &spot) {
                    o.insert("traits".into(), if src.chance(1, 4) { not_object(src) } else { traits });
                }
                return Some("traits of a member");
            }
            set(tree, &path, "traits", Some(traits));
            Some("trait id")
        }
    }
}

/// Adds things the reader has to ignore.
fn add_noise(src: &mut Src, v: &mut V, depth: u32) {
    if let V::Obj(o) = v {
        if depth == 0 && src.bool() {
            o.insert("$comment".into(), s("x"));
        }
        if let Some(V::Obj(shapes)) = o.get_mut("shapes") {
            for x in shapes.values_mut() {
                if let V::Obj(x) = x {
                    if src.chance(1, 3) {
                        x.insert("unknownProperty".into(), src.pick(&[V::Null, V::Int(1), obj([("target", V::Int(1))])]));
                    }
                    if src.chance(1, 3) && !x.contains_key("traits") {
                        x.insert("traits".into(), V::Obj(BTreeMap::new()));
                    }
                    let ty = x.get("type").map(text_of).unwrap_or("").to_string();
                    let lists: &[&str] = match ty.as_str() {
                        "service" => &["operations", "resources"],
                        "operation" => &["errors"],
                        "resource" => &["operations", "resources", "collectionOperations"],
                        _ => &[],
                    };
                    for l in lists {
                        if src.chance(1, 3) && !x.contains_key(*l) {
                            x.insert(l.to_string(), V::Arr(vec![]));
                        }
                    }
                    let maps: &[&str] = match ty.as_str() {
                        "service" => &["rename"],
                        "structure" | "union" => &["members"],
                        "resource" => &["identifiers"],
                        _ => &[],
                    };
                    for l in maps {
                        if src.chance(1, 3) && !x.contains_key(*l) {
                            x.insert(l.to_string(), V::Obj(BTreeMap::new()));
                        }
                    }
                }
            }
            if shapes.is_empty() && src.bool() {
                o.remove("shapes");
            }
        }
        if src.bool() && !o.contains_key("metadata") {
            o.insert("metadata".into(), V::Obj(BTreeMap::new()));
        }
        if src.bool() {
            o.insert("smithy".into(), s("1"));
        }
    }
}

fn p10(src: &mut Src, case: &mut Case) -> Res {
    let c = Cfg { text: src.pick(&[Text::Plain, Text::Printable, Text::Wild]), ..Cfg::default() };
    let mut md = gen_model(src, &c);
    if src.chance(1, 8) {
        md = respelled(src, &md);
        case.tag("names in several cases");
    }
    let md = carried(&md);
    let mut tree = ast(&md);
    let broken = if src.chance(1, 3) {
        break_tree(src, &mut tree)
    } else {
        add_noise(src, &mut tree, 0);
        None
    };
    let mut text = String::new();
    ws(src, &mut text);
    render(src, &tree, &mut text);
    ws(src, &mut text);
    case.input(&text, broken.is_some() || rich(&md));
    case.tag_if(broken.is_some(), "to be refused");
    case.sample(|| text.clone());
    match (read_used(src, &text)?, broken) {
        (Ok(m), None) => compare("meaning", &md, &m)?,
        (Err(e), None) => fail!("refused", "valid, but {}\n{}", e, text),
        (Ok(_), Some(b)) => fail!("accepted", "broken ({}), but accepted: {}", b, text),
        (Err(_), Some(_)) => {}
    }
    Ok(())
}

fn p10_explicit() -> Vec<Explicit> {
    let one = |name: &str, text: &'static str, want: V| Explicit {
        name: name.to_string(),
        run: Box::new(move || {
            let t = format!("{{\"smithy\":\"1.0\",\"metadata\":{{\"k\":{}}}}}", text);
            match read(&t)? {
                Err(e) => fail!("refused", "{}: {}", t, e),
                Ok(m) => {
                    let mut got = from_model(&m)?.meta.remove("k").unwrap_or(V::Null);
                    snap(&want, &mut got);
                    check!(got == want, "number", "{}: want {:?}, got {:?}", text, want, got);
                    Ok(())
                }
            }
        }),
    };
    vec![
        one("i64-max", "9223372036854775807", V::Int(i64::MAX)),
        one("i64-min", "-9223372036854775808", V::Int(i64::MIN)),
        one("above-i64", "9223372036854775808", flt(9223372036854775808.0)),
        one("u64-max", "18446744073709551615", flt(18446744073709551615.0)),
        one("above-u64", "18446744073709551616", flt(18446744073709551616.0)),
        one("below-i64", "-9223372036854775809", flt(-9223372036854775809.0)),
    ]
}

pub static P10: Prop = Prop {
    id: "P10",
    quick: 200_000,
    thorough: 1_200_000,
    rule: "JSON AST documents written by an independent generator (any key order, spacing, escapes and number spelling, unknown and empty properties) are read and compared with the model they describe; a third of the documents has one required part missing or of the wrong form and has to be refused; non-trivial: refused, or two or more shapes, one of them not simple",
    assumptions: &["floating point numbers may be off by the rounding of the JSON library (4 units in the last place)"],
    run: p10,
    explicit: p10_explicit,
    known: no_known,
};

// ------------------------------------------------------------------------------------------------
// P11
// ------------------------------------------------------------------------------------------------

const PIECES: [&str; 40] = [
    "{", "}", "[", "]", ":", ",", "\"", "\\", "null", "true", "1", "-", "1e9", "1e999", "\"smithy\"", "\"1.0\"", "\"metadata\"",
    "\"shapes\"", "\"type\"", "\"target\"", "\"traits\"", "\"members\"", "\"member\"", "\"key\"", "\"value\"", "\"service\"",
    "\"version\"", "\"resource\"", "\"apply\"", "\"operations\"", "\"rename\"", "\"identifiers\"", "\"a#B\"", "\"a#B$c\"",
    "\"#\"", "\"\"", "\u{0}", "\u{feff}", "\\ud800", "é",
];

/// Edits to bytes: the result need not be JSON, nor UTF-8.
pub fn scramble(src: &mut Src, text: &str, pieces: &[&str], max: usize) -> Vec<u8> {
    let mut b = text.as_bytes().to_vec();
    let n = 1 + src.usize(max);
    for _ in 0..n {
        let p = src.usize(b.len() + 1);
        match src.usize(6) {
            0 => {
                let q = (p + 1 + src.usize(12)).min(b.len());
                if p < q {
                    b.drain(p..q);
                }
            }
            1 => {
                let t = src.choose(pieces).as_bytes().to_vec();
                b.splice(p..p, t);
            }
            2 => {
                if p < b.len() {
                    b[p] = src.below(256) as u8;
                }
            }
            3 => {
                // a copy of some part elsewhere
                let q = (p + 1 + src.usize(40)).min(b.len());
                if p < q {
                    let t = b[p..q].to_vec();
                    let at = src.usize(b.len() + 1);
                    b.splice(at..at, t);
                }
            }
            4 => b.truncate(p),
            _ => {
                let q = (p + 1 + src.usize(6)).min(b.len());
                let t = src.choose(pieces).as_bytes().to_vec();
                if p <= q {
                    b.splice(p..q, t);
                }
            }
        }
    }
    b
}

/// Replaces a part of the tree by any value.
fn any_part(src: &mut Src, tree: &mut V) {
    let c = Cfg { depth: 2, ..Cfg::default() };
    let new = match src.usize(3) {
        0 => gen_value(src, &c, 2),
        1 => V::Str(gen_text(src, Text::Wild).repeat(1 + src.usize(30))),
        _ => V::Arr(vec![V::Str(gen_text(src, Text::Wild).repeat(1 + src.usize(30)))]),
    };
    fn place(src: &mut Src, v: &mut V, new: V) {
        // down to a random child, or stop here
        let stop = src.chance(1, 4);
        match v {
            V::Obj(o) if !o.is_empty() && !stop => {
                let k = src.usize(o.len());
                place(src, o.values_mut().nth(k).unwrap(), new)
            }
            V::Arr(a) if !a.is_empty() && !stop => {
                let k = src.usize(a.len());
                place(src, &mut a[k], new)
            }
            v => *v = new,
        }
    }
    place(src, tree, new)
}

fn p11(src: &mut Src, case: &mut Case) -> Res {
    let bytes: Vec<u8> = match src.weighted(&[6, 2, 1]) {
        0 => {
            let c = Cfg { text: src.pick(&[Text::Plain, Text::Wild]), max_shapes: 5, ..Cfg::default() };
            let md = carried(&gen_model(src, &c));
            let mut tree = ast(&md);
            for _ in 0..src.usize(3) {
                let _ = break_tree(src, &mut tree);
            }
            if src.chance(1, 3) {
                any_part(src, &mut tree);
            }
            let mut text = String::new();
            render(src, &tree, &mut text);
            if src.bool() {
                scramble(src, &text, &PIECES, 6)
            } else {
                text.into_bytes()
            }
        }
        1 => {
            let l = src.list(0, 30, |s| s.pick(&PIECES));
            l.concat().into_bytes()
        }
        _ => {
            let n = src.pick(&[3usize, 60, 126, 127, 128, 500, 20_000]);
            let (a, z) = src.pick(&[("[", "]"), ("{\"k\":", "}"), ("[{\"k\":", "}]")]);
            let mid = format!("{}null{}", a.repeat(n), z.repeat(if src.chance(1, 4) { n / 2 } else { n }));
            match src.usize(3) {
                0 => mid,
                1 => format!("{{\"smithy\":\"1\",\"metadata\":{{\"k\":{}}}}}", mid),
                _ => format!("{{\"smithy\":\"1\",\"shapes\":{{\"a#B\":{{\"type\":\"string\",\"traits\":{{\"a#C\":{}}}}}}}}}", mid),
            }
            .into_bytes()
        }
    };
    case.input(&bytes, bytes.len() > 20);
    case.sample(|| String::from_utf8_lossy(&bytes).to_string());
    let r = guard("read", || read_model_from_string(&mut JsonReader::default(), &bytes))?;
    match r {
        Err(e) => {
            let msg = guard("error message", || e.to_string())?;
            check!(!msg.is_empty(), "message", "an empty error message");
        }
        Ok(m) => {
            case.tag("accepted");
            let md = from_model(&m)?;
            check!(m.smithy_version() == &Version::V10, "version", "{:?}", m.smithy_version());
            let lower: BTreeSet<String> = md.shapes.keys().map(|k| k.to_lowercase()).collect();
            check!(lower.len() == md.shapes.len(), "case", "{:?}", md.shapes.keys());
            let text = guard("write", || write_model_to_string(&mut JsonWriter::default(), &m))?
                .map_err(|e| Fail::new("write-error", e.to_string()))?;
            match read(&text)? {
                Err(e) => fail!("unreadable", "what was read and written again cannot be read: {}\n{}", e, text),
                Ok(m) => compare("round-trip", &md, &m)?,
            }
        }
    }
    Ok(())
}

pub static P11: Prop = Prop {
    id: "P11",
    quick: 500_000,
    thorough: 2_000_000,
    rule: "byte-level and structural edits of valid documents, any values in any part of one, token soup and deep nesting; reading has to return (a model that survives a round trip, or an error with a message), never to crash or hang; non-trivial: longer than 20 bytes",
    assumptions: &["floating point numbers may be off by the rounding of the JSON library (4 units in the last place)"],
    run: p11,
    explicit: no_explicit,
    known: no_known,
};
