//! P01 identity text, P02 identity equality.

use crate::engine::*;
use crate::model::*;
use crate::{check, fail};
use atelier_core::model::{Identifier, NamespaceID, ShapeID};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::str::FromStr;

// --- reference recogniser, straight from the ABNF --------------------------------------------

pub fn ref_identifier(s: &str) -> bool {
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() && b[i] == b'_' {
        i += 1;
    }
    if i >= b.len() || !b[i].is_ascii_alphabetic() {
        return false;
    }
    b[i..].iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_')
}

pub fn ref_namespace(s: &str) -> bool {
    s.split('.').all(ref_identifier)
}

pub fn ref_shape_id(s: &str) -> Option<(String, String, Option<String>)> {
    let hash = s.find('#')?;
    let (ns, rest) = (&s[..hash], &s[hash + 1..]);
    let (name, member) = match rest.find('$') {
        Some(i) => (&rest[..i], Some(&rest[i + 1..])),
        None => (rest, None),
    };
    if ref_namespace(ns) && ref_identifier(name) && member.map(ref_identifier).unwrap_or(true) {
        Some((ns.into(), name.into(), member.map(|m| m.to_string())))
    } else {
        None
    }
}

fn gen_namespace(src: &mut Src) -> String {
    let most = if src.chance(1, 8) { 12 } else { 4 };
    src.list(1, most, gen_ident).join(".")
}

fn gen_id_text(src: &mut Src) -> String {
    let mut s = match src.weighted(&[3, 3, 5, 4]) {
        0 => gen_ident(src),
        1 => gen_namespace(src),
        2 => format!("{}#{}", gen_namespace(src), gen_ident(src)),
        _ => format!("{}#{}${}", gen_namespace(src), gen_ident(src), gen_ident(src)),
    };
    // zero to three edits that may or may not leave the grammar
    let edits = src.weighted(&[5, 4, 2, 1]);
    for _ in 0..edits {
        let mut cs: Vec<char> = s.chars().collect();
        let at = src.usize(cs.len() + 1);
        match src.weighted(&[4, 3, 3]) {
            0 => {
                let c = match src.weighted(&[6, 2]) {
                    0 => src.pick(&[
                        '.', '#', '$', '_', '0', '9', 'a', 'Z', '-', ' ', '\n', '\t', '@', '[', '`', '{', '/', ':', 'é',
                        'ß', '٣', 'Ａ', '\u{0}', '^', '\\', '|',
                    ]),
                    _ => gen_char(src, Text::Wild),
                };
                cs.insert(at, c);
            }
            1 => {
                if at < cs.len() {
                    cs.remove(at);
                }
            }
            _ => {
                if at < cs.len() {
                    cs[at] = src.pick(&['.', '#', '$', '_', '1', 'b', '*', '\n', 'İ']);
                }
            }
        }
        s = cs.into_iter().collect();
    }
    s
}

fn p01(src: &mut Src, case: &mut Case) -> Res {
    let s = gen_id_text(src);
    let want = ref_shape_id(&s);
    case.input(&s, s.len() > 1);
    case.sample(|| format!("{:?}: shape id {:?}, namespace {}, identifier {}", s, want, ref_namespace(&s), ref_identifier(&s)));
    case.tag(match &want {
        Some((_, _, Some(_))) => "member-id",
        Some(_) => "shape-id",
        None if ref_identifier(&s) => "identifier",
        None if ref_namespace(&s) => "namespace",
        None => "invalid",
    });

    let id = guard("Identifier", || (Identifier::is_valid(&s), Identifier::from_str(&s).ok().map(|i| i.to_string())))?;
    check!(id.0 == ref_identifier(&s), "identifier-valid", "Identifier::is_valid({:?}) = {}", s, id.0);
    let want_id = if ref_identifier(&s) { Some(s.clone()) } else { None };
    check!(id.1 == want_id, "identifier-parse", "Identifier parse of {:?} = {:?}", s, id.1);

    let ns = guard("NamespaceID", || {
        (
            NamespaceID::is_valid(&s),
            NamespaceID::from_str(&s)
                .ok()
                .map(|n| (n.to_string(), n.split().map(|i| i.to_string()).collect::<Vec<_>>())),
        )
    })?;
    check!(ns.0 == ref_namespace(&s), "namespace-valid", "NamespaceID::is_valid({:?}) = {}", s, ns.0);
    let want_ns = if ref_namespace(&s) {
        Some((s.clone(), s.split('.').map(|x| x.to_string()).collect::<Vec<_>>()))
    } else {
        None
    };
    check!(ns.1 == want_ns, "namespace-parse", "NamespaceID parse of {:?} = {:?}", s, ns.1);

    let v = guard("ShapeID::is_valid", || ShapeID::is_valid(&s))?;
    check!(v == want.is_some(), "shapeid-valid", "ShapeID::is_valid({:?}) = {}", s, v);
    let parsed = guard("ShapeID::from_str", || ShapeID::from_str(&s).ok())?;
    match (&want, &parsed) {
        (None, None) => {}
        (Some((n, sh, m)), Some(p)) => {
            let got = (
                p.namespace().to_string(),
                p.shape_name().to_string(),
                p.member_name().as_ref().map(|m| m.to_string()),
            );
            check!(got == (n.clone(), sh.clone(), m.clone()), "shapeid-parts", "{:?} parsed into {:?}", s, got);
            check!(p.to_string() == s, "shapeid-print", "{:?} prints as {:?}", s, p.to_string());
            derived(src, p, n, sh, m.as_deref())?;
        }
        _ => fail!("shapeid-parse", "ShapeID parse of {:?}: {:?}, want {:?}", s, parsed.map(|p| p.to_string()), want),
    }
    Ok(())
}

/// Ids derived from a parsed id are what their parts say, textually, and parse back.
fn derived(src: &mut Src, p: &ShapeID, n: &str, sh: &str, m: Option<&str>) -> Res {
    let other = gen_ident(src);
    let suffix = m.map(|m| format!("${}", m)).unwrap_or_default();
    let oid = Identifier::from_str(&other).map_err(|_| Fail::new("identifier-parse", format!("{:?} rejected", other)))?;
    let table = [
        ("make_member", p.make_member(oid.clone()), format!("{}#{}${}", n, sh, other)),
        ("make_shape", p.make_shape(oid.clone()), format!("{}#{}{}", n, other, suffix)),
        ("shape_only", p.shape_only(), format!("{}#{}", n, sh)),
        ("namespace.make_shape", p.namespace().make_shape(oid.clone()), format!("{}#{}", n, other)),
        (
            "namespace.make_member",
            p.namespace().make_member(p.shape_name().clone(), oid.clone()),
            format!("{}#{}${}", n, sh, other),
        ),
        (
            "new_unchecked",
            ShapeID::new_unchecked(n, sh, m),
            format!("{}#{}{}", n, sh, suffix),
        ),
        ("shape", ShapeID::shape(n, sh), format!("{}#{}", n, sh)),
        ("member", ShapeID::member(n, sh, &other), format!("{}#{}${}", n, sh, other)),
    ];
    for (what, got, want) in table {
        check!(got.to_string() == want, "derived-id", "{} of {} gives {}, want {}", what, p, got, want);
        check!(got.is_member() == want.contains('$'), "derived-member", "{} of {}: is_member() = {}", what, p, got.is_member());
        let again = guard("ShapeID::from_str", || ShapeID::from_str(&want))?;
        check!(again.is_ok() && again.unwrap() == got, "derived-parse", "{} does not parse back to itself", want);
    }
    check!(p.is_member() == m.is_some(), "is-member", "{}.is_member() = {}", p, p.is_member());
    // is_valid_member: same namespace and shape, left without a member, right with one
    let mut near = |s: &str| match src.weighted(&[3, 2, 1]) {
        0 => s.to_string(),
        1 => recase(src, s),
        _ => gen_ident(src),
    };
    let n2 = near(n);
    let s2 = near(sh);
    let m2 = if src.chance(2, 3) { Some(gen_ident(src)) } else { None };
    let q = ShapeID::new_unchecked(&n2, &s2, m2.as_deref());
    let same_ns = n.eq_ignore_ascii_case(&n2);
    let want = m.is_none() && m2.is_some() && same_ns && sh.eq_ignore_ascii_case(&s2);
    check!(p.is_valid_member(&q) == want, "is-valid-member", "{}.is_valid_member({}) = {}", p, q, !want);
    check!(p.is_in_same_namespace(&q) == same_ns, "same-namespace", "{}.is_in_same_namespace({}) = {}", p, q, !same_ns);
    Ok(())
}

pub static P01: Prop = Prop {
    id: "P01",
    quick: 2_000_000,
    thorough: 12_000_000,
    rule: "text made from the shape-id grammar and then edited 0-3 times (insert, delete, replace, with characters near the grammar's edges); non-trivial: longer than one byte",
    assumptions: &["the oracle is a hand-written recogniser of the Smithy 1.0 shape-id ABNF"],
    run: p01,
    explicit: no_explicit,
    known: no_known,
};

// ------------------------------------------------------------------------------------------------
// P02
// ------------------------------------------------------------------------------------------------

fn hash_of<H: Hash>(h: &H) -> u64 {
    let mut s = DefaultHasher::new();
    h.hash(&mut s);
    s.finish()
}

fn recase(src: &mut Src, s: &str) -> String {
    s.chars()
        .map(|c| {
            if src.chance(1, 3) {
                if c.is_ascii_lowercase() {
                    c.to_ascii_uppercase()
                } else {
                    c.to_ascii_lowercase()
                }
            } else {
                c
            }
        })
        .collect()
}

fn gen_sid_text(src: &mut Src) -> String {
    let word = |s: &mut Src| if s.chance(1, 6) { gen_ident(s) } else { s.pick(&["a", "b", "ab", "A", "smithy", "api"]).to_string() };
    let ns = src.list(1, 2, word).join(".");
    let n = if src.bool() { src.pick(&["a", "b", "Foo", "foo", "FOO", "String"]).to_string() } else { gen_ident(src) };
    match src.weighted(&[3, 2]) {
        0 => format!("{}#{}", ns, n),
        _ => format!("{}#{}${}", ns, n, if src.chance(1, 6) { gen_ident(src) } else { src.pick(&["a", "A", "m", "key", "Key"]).to_string() }),
    }
}

fn p02(src: &mut Src, case: &mut Case) -> Res {
    let mut texts = src.list(2, 8, gen_sid_text);
    if src.chance(1, 6) {
        // long ones, that differ late if at all
        case.tag("alike but for their ends");
        let head = gen_ident(src).repeat(1 + src.usize(8));
        let part = if src.bool() { head.clone() } else { format!("{}.{}", head, src.list(1, 8, gen_ident).join(".")) };
        for t in texts.iter_mut() {
            *t = match src.weighted(&[2, 1, 1]) {
                0 => format!("{}.{}", part, t),
                1 => t.replace('#', &format!(".z#{}", head)),
                _ => {
                    let (n, rest) = t.split_once('#').unwrap();
                    let m = match rest.split_once('$') {
                        Some((s, m)) => format!("{}${}{}", s, head, m),
                        None => format!("{}${}", rest, head),
                    };
                    format!("{}#{}", n, m)
                }
            };
        }
    }
    let extra: Vec<String> = texts.iter().map(|t| recase(src, t)).collect();
    texts.extend(extra);
    src.shuffle(&mut texts);
    case.input(&texts, texts.iter().map(|t| t.to_lowercase()).collect::<BTreeSet<_>>().len() > 1);
    case.sample(|| format!("{:?}", texts));
    let ids: Vec<ShapeID> = texts.iter().map(|t| sid(t)).collect();
    let folded: Vec<String> = texts.iter().map(|t| t.to_lowercase()).collect();
    for i in 0..ids.len() {
        for j in 0..ids.len() {
            let same = folded[i] == folded[j];
            case.tag_if(same && texts[i] != texts[j], "case-variant pair");
            let eq = ids[i] == ids[j];
            check!(eq == same, "eq", "{} == {} is {}", texts[i], texts[j], eq);
            if same {
                check!(hash_of(&ids[i]) == hash_of(&ids[j]), "hash", "{} equals {} but they hash differently", texts[i], texts[j]);
            }
            let ord = ids[i].cmp(&ids[j]);
            check!((ord == std::cmp::Ordering::Equal) == same, "ord-eq", "{} cmp {} is {:?}", texts[i], texts[j], ord);
            check!(ids[j].cmp(&ids[i]) == ord.reverse(), "ord-antisymmetric", "{} vs {}", texts[i], texts[j]);
            check!(ids[i].partial_cmp(&ids[j]) == Some(ord), "partial-ord", "{} vs {}", texts[i], texts[j]);
            for k in 0..ids.len() {
                if ord != std::cmp::Ordering::Greater && ids[j] <= ids[k] {
                    check!(ids[i] <= ids[k], "ord-transitive", "{} {} {}", texts[i], texts[j], texts[k]);
                }
            }
            // components obey the same law
            let (a, b) = (&ids[i], &ids[j]);
            let fold = |x: &dyn ToString| x.to_string().to_lowercase();
            let ns = fold(a.namespace()) == fold(b.namespace());
            check!((a.namespace() == b.namespace()) == ns, "ns-eq", "{} {}", a, b);
            if ns {
                check!(hash_of(a.namespace()) == hash_of(b.namespace()), "ns-hash", "namespaces of {} and {}", a, b);
            }
            let nm = fold(a.shape_name()) == fold(b.shape_name());
            check!((a.shape_name() == b.shape_name()) == nm, "name-eq", "{} {}", a, b);
            if nm {
                check!(hash_of(a.shape_name()) == hash_of(b.shape_name()), "name-hash", "names of {} and {}", a, b);
            }
            let (x, y) = (a.namespace(), b.namespace());
            let o = x.cmp(y);
            check!((o == std::cmp::Ordering::Equal) == ns, "ns-ord-eq", "{} cmp {} is {:?}", x, y, o);
            check!(y.cmp(x) == o.reverse() && x.partial_cmp(y) == Some(o), "ns-ord", "{} vs {}", x, y);
            let (x, y) = (a.shape_name(), b.shape_name());
            let o = x.cmp(y);
            check!((o == std::cmp::Ordering::Equal) == nm, "name-ord-eq", "{} cmp {} is {:?}", x, y, o);
            check!(y.cmp(x) == o.reverse() && x.partial_cmp(y) == Some(o), "name-ord", "{} vs {}", x, y);
            check!(a.is_in_same_namespace(b) == ns, "same-namespace", "{} {}", a, b);
            let of = ns && nm && !a.is_member() && b.is_member();
            check!(a.is_valid_member(b) == of, "valid-member", "{}.is_valid_member({}) is {}", a, b, !of);
            let c = &ids[(i + 2 * j + 1) % ids.len()];
            let (n, m, k) = (a.namespace(), b.namespace(), c.namespace());
            check!(n > m || m > k || n <= k, "ns-ord-transitive", "{} {} {}", n, m, k);
            let (n, m, k) = (a.shape_name(), b.shape_name(), c.shape_name());
            check!(n > m || m > k || n <= k, "name-ord-transitive", "{} {} {}", n, m, k);
        }
    }
    // a hash map and a tree map keyed by ids hold one entry per case-folded id
    let mut hm: HashMap<ShapeID, usize> = HashMap::new();
    let mut bm: BTreeMap<ShapeID, usize> = BTreeMap::new();
    let mut hs: HashSet<Identifier> = HashSet::new();
    let mut want: BTreeMap<String, usize> = BTreeMap::new();
    let mut names: BTreeSet<String> = BTreeSet::new();
    for (i, id) in ids.iter().enumerate() {
        let _ = hm.insert(id.clone(), i);
        let _ = bm.insert(id.clone(), i);
        let _ = hs.insert(id.shape_name().clone());
        want.insert(folded[i].clone(), i);
        names.insert(id.shape_name().to_string().to_lowercase());
    }
    check!(hm.len() == want.len(), "hash-map", "{} entries for {:?}", hm.len(), texts);
    check!(bm.len() == want.len(), "tree-map", "{} entries for {:?}", bm.len(), texts);
    check!(hs.len() == names.len(), "hash-set", "{} names for {:?}", hs.len(), texts);
    for (i, id) in ids.iter().enumerate() {
        check!(hm.get(id) == want.get(&folded[i]), "hash-lookup", "lookup of {}", texts[i]);
        check!(bm.get(id) == want.get(&folded[i]), "tree-lookup", "lookup of {}", texts[i]);
        // printing keeps the case it was given
        check!(id.to_string() == texts[i], "print-case", "{} prints as {}", texts[i], id);
    }
    Ok(())
}

pub static P02: Prop = Prop {
    id: "P02",
    quick: 150_000,
    thorough: 1_500_000,
    rule: "2-8 shape ids over small name pools plus random re-cased copies of each, all pairs and triples compared and used as map keys; non-trivial: at least two case-insensitively different ids",
    assumptions: &["ASCII identifiers only, as the grammar allows"],
    run: p02,
    explicit: no_explicit,
    known: no_known,
};
