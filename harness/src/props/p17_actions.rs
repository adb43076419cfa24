//! P17-P21: validation, linting and running actions.

use crate::engine::*;
use crate::model::*;
use crate::props::p03_model::{lower_lines, respelled};
use crate::{check, fail};
use atelier_core::action::lint::{run_linter_actions, NamingConventions, UnwelcomeTerms};
use atelier_core::action::validate::{run_validation_actions, CorrectTypeReferences, NoUnresolvedReferences};
use atelier_core::action::{Action, ActionIssue, IssueLevel, Linter, Validator};
use atelier_core::error::{ErrorKind, Result as ModelResult};
use atelier_core::model::Model;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

fn level(i: &ActionIssue) -> u8 {
    match i.level() {
        IssueLevel::Info => 0,
        IssueLevel::Warning => 1,
        IssueLevel::Error => 2,
    }
}

/// The issues of an action on a model, the action now and then having been used on another one.
fn issues_after<A>(
    src: &mut Src,
    case: &mut Case,
    c: &Cfg,
    action: &mut A,
    m: &Model,
    run: impl Fn(&mut A, &Model) -> Result<Vec<ActionIssue>, Fail>,
) -> Result<Vec<ActionIssue>, Fail> {
    let mut before = Vec::new();
    if src.chance(1, 10) {
        case.tag("after another model");
        let mut other = gen_model(src, c);
        if src.bool() {
            lint_names(src, &mut other, &TERMS);
        }
        before = run(action, &to_model(&other))?;
    }
    let all = run(action, m)?;
    check!(
        all.len() >= before.len() && all.iter().zip(&before).all(|(a, b)| a.to_string() == b.to_string()),
        "issues-lost",
        "the issues of another model were\n{}\nand then\n{}",
        show(&before),
        show(&all)
    );
    Ok(all[before.len()..].to_vec())
}

fn show(l: &[ActionIssue]) -> String {
    l.iter().map(|i| format!("{}", i)).collect::<Vec<_>>().join("\n")
}

fn words(s: &str) -> BTreeSet<String> {
    s.split(|c: char| !(c.is_ascii_alphanumeric() || "_.#$".contains(c)))
        .map(|w| w.trim_matches('.').to_string())
        .filter(|w| !w.is_empty())
        .collect()
}

/// What has to be said: level, where, and which names the message has to mention.
#[derive(Clone, Debug)]
struct Want {
    level: u8,
    locus: Option<Sid>,
    mentions: Vec<String>,
}

/// A perfect matching between expected and reported issues.
fn same_issues(want: &[Want], got: &[ActionIssue]) -> Result<(), String> {
    let fits = |w: &Want, g: &ActionIssue| {
        level(g) == w.level && g.locus().as_ref().map(|l| l.to_string()) == w.locus && {
            let ws = words(g.message());
            w.mentions.iter().all(|m| ws.contains(m))
        }
    };
    let edges: Vec<Vec<usize>> =
        want.iter().map(|w| got.iter().enumerate().filter(|(_, g)| fits(w, g)).map(|(i, _)| i).collect()).collect();
    let mut owner: Vec<Option<usize>> = vec![None; got.len()];
    fn place(w: usize, edges: &[Vec<usize>], owner: &mut Vec<Option<usize>>, seen: &mut Vec<bool>) -> bool {
        for g in &edges[w] {
            if seen[*g] {
                continue;
            }
            seen[*g] = true;
            if owner[*g].is_none() || place(owner[*g].unwrap(), edges, owner, seen) {
                owner[*g] = Some(w);
                return true;
            }
        }
        false
    }
    for w in 0..want.len() {
        if !place(w, &edges, &mut owner, &mut vec![false; got.len()]) {
            return Err(format!("nothing reports {:?}", want[w]));
        }
    }
    match owner.iter().position(|o| o.is_none()) {
        Some(g) => Err(format!("unexpected: {}", got[g])),
        None => Ok(()),
    }
}

fn validate(v: &mut dyn Validator, m: &Model) -> Result<Vec<ActionIssue>, Fail> {
    guard("validate", || v.validate(m))?.map_err(|e| Fail::new("error", format!("the validator failed: {}", e)))?;
    let label = v.label();
    let l = v.issues().clone();
    check!(l.iter().all(|i| i.reporter() == label), "reporter", "issues of {} say {}", label, show(&l));
    Ok(l)
}

fn lint(v: &mut dyn Linter, m: &Model) -> Result<Vec<ActionIssue>, Fail> {
    guard("check", || v.check(m))?.map_err(|e| Fail::new("error", format!("the linter failed: {}", e)))?;
    let label = v.label();
    let l = v.issues().clone();
    check!(l.iter().all(|i| i.reporter() == label), "reporter", "issues of {} say {}", label, show(&l));
    Ok(l)
}

// ------------------------------------------------------------------------------------------------
// P17, P18
// ------------------------------------------------------------------------------------------------

fn expected_types(md: &Md) -> Vec<Want> {
    let mut out: Vec<Want> = Vec::new();
    for (id, s) in &md.shapes {
        let mut say = |level: u8, mentions: Vec<String>| out.push(Want { level, locus: Some(id.clone()), mentions });
        let known = |t: &Sid| md.shapes.iter().find(|(k, _)| k.eq_ignore_ascii_case(t)).map(|(_, s)| &s.kind);
        let prelude = |t: &Sid| ns_of(t) == "smithy.api";
        let typed = |n: &str, t: &Sid, say: &mut dyn FnMut(u8, Vec<String>)| match known(t) {
            Some(K::Service(_)) | Some(K::Operation(_)) | Some(K::Resource(_)) => say(2, vec![n.to_string()]),
            Some(_) => {}
            None if prelude(t) => {}
            None => say(1, vec![n.to_string(), t.clone()]),
        };
        let operation = |t: &Sid, say: &mut dyn FnMut(u8, Vec<String>)| match known(t) {
            Some(K::Operation(_)) => {}
            Some(_) => say(2, vec!["operation".to_string()]),
            None if prelude(t) => {}
            None => say(1, vec![t.clone()]),
        };
        let resource = |t: &Sid, say: &mut dyn FnMut(u8, Vec<String>)| match known(t) {
            Some(K::Resource(_)) => {}
            Some(_) => say(2, vec!["resource".to_string()]),
            None if prelude(t) => {}
            None => say(1, vec![t.clone()]),
        };
        match &s.kind {
            K::Simple(_) => {
                if s.traits.is_empty() {
                    say(0, vec![id.clone()]);
                }
            }
            K::Service(v) => {
                v.operations.iter().for_each(|t| operation(t, &mut say));
                v.resources.iter().for_each(|t| resource(t, &mut say));
            }
            K::Operation(o) => {
                o.input.iter().for_each(|t| typed("input", t, &mut say));
                o.output.iter().for_each(|t| typed("output", t, &mut say));
                o.errors.iter().for_each(|t| typed("errors", t, &mut say));
            }
            K::Resource(r) => {
                r.identifiers.iter().for_each(|(n, t)| typed(n, t, &mut say));
                for (name, t) in LIFECYCLE.iter().zip(&r.lifecycle) {
                    // says which one it is
                    let mut say_name = |level, mut names: Vec<String>| {
                        names.push(name.to_string());
                        say(level, names)
                    };
                    t.iter().for_each(|t| operation(t, &mut say_name));
                }
                r.operations.iter().for_each(|t| operation(t, &mut say));
                r.collection_operations.iter().for_each(|t| operation(t, &mut say));
                r.resources.iter().for_each(|t| resource(t, &mut say));
            }
            K::Unresolved => {}
            k => members_of(k).into_iter().for_each(|(n, m)| typed(&n, &m.target, &mut say)),
        }
    }
    out
}

fn p17(src: &mut Src, case: &mut Case) -> Res {
    let c = Cfg { meta: false, text: Text::Plain, depth: 1, ..Cfg::default() };
    let mut md = gen_model(src, &c);
    if src.chance(1, 8) {
        // the prelude's own shapes may be part of the model
        md.shapes.insert("smithy.api#String".into(), S { traits: T::new(), kind: gen_kind(src, &c, &[]) });
    }
    let m = to_model_shuffled(&md, src);
    let want = expected_types(&md);
    case.input(&md, want.iter().any(|w| w.level > 0));
    case.tag_if(want.iter().any(|w| w.level == 2), "errors");
    case.tag_if(want.iter().any(|w| w.level == 1), "warnings");
    case.tag_if(want.is_empty() && !md.shapes.is_empty(), "clean");
    case.sample(|| format!("{:?}\n{:?}", md, want));
    let got = issues_after(src, case, &c, &mut CorrectTypeReferences::default(), &m, |v, m| validate(v, m))?;
    if let Err(e) = same_issues(&want, &got) {
        fail!("issues", "{}; all issues:\n{}\nfor {:?}", e, show(&got), md);
    }
    respelt(src, case, &md, &got, |m| validate(&mut CorrectTypeReferences::default(), m))
}

/// The case of names makes no difference to which issues there are.
fn respelt(src: &mut Src, case: &mut Case, md: &Md, got: &[ActionIssue], run: impl Fn(&Model) -> Result<Vec<ActionIssue>, Fail>) -> Res {
    if !src.chance(1, 6) {
        return Ok(());
    }
    case.tag("names in other cases");
    let other = respelled(src, md);
    let again = run(&to_model_shuffled(&other, src))?;
    let (got, again) = (show(got), show(&again));
    check!(lower_lines(&got) == lower_lines(&again), "case", "the issues are\n{}\nand with the names in other cases\n{}\nfor {:?}", got, again, other);
    Ok(())
}

pub static P17: Prop = Prop {
    id: "P17",
    quick: 400_000,
    thorough: 2_000_000,
    rule: "generated models with right, wrong, missing and unresolved targets in every position; the issues are matched one to one (level, shape, names mentioned) with those a reference derives from the model; non-trivial: at least one warning or error is due",
    assumptions: &["an unresolved reference is neither an operation nor a resource", "the message wording is free as long as it names the member, the lifecycle property or the target"],
    run: p17,
    explicit: no_explicit,
    known: no_known,
};

fn p18(src: &mut Src, case: &mut Case) -> Res {
    let c = Cfg { meta: false, text: Text::Plain, depth: 1, ..Cfg::default() };
    let mut md = gen_model(src, &c);
    if src.chance(1, 2) {
        md.shapes.values_mut().for_each(|s| {
            if src.chance(1, 3) {
                s.kind = K::Unresolved
            }
        });
    }
    let m = to_model_shuffled(&md, src);
    let unresolved: Vec<&Sid> = md.shapes.iter().filter(|(_, s)| s.kind == K::Unresolved).map(|(i, _)| i).collect();
    case.input(&md, !unresolved.is_empty());
    case.tag_if(unresolved.is_empty(), "complete");
    case.tag_if(unresolved.len() > 1, "several");
    case.sample(|| format!("{:?}", md));
    let got = issues_after(src, case, &c, &mut NoUnresolvedReferences::default(), &m, |v, m| validate(v, m))?;
    let mut named: Vec<Sid> = Vec::new();
    for i in &got {
        check!(level(i) == 2, "level", "{} should be an error", i);
        let mut ws = words(i.message());
        if let Some(l) = i.locus() {
            ws.insert(l.to_string());
        }
        match unresolved.iter().find(|u| ws.contains(**u) && !named.contains(u)) {
            Some(u) => named.push((*u).clone()),
            None => fail!("unexpected", "{} for {:?}", i, md),
        }
    }
    check!(named.len() == unresolved.len(), "missing", "unresolved {:?}, reported {:?} for {:?}", unresolved, named, md);
    check!(got.is_empty() == m.is_complete(), "complete", "complete is {} with issues\n{}", m.is_complete(), show(&got));
    respelt(src, case, &md, &got, |m| validate(&mut NoUnresolvedReferences::default(), m))
}

pub static P18: Prop = Prop {
    id: "P18",
    quick: 500_000,
    thorough: 2_000_000,
    rule: "generated models in which a varying number of shapes are unresolved references; exactly one error per such shape, naming it; non-trivial: there is an unresolved reference",
    assumptions: &[],
    run: p18,
    explicit: no_explicit,
    known: no_known,
};

// ------------------------------------------------------------------------------------------------
// P19
// ------------------------------------------------------------------------------------------------

/// The words of an identifier: split at underscores, between a lower and an upper case letter, and
/// before the last capital of a run of capitals followed by a lower case letter. A digit counts
/// with the letter before it.
pub fn ident_words(s: &str) -> Vec<String> {
    let cs: Vec<char> = s.chars().collect();
    let mut out: Vec<String> = Vec::new();
    let mut cur = String::new();
    // 0: no letter yet in this word, 1: last was lower, 2: last was upper
    let mut mode = 0;
    for (i, c) in cs.iter().enumerate() {
        if *c == '_' {
            if !cur.is_empty() {
                out.push(std::mem::take(&mut cur));
            }
            mode = 0;
            continue;
        }
        if c.is_ascii_uppercase() {
            let next_lower = cs.get(i + 1).map(|n| n.is_ascii_lowercase()).unwrap_or(false);
            if !cur.is_empty() && (mode == 1 || (mode == 2 && next_lower)) {
                out.push(std::mem::take(&mut cur));
            }
            mode = 2;
        } else if c.is_ascii_lowercase() {
            mode = 1;
        }
        cur.push(*c);
    }
    if !cur.is_empty() {
        out.push(cur);
    }
    out
}

fn capital(w: &str) -> String {
    let mut s = w.to_ascii_lowercase();
    if let Some(f) = s.get_mut(0..1) {
        f.make_ascii_uppercase();
    }
    s
}

fn upper_camel(s: &str) -> String {
    ident_words(s).iter().map(|w| capital(w)).collect()
}

fn lower_camel(s: &str) -> String {
    ident_words(s).iter().enumerate().map(|(i, w)| if i == 0 { w.to_ascii_lowercase() } else { capital(w) }).collect()
}

fn lint_names(src: &mut Src, md: &mut Md, pool: &[&str]) {
    let rename = |src: &mut Src, id: &Sid| -> Sid {
        if src.chance(1, 2) {
            format!("{}#{}", ns_of(id), src.pick(pool))
        } else {
            id.clone()
        }
    };
    let mut shapes: BTreeMap<Sid, S> = BTreeMap::new();
    for (id, s) in std::mem::take(&mut md.shapes) {
        if is_member_id(&id) {
            continue;
        }
        let mut s = s;
        each_ref(&mut s.kind, &mut |r| *r = rename(src, r));
        each_traits(&mut s, &mut |t| {
            *t = std::mem::take(t).into_iter().map(|(k, v)| (rename(src, &k), v)).collect::<T>();
            // no two spellings of one id
            let mut seen = BTreeSet::new();
            t.retain(|k, _| seen.insert(k.to_lowercase()));
            if src.chance(1, 8) {
                t.insert("smithy.api#trait".into(), None);
            }
        });
        if let K::Struct(m) | K::Union(m) = &mut s.kind {
            let mut seen = BTreeSet::new();
            *m = std::mem::take(m)
                .into_iter()
                .map(|(n, m)| (if src.bool() { src.pick(pool).to_string() } else { n }, m))
                .filter(|(n, _)| seen.insert(n.to_lowercase()))
                .collect();
        }
        let id = rename(src, &id);
        if !shapes.keys().any(|k| k.eq_ignore_ascii_case(&id)) {
            shapes.insert(id, s);
        }
    }
    md.shapes = shapes;
}

const CASES: [&str; 22] = [
    "Upper", "lower", "UpperCamel", "lowerCamel", "snake_case", "Snake_Upper", "HTTPServer", "aBC", "ABc", "A", "x", "X1",
    "x1Y", "X1Y2z", "thingAsJSON", "_lead", "trail_", "A_b", "url2Http", "SHOUT",
    "aNameWithAGreatManyWordsOfWhichTheLast_is_not", "One_Two_Three_Four_Five_Six_Seven",
];

fn p19(src: &mut Src, case: &mut Case) -> Res {
    let c = Cfg { meta: false, text: Text::Plain, depth: 1, ..Cfg::default() };
    let mut md = gen_model(src, &c);
    lint_names(src, &mut md, &CASES);
    let m = to_model_shuffled(&md, src);
    let mut must: BTreeSet<(Sid, String)> = BTreeSet::new();
    let mut may: BTreeSet<(Sid, String)> = BTreeSet::new();
    let shape_name = |id: &Sid, set: &mut BTreeSet<(Sid, String)>| {
        let n = name_of(id);
        if upper_camel(n) != n {
            set.insert((id.clone(), upper_camel(n)));
        }
    };
    let trait_name = |id: &Sid, set: &mut BTreeSet<(Sid, String)>| {
        let n = name_of(id);
        if lower_camel(n) != n {
            set.insert((id.clone(), lower_camel(n)));
        }
    };
    for (id, s) in &md.shapes {
        if s.traits.contains_key("smithy.api#trait") {
            trait_name(id, &mut must);
        } else {
            shape_name(id, &mut must);
        }
        s.traits.keys().for_each(|t| trait_name(t, &mut must));
        let documented = matches!(s.kind, K::Struct(_) | K::Union(_));
        let set = if documented { &mut must } else { &mut may };
        for (n, mem) in members_of(&s.kind) {
            if lower_camel(&n) != n {
                set.insert((id.clone(), lower_camel(&n)));
            }
            shape_name(&mem.target, set);
            mem.traits.keys().for_each(|t| trait_name(t, set));
        }
        if !documented {
            shape_refs(&s.kind).into_iter().for_each(|t| shape_name(t, &mut may));
        }
    }
    case.input(&md, !must.is_empty());
    case.sample(|| format!("{:?}\n{:?}", md, must));
    let got = issues_after(src, case, &c, &mut NamingConventions::default(), &m, |v, m| lint(v, m))?;
    let mut found: BTreeSet<(Sid, String)> = BTreeSet::new();
    for i in &got {
        check!(level(i) == 0, "level", "{} should be informational", i);
        let at = match i.locus() {
            Some(l) => l.to_string(),
            None => fail!("locus", "{} says nothing about where", i),
        };
        let ws = words(i.message());
        let hit: Vec<&(Sid, String)> =
            must.iter().chain(may.iter()).filter(|(l, n)| l.eq_ignore_ascii_case(&at) && ws.contains(n)).collect();
        if hit.is_empty() {
            fail!("unexpected", "{} for {:?}", i, md);
        }
        found.extend(hit.into_iter().cloned());
    }
    // ids that differ by case only are one id
    let fold = |s: &BTreeSet<(Sid, String)>| -> BTreeSet<(String, String)> {
        s.iter().map(|(l, n)| (l.to_lowercase(), n.to_lowercase())).collect()
    };
    let missing: Vec<_> = fold(&must).difference(&fold(&found)).cloned().collect();
    check!(missing.is_empty(), "missing", "nothing reported for {:?}; all issues:\n{}\nfor {:?}", missing, show(&got), md);
    Ok(())
}

pub static P19: Prop = Prop {
    id: "P19",
    quick: 250_000,
    thorough: 1_500_000,
    rule: "generated models with names in many styles; the set of (shape, corrected name) pairs reported is compared with the one a reference word splitter derives for shape names, structure and union members and their targets, and applied traits; non-trivial: some name breaks a convention",
    assumptions: &["reports about list, set and map members and other references are allowed, not required", "repetitions do not matter"],
    run: p19,
    explicit: no_explicit,
    known: no_known,
};

// ------------------------------------------------------------------------------------------------
// P20
// ------------------------------------------------------------------------------------------------

const UNWELCOME: [&str; 5] = ["blacklist", "kill", "master", "slave", "whitelist"];

const TERMS: [&str; 24] = [
    "Master", "masterNode", "NodeMaster", "killer", "KillSwitch", "the_blacklist", "BlackList", "Whitelist", "whitelistItem", "slave",
    "SlaveNode", "mastery", "MASTER", "killMasterNode", "enslaved", "HTTPMaster", "Kill2", "kill_", "WhiteList", "Plain",
    "aNameWithAGreatManyWordsOfWhichTheLastIsTheOneThatIsMaster", "oneTwoThreeFourFiveSixSlave", "_____master", "a_b_c_d_e_f_kill_g",
];

fn p20(src: &mut Src, case: &mut Case) -> Res {
    let spaces = ["example.one", "master.data", "other.slaveNode", "kill", "com.a.b.c.d.e.whitelist", "a_b_c_d_e_f_blacklist.x"];
    let c = Cfg {
        meta: false,
        text: Text::Plain,
        depth: 1,
        namespaces: if src.chance(2, 3) { vec!["example.one", "other"] } else { spaces.to_vec() },
        ..Cfg::default()
    };
    let mut md = gen_model(src, &c);
    lint_names(src, &mut md, &TERMS);
    let m = to_model_shuffled(&md, src);
    // identifier text -> (has to be looked at, where it occurs)
    let mut seen: BTreeMap<String, (bool, BTreeSet<String>)> = BTreeMap::new();
    fn add(seen: &mut BTreeMap<String, (bool, BTreeSet<String>)>, ident: &str, at: &Sid, must: bool) {
        let e = seen.entry(ident.to_string()).or_default();
        e.0 |= must;
        e.1.insert(at.to_lowercase());
    }
    fn add_id(seen: &mut BTreeMap<String, (bool, BTreeSet<String>)>, id: &Sid, must: bool) {
        ns_of(id).split('.').for_each(|p| add(seen, p, id, must));
        add(seen, name_of(id), id, must);
    }
    for (id, s) in &md.shapes {
        add_id(&mut seen, id, true);
        s.traits.keys().for_each(|t| add_id(&mut seen, t, true));
        let must = matches!(s.kind, K::Struct(_) | K::Union(_));
        for (n, mem) in members_of(&s.kind) {
            add(&mut seen, &n, id, must);
            add_id(&mut seen, &mem.target, must);
            mem.traits.keys().for_each(|t| add_id(&mut seen, t, must));
        }
        if !must {
            shape_refs(&s.kind).into_iter().for_each(|t| add_id(&mut seen, t, false));
            if let K::Resource(r) = &s.kind {
                r.identifiers.keys().for_each(|n| add(&mut seen, n, id, false));
            }
        }
    }
    let bad = |ident: &str| -> Vec<String> {
        ident_words(ident).into_iter().map(|w| w.to_ascii_lowercase()).filter(|w| UNWELCOME.contains(&w.as_str())).collect()
    };
    let due: Vec<(&String, &BTreeSet<String>, Vec<String>)> =
        seen.iter().filter(|(i, v)| v.0 && !bad(i).is_empty()).map(|(i, v)| (i, &v.1, bad(i))).collect();
    case.input(&md, !due.is_empty());
    case.tag_if(due.len() > 2, "several");
    case.sample(|| format!("{:?}\n{:?}", md, due));
    let got = issues_after(src, case, &c, &mut UnwelcomeTerms::default(), &m, |v, m| lint(v, m))?;
    // every identifier with such a word is reported where it occurs
    for (ident, at, ws) in &due {
        for w in ws {
            let hit = got.iter().any(|i| {
                words(i.message()).contains(w) && i.locus().as_ref().map(|l| at.contains(&l.to_string().to_lowercase())).unwrap_or(true)
            });
            check!(hit, "missing", "the term {} in {} is not reported; all issues:\n{}\nfor {:?}", w, ident, show(&got), md);
        }
    }
    // and nothing else is
    for i in &got {
        check!(level(i) == 1, "level", "{} should be a warning", i);
        let ws = words(i.message());
        let hit = seen.iter().any(|(ident, v)| {
            bad(ident).iter().any(|w| ws.contains(w))
                && i.locus().as_ref().map(|l| v.1.contains(&l.to_string().to_lowercase())).unwrap_or(true)
        });
        check!(hit, "unexpected", "{} for {:?}", i, md);
    }
    let most: usize = seen.keys().map(|i| bad(i).len()).sum();
    check!(got.len() <= most, "repeated", "{} reports for {} terms:\n{}", got.len(), most, show(&got));
    let least: usize = due.iter().map(|d| d.2.len()).sum();
    check!(got.len() >= least, "too-few", "{} reports for {} terms:\n{}\nfor {:?}", got.len(), least, show(&got), md);
    Ok(())
}

pub static P20: Prop = Prop {
    id: "P20",
    quick: 200_000,
    thorough: 1_500_000,
    rule: "generated models whose namespaces, shapes, members, targets and traits carry unwelcome and similar-looking words in many styles; every identifier with such a word is reported once, where it occurs, and nothing else; non-trivial: some report is due",
    assumptions: &["reports about members of lists, sets, maps and about other references are allowed, not required"],
    run: p20,
    explicit: no_explicit,
    known: no_known,
};

// ------------------------------------------------------------------------------------------------
// P21
// ------------------------------------------------------------------------------------------------

struct Scripted {
    issues: Vec<ActionIssue>,
    script: Vec<(u8, Option<Sid>)>,
    n: usize,
    /// fails, with its number in the message, after the issues of its script
    fails: bool,
    log: Rc<RefCell<Vec<usize>>>,
}

impl Action for Scripted {
    fn label(&self) -> &'static str {
        "Scripted"
    }
    fn issues(&self) -> &Vec<ActionIssue> {
        &self.issues
    }
    fn issues_mut(&mut self) -> &mut Vec<ActionIssue> {
        &mut self.issues
    }
}

impl Scripted {
    fn go(&mut self) -> ModelResult<()> {
        self.log.borrow_mut().push(self.n);
        for (j, (l, at)) in self.script.iter().enumerate() {
            let text = format!("issue {} of {}", j, self.n);
            let i = match (l, at) {
                (0, None) => ActionIssue::info("Scripted", &text),
                (1, None) => ActionIssue::warning("Scripted", &text),
                (_, None) => ActionIssue::error("Scripted", &text),
                (0, Some(a)) => ActionIssue::info_at("Scripted", &text, sid(a)),
                (1, Some(a)) => ActionIssue::warning_at("Scripted", &text, sid(a)),
                (_, Some(a)) => ActionIssue::error_at("Scripted", &text, sid(a)),
            };
            self.issues.push(i);
        }
        if self.fails {
            return Err(ErrorKind::InvalidSelectorExpression(format!("number {} failed", self.n)).into());
        }
        Ok(())
    }
}

impl Linter for Scripted {
    fn check(&mut self, _: &Model) -> ModelResult<()> {
        self.go()
    }
}

impl Validator for Scripted {
    fn validate(&mut self, _: &Model) -> ModelResult<()> {
        self.go()
    }
}

fn key(i: &ActionIssue) -> (String, u8, String, Option<String>) {
    (i.reporter().clone(), level(i), i.message().clone(), i.locus().as_ref().map(|l| l.to_string()))
}

fn p21(src: &mut Src, case: &mut Case) -> Res {
    let fail_fast = src.bool();
    let (actions, most) = if src.chance(1, 16) { (16, 4) } else { (5, if src.chance(1, 30) { 80 } else { 4 }) };
    let scripts: Vec<Vec<(u8, Option<Sid>)>> = src.list(0, actions, |s| {
        s.list(0, most, |s| {
            let l = s.weighted(&[4, 3, 2]) as u8;
            (l, if s.bool() { Some(format!("example.one#{}", s.pick(&NAMES))) } else { None })
        })
    });
    let failing: Option<usize> = if src.chance(1, 4) { Some(src.usize(actions)) } else { None };
    let c = Cfg { meta: false, text: Text::Plain, depth: 1, ..Cfg::default() };
    let mut md = gen_model(src, &c);
    if src.bool() {
        lint_names(src, &mut md, &TERMS);
    }
    let m = to_model_shuffled(&md, src);
    case.input(&(fail_fast, &scripts, failing, &md), scripts.len() > 1 && scripts.iter().any(|s| !s.is_empty()));
    case.sample(|| format!("fail_fast {} {:?}", fail_fast, scripts));
    let mut want: Vec<(String, u8, String, Option<String>)> = Vec::new();
    let mut runs = 0;
    let mut failed = false;
    for (n, s) in scripts.iter().enumerate() {
        runs += 1;
        if failing == Some(n) {
            failed = true;
            break;
        }
        for (j, (l, at)) in s.iter().enumerate() {
            want.push(("Scripted".into(), *l, format!("issue {} of {}", j, n), at.clone()));
        }
        if fail_fast && s.iter().any(|(l, _)| *l == 2) {
            case.tag_if(n + 1 < scripts.len(), "cut short");
            break;
        }
    }
    for kind in ["linters", "validators"] {
        let log: Rc<RefCell<Vec<usize>>> = Rc::default();
        let actions = scripts.iter().enumerate().map(|(n, s)| Scripted { issues: vec![], script: s.clone(), n, fails: failing == Some(n), log: log.clone() });
        let got = if kind == "linters" {
            let mut l: Vec<Box<dyn Linter>> = actions.map(|a| Box::new(a) as Box<dyn Linter>).collect();
            let r = guard("run_linter_actions", || run_linter_actions(&mut l, &m, fail_fast))?;
            if r.is_ok() && src.chance(1, 3) {
                // they can be run again, nothing is kept of the first time
                log.borrow_mut().clear();
                guard("run_linter_actions", || run_linter_actions(&mut l, &m, fail_fast))?
            } else {
                r
            }
        } else {
            let mut l: Vec<Box<dyn Validator>> = actions.map(|a| Box::new(a) as Box<dyn Validator>).collect();
            let r = guard("run_validation_actions", || run_validation_actions(&mut l, &m, fail_fast))?;
            if r.is_ok() && src.chance(1, 3) {
                log.borrow_mut().clear();
                guard("run_validation_actions", || run_validation_actions(&mut l, &m, fail_fast))?
            } else {
                r
            }
        };
        let ran = log.borrow().clone();
        check!((0..runs).eq(ran.iter().copied().take(if failed { runs } else { usize::MAX })), "ran", "{}: {:?} ran, not the first {}", kind, ran, runs);
        let got = match got {
            Ok(_) if failed => fail!("failure-lost", "{}: number {} failed, but the run did not", kind, runs - 1),
            Ok(l) => l,
            Err(e) if failed => {
                check!(e.to_string().contains(&format!("number {} failed", runs - 1)), "other-failure", "{}: {}", kind, e);
                continue;
            }
            Err(e) => fail!("error", "{} failed: {}", kind, e),
        };
        let keys: Vec<_> = got.iter().map(key).collect();
        check!(keys == want, "collated", "{}: want {:?}, got {:?}", kind, want, keys);
    }
    case.tag_if(failed, "an action fails");
    // the standard sets are those of the library, run the same way
    let sorted = |l: &[ActionIssue]| {
        let mut k: Vec<_> = l.iter().map(key).collect();
        k.sort();
        k
    };
    let naming = lint(&mut NamingConventions::default(), &m)?;
    let terms = lint(&mut UnwelcomeTerms::default(), &m)?;
    let all: Vec<ActionIssue> = naming.into_iter().chain(terms).collect();
    let got = guard("standard_model_lint", || atelier_lib::actions::standard_model_lint(&m, fail_fast))?;
    check!(got.as_ref().map(|g| sorted(g)).ok() == Some(sorted(&all)), "standard-lint", "want\n{}\ngot {:?}", show(&all), got);
    let unresolved = validate(&mut NoUnresolvedReferences::default(), &m)?;
    let types = validate(&mut CorrectTypeReferences::default(), &m)?;
    let all: Vec<ActionIssue> =
        if fail_fast && !unresolved.is_empty() { unresolved } else { unresolved.into_iter().chain(types).collect() };
    let got = guard("standard_model_validation", || atelier_lib::actions::standard_model_validation(&m, fail_fast))?;
    check!(got.as_ref().map(|g| sorted(g)).ok() == Some(sorted(&all)), "standard-validation", "want\n{}\ngot {:?}", show(&all), got);
    // one action used for two models has the issues of both
    let mut other = gen_model(src, &c);
    if src.bool() {
        lint_names(src, &mut other, &TERMS);
    }
    let n = to_model_shuffled(&other, src);
    fn both<A: ?Sized>(
        new: &dyn Fn() -> Box<A>,
        run: &dyn Fn(&mut A, &Model) -> Result<Vec<ActionIssue>, Fail>,
        m: &Model,
        n: &Model,
    ) -> Result<(Vec<ActionIssue>, Vec<ActionIssue>), Fail> {
        let mut each = run(&mut new(), m)?;
        each.extend(run(&mut new(), n)?);
        let mut one = new();
        run(&mut one, m)?;
        Ok((run(&mut one, n)?, each))
    }
    let (all, each) = match src.usize(4) {
        0 => both::<dyn Validator>(&|| Box::new(CorrectTypeReferences::default()), &|v, m| validate(v, m), &m, &n)?,
        1 => both::<dyn Validator>(&|| Box::new(NoUnresolvedReferences::default()), &|v, m| validate(v, m), &m, &n)?,
        2 => both::<dyn Linter>(&|| Box::new(NamingConventions::default()), &|v, m| lint(v, m), &m, &n)?,
        _ => both::<dyn Linter>(&|| Box::new(UnwelcomeTerms::default()), &|v, m| lint(v, m), &m, &n)?,
    };
    check!(sorted(&all) == sorted(&each), "accumulate", "one action on two models has\n{}\nwant\n{}", show(&all), show(&each));
    Ok(())
}

pub static P21: Prop = Prop {
    id: "P21",
    quick: 150_000,
    thorough: 1_500_000,
    rule: "lists of scripted linters and validators with issues of all levels, some of which fail, run with and without fail-fast, plus the standard sets on generated models; the collated issues and the actions run are compared with what the scripts say; non-trivial: two or more actions and at least one issue",
    assumptions: &["the issues reported before an action failed are not part of the error"],
    run: p21,
    explicit: no_explicit,
    known: no_known,
};
