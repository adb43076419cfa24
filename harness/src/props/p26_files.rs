//! P26: assembling files.

use crate::engine::*;
use crate::model::*;
use crate::props::p09_json::{ast, carried, render};
use crate::{check, fail};
use atelier_assembler::{FileType, FileTypeRegistry, ModelAssembler};
use atelier_core::error::Result as ModelResult;
use atelier_core::io::{read_model_from_file, write_model_to_string, ModelReader};
use atelier_core::model::Model;
use atelier_json::JsonReader;
use atelier_smithy::{SmithyReader, SmithyWriter};
use search_path::SearchPath;
use std::collections::{BTreeMap, BTreeSet};
use std::convert::TryFrom;
use std::fs::File;
use std::path::{Path, PathBuf};
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
enum How {
    Json,
    Smithy,
}

fn read_json(f: &mut File) -> ModelResult<Model> {
    JsonReader::default().read(f)
}

fn read_smithy(f: &mut File) -> ModelResult<Model> {
    SmithyReader::default().read(f)
}

fn file_cfg() -> Cfg {
    Cfg { text: Text::Plain, max_shapes: 4, namespaces: vec!["example.one", "example.two"], depth: 1, floats: false, keywordish: false, ..Cfg::default() }
}

/// Models that mostly merge: parts of one model, with traits and metadata of their own.
pub fn gen_parts(src: &mut Src, n: usize, clash: bool) -> Vec<Md> {
    let c = file_cfg();
    let base = gen_model(src, &c);
    let ids: Vec<Sid> = base.shapes.keys().cloned().collect();
    (0..n)
        .map(|_| {
            let mut md = Md::default();
            for (id, s) in &base.shapes {
                if !src.chance(2, 3) {
                    continue;
                }
                let mut s = s.clone();
                if clash && s.kind != K::Unresolved && src.chance(1, 3) {
                    s = gen_variant(src, &c, &s, &ids);
                }
                s.traits.retain(|_, _| src.bool());
                if src.chance(1, 4) && !is_member_id(id) {
                    let tags = src.list(0, 2, |s| V::Str(gen_name(s, false)));
                    s.traits.insert("smithy.api#tags".into(), Some(V::Arr(tags)));
                }
                md.shapes.insert(id.clone(), s);
            }
            for (k, v) in &base.meta {
                if src.bool() {
                    md.meta.insert(k.clone(), v.clone());
                }
            }
            if src.bool() {
                md.meta.insert("list".into(), V::Arr(src.list(0, 2, |s| V::Int(s.range(0, 9)))));
            }
            md
        })
        .collect()
}

/// The text of a model, or of nothing at all.
pub fn model_text(src: &mut Src, md: &Md, json: bool) -> String {
    if json {
        let md = carried(md);
        let mut t = String::new();
        render(src, &ast(&md), &mut t);
        t
    } else {
        let ns = src.pick(&["example.one", "example.two"]);
        let mut md = md.clone();
        md.shapes.retain(|k, _| ns_of(k) == ns);
        write_model_to_string(&mut SmithyWriter::new(namespace(ns)), &to_model(&md)).unwrap_or_default()
    }
}

fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = Vec::new();
    for p in permutations(n - 1) {
        for at in 0..=p.len() {
            let mut q = p.clone();
            q.insert(at, n - 1);
            out.push(q);
        }
    }
    out
}

fn fold(models: &[Model], order: &[usize]) -> Option<Model> {
    let mut it = order.iter();
    let mut m = match it.next() {
        None => return Some(Model::default()),
        Some(i) => models[*i].clone(),
    };
    for i in it {
        m.merge(models[*i].clone()).ok()?;
    }
    Some(m)
}

fn assemble(src: &mut Src, case: &mut Case) -> Res {
    let dir = Scratch::new();
    let root = dir.path();
    // the file types
    let mut registry = FileTypeRegistry::default();
    let mut types: BTreeMap<&str, How> = BTreeMap::new();
    types.insert("json", How::Json);
    types.insert("smithy", How::Smithy);
    match src.weighted(&[6, 1, 1, 1, 1]) {
        0 => {}
        1 => {
            registry.remove("JSON");
            types.remove("json");
        }
        2 => {
            registry.register(FileType::new("other", read_json), "txt");
            types.insert("txt", How::Json);
        }
        3 => {
            registry.register_all(FileType::new("more", read_smithy), &["TXT", "idl", "json"]);
            types.insert("txt", How::Smithy);
            types.insert("idl", How::Smithy);
            types.insert("json", How::Smithy);
        }
        _ => {
            registry = FileTypeRegistry::empty();
            registry.register(FileType::new_with_mime_type("IDL", read_smithy, "text/smithy"), "Smithy");
            types.remove("json");
        }
    }

    // the files
    let n = src.range(0, 6) as usize;
    let clash = src.chance(1, 3);
    let parts = gen_parts(src, n, clash);
    let mut files: BTreeMap<String, Option<How>> = BTreeMap::new();
    let mut log = Vec::new();
    let deep = "d/".repeat(60) + "e";
    for part in &parts {
        let sub = if src.chance(1, 100) { &*deep } else { src.pick(&["", "", "", "a", "a/b", "c", "sub.json", "D.smithy", "a/.hidden", " s ", "a:b", "~", "$HOME", "a,b;c"]) };
        let stem = src.pick(&["m", "n", "o", "p.q", "_r", "s s"]);
        let ext = src.pick(&["json", "json", "json", "smithy", "smithy", "smithy", "JSON", "Smithy", "txt", "TXT", "idl", "js", "json5", ""]);
        let how = types.get(ext.to_lowercase().as_str()).copied();
        if files.values().filter(|h| h.is_some()).count() == 4 && how.is_some() {
            continue;
        }
        let name = if ext.is_empty() { src.pick(&["json", ".json", "smithy", ".smithy", "README"]).to_string() } else { format!("{}.{}", stem, ext) };
        let rel = if sub.is_empty() { name } else { format!("{}/{}", sub, name) };
        // on a case-insensitive file system two of these could be one
        if files.keys().any(|k| k.eq_ignore_ascii_case(&rel)) {
            continue;
        }
        let text = match how {
            _ if src.chance(1, 30) => src.pick(&["{ not : a model", "", "\n", " "]).to_string(),
            Some(How::Json) => model_text(src, part, true),
            Some(How::Smithy) => model_text(src, part, false),
            None => src.pick(&["", "{}", "nothing", "namespace a\nstring S"]).to_string(),
        };
        let at = root.join(&rel);
        std::fs::create_dir_all(at.parent().unwrap()).unwrap();
        std::fs::write(&at, &text).unwrap();
        log.push(format!("{}: {}", rel, text));
        files.insert(rel, how);
    }
    if src.chance(1, 3) {
        std::fs::create_dir_all(root.join("empty/e.json")).unwrap();
    }
    // what is here only by a link
    let outside = Scratch::new();
    if src.chance(1, 8) && types.contains_key("smithy") && files.values().filter(|h| h.is_some()).count() < 4 {
        let part = gen_parts(src, 1, false).remove(0);
        let text = model_text(src, &part, false);
        let rel = src.pick(&["far.smithy", "far/o.smithy", "far.json/o.smithy"]);
        std::fs::write(outside.path().join("o.smithy"), &text).unwrap();
        let (link, to) = match rel.split_once('/') {
            Some((d, _)) => (root.join(d), outside.path().to_path_buf()),
            None => (root.join(rel), outside.path().join("o.smithy")),
        };
        std::os::unix::fs::symlink(to, link).unwrap();
        log.push(format!("{} from elsewhere: {}", rel, text));
        files.insert(rel.to_string(), Some(How::Smithy));
        case.tag("a link to elsewhere");
    }
    let mut dirs: BTreeSet<String> = BTreeSet::new();
    for f in files.keys() {
        let mut p = Path::new(f).parent();
        while let Some(d) = p {
            if !d.as_os_str().is_empty() {
                dirs.insert(d.to_string_lossy().to_string());
            }
            p = d.parent();
        }
    }

    // what is asked for
    let mut given: Vec<String> = Vec::new();
    if src.chance(2, 3) {
        given.push(String::new());
    }
    let names: Vec<&String> = files.keys().chain(dirs.iter()).collect();
    if !names.is_empty() {
        for _ in 0..src.usize(4) {
            given.push(src.pick(&names).clone());
        }
    }
    // the same file by another name, directories that hold themselves or each other
    let links = if src.chance(1, 4) { 1 + src.usize(3) } else { 0 };
    for _ in 0..links {
        let link = root.join(src.pick(&["link.json", "link.smithy", "a/to", "to", "a/b/to"]));
        let to = if names.is_empty() || src.bool() { root.to_path_buf() } else { root.join(src.choose(&names)) };
        let asked = |p: &Path| given.iter().any(|g| p.starts_with(root.join(g)));
        let same = link.extension().map(|e| e.to_os_string()) == to.extension().map(|e| e.to_os_string());
        if link.parent().unwrap().is_dir() && !link.exists() && asked(&link) && asked(&to) && (to.is_dir() || same) {
            std::os::unix::fs::symlink(&to, &link).unwrap();
            log.push(format!("{:?} is {:?}", link, to));
            case.tag(if to.is_dir() { "linked directory" } else { "linked file" });
        }
    }
    let under = |f: &str| given.iter().any(|g| g.is_empty() || f == g || f.starts_with(&format!("{}/", g)));
    let wanted: Vec<(&String, How)> = files.iter().filter(|(f, _)| under(f)).filter_map(|(f, h)| h.map(|h| (f, h))).collect();
    let mut bad = false;
    let mut models = Vec::new();
    for (f, how) in &wanted {
        let r = match how {
            How::Json => guard("read", || read_model_from_file(&mut JsonReader::default(), root.join(f)))?,
            How::Smithy => guard("read", || read_model_from_file(&mut SmithyReader::default(), root.join(f)))?,
        };
        match r {
            Ok(m) => models.push(m),
            Err(_) => bad = true,
        }
    }
    case.input(&(&log, &given), wanted.len() >= 2 && !bad);
    case.sample(|| format!("given {:?} of\n{}", given, log.join("\n")));
    case.tag_if(bad, "a bad file");
    case.tag_if(given.len() > 1 && given.contains(&String::new()), "overlapping paths");
    case.tag(match wanted.len() {
        0 => "no file",
        1 => "one file",
        2 => "two files",
        _ => "three or four files",
    });

    // assemble, in several orders and ways
    let mut asked: Vec<PathBuf> = given.iter().map(|g| root.join(g)).collect();
    if src.chance(1, 6) && !asked.is_empty() {
        let again = src.pick(&asked);
        // the same path spelled another way
        case.tag("a path spelled in two ways");
        asked.push(match src.below(3) {
            0 => root.join(".").join("..").join(root.file_name().unwrap()).join(again.strip_prefix(root).unwrap()),
            1 if again.is_dir() => again.join("."),
            _ => again.parent().unwrap().join("..").join(again.parent().unwrap().file_name().unwrap()).join(again.file_name().unwrap()),
        });
    }
    if src.chance(1, 8) {
        // paths that are not there are nothing
        asked.push(root.join(src.pick(&["nowhere", "nowhere/x.json", "nowhere.smithy"])));
        case.tag("a path to nothing");
    }
    let by_env = src.chance(1, 6) && std::env::join_paths(&asked).is_ok();
    let mut first: Option<(Option<Model>, Vec<PathBuf>)> = None;
    for round in 0..3 {
        let mut order = asked.clone();
        let distinct: BTreeSet<PathBuf> = order.iter().cloned().collect();
        src.shuffle(&mut order);
        let how_many = src.usize(order.len() + 1);
        let rest = order.split_off(how_many);
        let mut asm = if by_env && types.len() == 2 && types.get("json") == Some(&How::Json) {
            // nothing else runs in this process while a case does
            let joined = std::env::join_paths(&order).unwrap();
            std::env::set_var("SMITHY_PATH", &joined);
            let a = ModelAssembler::default();
            std::env::remove_var("SMITHY_PATH");
            case.tag("by environment");
            a
        } else if src.bool() {
            ModelAssembler::new(registry.clone(), Some(SearchPath::from(order.clone())))
        } else {
            let mut a = ModelAssembler::new(registry.clone(), None);
            for p in &order {
                a.push(p);
            }
            a
        };
        for p in &rest {
            if src.chance(1, 20) {
                // nothing is lost by assembling what is there so far
                let _ = guard("assemble", || Model::try_from(&mut asm))?;
            }
            if src.bool() {
                asm.push(p);
            } else {
                asm.push_str(p.to_str().unwrap());
            }
        }
        check!(asm.len() == distinct.len() && asm.is_empty() == distinct.is_empty(), "paths", "{} paths, {} reported", distinct.len(), asm.len());
        check!(asm.paths().map(PathBuf::from).collect::<BTreeSet<_>>() == distinct, "paths", "given {:?}, has {:?}", distinct, asm);
        let expanded = guard("expand_file_paths", || asm.expand_file_paths())?;
        let expanded: Vec<PathBuf> = expanded.iter().map(|p| p.canonicalize().unwrap_or_else(|_| p.clone())).collect();
        let found: BTreeSet<PathBuf> = expanded.iter().cloned().collect();
        let want: BTreeSet<PathBuf> = wanted.iter().map(|(f, _)| root.join(f)).map(|p| p.canonicalize().unwrap_or(p)).collect();
        check!(found == want, "expanded", "expanded to {:?}, want {:?}", found, want);
        check!(found.len() == expanded.len(), "twice", "files more than once: {:?}", expanded);
        let got = if src.bool() {
            guard("assemble", || Model::try_from(asm))?
        } else {
            let before = if src.chance(1, 3) { Some(guard("assemble", || Model::try_from(&mut asm))?.ok()) } else { None };
            let got = guard("assemble", || Model::try_from(&mut asm))?;
            if let Some(b) = before {
                check!(b.as_ref() == got.as_ref().ok(), "assembled-twice", "assembled {:?}, and then {:?}", b, got);
            }
            got
        }
        .ok();
        if round == 0 {
            if bad {
                check!(got.is_none(), "bad-file", "a file that is no model was assembled");
            } else {
                let all: Vec<Option<Model>> = permutations(models.len()).iter().map(|o| fold(&models, o)).collect();
                case.tag(if all.contains(&None) { "conflict" } else { "assembled" });
                if !all.contains(&got) {
                    match &got {
                        Some(m) => fail!("model", "assembled {:#?}, none of the merges {:#?}", from_model(m), all[0].as_ref().map(from_model)),
                        None => fail!("error", "nothing assembled, but the models merge"),
                    }
                }
            }
        }
        match &first {
            None => first = Some((got, expanded)),
            Some((m, e)) => {
                check!(e == &expanded, "order", "the same paths expand to {:?} and to {:?}", e, expanded);
                check!(m == &got, "order", "the same files assemble to different models: {:#?} and {:#?}", m.as_ref().map(from_model), got.as_ref().map(from_model));
            }
        }
    }

    // the other files go while the first is read
    if wanted.len() >= 2 && src.chance(1, 8) {
        case.tag("vanishing files");
        DOOMED.with(|d| *d.borrow_mut() = wanted.iter().map(|(f, _)| root.join(f)).collect());
        let mut r = FileTypeRegistry::empty();
        for (ext, how) in &types {
            r.register(FileType::new("vanish", if *how == How::Json { vanish_json } else { vanish_smithy }), ext);
        }
        let mut a = ModelAssembler::new(r, None);
        a.push(root);
        let got = no_panic(|| Model::try_from(a).map(|_| ()).map_err(|e| e.to_string()));
        DOOMED.with(|d| d.borrow_mut().clear());
        match got {
            Err(m) => fail!("vanished", "a file that went away made the assembler panic: {}", m),
            Ok(r) => check!(r.err().map(|e| !e.is_empty()).unwrap_or(true), "vanished", "an error without a message"),
        }
    }
    Ok(())
}

thread_local! {
    /// files of the scratch directory that go at the next read
    static DOOMED: std::cell::RefCell<Vec<PathBuf>> = const { std::cell::RefCell::new(Vec::new()) };
}

fn vanish_json(f: &mut File) -> ModelResult<Model> {
    doom();
    read_json(f)
}

fn vanish_smithy(f: &mut File) -> ModelResult<Model> {
    doom();
    read_smithy(f)
}

fn doom() {
    DOOMED.with(|d| {
        for p in d.borrow_mut().drain(..) {
            if p.starts_with(std::env::temp_dir()) {
                let _ = std::fs::remove_file(p);
            }
        }
    })
}

/// For the `assemble` subcommand.
pub fn assemble_only(path: &str) {
    let mut a = ModelAssembler::new(FileTypeRegistry::default(), None);
    a.push_str(path);
    let paths = a.expand_file_paths();
    match Model::try_from(a) {
        Ok(m) => println!("ok {} {}", paths.len(), m.shapes().count()),
        Err(e) => println!("err {}", e),
    }
}

/// A file or directory that may not be read, for a user who may not.
fn unreadable(dir: bool) -> Res {
    use std::os::unix::fs::PermissionsExt;
    use std::os::unix::process::CommandExt;
    let scratch = Scratch::new();
    let root = scratch.path();
    let mode = |p: &Path, m: u32| std::fs::set_permissions(p, std::fs::Permissions::from_mode(m)).unwrap();
    mode(root, 0o755);
    let exe = root.join("exe");
    if std::env::current_exe().and_then(|e| std::fs::copy(e, &exe)).is_err() {
        return Ok(());
    }
    mode(&exe, 0o755);
    let models = root.join("models");
    std::fs::create_dir(&models).unwrap();
    mode(&models, 0o755);
    let run = |what: &str| {
        let out = std::process::Command::new(&exe).arg("assemble").arg(&models).uid(65534).gid(65534).output().ok()?;
        let text = String::from_utf8_lossy(&out.stdout).trim().to_string();
        Some((what.to_string(), out.status.code(), text, String::from_utf8_lossy(&out.stderr).to_string()))
    };
    // a user of that kind can be had here at all
    match run("nothing") {
        Some((_, Some(0), t, _)) if t.starts_with("ok 0") => {}
        _ => return Ok(()),
    }
    let target = if dir { models.join("sub") } else { models.join("a.json") };
    if dir {
        std::fs::create_dir(&target).unwrap();
    } else {
        std::fs::write(&target, "{\"smithy\":\"1.0\"}").unwrap();
    }
    // others can be read
    for good in ["0.json", "z.smithy"] {
        let good = models.join(good);
        std::fs::write(&good, if good.extension().map(|e| e == "json").unwrap_or(false) { "{\"smithy\":\"1.0\",\"shapes\":{\"a#B\":{\"type\":\"string\"}}}" } else { "namespace a\nstring C\n" }).unwrap();
        mode(&good, 0o644);
    }
    match run("readable") {
        Some((_, Some(0), t, _)) => check!(t.starts_with("ok ") || dir, "readable", "it was not assembled: {}", t),
        Some((_, c, t, e)) => fail!("readable", "ended with {:?}: {} {}", c, t, e),
        None => {}
    }
    mode(&target, 0o000);
    let got = run("unreadable");
    mode(&target, 0o755);
    match got {
        Some((_, Some(0), t, _)) => check!(t.starts_with("err ") && t.len() > 4, "unreadable", "it was assembled: {}", t),
        Some((_, c, t, e)) => fail!("unreadable", "ended with {:?}: {} {}", c, t, e),
        None => {}
    }
    Ok(())
}

fn p26_explicit() -> Vec<Explicit> {
    vec![
        Explicit { name: "a file the user may not read".into(), run: Box::new(|| unreadable(false)) },
        Explicit { name: "a directory the user may not read".into(), run: Box::new(|| unreadable(true)) },
    ]
}

fn registry(src: &mut Src, case: &mut Case) -> Res {
    let names = ["json", "JSON", "smithy", "Smithy", "txt", "TXT", "tXt", "x.y", "", "é", "É", "idl"];
    let mimes = ["text/smithy", "Text/Smithy", "application/json", "APPLICATION/json", "x/y", "x/é", "X/É", "x/y; charset=utf-8", " x/y", ""];
    let mut r = FileTypeRegistry::empty();
    let mut by_ext: BTreeMap<String, Rc<FileType>> = BTreeMap::new();
    let mut by_mime: BTreeMap<String, Rc<FileType>> = BTreeMap::new();
    if src.bool() {
        r = FileTypeRegistry::default();
        for ext in ["json", "smithy"] {
            match r.get(ext) {
                Some(t) => {
                    by_ext.insert(ext.to_string(), t.clone());
                }
                None => fail!("default", "no file type for {} by default", ext),
            }
        }
    }
    // types that have been removed: whether their MIME type goes too is left open
    let mut open: BTreeSet<String> = BTreeSet::new();
    let mut log = Vec::new();
    for step in 0..src.usize(12) {
        let ext = src.pick(&names);
        match src.weighted(&[4, 2, 2]) {
            0 | 1 => {
                let mime = src.chance(2, 3).then(|| src.pick(&mimes));
                let name = format!("type {}", step);
                let t = match mime {
                    Some(m) => FileType::new_with_mime_type(&name, read_json, m),
                    None => FileType::new(&name, read_smithy),
                };
                check!(t.name() == &name && t.mime_type().as_deref() == mime, "file-type", "made {:?} of {:?}", t, (&name, mime));
                let exts = if src.bool() { vec![ext] } else { src.list(1, 6, |s| s.pick(&names)) };
                log.push(format!("register {} {:?} as {:?}", name, mime, exts));
                if exts.len() == 1 && src.bool() {
                    r.register(t.clone(), exts[0]);
                } else {
                    r.register_all(t.clone(), &exts);
                }
                for e in exts {
                    if let Some(old) = by_ext.insert(e.to_lowercase(), t.clone()) {
                        old.mime_type().iter().for_each(|m| {
                            open.insert(m.to_lowercase());
                        });
                    }
                }
                if let Some(m) = mime {
                    by_mime.insert(m.to_lowercase(), t.clone());
                    open.remove(&m.to_lowercase());
                }
            }
            _ => {
                log.push(format!("remove {}", ext));
                let got = r.remove(ext);
                let want = by_ext.remove(&ext.to_lowercase());
                if let Some(m) = want.as_ref().and_then(|t| t.mime_type().as_ref()) {
                    open.insert(m.to_lowercase());
                }
                check!(same(got.as_ref(), want.as_ref()), "remove", "removed {:?}, not {:?}", got, want);
            }
        }
        for e in names {
            let want = by_ext.get(&e.to_lowercase());
            check!(r.contains(e) == want.is_some(), "contains", "{:?}: contains({:?}) = {}", log, e, r.contains(e));
            check!(same(r.get(e), want), "get", "{:?}: get({:?}) = {:?}, not {:?}", log, e, r.get(e), want);
        }
        for m in mimes {
            if !open.contains(&m.to_lowercase()) {
                let want = by_mime.get(&m.to_lowercase());
                check!(same(r.get_by_mime_type(m), want), "mime", "{:?}: by {:?} {:?}, not {:?}", log, m, r.get_by_mime_type(m), want);
            }
        }
        let mut exts: Vec<String> = r.extensions().cloned().collect();
        exts.sort();
        check!(exts == by_ext.keys().cloned().collect::<Vec<_>>(), "extensions", "{:?}: extensions {:?}", log, exts);
    }
    case.input(&log, log.len() >= 2);
    case.sample(|| log.join("; "));
    case.tag("registry");
    Ok(())
}

fn same(a: Option<&Rc<FileType>>, b: Option<&Rc<FileType>>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => a.name() == b.name() && a.mime_type() == b.mime_type() && *a.reader() as usize == *b.reader() as usize,
        _ => false,
    }
}

fn p26(src: &mut Src, case: &mut Case) -> Res {
    if src.chance(1, 4) {
        registry(src, case)
    } else {
        assemble(src, case)
    }
}

pub static P26: Prop = Prop {
    id: "P26",
    quick: 40_000,
    thorough: 500_000,
    rule: "a tree of generated files, some of them asked for in random ways and orders, is assembled and compared with the merges of the models read one by one; every fourth case is a history of a file type registry against a map; non-trivial: two or more models, or registry steps",
    assumptions: &[
        "merging may go in any order of the files, but always in the same one",
        "whether removing an extension forgets the MIME type of its file type is left open",
    ],
    run: p26,
    explicit: p26_explicit,
    known: no_known,
};
