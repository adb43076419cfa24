//! P31: the command line tool.

use crate::engine::*;
use crate::model::*;
use crate::props::p01_ids::ref_namespace;
use crate::props::p26_files::{gen_parts, model_text};
use crate::{check, fail};
use atelier_assembler::{FileTypeRegistry, ModelAssembler};
use atelier_core::action::ActionIssue;
use atelier_core::io::{read_model_from_string, write_model_to_string};
use atelier_core::model::Model;
use atelier_describe::document::writer::describe_model;
use atelier_describe::plant_uml::writer::PlantUmlWriter;
use atelier_json::JsonReader;
use atelier_lib::actions::{standard_model_lint, standard_model_validation};
use atelier_smithy::SmithyWriter;
use search_path::SearchPath;
use somedoc::write::{write_document_to_string, OutputFormat};
use std::collections::BTreeSet;
use std::convert::TryFrom;
use std::os::unix::process::CommandExt;
use std::path::PathBuf;
use std::process::Command;
use std::str::FromStr;

fn bag(s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    c.sort_unstable();
    c.into_iter().collect()
}

fn plain(s: &str) -> String {
    let mut out = String::new();
    let mut rest = s;
    while let Some(n) = rest.find("\u{1b}[") {
        out.push_str(&rest[..n]);
        rest = &rest[n..];
        rest = rest.find('m').map(|e| &rest[e + 1..]).unwrap_or("");
    }
    out + rest
}

fn report(issues: &[ActionIssue], no_color: bool) -> Vec<String> {
    let mut out = Vec::new();
    for i in issues {
        let level = i.level().to_string();
        let at = i.locus().as_ref().map(|l| l.to_string());
        out.push(format!("[{}] {}", level, i.message()));
        out.push(match (no_color, at) {
            (true, at) => format!("\tReported by {} for element {}.", i.reporter(), at.unwrap_or_default()),
            (false, Some(at)) => format!("\tReported by {} on/for element `{}`.", i.reporter(), at),
            (false, None) => format!("\tReported by {}.", i.reporter()),
        });
    }
    if issues.is_empty() {
        out.push("No issues reported.".into());
    }
    out.sort();
    out
}

/// What a run should write, if anything.
enum Out {
    Lines(Vec<String>),
    Model(Model),
    Text(String),
    Error,
}

fn p31(src: &mut Src, case: &mut Case) -> Res {
    let dir = Scratch::new();
    let root = dir.path();
    let n = src.usize(4);
    let clash = src.chance(1, 6);
    let mut parts = gen_parts(src, n, clash);
    if src.chance(1, 40) && !parts.is_empty() {
        // a lot to report and to write
        let many = 100 + src.usize(300);
        for i in 0..many {
            let kind = K::Simple(src.pick(&SIMPLES));
            parts[0].shapes.insert(format!("example.one#bad_name_{}", i), S { traits: T::new(), kind });
        }
        case.tag("many shapes");
    }
    // as they are, or seen from the directory the command runs in
    let relative = src.chance(1, 4);
    let spelled = |p: &PathBuf| if relative { p.strip_prefix(root).unwrap().to_path_buf() } else { p.clone() };
    let mut files: Vec<PathBuf> = Vec::new();
    let mut log = Vec::new();
    for (i, md) in parts.iter().enumerate() {
        let json = src.bool();
        let text = if src.chance(1, 30) { "{ not : a model".to_string() } else { model_text(src, md, json) };
        let sub = root.join(src.pick(&["a", "b"]));
        std::fs::create_dir_all(&sub).unwrap();
        let at = sub.join(format!("m{}.{}", i, if json { "json" } else { "smithy" }));
        std::fs::write(&at, &text).unwrap();
        log.push(format!("{:?}: {}", at.strip_prefix(root).unwrap(), text));
        files.push(at);
    }

    // what is given, and how
    let mut given: Vec<PathBuf> = Vec::new();
    match src.weighted(&[2, 2, 2]) {
        0 => given = files.clone(),
        1 => given = ["a", "b"].iter().map(|d| root.join(d)).filter(|d| d.exists()).collect(),
        _ => {
            for f in &files {
                if src.bool() {
                    given.push(f.clone());
                }
            }
        }
    }
    // a path that does not exist: in a search path it does not matter, given as an argument it does
    let nowhere_given = src.chance(1, 8).then(|| root.join(src.pick(&["a/m9.smithy", "c", "m0.json", "a/none/m1.json"])));
    if let Some(p) = &nowhere_given {
        let at = src.usize(given.len() + 1);
        given.insert(at, p.clone());
    }
    let mut args: Vec<String> = Vec::new();
    let mut cmd = Command::new(std::env::current_exe().unwrap().with_file_name("cargo-atelier"));
    cmd.env_remove("SMITHY_PATH").env_remove("CLICOLOR_FORCE").env_remove("NO_COLOR").env_remove("CLICOLOR");
    cmd.current_dir(root);
    let split = src.usize(given.len() + 1);
    let (by_env, by_arg) = match src.weighted(&[4, 2, 2]) {
        0 => (vec![], given.clone()),
        1 => {
            cmd.env("SMITHY_PATH", std::env::join_paths(given[..split].iter().map(spelled)).unwrap());
            args.push(src.pick(&["-d", "--default-search-env"]).to_string());
            case.tag("SMITHY_PATH");
            (given[..split].to_vec(), given[split..].to_vec())
        }
        _ => {
            cmd.env("MY_PATH", std::env::join_paths(given[..split].iter().map(spelled)).unwrap());
            args.extend([src.pick(&["-s", "--search-env"]).to_string(), "MY_PATH".into()]);
            case.tag("other variable");
            (given[..split].to_vec(), given[split..].to_vec())
        }
    };
    if args.is_empty() && src.chance(1, 4) {
        // not asked for
        cmd.env("SMITHY_PATH", root.join("a"));
    }
    for f in &by_arg {
        args.extend([src.pick(&["-i", "--in-file"]).to_string(), spelled(f).to_str().unwrap().into()]);
    }
    let mut asm = ModelAssembler::new(FileTypeRegistry::default(), if by_env.is_empty() { None } else { Some(SearchPath::from(by_env)) });
    for f in &by_arg {
        asm.push(f);
    }
    let model = guard("assemble", || Model::try_from(asm))?;
    let missing = by_arg.iter().any(|f| !f.exists());
    case.tag_if(missing, "a path that does not exist");
    let model = if missing { Err(std::io::Error::from(std::io::ErrorKind::NotFound).into()) } else { model };

    // the command
    let no_color = src.chance(1, 3);
    let forced = src.chance(1, 3);
    if forced {
        cmd.env("CLICOLOR_FORCE", "1");
    }
    let mut out_file = None;
    let what = src.weighted(&[2, 2, 4, 2]);
    let (name, want) = match what {
        0 | 1 => {
            let r = model.and_then(|m| if what == 0 { standard_model_lint(&m, false) } else { standard_model_validation(&m, false) });
            let want = r.map(|i| Out::Lines(report(&i, no_color))).unwrap_or(Out::Error);
            (if what == 0 { "lint" } else { "validate" }, want)
        }
        _ => {
            if src.bool() {
                let f = match src.weighted(&[4, 2, 1, 1]) {
                    3 if !files.is_empty() => src.choose(&files).clone(),
                    0 | 3 => root.join("out"),
                    1 => {
                        std::fs::write(root.join("out"), "x".repeat(10_000)).unwrap();
                        root.join("out")
                    }
                    _ => root.join("none/out"),
                };
                args.extend([src.pick(&["-o", "--out-file"]).to_string(), spelled(&f).to_str().unwrap().into()]);
                case.tag("to a file");
                case.tag_if(files.contains(&f), "to an input file");
                out_file = Some(f);
            }
            let w = src.pick(&["-w", "--write-format"]).to_string();
            if what == 2 {
                let format = src.pick(&["", "json", "smithy", "smithy", "smithy", "uml", "yaml"]);
                if !format.is_empty() {
                    args.extend([w, format.to_string()]);
                }
                let ns = src.chance(2, 3).then(|| src.pick(&["example.one", "example.two", "example.one", "nowhere", "1x", "a b", "", "Example.One", " example.one", "example.two "]));
                if let Some(ns) = ns {
                    args.extend([src.pick(&["-n", "--namespace"]).to_string(), ns.into()]);
                }
                let want = match (model, format) {
                    (Err(_), _) | (_, "yaml") => Out::Error,
                    (Ok(m), "" | "json") => Out::Model(m),
                    (Ok(m), "uml") => write_model_to_string(&mut PlantUmlWriter::default(), &m).map(Out::Text).unwrap_or(Out::Error),
                    (Ok(m), _) => {
                        let all: BTreeSet<String> = m.namespaces().iter().map(|n| n.to_string()).collect();
                        let ns = match ns {
                            Some(n) if !ref_namespace(n) => None,
                            Some(n) => Some(n.to_string()),
                            None if all.len() == 1 => all.into_iter().next(),
                            None => None,
                        };
                        match ns {
                            None => Out::Error,
                            Some(n) => write_model_to_string(&mut SmithyWriter::new(namespace(&n)), &m).map(Out::Text).unwrap_or(Out::Error),
                        }
                    }
                };
                case.tag(match format {
                    "" => "json",
                    f => f,
                });
                ("convert", want)
            } else {
                let format = src.pick(&["", "markdown", "md+cm", "html", "latex", "json", "xwiki", "md+gfm", "word"]);
                if !format.is_empty() {
                    args.extend([w, format.to_string()]);
                }
                let want = match (model, OutputFormat::from_str(if format.is_empty() { "markdown" } else { format })) {
                    (Ok(m), Ok(f)) => {
                        let doc = describe_model(&m).map_err(|e| Fail::new("describe", e.to_string()))?;
                        write_document_to_string(&doc, f).map(Out::Text).unwrap_or(Out::Error)
                    }
                    _ => Out::Error,
                };
                ("document", want)
            }
        }
    };
    let mut all: Vec<String> = Vec::new();
    if src.chance(1, 3) {
        // run by cargo
        all.push("atelier".into());
    }
    for _ in 0..src.weighted(&[3, 1, 1]) {
        all.push("-v".into());
    }
    if no_color {
        all.push("--no-color".into());
    }
    all.push(name.into());
    all.extend(args);
    let shown: Vec<String> = all.iter().map(|a| a.replace(root.to_str().unwrap(), "")).collect();
    let error = matches!(want, Out::Error);
    case.input(&(&log, &shown), !given.is_empty() && !error);
    case.sample(|| format!("{:?} with\n{}", shown, log.join("\n")));
    case.tag(name);
    case.tag_if(error, "error");

    let before = out_file.as_ref().and_then(|f| std::fs::read(f).ok());
    let out = cmd.args(&all).output().map_err(|e| Fail::new("internal", format!("cannot run {:?}: {}", cmd, e)))?;
    let stdout = String::from_utf8_lossy(&out.stdout).to_string();
    let stderr = String::from_utf8_lossy(&out.stderr).to_string();
    let code = out.status.code();
    let all_of_it = || format!("{:?} ended with {:?}\n--- stdout\n{}\n--- stderr\n{}", shown, code, stdout, stderr);
    check!(!stderr.contains("panicked") && code != Some(101) && code.is_some(), "crash", "{}", all_of_it());
    let nowhere = out_file.as_ref().map(|f| !f.parent().unwrap().exists()).unwrap_or(false);
    if error || nowhere {
        check!(code != Some(0), "no-error", "it should fail, but {}", all_of_it());
        check!(!stderr.trim().is_empty(), "no-message", "it should say why it fails, but {}", all_of_it());
        check!(stdout.trim().is_empty(), "error-output", "it should write nothing, but {}", all_of_it());
        if let Some(f) = &out_file {
            let now = std::fs::read(f).ok();
            case.tag_if(before.is_some(), "a file to be kept");
            check!(now == before, "error-file", "it should leave {:?} as it was, but it has {:?} bytes: {}", f, now.map(|n| n.len()), all_of_it());
        }
        return Ok(());
    }
    check!(code == Some(0), "failed", "it should not fail, but {}", all_of_it());
    check!(stderr.is_empty(), "stderr", "it should not complain, but {}", all_of_it());
    let text = match &out_file {
        Some(f) => {
            check!(stdout.is_empty(), "both", "the output goes to a file, but {}", all_of_it());
            std::fs::read_to_string(f).map_err(|e| Fail::new("no-file", format!("{}: {}", e, all_of_it())))?
        }
        None => stdout.clone(),
    };
    let length = text.len() as u64;
    match want {
        Out::Lines(want) => {
            if no_color || !forced {
                check!(!text.contains('\u{1b}'), "color", "it should have no color, but {}", all_of_it());
            }
            let mut got: Vec<String> = plain(&text).lines().filter(|l| !l.trim().is_empty()).map(String::from).collect();
            got.sort();
            check!(got == want, "issues", "it reports {:#?}, not {:#?}", got, want);
        }
        Out::Model(m) => {
            let got = read_model_from_string(&mut JsonReader::default(), text.clone())
                .map_err(|e| Fail::new("json", format!("what was written is no model, {}: {}", e, text)))?;
            let (got, want) = (from_model(&got)?, from_model(&m)?);
            if let Some(d) = diff(&want, &got) {
                fail!("model", "{}: {}", d, all_of_it());
            }
        }
        Out::Text(want) => check!(bag(&want) == bag(&text), "text", "it should write\n{}\nbut wrote\n{}\n{}", want, text, all_of_it()),
        Out::Error => {}
    }

    // once more, with no room for all of it
    let over_input = out_file.as_ref().map(|f| files.contains(f)).unwrap_or(false);
    if src.chance(1, 5) && !over_input {
        let room = if src.bool() { length } else { length - 1 - src.usize(length.min(40) as usize) as u64 % length };
        let at = root.join("stdout");
        if let Some(f) = &out_file {
            std::fs::remove_file(f).unwrap();
        }
        cmd.stdout(std::fs::File::create(&at).unwrap());
        limit(&mut cmd, room);
        let out = cmd.output().map_err(|e| Fail::new("internal", format!("cannot run {:?}: {}", cmd, e)))?;
        let code = out.status.code();
        let said = String::from_utf8_lossy(&out.stderr).to_string();
        let what = || format!("{:?}, which writes {} bytes, with room for {} ended with {:?}\n--- stderr\n{}\n{}", shown, length, room, code, said, log.join("\n"));
        case.tag_if(room < length, "no room");
        check!(!said.contains("panicked") && code != Some(101) && code.is_some(), "crash", "{}", what());
        if room < length {
            check!(code != Some(0), "no-room", "it should fail, but {}", what());
            check!(!said.trim().is_empty(), "no-message", "it should say why it fails, but {}", what());
        } else {
            check!(code == Some(0), "room", "it should not fail, but {}", what());
        }
    }
    Ok(())
}

/// Lets the files the command writes have no more than the given number of bytes.
fn limit(cmd: &mut Command, bytes: u64) {
    extern "C" {
        fn setrlimit(resource: i32, limit: *const [u64; 2]) -> i32;
        fn signal(number: i32, handler: usize) -> usize;
    }
    const RLIMIT_FSIZE: i32 = 1;
    const SIGXFSZ: i32 = 25;
    const SIG_IGN: usize = 1;
    unsafe {
        cmd.pre_exec(move || {
            signal(SIGXFSZ, SIG_IGN);
            if setrlimit(RLIMIT_FSIZE, &[bytes, bytes]) != 0 {
                return Err(std::io::Error::last_os_error());
            }
            Ok(())
        });
    }
}

pub static P31: Prop = Prop {
    id: "P31",
    quick: 12_000,
    thorough: 120_000,
    rule: "a generated command line is run, in a directory of generated model files, and its exit code and output are compared with what the libraries give for those files; non-trivial: there are inputs and the command should succeed",
    assumptions: &[
        "assembling, linting, validating and writing are as other properties have them: the libraries are the reference here",
        "text output is compared without regard to order, as the writers leave it open",
    ],
    run: p31,
    explicit: no_explicit,
    known: no_known,
};
