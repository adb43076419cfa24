//! P32: readers and writers on streams and files that misbehave.

use crate::engine::*;
use crate::model::*;
use crate::props::p09_json::{ast, carried, render};
use crate::{check, fail};
use atelier_core::error::Result as ModelResult;
use atelier_core::io::debug::DebugWriter;
use atelier_core::io::lines::LineOrientedWriter;
use atelier_core::io::{read_model_from_file, read_model_from_string, write_model_to_file, write_model_to_string, ModelReader, ModelWriter};
use atelier_core::model::Model;
use atelier_describe::document::writer::DocumentationWriter;
use atelier_describe::graphml::writer::GraphMLWriter;
use atelier_describe::plant_uml::writer::PlantUmlWriter;
use atelier_json::{JsonReader, JsonWriter};
use atelier_rdf::writer::RdfWriter;
use atelier_smithy::{SmithyReader, SmithyWriter};
use std::io::{Error, ErrorKind, Read, Write};
use std::path::Path;

/// A stream which passes on as much as it likes, is interrupted, and fails at some point.
#[derive(Debug, Clone)]
struct Stream {
    pieces: Vec<usize>,
    interrupt: u64,
    fail_at: Option<usize>,
    how: u64,
    /// It works again after it failed.
    once: bool,
    // what happened
    data: Vec<u8>,
    at: usize,
    calls: u64,
    failed: bool,
    interrupted: bool,
}

impl Stream {
    fn gen(src: &mut Src, data: Vec<u8>, length: usize) -> Stream {
        let fail_at = match src.weighted(&[2, 3, 1]) {
            0 => None,
            1 => Some(src.usize(length + 1)),
            _ => Some(length.saturating_sub(src.usize(4))),
        };
        Stream {
            pieces: src.list(1, 4, |s| if s.bool() { 1 + s.usize(9) } else { 1 + s.usize(5000) }),
            interrupt: src.pick(&[0, 0, 1, 3, 10]),
            fail_at,
            how: src.below(4),
            once: src.bool(),
            data,
            at: 0,
            calls: 0,
            failed: false,
            interrupted: false,
        }
    }

    /// How much to pass on of the given amount, if any.
    fn step(&mut self, amount: usize) -> Result<usize, Error> {
        self.calls += 1;
        if self.interrupt > 0 && !self.interrupted && self.calls % (self.interrupt + 1) == 0 {
            self.interrupted = true;
            return Err(Error::from(ErrorKind::Interrupted));
        }
        self.interrupted = false;
        let mut n = amount.min(self.pieces[self.calls as usize % self.pieces.len()]);
        if let Some(f) = self.fail_at {
            if self.at >= f && !(self.once && self.failed) {
                self.failed = true;
                return match self.how {
                    0 => Ok(0),
                    1 => Err(Error::from(ErrorKind::BrokenPipe)),
                    2 => Err(Error::from_raw_os_error(28)),
                    _ => Err(Error::new(ErrorKind::Other, "out of order")),
                };
            }
            if self.at < f {
                n = n.min(f - self.at);
            }
        }
        self.at += n;
        Ok(n)
    }
}

impl Write for Stream {
    fn write(&mut self, buf: &[u8]) -> Result<usize, Error> {
        if buf.is_empty() {
            return Ok(0);
        }
        let n = self.step(buf.len())?;
        self.data.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> Result<(), Error> {
        Ok(())
    }
}

impl Read for Stream {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize, Error> {
        let from = self.at;
        let left = (self.data.len() - from).min(buf.len());
        if self.fail_at.is_some() && self.how == 0 {
            self.how = 1;
        }
        let n = if left == 0 && self.fail_at != Some(self.at) { 0 } else { self.step(left)? };
        buf[..n].copy_from_slice(&self.data[from..from + n]);
        Ok(n)
    }
}

/// A stream of which one call fails, and no other.
struct Once {
    left: usize,
    calls: usize,
    failed: bool,
}

impl Write for Once {
    fn write(&mut self, buf: &[u8]) -> Result<usize, Error> {
        self.calls += 1;
        if self.left == 0 && !self.failed {
            self.failed = true;
            return Err(Error::new(ErrorKind::Other, "out of order"));
        }
        self.left = self.left.saturating_sub(1);
        Ok(buf.len())
    }
    fn flush(&mut self) -> Result<(), Error> {
        Ok(())
    }
}

/// Each of the calls of a writer fails in turn.
fn each_once(src: &mut Src, case: &mut Case, name: &str, ns: &str, md: &Md, m: &Model) -> Res {
    let mut s = Once { left: usize::MAX, calls: 0, failed: false };
    each_writer(name, ns, |w| guard("write", || w.to_once(&mut s, m)))?.map_err(|e| Fail::new("write", format!("{}: {}", name, e)))?;
    let all = s.calls;
    let from = if all > 150 { src.usize(all - 149) } else { 0 };
    case.input(&(name, md, "each", from), all > 0);
    case.sample(|| format!("{} with calls {} to {} of {} failing in turn: {:?}", name, from, all.min(from + 150), all, md));
    case.tag("each call fails in turn");
    for k in from..all.min(from + 150) {
        let mut s = Once { left: k, calls: 0, failed: false };
        let r = each_writer(name, ns, |w| guard("write", || w.to_once(&mut s, m)))?;
        if s.failed {
            check!(r.is_err(), "lost", "write call {} of {} failed, but {} did not say so", k, all, name);
        } else {
            check!(r.is_ok(), "no-failure", "the stream did not fail, but {}: {}", name, outcome(&r));
        }
    }
    Ok(())
}

const WRITERS: [&str; 10] = ["json", "pretty json", "smithy", "lines", "debug", "PlantUML", "PlantUML with the prelude", "GraphML", "documentation", "rdf"];

fn each_writer<R>(name: &str, ns: &str, f: impl FnOnce(&mut dyn DynWriter) -> R) -> R {
    match name {
        "json" => f(&mut JsonWriter::default()),
        "pretty json" => f(&mut JsonWriter::new(true)),
        "smithy" => f(&mut SmithyWriter::new(namespace(ns))),
        "lines" => f(&mut LineOrientedWriter::default()),
        "debug" => f(&mut DebugWriter::default()),
        "PlantUML" => f(&mut PlantUmlWriter::default()),
        "PlantUML with the prelude" => f(&mut PlantUmlWriter::new(true)),
        "GraphML" => f(&mut GraphMLWriter::default()),
        "documentation" => f(&mut DocumentationWriter::default()),
        _ => f(&mut RdfWriter::default()),
    }
}

trait DynWriter {
    fn to_stream(&mut self, w: &mut Stream, m: &Model) -> ModelResult<()>;
    fn to_once(&mut self, w: &mut Once, m: &Model) -> ModelResult<()>;
    fn to_text(&mut self, m: &Model) -> ModelResult<String>;
    fn to_file(&mut self, m: &Model, at: &Path) -> ModelResult<()>;
}

impl<W: ModelWriter> DynWriter for W {
    fn to_stream(&mut self, w: &mut Stream, m: &Model) -> ModelResult<()> {
        self.write(w, m)
    }
    fn to_once(&mut self, w: &mut Once, m: &Model) -> ModelResult<()> {
        self.write(w, m)
    }
    fn to_text(&mut self, m: &Model) -> ModelResult<String> {
        write_model_to_string(self, m)
    }
    fn to_file(&mut self, m: &Model, at: &Path) -> ModelResult<()> {
        write_model_to_file(self, m, at.to_path_buf())
    }
}

/// The characters of a text, in no order; of Turtle only the letters, as blank nodes have numbers
/// and the layout depends on the order.
fn bag(s: &[u8], rdf: bool) -> Vec<u8> {
    let mut c: Vec<u8> = s.iter().filter(|c| !rdf || c.is_ascii_alphabetic() || **c >= 0x80).cloned().collect();
    c.sort_unstable();
    c
}

fn read(json: bool, f: impl Fn(&mut dyn DynReader) -> ModelResult<Model>) -> ModelResult<Model> {
    if json {
        f(&mut JsonReader::default())
    } else {
        f(&mut SmithyReader::default())
    }
}

trait DynReader {
    fn of_stream(&mut self, r: &mut Stream) -> ModelResult<Model>;
    fn of_text(&mut self, s: &[u8]) -> ModelResult<Model>;
    fn of_file(&mut self, at: &Path) -> ModelResult<Model>;
}

impl<R: ModelReader> DynReader for R {
    fn of_stream(&mut self, r: &mut Stream) -> ModelResult<Model> {
        self.read(r)
    }
    fn of_text(&mut self, s: &[u8]) -> ModelResult<Model> {
        read_model_from_string(self, s)
    }
    fn of_file(&mut self, at: &Path) -> ModelResult<Model> {
        read_model_from_file(self, at.to_path_buf())
    }
}

fn same_model(what: &str, want: &ModelResult<Model>, got: ModelResult<Model>) -> Res {
    match (want, got) {
        (Ok(w), Ok(g)) => {
            if let Some(d) = diff(&from_model(w)?, &from_model(&g)?) {
                fail!("other-model", "{}: {}", what, d);
            }
            Ok(())
        }
        (Err(_), Err(_)) => Ok(()),
        (w, g) => fail!("other-result", "{}: from a string {}, but {}", what, outcome(w), outcome(&g)),
    }
}

fn outcome<T>(r: &ModelResult<T>) -> String {
    match r {
        Ok(_) => "it succeeds".into(),
        Err(e) => format!("it fails: {}", e),
    }
}

/// A reader and a writer of its own, which fails after some text.
struct Own(Vec<u8>, bool);

impl ModelWriter for Own {
    fn write(&mut self, w: &mut impl Write, _: &Model) -> ModelResult<()> {
        w.write_all(&self.0)?;
        if self.1 {
            return Err(Error::new(ErrorKind::Other, "no more").into());
        }
        Ok(())
    }
}

impl ModelReader for Own {
    fn read(&mut self, r: &mut impl Read) -> ModelResult<Model> {
        self.0.clear();
        let _ = r.read_to_end(&mut self.0)?;
        if self.1 {
            return Err(Error::new(ErrorKind::Other, "no more").into());
        }
        Ok(Model::default())
    }
}

fn own(src: &mut Src, case: &mut Case) -> Res {
    let text = gen_text(src, Text::Wild).repeat(if src.chance(1, 20) { 5000 } else { 1 });
    let fails = src.bool();
    let dir = Scratch::new();
    let at = dir.path().join("own");
    if src.bool() {
        std::fs::write(&at, "old ".repeat(src.usize(2000))).unwrap();
    }
    case.input(&("own", &text, fails), !text.is_empty());
    case.sample(|| format!("a writer which writes {:?} and then {}", text, if fails { "fails" } else { "is done" }));
    case.tag("another writer");
    let m = Model::default();
    let s = guard("write", || write_model_to_string(&mut Own(text.clone().into(), fails), &m))?;
    let f = guard("write", || write_model_to_file(&mut Own(text.clone().into(), fails), &m, at.clone()))?;
    check!(s.is_err() == fails, "own-text", "a writer {}, but to a string {}", if fails { "fails" } else { "does not fail" }, outcome(&s));
    check!(f.is_err() == fails, "own-file", "a writer {}, but to a file {}", if fails { "fails" } else { "does not fail" }, outcome(&f));
    if let Ok(s) = s {
        check!(s == text, "own-text", "a writer of {:?} gives {:?}", text, s);
        let read = std::fs::read(&at).unwrap();
        check!(read == text.as_bytes(), "own-file", "a writer of {:?} gives a file of {:?}", text, read);
    }
    std::fs::write(&at, &text).unwrap();
    for file in [true, false] {
        let mut r = Own(Vec::new(), fails);
        let got = guard("read", || if file { read_model_from_file(&mut r, at.clone()) } else { read_model_from_string(&mut r, &text) })?;
        check!(got.is_err() == fails, "own-read", "a reader {}, but from a {} {}", if fails { "fails" } else { "does not fail" }, if file { "file" } else { "string" }, outcome(&got));
        check!(r.0 == text.as_bytes(), "own-read", "a reader of {:?} gets {:?}", text, r.0);
    }
    Ok(())
}

fn p32(src: &mut Src, case: &mut Case) -> Res {
    if src.chance(1, 20) {
        return own(src, case);
    }
    let c = Cfg { max_shapes: 6, text: src.pick(&[Text::Plain, Text::Wild]), ..Cfg::default() };
    let mut md = gen_model(src, &c);
    for s in md.shapes.values_mut() {
        match src.below(6) {
            // what has notes in a diagram
            0 => drop(s.traits.insert("smithy.api#documentation".into(), Some(V::Str(src.pick(&["a line", "two\nlines"]).into())))),
            1 => drop(s.traits.insert("smithy.api#trait".into(), None)),
            _ => {}
        }
    }
    if src.chance(1, 200) {
        // more than what fits into a buffer
        md.meta.insert("long".into(), V::Str("long text ".repeat(7000 + src.usize(20_000))));
        case.tag("long");
    }
    let m = to_model(&md);
    let files = src.chance(1, 4);
    if src.bool() {
        let name = src.pick(&WRITERS);
        let ns = src.pick(&c.namespaces);
        let rdf = name == "rdf";
        let full = each_writer(name, ns, |w| guard("write", || w.to_text(&m)))?.map_err(|e| Fail::new("write", format!("{}: {}", name, e)))?;
        if files {
            let dir = Scratch::new();
            let at = match src.weighted(&[3, 3, 1, 1, 2]) {
                0 => dir.path().join("new"),
                1 => {
                    let at = dir.path().join("old");
                    std::fs::write(&at, "old ".repeat(1 + src.usize(full.len()))).unwrap();
                    at
                }
                2 => dir.path().join("no/where"),
                3 => dir.path().to_path_buf(),
                _ => "/dev/full".into(),
            };
            let bad = at == dir.path() || at.starts_with("/dev") || at.ends_with("where");
            case.input(&(name, &md, &at.file_name()), true);
            case.sample(|| format!("{} to {:?} of {:?}", name, at.file_name(), md));
            case.tag("write file");
            let r = each_writer(name, ns, |w| guard("write", || w.to_file(&m, &at)))?;
            if bad && (!full.is_empty() || !at.starts_with("/dev")) {
                check!(r.is_err(), "file-lost", "writing {} to {:?} succeeds", name, at);
            } else {
                check!(r.is_ok(), "file", "writing {} to {:?}: {}", name, at, outcome(&r));
                if !bad {
                    let got = std::fs::read(&at).unwrap();
                    check!(bag(&got, rdf) == bag(full.as_bytes(), rdf), "file-text", "{} gives\n{}\nbut the file has\n{}", name, full, String::from_utf8_lossy(&got));
                }
            }
            return Ok(());
        }
        if src.chance(1, 15) {
            return each_once(src, case, name, ns, &md, &m);
        }
        let mut s = Stream::gen(src, Vec::new(), full.len());
        case.input(&(name, &md, s.fail_at, &s.pieces, s.interrupt), s.fail_at.map(|f| f < full.len()).unwrap_or(true) && !full.is_empty());
        case.sample(|| format!("{} to {:?} of {:?}", name, s, md));
        case.tag("write");
        let before = format!("{:?}", s);
        let r = each_writer(name, ns, |w| guard("write", || w.to_stream(&mut s, &m)))?;
        case.tag_if(s.failed, "write fails");
        let text = String::from_utf8_lossy(&s.data).to_string();
        if s.failed {
            check!(r.is_err(), "lost", "the stream failed, but {} did not say so: {}", name, before);
            check!(!outcome(&r).trim_end_matches("it fails: ").is_empty(), "no-message", "{}: no message", name);
        } else {
            check!(r.is_ok(), "no-failure", "the stream did not fail, but {}: {}: {}", name, outcome(&r), before);
            check!(bag(&s.data, rdf) == bag(full.as_bytes(), rdf), "text", "{} gives\n{}\nbut the stream {} got\n{}", name, full, before, text);
        }
    } else {
        let json = src.bool();
        let mut text: Vec<u8> = if json {
            let mut t = String::new();
            render(src, &ast(&carried(&md)), &mut t);
            t.into()
        } else {
            let ns = src.pick(&c.namespaces);
            write_model_to_string(&mut SmithyWriter::new(namespace(ns)), &m).unwrap_or_default().into()
        };
        let bad = src.chance(1, 6);
        if bad {
            let at = src.usize(text.len() + 1);
            let b: &[u8] = src.pick(&[&b"\xff"[..], b"\xc3", b"\xed\xa0\x80", b"\xc0\xaf", b"\xf5\x80\x80\x80"]);
            // a lone lead byte must not meet a continuation byte
            if text.get(at).map(|b| b & 0xc0 != 0x80).unwrap_or(true) {
                text.splice(at..at, b.iter().cloned());
            } else {
                text.insert(0, 0xff);
            }
            case.tag("no UTF-8");
        }
        let what = if json { "json" } else { "smithy" };
        let want = read(json, |r| r.of_text(&text));
        if bad {
            check!(want.is_err(), "utf8", "{} that is no UTF-8 is read: {:?}", what, String::from_utf8_lossy(&text));
        }
        if files {
            let dir = Scratch::new();
            let at = match src.weighted(&[6, 1, 1]) {
                0 => dir.path().join("model"),
                1 => dir.path().join("none"),
                _ => dir.path().to_path_buf(),
            };
            case.input(&(what, &text, at.file_name()), true);
            case.sample(|| format!("{} of {:?}: {}", what, at.file_name(), String::from_utf8_lossy(&text)));
            case.tag("read file");
            if at.ends_with("model") {
                std::fs::write(&at, &text).unwrap();
                return same_model("from a file", &want, guard("read", || read(json, |r| r.of_file(&at)))?);
            }
            let r = guard("read", || read(json, |r| r.of_file(&at)))?;
            check!(r.is_err(), "file-read", "{} is read from {:?}, which is no file", what, at);
            return Ok(());
        }
        let n = text.len();
        let s = Stream::gen(src, text, n);
        case.input(&(what, &s.data, s.fail_at, &s.pieces, s.interrupt), true);
        case.sample(|| format!("{} of {:?}: {}", what, s, String::from_utf8_lossy(&s.data)));
        case.tag("read");
        let failed = std::cell::Cell::new(false);
        let r = guard("read", || {
            read(json, |r| {
                let mut t = s.clone();
                let out = r.of_stream(&mut t);
                failed.set(t.failed);
                out
            })
        })?;
        case.tag_if(failed.get(), "read fails");
        if failed.get() {
            check!(r.is_err(), "read-lost", "the stream failed, but a model is read from {} {:?}", what, s);
            let e = r.err().map(|e| e.to_string()).unwrap_or_default();
            check!(!e.is_empty(), "no-message", "{}: no message", what);
        } else {
            check!(s.fail_at.is_none() || want.is_err(), "not-all", "{} is not read to the end: {:?}", what, s);
            same_model("from a stream", &want, r)?;
        }
    }
    Ok(())
}

pub static P32: Prop = Prop {
    id: "P32",
    quick: 60_000,
    thorough: 2_000_000,
    rule: "a reader or writer is given a stream which takes or gives small pieces, is interrupted, or fails at a generated point, or a file; non-trivial: something is written, and a failure comes before its end",
    assumptions: &[
        "what is read from or written to a string is as other properties have it: here it is the reference",
        "written text is compared without regard to order, as the writers leave it open",
    ],
    run: p32,
    explicit: no_explicit,
    known: no_known,
};
