//! Replays the properties on inputs made for them: a bounded companion of the proofs, which gives
//! the failing input when an obligation fails.

#![allow(unexpected_cfgs)]

mod doc;
mod dump;
mod enc;
#[cfg(onenote_verif)]
mod hook;
mod notebook;
mod store;

use doc::Lines;
use enc::*;
use onenote_parser::Parser;
use std::collections::HashSet;
use std::fs;
use std::hash::{Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Codec(u32),
    Section,
    Notebook,
    Mutate,
    Repeat,
}

struct Profile {
    kinds: &'static [Kind],
    faults: &'static [Fault],
}

fn profile(name: &str) -> Profile {
    use Fault::*;
    use Kind::*;
    let (kinds, faults): (&'static [Kind], &'static [Fault]) = match name {
        "C01" => (&[Codec(1), Codec(1), Codec(1), Section], &[]),
        "C02" => (&[Codec(2), Codec(2), Codec(2), Section], &[]),
        "C03" => (&[Codec(3), Codec(3), Section], &[BadEnd, BadHeaderType, BadHeaderWidth]),
        "C04" => (&[Section], &[BadEnd, BadHeaderType, BadHeaderWidth, BadFormat, BadPadding, BadVersion, BadLog, Truncate, UnknownElement]),
        "C05" => (&[Section], &[UnknownElement, BadHeaderType, BadHeaderWidth, BadEnd]),
        "C06" => (&[Section], &[BadFrequency, BadHeaderType, BadHeaderWidth, BadEnd, CountMismatch]),
        "C07" => (&[Section], &[MissingMapping, MissingBase, HeaderProps]),
        "C08" => (&[Section], &[MissingBase, CyclicBase, MissingGroup, MissingMapping, NoRoot, BadRole, HeaderProps]),
        "C09" => (&[Section], &[NoMetadata, NoData, MissingBlob, BlobKind, RefCount, CellCount, MissingGroup, CountMismatch]),
        "C10" => (&[Section], &[RefCount, CellCount, MissingObject]),
        "C11" => (&[Section], &[BadPropType, CutProps, DeepNesting]),
        "C12" => (&[Section], &[WrongType, InvalidValue, BadText]),
        "C13" => (&[Section], &[WrongType, MissingObject, RefCount, CellCount]),
        "C14" => (&[Section], &[MissingProp, WrongNode, WrongType]),
        "C15" => (&[Section], &[NotAllowed, WrongNode, MissingObject, Cyclic]),
        "C16" => (&[Section], &[MissingObject, MissingProp, WrongNode, InvalidValue, BadText]),
        "C17" | "C18" => (&[Section], &[InvalidValue, MissingProp, BadText, MissingObject]),
        "C19" => (&[Notebook], &[Cyclic, MissingProp, MissingObject, NoToc, WrongNode]),
        "C20" => (&[Notebook], &[Escape]),
        "C21" => (&[Section, Notebook], &[Schema]),
        "C22" => (&[Mutate, Mutate, Mutate, Section, Notebook], &[
            BadEnd, BadHeaderType, Truncate, BadLog, CyclicBase, CountMismatch, CutProps, Cyclic, InvalidValue, BadText,
            WrongType, MissingProp, RefCount, CellCount, DeepNesting,
        ]),
        "C23" => (&[Repeat, Repeat, Section], &[]),
        _ => panic!("no profile {name}"),
    };
    Profile { kinds, faults }
}

pub enum Outcome {
    Lines(Lines),
    Error(String),
    Panic(String),
}

pub fn quietly<T>(f: impl FnOnce() -> Result<T, onenote_parser::errors::Error>, show: impl Fn(&T) -> Lines) -> Outcome {
    match catch_unwind(AssertUnwindSafe(|| f().map(|x| show(&x)))) {
        Ok(Ok(l)) => Outcome::Lines(l),
        Ok(Err(e)) => Outcome::Error(e.to_string()),
        Err(p) => Outcome::Panic(
            p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default(),
        ),
    }
}

pub struct Failure {
    pub what: String,
    pub key: String,
    pub input: Vec<(String, Vec<u8>)>,
}

fn judge(out: Outcome, want: Option<&Lines>, fault: Option<Fault>) -> Option<(String, String)> {
    match (out, want) {
        (Outcome::Panic(m), _) => Some((format!("panics: {m}"), format!("panic {m}"))),
        (Outcome::Lines(_), None) => {
            Some((format!("reads a file with the fault {:?} without an error", fault.unwrap()), format!("accepts {:?}", fault.unwrap())))
        }
        (Outcome::Error(e), Some(_)) => Some((format!("rejects a well-formed file: {e}"), format!("rejects {e}"))),
        (Outcome::Error(_), None) => None,
        (Outcome::Lines(l), Some(w)) => {
            if &l == w {
                return None;
            }
            let i = l.iter().zip(w).position(|(a, b)| a != b).unwrap_or(l.len().min(w.len()));
            let none = "(nothing)".to_string();
            let (got, want) = (l.get(i).unwrap_or(&none).trim(), w.get(i).unwrap_or(&none).trim());
            // where it is
            let mut path = vec![];
            let mut level = usize::MAX;
            for l in w[..w.len().min(i + 1)].iter().rev() {
                let n = l.len() - l.trim_start().len();
                if n < level {
                    level = n;
                    if l.ends_with(':') || path.is_empty() {
                        path.push(l.trim().split(['=', ':']).next().unwrap_or(""));
                    }
                }
            }
            path.reverse();
            let cut = |s: &str| s.chars().take(300).collect::<String>();
            Some((
                format!("{}: reads `{}` where the file has `{}`", path.join("/"), cut(got), cut(want)),
                format!("differs {}", path.last().unwrap_or(&"")),
            ))
        }
    }
}

pub fn choose(r: &mut Rng, faults: &[Fault]) -> Option<Fault> {
    if faults.is_empty() || r.pct(45) { None } else { Some(*r.pick(faults)) }
}

/// run `make` with the fault at one of its opportunities, chosen evenly
pub fn with_fault<T>(r: &mut Rng, fault: Option<Fault>, mut make: impl FnMut(&mut Inject) -> T) -> (T, Option<Fault>) {
    if let Some(k) = fault {
        let mut count = Inject { kind: Some(k), nth: usize::MAX, done: false };
        let plain = make(&mut count);
        let n = usize::MAX - count.nth;
        if n == 0 {
            return (plain, None);
        }
        let mut inj = Inject { kind: Some(k), nth: r.below(n), done: false };
        let x = make(&mut inj);
        let f = if inj.done { Some(k) } else { None };
        return (x, f);
    }
    (make(&mut Inject::none()), None)
}

fn size(r: &mut Rng) -> i32 {
    match r.below(4) {
        0 => 0,
        1 => 3,
        2 => 8,
        _ => r.below(25) as i32,
    }
}

fn name(r: &mut Rng) -> String {
    r.pick(&["a.one", "Notes.one.one", "plain", "dir/x.one", ".one", "Größe.one"]).to_string()
}

fn make_section(seed: u64, inj: &mut Inject) -> (Vec<u8>, Lines, String) {
    let mut r = Rng::new(seed);
    let name = name(&mut r);
    let size = size(&mut r);
    let (file, lines) = doc::section(&mut r, inj, &name, size);
    let bytes = store::encode(&file, &mut r, inj);
    (bytes, lines, name)
}

fn parse(bytes: &[u8], name: &str) -> Outcome {
    quietly(|| Parser::new().parse_section_buffer(bytes, Path::new(name)), dump::section)
}

fn run_section(seed: u64, faults: &[Fault], seen: &mut HashSet<u64>) -> Option<Failure> {
    let mut r = Rng::new(seed ^ 0x5ec);
    let want = choose(&mut r, faults);
    let ((bytes, lines, name), fault) = with_fault(&mut r, want, |inj| make_section(seed, inj));
    note(seen, &bytes);
    let out = parse(&bytes, &name);
    let (what, key) = judge(out, if fault.is_some() { None } else { Some(&lines) }, fault)?;
    let mut input = vec![("input.one".to_string(), bytes), ("name.txt".into(), name.into_bytes())];
    if fault.is_none() {
        input.push(("expected.txt".into(), lines.join("\n").into_bytes()));
    }
    Some(Failure { what, key, input })
}

fn note(seen: &mut HashSet<u64>, b: &[u8]) {
    if seen.len() < 1 << 20 {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        b.hash(&mut h);
        seen.insert(h.finish());
    }
}

fn mutate(b: &mut Vec<u8>, r: &mut Rng) {
    for _ in 0..r.range(1, 4) {
        if b.is_empty() {
            return;
        }
        let at = r.below(b.len());
        match r.below(8) {
            0 | 1 => b[at] ^= 1 << r.below(8),
            2 => b[at] = *r.pick(&[0, 1, 0x7f, 0x80, 0xff]),
            3 => {
                let v = *r.pick(&[0u32, 1, 0xff, 0xffff, 0x7fffffff, 0x80000000, 0xffffffff, 0x1000000]);
                for (i, x) in v.to_le_bytes().iter().enumerate() {
                    if at + i < b.len() {
                        b[at + i] = *x;
                    }
                }
            }
            4 => b.truncate(at),
            5 => {
                let n = r.below(40).min(b.len() - at);
                b.drain(at..at + n);
            }
            6 => {
                let n = r.below(40).min(b.len() - at);
                let c: Vec<u8> = b[at..at + n].to_vec();
                let to = r.below(b.len());
                b.splice(to..to, c);
            }
            _ => {
                let n = r.range(1, 16);
                let c = r.bytes(n);
                b.splice(at..at, c);
            }
        }
    }
}

fn samples() -> Vec<Vec<u8>> {
    fn walk(d: &Path, out: &mut Vec<Vec<u8>>) {
        let Ok(rd) = fs::read_dir(d) else { return };
        let mut v: Vec<PathBuf> = rd.flatten().map(|e| e.path()).collect();
        v.sort();
        for p in v {
            if p.is_dir() {
                walk(&p, out)
            } else if matches!(p.extension().and_then(|e| e.to_str()), Some("one" | "onetoc2")) {
                if let Ok(b) = fs::read(&p) {
                    if b.len() < 200_000 {
                        out.push(b)
                    }
                }
            }
        }
    }
    let mut out = vec![];
    walk(Path::new("/repo/tests"), &mut out);
    out
}

fn run_mutate(seed: u64, samples: &[Vec<u8>], dir: &Path, seen: &mut HashSet<u64>) -> Option<Failure> {
    let mut r = Rng::new(seed ^ 0x3a7);
    let mut b = if !samples.is_empty() && r.pct(30) { r.pick(samples).clone() } else { make_section(seed, &mut Inject::none()).0 };
    mutate(&mut b, &mut r);
    note(seen, &b);
    let t = Instant::now();
    let toc = r.pct(15);
    let out = if toc {
        let p = dir.join("mutated.onetoc2");
        fs::write(&p, &b).unwrap();
        quietly(|| Parser::new().parse_notebook(&p), |_| vec![])
    } else {
        quietly(|| Parser::new().parse_section_buffer(&b, Path::new("x.one")), |_| vec![])
    };
    let mut input = vec![("any.txt".to_string(), vec![])];
    if toc {
        input.push(("notebook/mutated.onetoc2".into(), b));
        input.push(("open.txt".into(), b"notebook/mutated.onetoc2".to_vec()));
    } else {
        input.push(("input.one".into(), b));
    }
    if let Outcome::Panic(m) = out {
        return Some(Failure { what: format!("panics: {m}"), key: format!("panic {m}"), input });
    }
    if t.elapsed() > Duration::from_secs(10) {
        return Some(Failure { what: "takes more than ten seconds".into(), key: "slow".into(), input });
    }
    None
}

fn run_repeat(seed: u64, seen: &mut HashSet<u64>) -> Option<Failure> {
    let mut r = Rng::new(seed ^ 0x9e9);
    let mut b = make_section(seed, &mut Inject::none()).0;
    if r.pct(40) {
        mutate(&mut b, &mut r);
    }
    note(seen, &b);
    let show = |o: Outcome| match o {
        Outcome::Lines(l) => Ok(l),
        Outcome::Error(_) => Err("an error".to_string()),
        Outcome::Panic(_) => Err("a panic".to_string()),
    };
    let first = show(parse(&b, "x.one"));
    for _ in 0..4 {
        let again = show(parse(&b, "x.one"));
        if again != first {
            let what = match (&first, &again) {
                (Ok(a), Ok(b)) => {
                    let i = a.iter().zip(b).position(|(a, b)| a != b).unwrap_or(0);
                    format!("reading the same bytes again gives `{}` instead of `{}`", b[i].trim(), a[i].trim())
                }
                (a, b) => format!(
                    "reading the same bytes again gives {} instead of {}",
                    b.as_ref().map(|_| "a section".to_string()).unwrap_or_else(|e| e.clone()),
                    a.as_ref().map(|_| "a section".to_string()).unwrap_or_else(|e| e.clone())
                ),
            };
            return Some(Failure { what, key: "repeat".into(), input: vec![("input.one".into(), b), ("repeat.txt".into(), vec![])] });
        }
    }
    None
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 > 0x7e => {
                let mut b = [0; 2];
                for u in c.encode_utf16(&mut b) {
                    o.push_str(&format!("\\u{:04x}", u));
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| args.iter().position(|a| a == k).map(|i| args[i + 1].clone()).unwrap_or(d.into());
    let p = profile(&args[1]);
    let base: u64 = get("--seed", "1").parse().unwrap();
    let seconds: f64 = get("--seconds", "10").parse().unwrap();
    let max: u64 = get("--cases", "1000000000").parse().unwrap();
    let dir = PathBuf::from(get("--out", "/tmp/replay"));
    let only = get("--only", "");
    fs::create_dir_all(&dir).unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    let samples = samples();
    let worker = std::thread::Builder::new().stack_size(64 << 20);
    let profile_name = args[1].clone();
    let h = worker
        .spawn(move || {
            let start = Instant::now();
            let mut seen = HashSet::new();
            let mut failures: Vec<Failure> = vec![];
            let (mut n, mut k) = (0u64, 0u64);
            let mut hits = 0u64;
            let mut shown: Vec<String> = vec![];
            while start.elapsed().as_secs_f64() < seconds && failures.len() < 5 && k < max {
                let seed = if only.is_empty() { base.wrapping_mul(1_000_003).wrapping_add(k) } else { only.parse().unwrap() };
                k += 1;
                let mut r = Rng::new(seed ^ 0xabc);
                let kind = *r.pick(p.kinds);
                fs::write(dir.join("current.json"), format!("{{\"profile\":\"{profile_name}\",\"seed\":{seed},\"kind\":\"{kind:?}\"}}")).unwrap();
                let f = match kind {
                    #[cfg(onenote_verif)]
                    Kind::Codec(c) => hook::run(c, seed, &mut seen),
                    #[cfg(not(onenote_verif))]
                    Kind::Codec(_) => continue,
                    Kind::Section => run_section(seed, p.faults, &mut seen),
                    Kind::Notebook => notebook::run(seed, p.faults, &dir, &mut seen),
                    Kind::Mutate => run_mutate(seed, &samples, &dir, &mut seen),
                    Kind::Repeat => run_repeat(seed, &mut seen),
                };
                n += 1;
                if shown.len() < 3 {
                    shown.push(format!("\"{kind:?} made from seed {seed}\""));
                }
                if let Some(f) = f {
                    hits += 1;
                    if !failures.iter().any(|g| g.key == f.key) {
                        failures.push(Failure { what: format!("{} (seed {seed})", f.what), ..f });
                    }
                    if hits > 200 {
                        break;
                    }
                }
                if !only.is_empty() {
                    break;
                }
            }
            let _ = fs::remove_file(dir.join("current.json"));
            let mut out = vec![];
            for (i, f) in failures.iter().enumerate() {
                let d = dir.join(format!("fail-{i}"));
                fs::create_dir_all(&d).unwrap();
                for (n, b) in &f.input {
                    let p = d.join(n);
                    fs::create_dir_all(p.parent().unwrap()).unwrap();
                    fs::write(p, b).unwrap();
                }
                out.push(format!(
                    "{{\"dir\":{},\"what\":{},\"key\":{}}}",
                    json(&d.to_string_lossy()),
                    json(&f.what),
                    json(&f.key)
                ));
            }
            println!(
                "{{\"evaluations\":{n},\"distinct\":{},\"seconds\":{:.1},\"hook\":{},\"samples\":[{}],\"failures\":[{}]}}",
                seen.len(),
                start.elapsed().as_secs_f64(),
                cfg!(onenote_verif),
                shown.join(","),
                out.join(",")
            );
        })
        .unwrap();
    h.join().unwrap();
}
