//! Notebooks on disk, below a scratch directory.

use crate::doc::{self, Lines, nest, q};
use crate::enc::*;
use crate::{Failure, choose, dump, judge, note, quietly, with_fault};
use crate::store;
use onenote_parser::Parser;
use std::collections::HashSet;
use std::fs;
use std::os::unix::fs::symlink;
use std::path::Path;

fn file_name(r: &mut Rng, used: &mut Vec<String>) -> String {
    loop {
        let n = r.range(1, 8);
        let s: String = (0..n).map(|_| *r.pick(&['a', 'b', 'Z', '7', '+', ',', '-', 'é', '_', '字'])).collect();
        let s = format!("n{s}x");
        if !used.contains(&s) {
            used.push(s.clone());
            return s;
        }
    }
}

fn stored(name: &str, r: &mut Rng) -> String {
    let mut o = String::new();
    for c in name.chars() {
        match c {
            '+' if r.pct(70) => o.push_str("^M"),
            ',' if r.pct(70) => o.push_str("^J"),
            c => o.push(c),
        }
    }
    o
}

fn section_file(r: &mut Rng, inj: &mut Inject, p: &Path) -> Lines {
    let name = p.file_name().unwrap().to_string_lossy().to_string();
    let (f, l) = doc::section(r, inj, &name, 0);
    fs::write(p, store::encode(&f, r, inj)).unwrap();
    l
}

/// writes a notebook into the directory; the file to open, and what it shows
fn build(r: &mut Rng, inj: &mut Inject, dir: &Path, outside: &Path, depth: u32) -> (String, Lines) {
    fs::create_dir_all(dir).unwrap();
    let mut used = vec![];
    // (number, name, what it shows if it is there)
    let mut all: Vec<(u32, String, Option<Lines>)> = vec![];
    let k = r.below(5);
    for _ in 0..k {
        let num = if r.pct(50) { r.below(3) as u32 } else { r.edge() as u32 };
        let mut base = file_name(r, &mut used);
        if r.pct(8) {
            // not the recycle bin
            base.push_str(r.pick(&["OneNote_RecycleBin", " OneNote_RecycleBin"]));
        }
        let mut out = vec![];
        let (name, shown) = match r.below(10) {
            0..=4 => {
                let name = if r.pct(90) { format!("{base}.one") } else { base };
                let l = section_file(r, inj, &dir.join(&name));
                nest(&mut out, "section", l);
                (name, Some(out))
            }
            5 => {
                // in a folder below
                let sub = file_name(r, &mut used);
                fs::create_dir_all(dir.join(&sub)).unwrap();
                let name = format!("{sub}/{base}.one");
                let l = section_file(r, inj, &dir.join(&name));
                nest(&mut out, "section", l);
                (if r.pct(30) { format!("./{name}") } else { name }, Some(out))
            }
            6 | 7 if depth < 3 => {
                let (_, l) = build(r, inj, &dir.join(&base), outside, depth + 1);
                let mut g = vec![format!("name={}", q(&base))];
                // the colour of a group is not shown
                g.extend(l.into_iter().skip(1));
                nest(&mut out, "group", g);
                (base, Some(out))
            }
            8 if !used.contains(&"OneNote_RecycleBin".to_string()) => {
                used.push("OneNote_RecycleBin".into());
                fs::create_dir_all(dir.join("OneNote_RecycleBin")).unwrap();
                ("OneNote_RecycleBin".to_string(), None)
            }
            _ => (format!("{base}.one"), None),
        };
        if r.pct(15) {
            all.push((num, name.clone(), shown.clone()));
            if r.pct(50) {
                let n = r.below(3) as u32;
                all.push((n, name, shown));
                continue;
            }
        }
        all.push((num, name, shown));
    }
    if r.pct(20) {
        // a link that stays inside
        let a = file_name(r, &mut used);
        let l = section_file(r, inj, &dir.join(format!("{a}.one")));
        let b = format!("{}.one", file_name(r, &mut used));
        let _ = symlink(dir.join(format!("{a}.one")), dir.join(&b));
        // its own name, not the one of its target
        let own = l[0] == format!("name={}", q(&a));
        let mut l = l;
        if own {
            l[0] = format!("name={}", q(b.strip_suffix(".one").unwrap()));
        }
        let mut out = vec![];
        nest(&mut out, "section", l);
        all.push((r.below(3) as u32, b, Some(out)));
    }
    if inj.hit(Fault::NoToc) {
        let base = file_name(r, &mut used);
        fs::create_dir_all(dir.join(&base)).unwrap();
        fs::write(dir.join(&base).join("x.onetoc"), b"").unwrap();
        all.push((r.next() as u32, base, None));
    }
    r.shuffle(&mut all);
    if inj.hit(Fault::Escape) {
        let away = outside.to_string_lossy().to_string();
        let base = file_name(r, &mut used);
        let up = |d: u32| "../".repeat(d as usize + 1);
        let name = match r.below(12) {
            0 => format!("{}secret.one", up(depth)),
            1 => format!("{away}/secret.one"),
            2 => {
                symlink(outside.join("secret.one"), dir.join(format!("{base}.one"))).unwrap();
                format!("{base}.one")
            }
            3 => {
                symlink(outside, dir.join(&base)).unwrap();
                format!("{base}/secret.one")
            }
            4 => {
                fs::create_dir_all(dir.join(&base)).unwrap();
                format!("{base}/../{}secret.one", up(depth))
            }
            5 => {
                // inside, but not by itself
                fs::create_dir_all(dir.join(&base)).unwrap();
                section_file(r, &mut Inject::none(), &dir.join("inner.one"));
                format!("{base}/../inner.one")
            }
            6 => "".into(),
            7 => ".".into(),
            8 => {
                symlink(outside.join("group"), dir.join(&base)).unwrap();
                base
            }
            9 => {
                // a group whose table of contents is somewhere else
                fs::create_dir_all(dir.join(&base)).unwrap();
                symlink(outside.join("group").join("t.onetoc2"), dir.join(&base).join("t.onetoc2")).unwrap();
                base
            }
            10 => {
                let c = *r.pick(&[':', '?', '*', '<', '>', '|', '"', '\u{7}']);
                format!("{base}{c}.one")
            }
            _ => "..".into(),
        };
        let at = r.range(0, all.len());
        all.insert(at, (r.next() as u32, name, None));
    }
    let list: Vec<(u32, String)> = all.iter().map(|e| (e.0, stored(&e.1, r))).collect();
    let (f, color) = doc::toc(r, inj, &list);
    let toc = r.pick(&["Open Notebook.onetoc2", "t.onetoc2"]).to_string();
    fs::write(dir.join(&toc), store::encode(&f, r, inj)).unwrap();
    // by number, in the order of the file; the same name is listed once
    all.sort_by_key(|e| e.0);
    all.dedup_by(|a, b| a.1 == b.1);
    let mut lines = vec![color];
    let there: Vec<Lines> = all.into_iter().filter_map(|e| e.2).collect();
    lines.push(format!("entries={}", there.len()));
    for l in there {
        lines.extend(l.into_iter().map(|l| format!("  {l}")));
    }
    (toc, lines)
}

pub fn run(seed: u64, faults: &[Fault], scratch: &Path, seen: &mut HashSet<u64>) -> Option<Failure> {
    let mut r = Rng::new(seed ^ 0xb00c);
    let root = scratch.join("nb");
    let want = choose(&mut r, faults);
    let ((toc, lines), fault) = with_fault(&mut r, want, |inj| {
        let _ = fs::remove_dir_all(&root);
        let mut r = Rng::new(seed);
        let outside = root.join("base-outside");
        fs::create_dir_all(outside.join("group")).unwrap();
        // what lies outside could be read
        section_file(&mut r, &mut Inject::none(), &outside.join("secret.one"));
        fs::copy(outside.join("secret.one"), root.join("secret.one")).unwrap();
        let (f, _) = doc::toc(&mut r, &mut Inject::none(), &[]);
        fs::write(outside.join("group").join("t.onetoc2"), store::encode(&f, &mut r, &mut Inject::none())).unwrap();
        build(&mut r, inj, &root.join("base"), &outside, 0)
    });
    let path = root.join("base").join(&toc);
    note(seen, lines.join("\n").as_bytes());
    let out = quietly(|| Parser::new().parse_notebook(&path), dump::notebook);
    let (what, key) = judge(out, if fault.is_some() { None } else { Some(&lines) }, fault)?;
    let mut input = vec![];
    fn collect(d: &Path, rel: &str, out: &mut Vec<(String, Vec<u8>)>) {
        for e in fs::read_dir(d).unwrap().flatten() {
            let n = format!("{rel}/{}", e.file_name().to_string_lossy());
            let t = e.file_type().unwrap();
            if t.is_dir() {
                collect(&e.path(), &n, out)
            } else if t.is_symlink() {
                let to = fs::read_link(e.path()).unwrap();
                out.push((format!("{n}.link"), to.to_string_lossy().into_owned().into_bytes()))
            } else {
                out.push((n, fs::read(e.path()).unwrap()))
            }
        }
    }
    collect(&root, "notebook", &mut input);
    input.push(("open.txt".into(), format!("notebook/base/{toc}").into_bytes()));
    if fault.is_none() {
        input.push(("expected.txt".into(), lines.join("\n").into_bytes()));
    }
    Some(Failure { what, key, input })
}
