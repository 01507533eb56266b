//! Reads the file in the current directory and compares it with what it should show.
mod doc {
    pub type Lines = Vec<String>;
    pub fn f(x: f32) -> String {
        format!("{:08x}", x.to_bits())
    }
    pub fn o<T>(x: Option<T>, g: impl Fn(T) -> String) -> String {
        x.map(g).unwrap_or("-".into())
    }
    pub fn q(s: &str) -> String {
        format!("{:?}", s)
    }
    pub fn hex(b: &[u8]) -> String {
        b.iter().map(|x| format!("{:02x}", x)).collect()
    }
    pub fn nest(out: &mut Lines, label: &str, sub: Lines) {
        out.push(format!("{label}:"));
        out.extend(sub.into_iter().map(|l| format!("  {l}")));
    }
}
mod dump;
use onenote_parser::Parser;
use std::{fs, path::Path};

fn read() -> Result<doc::Lines, String> {
    if let Ok(p) = fs::read_to_string("open.txt") {
        return Parser::new().parse_notebook(&Path::new(".").join(p.trim())).map(|n| dump::notebook(&n)).map_err(|e| e.to_string());
    }
    let name = fs::read_to_string("name.txt").unwrap_or("x.one".into());
    let bytes = fs::read("input.one").unwrap();
    Parser::new().parse_section_buffer(&bytes, Path::new(&name)).map(|s| dump::section(&s)).map_err(|e| e.to_string())
}

fn main() {
    let h = std::thread::Builder::new().stack_size(64 << 20).spawn(|| {
        let want = fs::read_to_string("expected.txt").ok();
        if fs::exists("repeat.txt").unwrap() {
            let first = read();
            for _ in 0..30 {
                assert_eq!(read(), first, "reading the same bytes again gives something else");
            }
            println!("demo: ok");
            return;
        }
        if fs::exists("any.txt").unwrap() {
            let _ = read();
            println!("demo: ok");
            return;
        }
        match (read(), want) {
            (Ok(l), Some(w)) => {
                let w: Vec<&str> = w.lines().collect();
                for (i, x) in w.iter().enumerate() {
                    assert_eq!(l.get(i).map(|l| l.as_str()), Some(*x), "line {i}");
                }
                assert_eq!(l.len(), w.len());
            }
            (Ok(_), None) => panic!("a file that breaks the format was read without an error"),
            (Err(e), Some(_)) => panic!("rejects a well-formed file: {e}"),
            (Err(_), None) => {}
        }
        println!("demo: ok");
    });
    if h.unwrap().join().is_err() {
        std::process::exit(1);
    }
}
