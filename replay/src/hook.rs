//! The private decoders against reference decoders written from the format's documentation.

use crate::enc::*;
use crate::{Failure, note};
use onenote_parser::verif as v;
use std::collections::HashSet;
use std::fmt::Debug;
use std::panic::{AssertUnwindSafe, catch_unwind};

type Got<T> = Option<(T, usize)>;
type Id = ([u8; 16], u32);

fn le(b: &[u8]) -> u128 {
    b.iter().rev().fold(0, |a, x| a << 8 | *x as u128)
}

fn take(b: &[u8], at: usize, n: usize) -> Option<&[u8]> {
    b.get(at..at.checked_add(n)?)
}

fn r_compact(b: &[u8]) -> Got<u64> {
    let first = *b.first()?;
    if first == 0 {
        return Some((0, 1));
    }
    if first == 128 {
        return Some((le(take(b, 1, 8)?) as u64, 9));
    }
    let w = first.trailing_zeros() as usize + 1;
    if w == 8 {
        return Some((le(take(b, 1, 8)?) as u64, 9));
    }
    Some(((le(take(b, 0, w)?) >> w) as u64, w))
}

fn r_fixed(b: &[u8], w: usize) -> Got<u128> {
    let w = if w == 0 { 4 } else { w };
    Some((le(take(b, 0, w)?), w))
}

fn r_guid(b: &[u8]) -> Got<[u8; 16]> {
    let w: [u8; 16] = take(b, 0, 16)?.try_into().unwrap();
    // the wire order is its own inverse
    Some((guid_wire(w), 16))
}

fn text(g: [u8; 16]) -> String {
    let h = |r: std::ops::Range<usize>| g[r].iter().map(|x| format!("{x:02X}")).collect::<String>();
    format!("{{{}-{}-{}-{}-{}}}", h(0..4), h(4..6), h(6..8), h(8..10), h(10..16))
}

fn r_ex(b: &[u8]) -> Got<Id> {
    let first = *b.first()?;
    let (n, v) = if first == 0 {
        return Some((([0; 16], 0), 1));
    } else if first & 7 == 4 {
        (1, (first >> 3) as u32)
    } else if first & 63 == 32 {
        (2, (le(take(b, 0, 2)?) >> 6) as u32)
    } else if first & 127 == 64 {
        (3, (le(take(b, 0, 3)?) >> 7) as u32)
    } else if first == 128 {
        (5, le(take(b, 1, 4)?) as u32)
    } else {
        return None;
    };
    let (g, m) = r_guid(&b[n..])?;
    Some(((g, v), n + m))
}

fn r_many<T>(b: &[u8], one: impl Fn(&[u8]) -> Got<T>) -> Got<Vec<T>> {
    let (n, mut at) = r_compact(b)?;
    let mut out = vec![];
    for _ in 0..n {
        let (x, m) = one(&b[at..])?;
        at += m;
        out.push(x);
    }
    Some((out, at))
}

fn r_cell(b: &[u8]) -> Got<(Id, Id)> {
    let (a, n) = r_ex(b)?;
    let (c, m) = r_ex(&b[n..])?;
    Some(((a, c), n + m))
}

fn r_serial(b: &[u8]) -> Got<([u8; 16], u64)> {
    if *b.first()? == 0 {
        return Some((([0; 16], 0), 1));
    }
    let (g, _) = r_guid(&b[1..])?;
    Some(((g, le(take(b, 17, 8)?) as u64), 25))
}

const TYPES: [u64; 23] = [
    0x0B, 0x01, 0x6A, 0x15, 0x02, 0x1C, 0x1E, 0x05, 0x03, 0x16, 0x1D, 0x78, 0x79, 0x18, 0x7A, 0x1A, 0x19, 0x0A, 0x0E, 0x11, 0x0D, 0x0C,
    0x07,
];

fn r_header(b: &[u8], bits: u32) -> Got<(u64, bool, u64)> {
    let form = b.first()? & 3;
    let (ty, c, len, n) = match (bits, form) {
        (0 | 16, 0) => {
            let h = le(take(b, 0, 2)?);
            (h >> 3 & 0x3f, h >> 2 & 1, (h >> 9) as u64, 2)
        }
        (0 | 32, 2) => {
            let h = le(take(b, 0, 4)?);
            let len = (h >> 17) as u64;
            let (len, n) = if len == 0x7fff {
                let (l, m) = r_compact(&b[4..])?;
                (l, 4 + m)
            } else {
                (len, 4)
            };
            (h >> 3 & 0x3fff, h >> 2 & 1, len, n)
        }
        _ => return None,
    };
    let ty = ty as u64;
    if !TYPES.contains(&ty) {
        return None;
    }
    Some(((ty, c == 1, len), n))
}

fn r_end(b: &[u8], bits: u32) -> Got<u64> {
    let w = bits as usize / 8;
    let h = le(take(b, 0, w)?) as u64;
    let mark = if bits == 8 { 1 } else { 3 };
    if h & 3 != mark || !TYPES.contains(&(h >> 2)) {
        return None;
    }
    Some((h >> 2, w))
}

/// bytes to decode: an encoding made by `make`, sometimes cut or changed, or anything
fn input(r: &mut Rng, mut make: impl FnMut(&mut Rng) -> Vec<u8>) -> Vec<u8> {
    let mut b = if r.pct(80) {
        make(r)
    } else {
        let n = r.below(45);
        r.bytes(n)
    };
    if r.pct(30) && !b.is_empty() {
        let at = r.below(b.len().min(6));
        b[at] = r.next() as u8;
    }
    if r.pct(20) {
        let n = r.below(b.len() + 1);
        b.truncate(n);
    } else if r.pct(60) {
        let n = r.below(12);
        b.extend(r.bytes(n));
    }
    b
}

fn id(r: &mut Rng) -> Ex {
    if r.pct(15) {
        return NIL;
    }
    let g: [u8; 16] = if r.pct(10) { [0; 16] } else { r.bytes(16).try_into().unwrap() };
    Ex(g, r.edge() as u32)
}

fn check<T: PartialEq + Debug>(what: &str, b: &[u8], got: impl FnOnce() -> T, want: T, seen: &mut HashSet<u64>) -> Option<Failure> {
    note(seen, b);
    let got = match catch_unwind(AssertUnwindSafe(got)) {
        Ok(g) if g == want => return None,
        Ok(g) => format!("{g:?}"),
        Err(_) => "a panic".to_string(),
    };
    let hex: String = b.iter().take(80).map(|x| format!("{x:02x}")).collect();
    Some(Failure {
        what: format!("{what} of {hex}: {got} where the bytes encode {want:?}"),
        key: what.to_string(),
        input: vec![("input.bin".into(), b.to_vec())],
    })
}

pub fn run(c: u32, seed: u64, seen: &mut HashSet<u64>) -> Option<Failure> {
    let mut r = Rng::new(seed ^ 0x400c);
    for _ in 0..200 {
        let f = match c {
            1 => integers(&mut r, seen),
            2 => ids(&mut r, seen),
            _ => headers(&mut r, seen),
        };
        if f.is_some() {
            return f;
        }
    }
    None
}

fn integers(r: &mut Rng, seen: &mut HashSet<u64>) -> Option<Failure> {
    if r.pct(70) {
        let b = input(r, |r| {
            let v = r.edge();
            compact(v, r)
        });
        return check("the compact integer", &b, || v::compact_u64(&b), r_compact(&b), seen);
    }
    let w = *r.pick(&[0, 1, 2, 4, 8, 16]);
    let n = if r.pct(70) { 20 } else { r.below(20) };
    let b = r.bytes(n);
    check(&format!("the fixed width integer ({w})"), &b, || v::fixed(&b, w), r_fixed(&b, w), seen)
}

fn ids(r: &mut Rng, seen: &mut HashSet<u64>) -> Option<Failure> {
    match r.below(8) {
        0 => {
            let b = input(r, |r| r.bytes(16));
            check("the GUID", &b, || v::guid(&b), r_guid(&b), seen)
        }
        1 => {
            let b = r.bytes(16);
            let g = r_guid(&b).unwrap().0;
            check("the text of the GUID", &b, || v::guid_text(&b), Some((text(g), 16)), seen)
        }
        2 => {
            let g: [u8; 16] = r.bytes(16).try_into().unwrap();
            let mut t = text(g);
            if r.pct(50) {
                t = t[1..37].to_lowercase();
            }
            check("the GUID of the text", t.as_bytes(), || v::guid_from_text(&t), Some(g), seen)
        }
        3 => {
            let b = input(r, |r| {
                let e = id(r);
                ex_guid(e, r)
            });
            check("the extended GUID", &b, || v::ex_guid(&b), r_ex(&b), seen)
        }
        4 => {
            let b = input(r, |r| {
                let n = if r.pct(5) { r.below(300) } else { r.below(6) };
                let mut o = compact(n as u64, r);
                for _ in 0..n {
                    let e = id(r);
                    o.extend(ex_guid(e, r));
                }
                o
            });
            check("the extended GUID array", &b, || v::ex_guids(&b), r_many(&b, r_ex), seen)
        }
        5 => {
            let b = input(r, |r| {
                let (x, y) = (id(r), id(r));
                let mut o = ex_guid(x, r);
                o.extend(ex_guid(y, r));
                o
            });
            check("the cell id", &b, || v::cell_id(&b), r_cell(&b), seen)
        }
        6 => {
            let b = input(r, |r| {
                let n = if r.pct(5) { r.below(300) } else { r.below(4) };
                let mut o = compact(n as u64, r);
                for _ in 0..2 * n {
                    let e = id(r);
                    o.extend(ex_guid(e, r));
                }
                o
            });
            check("the cell id array", &b, || v::cell_ids(&b), r_many(&b, r_cell), seen)
        }
        _ => {
            let b = input(r, |r| {
                let mut o = vec![*r.pick(&[0u8, 128, 1])];
                o.extend(r.bytes(24));
                o
            });
            check("the serial number", &b, || v::serial_number(&b), r_serial(&b), seen)
        }
    }
}

fn headers(r: &mut Rng, seen: &mut HashSet<u64>) -> Option<Failure> {
    let kind = *r.pick(&TYPES);
    let start = r.pct(60);
    let b = input(r, |r| {
        let t = if r.pct(70) { kind } else { *r.pick(&TYPES) };
        let t = if r.pct(6) { r.next() & 0x3fff } else { t };
        let c = r.next() & 1;
        let wide = r.pct(50);
        match (start, wide) {
            (true, false) => ((c << 2 | (t & 0x3f) << 3 | r.next() << 9) as u16).to_le_bytes().to_vec(),
            (true, true) => {
                let long = r.pct(40);
                let len = if long { 0x7fff } else { r.next() & 0x7fff };
                let mut o = ((2 | c << 2 | (t & 0x3fff) << 3 | len << 17) as u32).to_le_bytes().to_vec();
                if long {
                    let n = r.edge();
                    o.extend(compact(n, r));
                }
                o
            }
            (false, false) => vec![(t << 2 | 1) as u8],
            (false, true) => ((t << 2 | 3) as u16).to_le_bytes().to_vec(),
        }
    });
    if start {
        if r.pct(50) {
            let bits = *r.pick(&[0, 16]);
            return check(&format!("the header ({bits})"), &b, || v::header(&b, bits), r_header(&b, bits), seen);
        }
        let bits = *r.pick(&[0, 16, 32]);
        let want = r_header(&b, bits).filter(|h| h.0.0 == kind).map(|h| ((), h.1));
        return check(&format!("the header ({bits}) of type {kind:x}"), &b, || v::expect(&b, kind, bits, false), want, seen);
    }
    let bits = *r.pick(&[8, 16]);
    let kind = if bits == 8 { kind & 0x3f } else { kind };
    if !TYPES.contains(&kind) {
        return None;
    }
    if r.pct(50) {
        let want = r_end(&b, bits).filter(|h| h.0 == kind).map(|h| ((), h.1));
        return check(&format!("the end ({bits}) of type {kind:x}"), &b, || v::expect(&b, kind, bits, true), want, seen);
    }
    let want = if b.len() * 8 < bits as usize { None } else { Some((matches!(r_end(&b, bits), Some((k, _)) if k == kind), 0)) };
    check(&format!("whether the end ({bits}) of type {kind:x} comes next"), &b, || v::has_end(&b, kind, bits), want, seen)
}
