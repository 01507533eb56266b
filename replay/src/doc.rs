//! Random documents: the objects they are made of, and what a reader has to find in them.

use crate::enc::*;
use crate::store::*;

pub mod id {
    pub const SECTION: u32 = 0x60007;
    pub const SERIES: u32 = 0x60008;
    pub const MANIFEST: u32 = 0x60037;
    pub const PAGE: u32 = 0x6000B;
    pub const TITLE: u32 = 0x6002C;
    pub const OUTLINE: u32 = 0x6000C;
    pub const ELEMENT: u32 = 0x6000D;
    pub const GROUP: u32 = 0x60019;
    pub const TEXT: u32 = 0x6000E;
    pub const LIST: u32 = 0x60012;
    pub const IMAGE: u32 = 0x60011;
    pub const PICTURE: u32 = 0x80039;
    pub const XPS: u32 = 0x8003A;
    pub const FILE: u32 = 0x60035;
    pub const FILE_DATA: u32 = 0x80036;
    pub const TABLE: u32 = 0x60022;
    pub const ROW: u32 = 0x60023;
    pub const CELL: u32 = 0x60024;
    pub const STYLE: u32 = 0x12004D;
    pub const TAG: u32 = 0x120043;
    pub const INK: u32 = 0x60014;
    pub const INK_DATA: u32 = 0x2003B;
    pub const STROKE: u32 = 0x20047;
    pub const STROKE_PROPS: u32 = 0x120048;
    pub const IFRAME: u32 = 0x60058;
    pub const SECTION_META: u32 = 0x20031;
    pub const PAGE_META: u32 = 0x20030;
    pub const TOC: u32 = 0x20001;
    pub const AUTHOR: u32 = 0x120001;
    pub const REVISION: u32 = 0x20044;
    pub const ALL: [u32; 30] = [
        SECTION, SERIES, MANIFEST, PAGE, TITLE, OUTLINE, ELEMENT, GROUP, TEXT, LIST, IMAGE, PICTURE, XPS, FILE,
        FILE_DATA, TABLE, ROW, CELL, STYLE, TAG, INK, INK_DATA, STROKE, STROKE_PROPS, IFRAME, SECTION_META,
        PAGE_META, TOC, AUTHOR, REVISION,
    ];
}

pub fn f(x: f32) -> String {
    format!("{:08x}", x.to_bits())
}
pub fn o<T>(x: Option<T>, g: impl Fn(T) -> String) -> String {
    x.map(g).unwrap_or("-".into())
}
pub fn q(s: &str) -> String {
    format!("{:?}", s)
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

pub type Lines = Vec<String>;

pub fn nest(out: &mut Lines, label: &str, sub: Lines) {
    out.push(format!("{label}:"));
    out.extend(sub.into_iter().map(|l| format!("  {l}")));
}

pub struct Node {
    pub props: Vec<P>,
    pub lines: Lines,
}

pub struct Gen<'r> {
    pub r: &'r mut Rng,
    pub inj: &'r mut Inject,
    pub used: Vec<Ex>,
    pub objs: Vec<Obj>,
    pub budget: i32,
    ancestors: Vec<Ex>,
    styles: Vec<(Ex, Lines)>,
    tags: Vec<(Ex, Lines)>,
}

const CHARSETS: [(u8, &str); 19] = [
    (0, "Ansi"), (1, "Default"), (2, "Symbol"), (77, "Mac"), (128, "ShiftJis"), (129, "Hangul"), (130, "Johab"),
    (134, "Gb2312"), (136, "ChineseBig5"), (161, "Greek"), (162, "Turkish"), (163, "Vietnamese"), (177, "Hebrew"),
    (178, "Arabic"), (186, "Baltic"), (204, "Russian"), (222, "Thai"), (238, "EastEurope"), (255, "Oem"),
];

impl Node {
    fn new() -> Node {
        Node { props: vec![], lines: vec![] }
    }
    fn line(&mut self, label: &str, v: String) {
        self.lines.push(format!("{label}={v}"))
    }
    fn put(&mut self, id: u32, v: V, role: Role) {
        self.props.push(P { id, v, role })
    }
}

fn other_type(v: &V, r: &mut Rng) -> V {
    loop {
        let n = match r.below(12) {
            0 => V::Empty,
            1 => V::Bool(r.pct(50)),
            2 => V::U8(r.next() as u8),
            3 => V::U16(r.next() as u16),
            4 => V::U32(r.next() as u32),
            5 => V::U64(r.next()),
            6 => V::Bytes(vec![0x41, 0, 0, 0]),
            7 => V::Oids(vec![]),
            8 => V::Sids(vec![]),
            9 => V::Cids(vec![]),
            10 => V::Set(vec![]),
            _ => V::Sets(5, vec![]),
        };
        if std::mem::discriminant(&n) != std::mem::discriminant(v) {
            return n;
        }
    }
}

impl<'r> Gen<'r> {
    pub fn new(r: &'r mut Rng, inj: &'r mut Inject, budget: i32) -> Gen<'r> {
        Gen { r, inj, used: vec![Ex([0x5a; 16], 0)], objs: vec![], budget, ancestors: vec![], styles: vec![], tags: vec![] }
    }
    fn hit(&mut self, k: Fault) -> bool {
        self.inj.hit(k)
    }
    pub fn fresh(&mut self) -> Ex {
        fresh_id(&mut self.used, self.r)
    }

    // ---- values

    pub fn float(&mut self) -> f32 {
        match self.r.below(6) {
            0 => 0.0,
            1 => -0.0,
            2 => f32::INFINITY,
            3 => self.r.below(1000) as f32 / 8.0,
            _ => loop {
                let x = f32::from_bits(self.r.next() as u32);
                if !x.is_nan() {
                    return x;
                }
            },
        }
    }
    pub fn string(&mut self) -> String {
        let n = match self.r.below(4) {
            0 => 0,
            1 => 1,
            _ => self.r.below(8),
        };
        (0..n)
            .map(|_| match self.r.below(6) {
                0 => *self.r.pick(&['\u{1F600}', '\u{10000}', '\u{10FFFF}', '\u{FFFD}', '\u{FEFF}', '\u{D7FF}', '\u{E000}']),
                1 => char::from_u32(0x80 + self.r.below(0xD000) as u32).unwrap(),
                _ => (b'!' + self.r.below(90) as u8) as char,
            })
            .collect()
    }
    /// the bytes of a string property, with what may follow its end
    pub fn text_bytes(&mut self, s: &str) -> Vec<u8> {
        let mut u: Vec<u16> = s.encode_utf16().collect();
        if self.hit(Fault::BadText) {
            let at = self.r.range(0, u.len());
            // in between a pair it would be a different pair
            let at = if at > 0 && at < u.len() && (0xDC00..0xE000).contains(&u[at]) { at - 1 } else { at };
            let lone = *self.r.pick(&[0xD800u16, 0xDBFF]);
            u.insert(at, lone);
            if self.r.pct(50) {
                u[at] = 0xDC00;
            }
            if at + 1 < u.len() && u[at] < 0xDC00 && (0xDC00..0xE000).contains(&u[at + 1]) {
                u[at] = 0xDC00;
            }
        }
        let mut b: Vec<u8> = u.iter().flat_map(|x| x.to_le_bytes()).collect();
        match self.r.below(4) {
            0 => b.extend([0, 0]),
            1 => {
                b.extend([0, 0]);
                let n = self.r.below(7);
                b.extend(self.r.bytes(n));
                // a lone surrogate behind the end
                b.extend([0, 0xD8]);
            }
            2 => b.push(self.r.next() as u8),
            _ => {}
        }
        b
    }
    fn align(&mut self) -> (u32, String) {
        let v = self.r.next() as u32;
        if self.r.pct(20) {
            return (v | 1 << 31, "-".into());
        }
        let h = self.r.below(6) as u32;
        let mut v = v & !(1 << 31) & !7 | h;
        if self.hit(Fault::InvalidValue) {
            v = v & !7 | self.r.range(6, 7) as u32;
        }
        let hs = ["Unknown", "Left", "Center", "Right", "BiDiNormal", "BiDiReverse"];
        let s = format!(
            "LayoutAlignment {{ alignment_horizontal: {}, alignment_margin_horizontal: {}, alignment_vertical: {}, alignment_margin_vertical: {} }}",
            hs[h as usize],
            if v >> 3 & 1 == 1 { "Left" } else { "Right" },
            if v >> 16 & 1 == 1 { "Top" } else { "Bottom" },
            if v >> 19 & 1 == 1 { "Top" } else { "Bottom" },
        );
        (v, s)
    }
    fn color_ref(&mut self) -> (u32, String) {
        let b = self.r.bytes(3);
        let mut hi = if self.r.pct(30) { 0xFF } else { 0 };
        let s = if hi == 0xFF { "auto".into() } else { format!("{},{},{}", b[0], b[1], b[2]) };
        if self.hit(Fault::InvalidValue) {
            hi = *self.r.pick(&[1u8, 0xFE, 0x80]);
        }
        (u32::from_le_bytes([b[0], b[1], b[2], hi]), s)
    }
    fn indents(&mut self) -> (Vec<u8>, String) {
        let n = if self.r.pct(10) { 255 } else { self.r.below(5) };
        let mut b = vec![n as u8];
        b.extend(self.r.bytes(3));
        let mut s = vec![];
        for _ in 0..n {
            let x = self.float();
            b.extend(x.to_le_bytes());
            s.push(f(x));
        }
        if self.hit(Fault::InvalidValue) {
            let k = b.len() - 1;
            b.truncate(k);
        } else if self.r.pct(40) {
            let k = self.r.below(9);
            b.extend(self.r.bytes(k));
        }
        (b, s.join(","))
    }

    // ---- properties

    fn there(&mut self) -> bool {
        self.r.pct(60)
    }
    fn f32p(&mut self, n: &mut Node, id: u32, label: &str) -> Option<f32> {
        let x = if self.there() { Some(self.float()) } else { None };
        if let Some(x) = x {
            n.put(id, V::U32(x.to_bits()), Role::Opt);
        }
        if !label.is_empty() {
            n.line(label, o(x, f));
        }
        x
    }
    fn f32m(&mut self, n: &mut Node, id: u32, label: &str) -> f32 {
        let x = self.float();
        n.put(id, V::U32(x.to_bits()), Role::Mand);
        n.line(label, f(x));
        x
    }
    /// absent counts as zero
    fn f32d(&mut self, n: &mut Node, id: u32, label: &str) {
        let x = if self.there() { Some(self.float()) } else { None };
        if let Some(x) = x {
            n.put(id, V::U32(x.to_bits()), Role::Opt);
        }
        n.line(label, f(x.unwrap_or(0.0)));
    }
    fn boolp(&mut self, n: &mut Node, id: u32, label: &str, default: bool) -> bool {
        let x = if self.there() { Some(self.r.pct(50)) } else { None };
        if let Some(x) = x {
            n.put(id, V::Bool(x), Role::Opt);
        }
        let v = x.unwrap_or(default);
        if !label.is_empty() {
            n.line(label, v.to_string());
        }
        v
    }
    fn bools(&mut self, n: &mut Node, ids: &[u32]) {
        for i in ids {
            self.boolp(n, *i, "", false);
        }
    }
    fn u8p(&mut self, n: &mut Node, id: u32, label: &str) -> Option<u8> {
        let x = if self.there() { Some(self.r.next() as u8) } else { None };
        if let Some(x) = x {
            n.put(id, V::U8(x), Role::Opt);
        }
        n.line(label, o(x, |x| x.to_string()));
        x
    }
    fn u8m(&mut self, n: &mut Node, id: u32, label: &str) {
        let x = self.r.next() as u8;
        n.put(id, V::U8(x), Role::Mand);
        n.line(label, x.to_string());
    }
    fn u16p(&mut self, n: &mut Node, id: u32, label: &str) {
        let x = if self.there() { Some(self.r.next() as u16) } else { None };
        if let Some(x) = x {
            n.put(id, V::U16(x), Role::Opt);
        }
        if !label.is_empty() {
            n.line(label, o(x, |x| x.to_string()));
        }
    }
    fn u32p(&mut self, n: &mut Node, id: u32, label: &str) -> Option<u32> {
        let x = if self.there() { Some(self.r.edge() as u32) } else { None };
        if let Some(x) = x {
            n.put(id, V::U32(x), Role::Opt);
        }
        if !label.is_empty() {
            n.line(label, o(x, |x| x.to_string()));
        }
        x
    }
    fn u32m(&mut self, n: &mut Node, id: u32, label: &str) {
        let x = self.r.edge() as u32;
        n.put(id, V::U32(x), Role::Mand);
        if !label.is_empty() {
            n.line(label, x.to_string());
        }
    }
    fn u64m(&mut self, n: &mut Node, id: u32) {
        let x = self.r.next();
        n.put(id, V::U64(x), Role::Mand);
    }
    fn time(&mut self, n: &mut Node, mand: bool) {
        if mand || self.there() {
            let x = self.r.next() as u32;
            n.put(0x14001D7A, V::U32(x), if mand { Role::Mand } else { Role::Opt });
        }
    }
    fn strp(&mut self, n: &mut Node, id: u32, label: &str) -> Option<String> {
        let x = if self.there() { Some(self.string()) } else { None };
        if let Some(x) = &x {
            let b = self.text_bytes(x);
            n.put(id, V::Bytes(b), Role::Opt);
        }
        if !label.is_empty() {
            n.line(label, o(x.as_deref(), q));
        }
        x
    }
    fn strm(&mut self, n: &mut Node, id: u32, label: &str) {
        let x = self.string();
        let b = self.text_bytes(&x);
        n.put(id, V::Bytes(b), Role::Mand);
        if !label.is_empty() {
            n.line(label, q(&x));
        }
    }
    fn guidm(&mut self, n: &mut Node) {
        let k = if self.hit(Fault::InvalidValue) { self.r.below(16) } else { 16 + self.r.below(3) };
        let b = self.r.bytes(k);
        n.put(0x1C001C30, V::Bytes(b), Role::Mand);
    }
    fn alignp(&mut self, n: &mut Node) {
        for (id, label) in [(0x14001C3E, "align_parent"), (0x14001C84, "align_self")] {
            if self.there() {
                let (v, s) = self.align();
                n.put(id, V::U32(v), Role::Opt);
                n.line(label, s);
            } else {
                n.line(label, "-".into());
            }
        }
    }
    fn crefp(&mut self, n: &mut Node, id: u32, label: &str) {
        if self.there() {
            let (v, s) = self.color_ref();
            n.put(id, V::U32(v), Role::Opt);
            n.line(label, s);
        } else {
            n.line(label, "-".into());
        }
    }
    fn colorp(&mut self, n: &mut Node, id: u32, label: &str) {
        if self.there() {
            let b = self.r.bytes(4);
            n.put(id, V::U32(u32::from_le_bytes([b[0], b[1], b[2], b[3]])), Role::Opt);
            n.line(label, format!("{},{},{},{}", 255 - b[3], b[0], b[1], b[2]));
        } else {
            n.line(label, "-".into());
        }
    }
    fn aligntext(&mut self, n: &mut Node, label: &str, default: &str) {
        if self.there() {
            let v = if self.r.pct(80) { self.r.below(4) as u8 } else { self.r.next() as u8 };
            n.put(0x0C003477, V::U8(v), Role::Opt);
            n.line(label, ["Left", "Center", "Right"].get(v as usize).unwrap_or(&"Unknown").to_string());
        } else {
            n.line(label, default.into());
        }
    }

    /// properties no one looks at, which still have to be skipped correctly
    fn extras(&mut self, depth: u32) -> Vec<P> {
        let n = if depth == 0 { self.r.below(4) } else { self.r.below(3) };
        (0..n)
            .map(|_| {
                let id = 0x2000000 | self.r.next() as u32 & 0x1ffffff;
                let k = self.r.below(if depth < 2 { 15 } else { 13 });
                let v = match k {
                    0 => V::Empty,
                    1 => V::Bool(self.r.pct(50)),
                    2 => V::U8(self.r.next() as u8),
                    3 => V::U16(self.r.next() as u16),
                    4 => V::U32(self.r.next() as u32),
                    5 => V::U64(self.r.next()),
                    6 => {
                        let n = self.r.below(6);
                        V::Bytes(self.r.bytes(n))
                    }
                    7 => V::Oid(self.any_ref()),
                    8 => {
                        let n = self.r.below(3);
                        V::Oids((0..n).map(|_| self.any_ref()).collect())
                    }
                    9 => V::Sid(Cell(self.any_ref(), self.any_ref())),
                    10 => {
                        let n = self.r.below(3);
                        V::Sids((0..n).map(|_| Cell(self.any_ref(), self.any_ref())).collect())
                    }
                    11 => V::Cid(self.any_ref()),
                    12 => {
                        let n = self.r.below(3);
                        V::Cids((0..n).map(|_| self.any_ref()).collect())
                    }
                    13 => {
                        let n = self.r.below(3);
                        let id = self.r.next() as u32;
                        V::Sets(id, (0..n).map(|_| self.extras(depth + 1)).collect())
                    }
                    _ => V::Set(self.extras(depth + 1)),
                };
                P { id, v, role: Role::Extra }
            })
            .collect()
    }
    fn any_ref(&mut self) -> Ex {
        Ex(self.r.bytes(16).try_into().unwrap(), self.r.next() as u32)
    }
    fn unique(ps: &mut Vec<P>) {
        let mut seen = std::collections::HashSet::new();
        ps.retain(|p| seen.insert(p.id & 0x3ffffff));
    }
    fn mix(&mut self, mut ps: Vec<P>, depth: u32) -> Vec<P> {
        let e = self.extras(depth);
        ps.extend(e);
        if self.r.pct(1) {
            let n = self.r.below(64 - depth as usize);
            ps.push(nested(n, self.r));
        }
        Self::unique(&mut ps);
        self.r.shuffle(&mut ps);
        let mut out = vec![];
        for mut p in ps {
            if p.role != Role::Extra && self.inj.hit(Fault::WrongType) {
                p.v = other_type(&p.v, self.r);
            }
            if p.role == Role::Mand && self.inj.hit(Fault::MissingProp) {
                continue;
            }
            out.push(p);
        }
        out
    }

    fn add_as(&mut self, id: Ex, jcid: u32, n: Node, file: Option<Vec<u8>>, strict: bool) -> (Ex, Lines) {
        let props = self.mix(n.props, 0);
        let mut jcid = jcid;
        if strict && self.hit(Fault::WrongNode) {
            loop {
                let j = if self.r.pct(80) { *self.r.pick(&id::ALL) } else { jcid ^ 1 << self.r.below(32) };
                let same = |j: u32| if j == id::XPS { id::PICTURE } else { j };
                // content kinds are told apart by their type: only one that is not content is an error
                if same(j) != same(jcid) {
                    jcid = j;
                    break;
                }
            }
        }
        if !self.hit(Fault::MissingObject) {
            self.objs.push(Obj { id, jcid, props, file, strict });
        }
        (id, n.lines)
    }
    fn add(&mut self, jcid: u32, n: Node, strict: bool) -> (Ex, Lines) {
        let id = self.fresh();
        self.add_as(id, jcid, n, None, strict)
    }

    // ---- nodes

    fn author(&mut self) -> Ex {
        // an author is referred to, but never looked at
        self.any_ref()
    }

    fn tag_definition(&mut self) -> (Ex, Lines) {
        if !self.tags.is_empty() && self.r.pct(40) {
            let i = self.r.below(self.tags.len());
            return self.tags[i].clone();
        }
        let mut n = Node::new();
        self.strm(&mut n, 0x1C003468, "label");
        let v = self.r.next() as u32;
        n.put(0x14003467, V::U32(v), Role::Mand);
        let bits: String = [0, 1, 2, 3, 6, 7, 8, 9, 10, 11].iter().map(|b| if v >> b & 1 == 1 { '1' } else { '0' }).collect();
        n.line("status", bits);
        let k = self.r.below(SHAPES.len());
        let mut shape = SHAPES[k].0;
        if self.hit(Fault::InvalidValue) {
            shape = *self.r.pick(&[0x100 | shape, 30000, 0xffff, BAD_SHAPE]);
        }
        n.put(0x10003464, V::U16(shape), Role::Mand);
        n.line("shape", SHAPES[k].1.into());
        self.crefp(&mut n, 0x14003465, "highlight");
        self.crefp(&mut n, 0x14003466, "text_color");
        let t = if self.r.pct(80) { self.r.below(108) as u16 } else { self.r.next() as u16 };
        n.put(0x10003463, V::U16(t), Role::Mand);
        let names = ["DueToday", "DueTomorrow", "DueThisWeek", "DueNextWeek", "NoDueDate", "CustomDueDate"];
        n.line("action", match t {
            0..=99 => format!("Numeric({t})"),
            100..=105 => names[t as usize - 100].into(),
            _ => "Unknown".into(),
        });
        let x = self.add(id::TAG, n, true);
        self.tags.push(x.clone());
        x
    }

    fn tags(&mut self, n: &mut Node) {
        let k = if self.r.pct(60) { 0 } else { self.r.range(1, 3) };
        if k == 0 && self.r.pct(60) {
            n.line("tags", "0".into());
            return;
        }
        let mut sets = vec![];
        n.line("tags", k.to_string());
        for _ in 0..k {
            let mut t = Node::new();
            if self.there() {
                let x = self.r.next() as u32;
                t.put(0x1400346F, V::U32(x), Role::Opt);
                t.line("completed", format!("Time({x})"));
            } else {
                t.line("completed", "-".into());
            }
            let x = self.r.next() as u32;
            t.put(0x1400346E, V::U32(x), Role::Mand);
            let s = self.r.next() as u16;
            t.put(0x10003470, V::U16(s), Role::Mand);
            t.line("state", format!("{},{},{}", s & 1 != 0, s & 2 != 0, s & 4 != 0));
            if self.there() {
                let (id, l) = self.tag_definition();
                t.put(0x20003488, V::Oid(id), Role::Opt);
                nest(&mut t.lines, "definition", l);
            } else {
                t.line("definition", "-".into());
            }
            sets.push(self.mix(t.props, 1));
            nest(&mut n.lines, "tag", t.lines);
        }
        let id = self.r.next() as u32;
        n.put(0x40003489, V::Sets(id, sets), Role::Opt);
    }

    fn style(&mut self, special: Option<(bool, bool, Option<u32>)>) -> (Ex, Lines) {
        if special.is_none() && !self.styles.is_empty() && self.r.pct(50) {
            let i = self.r.below(self.styles.len());
            return self.styles[i].clone();
        }
        let mut n = Node::new();
        if self.there() {
            let (mut v, s) = *self.r.pick(&CHARSETS);
            n.line("charset", s.into());
            if self.hit(Fault::InvalidValue) {
                v = *self.r.pick(&[3u8, 76, 78, 131, 135, 137, 160, 164, 176, 179, 185, 205, 223, 239, 254]);
            }
            n.put(0x0C001D01, V::U8(v), Role::Opt);
        } else {
            n.line("charset", "-".into());
        }
        for (id, l) in [
            (0x08001C04, "bold"), (0x08001C05, "italic"), (0x08001C06, "underline"), (0x08001C07, "strike"),
            (0x08001C08, "super"), (0x08001C09, "sub"),
        ] {
            self.boolp(&mut n, id, l, false);
        }
        self.strp(&mut n, 0x1C001C0A, "font");
        self.u16p(&mut n, 0x10001C0B, "size");
        self.crefp(&mut n, 0x14001C0C, "color");
        self.crefp(&mut n, 0x14001C0D, "highlight");
        self.strp(&mut n, 0x1C00348A, "next");
        self.strp(&mut n, 0x1C00345A, "id");
        self.aligntext(&mut n, "align", "-");
        self.f32p(&mut n, 0x1400342E, "before");
        self.f32p(&mut n, 0x1400342F, "after");
        self.f32p(&mut n, 0x14003430, "exact");
        self.u32p(&mut n, 0x14001C3B, "lang");
        let (math, object, kind) = special.unwrap_or((false, false, None));
        if math || self.there() {
            n.put(0x08003401, V::Bool(math), Role::Opt);
        }
        n.line("math", math.to_string());
        self.boolp(&mut n, 0x08001E14, "link", false);
        self.bools(&mut n, &[0x08001E19, 0x08001E16]);
        if object || self.there() {
            n.put(0x08001E22, V::Bool(object), Role::Opt);
        }
        match kind {
            Some(k) => n.put(0x14003457, V::U32(k), Role::Opt),
            // of no importance where there is no object
            None if !object => {
                self.u32p(&mut n, 0x14003457, "");
            }
            None => {}
        }
        let x = self.add(id::STYLE, n, true);
        if special.is_none() {
            self.styles.push(x.clone());
        }
        x
    }

    fn text(&mut self) -> (Ex, Lines) {
        let mut n = Node::new();
        let kind = self.r.below(10);
        // 0-5 plain, 6-7 formulas, 8-9 ink
        let runs = self.r.below(4);
        let mut styles = vec![];
        let mut datas: Vec<(Vec<P>, bool)> = vec![];
        let mut math: Vec<String> = vec![];
        let mut objects: Vec<Lines> = vec![];
        let mut data_objs: Vec<Ex> = vec![];
        let has_objs = self.r.pct(80);
        for _ in 0..runs {
            let special = match kind {
                0..=5 => None,
                6 | 7 => Some((self.r.pct(70), false, None)),
                _ => match self.r.below(4) {
                    0 => None,
                    1 => Some((self.r.pct(20), true, Some(0x20026))),
                    2 => Some((false, true, Some(0x20027))),
                    _ => Some((false, true, None)),
                },
            };
            let mut special = special;
            if let Some((_, true, k)) = &mut special {
                if self.hit(Fault::InvalidValue) {
                    *k = Some(*self.r.pick(&[0u32, 0x20025, 0x20028, 0x120026]));
                }
            }
            let s = self.style(special);
            styles.push(s);
            let (m, ob, k) = special.unwrap_or((false, false, None));
            let mut d = Node::new();
            if m {
                let role = Role::Opt;
                let mut l = vec![];
                let types = [0u32, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 0x90000000];
                let mut t = *self.r.pick(&types);
                let tp = self.there();
                l.push(math_name(if tp { t } else { 0 }).to_string());
                if tp {
                    if self.hit(Fault::InvalidValue) {
                        t = *self.r.pick(&[1u32, 9, 34, 0x80000000, 0xffffffff]);
                    }
                    d.put(0x1400344F, V::U32(t), role);
                }
                let c = if self.there() { Some(self.r.next() as u32) } else { None };
                if let Some(c) = c {
                    d.put(0x14003450, V::U32(c), role);
                }
                l.push(c.unwrap_or(0).to_string());
                for id in [0x0C003451, 0x0C003452] {
                    let c = if self.there() { Some(self.r.next() as u8) } else { None };
                    if let Some(c) = c {
                        d.put(id, V::U8(c), role);
                    }
                    l.push(o(c, |c| c.to_string()));
                }
                for id in [0x10003453, 0x10003454, 0x10003455] {
                    let c = if self.there() { Some(*self.r.pick(&[0u16, 0x41, 0x222B, 0xD7FF, 0xE000, 0xFFFF])) } else { None };
                    if let Some(mut c) = c {
                        if self.hit(Fault::BadText) {
                            c = *self.r.pick(&[0xD800u16, 0xDFFF]);
                        }
                        d.put(id, V::U16(c), role);
                    }
                    l.push(o(c, |c| format!("{:?}", char::from_u32(c as u32).unwrap())));
                }
                math.push(l.join(" "));
            }
            if ob {
                let mut l = vec![];
                let mut v = vec![];
                // width, height of a space
                for id in [0x14001C27, 0x14001C28] {
                    let mand = k == Some(0x20026);
                    let x = if mand || self.there() { Some(self.float()) } else { None };
                    if let Some(x) = x {
                        d.put(id, V::U32(x.to_bits()), if mand { Role::Mand } else { Role::Opt });
                    }
                    v.push(x);
                }
                for id in [0x1400349E, 0x1400349F, 0x140034A1, 0x140034A0, 0x140034A2, 0x140034A3] {
                    let x = if self.r.pct(80) { Some(self.float()) } else { None };
                    if let Some(x) = x {
                        d.put(id, V::U32(x.to_bits()), Role::Opt);
                    }
                    v.push(x);
                }
                match k {
                    Some(0x20026) => {
                        l.push(format!("space={},{}", o(v[0], f), o(v[1], f)));
                        objects.push(l);
                    }
                    Some(_) => {
                        l.push("break".into());
                        objects.push(l);
                    }
                    None => {
                        if has_objs {
                            let (x, ink) = self.ink_data(None, None);
                            data_objs.push(x);
                            l.extend(ink);
                            l.push(format!("offset={},{}", o(v[6], f), o(v[7], f)));
                            l.push(match (v[2], v[3], v[4], v[5]) {
                                (Some(x), Some(y), Some(h), Some(w)) => format!("box={},{},{},{}", f(x), f(y), f(h), f(w)),
                                _ => "box=-".into(),
                            });
                            objects.push(l);
                        }
                    }
                }
            }
            let ps = self.mix(d.props, 1);
            datas.push((ps, m || ob));
        }
        if has_objs && data_objs.len() > 0 && self.hit(Fault::MissingProp) {
            // fewer inks than runs that show one
            data_objs.pop();
            data_objs.reverse();
            if data_objs.is_empty() {
                data_objs = vec![];
                // without any the runs are empty, which is no error
                let x = self.any_ref();
                data_objs.push(x);
            }
        }
        // runs without a style have no meaning, nor styles without data
        let need = datas.iter().rposition(|d| d.1).map(|i| i + 1).unwrap_or(0);
        let mut sets: Vec<Vec<P>> = datas.into_iter().map(|d| d.0).collect();
        if self.r.pct(30) {
            sets.truncate(need);
        } else if self.r.pct(30) {
            let e = self.extras(1);
            sets.push(e);
        }
        if need > 0 || self.r.pct(50) {
            let id = self.r.next() as u32;
            n.put(0x40003499, V::Sets(id, sets), Role::Opt);
        }
        if !data_objs.is_empty() || self.r.pct(20) {
            n.put(0x24003458, V::Oids(data_objs), Role::Opt);
        }

        let unicode = self.r.below(3);
        let s = match unicode {
            0 => {
                let s = self.string();
                let b = self.text_bytes(&s);
                n.put(0x1C001C22, V::Bytes(b), Role::Opt);
                if self.r.pct(30) {
                    n.put(0x1C003498, V::Bytes(b"zzz".to_vec()), Role::Extra);
                }
                s
            }
            1 => {
                let k = self.r.below(6);
                let b = self.r.bytes(k);
                let s = b.iter().map(|c| *c as char).collect();
                n.put(0x1C003498, V::Bytes(b), Role::Opt);
                s
            }
            _ => String::new(),
        };
        n.line("text", q(if objects.is_empty() { &s } else { "" }));
        let k = self.r.below(4);
        let mut ix: Vec<u8> = vec![];
        let mut show = vec![];
        for _ in 0..k {
            let v = self.r.edge() as u32;
            ix.extend(v.to_le_bytes());
            show.push(v.to_string());
        }
        if k > 0 || self.r.pct(50) {
            let t = self.r.below(4);
            ix.extend(self.r.bytes(t));
            n.put(0x1C001E12, V::Bytes(ix), Role::Opt);
        }
        n.line("indices", show.join(","));
        let (base, l) = self.style(None);
        n.put(0x2000342C, V::Oid(base), Role::Mand);
        nest(&mut n.lines, "style", l);
        let ids: Vec<Ex> = styles.iter().map(|s| s.0).collect();
        if !ids.is_empty() || self.r.pct(30) {
            n.put(0x24001E13, V::Oids(ids), Role::Opt);
        }
        n.line("runs", styles.len().to_string());
        for (_, l) in styles {
            nest(&mut n.lines, "run", l);
        }
        n.line("math", math.join("; "));
        n.line("objects", objects.len().to_string());
        for l in objects {
            nest(&mut n.lines, "object", l);
        }
        self.f32d(&mut n, 0x1400342E, "before");
        self.f32d(&mut n, 0x1400342F, "after");
        self.f32p(&mut n, 0x14003430, "exact");
        self.aligntext(&mut n, "align", "Left");
        self.alignp(&mut n);
        self.tags(&mut n);
        self.time(&mut n, true);
        self.u16p(&mut n, 0x10001CFE, "");
        self.bools(&mut n, &[0x08001C00, 0x08001C87, 0x08001C88, 0x08001CB5, 0x08001CB4, 0x08003476]);
        self.add(id::TEXT, n, false)
    }

    fn image(&mut self) -> (Ex, Lines) {
        let mut n = Node::new();
        if self.r.pct(70) {
            let mut c = Node::new();
            let (file, shown) = self.blob(true);
            let ext = if self.there() { Some(self.string()) } else { None };
            if let Some(e) = &ext {
                let b = self.text_bytes(e);
                c.put(0x1C003424, V::Bytes(b), Role::Opt);
            }
            let jc = if self.r.pct(30) { id::XPS } else { id::PICTURE };
            let cid = self.fresh();
            let (x, _) = self.add_as(cid, jc, c, file, true);
            n.put(0x20001C3F, V::Oid(x), Role::Opt);
            n.line("data", hex(&shown));
            n.line("extension", o(ext.as_deref(), q));
        } else {
            n.line("data", "-".into());
            n.line("extension", "-".into());
        }
        self.f32p(&mut n, 0x14001C1B, "max_width");
        self.f32p(&mut n, 0x14001C1C, "max_height");
        self.strp(&mut n, 0x1C001E58, "alt");
        self.alignp(&mut n);
        self.strp(&mut n, 0x1C001DD7, "filename");
        self.u32p(&mut n, 0x14003480, "page");
        self.strp(&mut n, 0x1C001C22, "text");
        self.u16p(&mut n, 0x10001CFE, "lang");
        self.f32p(&mut n, 0x140034CD, "width");
        self.f32p(&mut n, 0x140034CE, "height");
        self.strp(&mut n, 0x1C001E20, "url");
        self.f32p(&mut n, 0x14001C14, "x");
        self.f32p(&mut n, 0x14001C15, "y");
        self.boolp(&mut n, 0x08001D13, "background", false);
        self.tags(&mut n);
        let k = if self.r.pct(70) { 0 } else { self.r.range(1, 2) };
        let mut ids = vec![];
        n.line("embeds", k.to_string());
        for _ in 0..k {
            let mut e = Node::new();
            self.u32p(&mut e, 0x140035F2, "type");
            self.strm(&mut e, 0x1C0035F3, "url");
            let (x, l) = self.add(id::IFRAME, e, true);
            ids.push(x);
            nest(&mut n.lines, "embed", l);
        }
        if k > 0 || self.r.pct(20) {
            n.put(0x24001C1F, V::Oids(ids), Role::Opt);
        }
        self.time(&mut n, false);
        self.bools(&mut n, &[0x08001CBD]);
        self.u32p(&mut n, 0x14001C3B, "");
        self.add(id::IMAGE, n, false)
    }

    fn blob(&mut self, may_miss: bool) -> (Option<Vec<u8>>, Vec<u8>) {
        if may_miss && self.r.pct(20) {
            return (None, vec![]);
        }
        let n = self.r.below(12);
        let b = self.r.bytes(n);
        (Some(b.clone()), b)
    }

    fn file(&mut self) -> (Ex, Lines) {
        let mut n = Node::new();
        self.strm(&mut n, 0x1C001D9C, "filename");
        if self.there() {
            let mut v = self.r.range(1, 2) as u32;
            n.line("type", ["Audio", "Video"][v as usize - 1].into());
            if self.hit(Fault::InvalidValue) {
                v = *self.r.pick(&[0u32, 3, 0x101]);
            }
            n.put(0x14001D24, V::U32(v), Role::Opt);
        } else {
            n.line("type", "Unknown".into());
        }
        let (mut file, shown) = self.blob(false);
        if self.hit(Fault::MissingProp) {
            file = None;
        }
        let cid = self.fresh();
        let (x, _) = self.add_as(cid, id::FILE_DATA, Node::new(), file, true);
        n.put(0x20001D9B, V::Oid(x), Role::Mand);
        n.line("data", hex(&shown));
        self.f32p(&mut n, 0x14001C1B, "max_width");
        self.f32p(&mut n, 0x14001C1C, "max_height");
        self.f32p(&mut n, 0x14001C14, "x");
        self.f32p(&mut n, 0x14001C15, "y");
        self.tags(&mut n);
        self.time(&mut n, true);
        if self.r.pct(40) {
            // the icon is not shown
            let x = self.any_ref();
            n.put(0x20001C3F, V::Oid(x), Role::Opt);
        }
        self.bools(&mut n, &[0x08001CBD]);
        self.strp(&mut n, 0x1C001C22, "");
        self.u16p(&mut n, 0x10001CFE, "");
        let mut m = Node::new();
        self.alignp(&mut m);
        n.props.extend(m.props);
        self.strp(&mut n, 0x1C001D9D, "");
        self.f32p(&mut n, 0x140034CD, "");
        self.f32p(&mut n, 0x140034CE, "");
        self.add(id::FILE, n, false)
    }

    fn ink_data(&mut self, sx: Option<f32>, sy: Option<f32>) -> (Ex, Lines) {
        let (fx, fy) = (sx.unwrap_or(1.0), sy.unwrap_or(1.0));
        let mut n = Node::new();
        let k = self.r.below(3);
        let mut ids = vec![];
        n.line("strokes", k.to_string());
        for _ in 0..k {
            let mut p = Node::new();
            // dimensions in any order, with others in between
            let xg = guid("598a6a8f-52c0-4ba0-93af-af357411a561");
            let yg = guid("b53f9f75-04e0-4498-a7ee-c30dbb5a9011");
            let mut dims = vec![xg, yg];
            for _ in 0..self.r.below(3) {
                dims.push(self.r.bytes(16).try_into().unwrap());
            }
            if self.r.pct(40) {
                self.r.shuffle(&mut dims);
            }
            if self.r.pct(10) {
                dims.push(xg);
            }
            let (ix, iy) = (dims.iter().position(|d| *d == xg).unwrap(), dims.iter().position(|d| *d == yg).unwrap());
            let points = self.r.below(5);
            let mut vals = vec![];
            for _ in 0..points * dims.len() + if self.r.pct(20) { self.r.below(dims.len()) } else { 0 } {
                let m = self.r.edge() & if self.r.pct(30) { (1 << 62) - 1 } else { 0x7fff_ffff };
                let v = if self.r.pct(50) { m as i64 } else { -(m as i64) };
                vals.push(v);
            }
            let per = vals.len() / dims.len();
            let path: Vec<String> = (0..per)
                .map(|i| format!("{},{}", f(fx * vals[ix * per + i] as f32), f(fy * vals[iy * per + i] as f32)))
                .collect();
            p.line("path", path.join(" "));
            let mut b: Vec<u8> = vec![];
            if self.hit(Fault::InvalidValue) {
                let at = if self.r.pct(50) { ix } else { iy };
                let g = dims[at];
                dims.iter_mut().filter(|d| **d == g).for_each(|d| d[15] ^= 1);
            }
            for d in &dims {
                b.extend(guid_wire(*d));
                b.extend(self.r.bytes(16));
            }
            let t = self.r.below(32);
            if self.r.pct(30) {
                b.extend(self.r.bytes(t));
            }
            p.put(0x1C00340A, V::Bytes(b), Role::Opt);
            // wrong or missing it is an error as well: there is no x then
            if let Some(d) = p.props.last_mut() {
                d.role = Role::Mand;
            }
            self.u8p(&mut p, 0x0C003412, "tip");
            self.u8p(&mut p, 0x0C003414, "transparency");
            self.f32m(&mut p, 0x1400340C, "height");
            self.f32m(&mut p, 0x1400340D, "width");
            self.u32p(&mut p, 0x1400340F, "color");
            self.bools(&mut p, &[0x0000340E, 0x00003410, 0x08003411]);
            let mut sink = Node::new();
            self.u8p(&mut sink, 0x0C003413, "raster");
            p.props.extend(sink.props);
            let (pid, l) = self.add(id::STROKE_PROPS, p, true);

            let mut s = Node::new();
            s.put(0x1C00340B, V::Bytes(multi_byte(&vals, self.r)), Role::Mand);
            let mut bias = self.r.below(3) as u8;
            if self.hit(Fault::InvalidValue) {
                bias = *self.r.pick(&[3u8, 255, 0x81]);
            }
            s.put(0x0C00341C, V::U8(bias), Role::Mand);
            self.u32p(&mut s, 0x14001C3B, "");
            s.put(0x20003409, V::Oid(pid), Role::Mand);
            let (x, _) = self.add(id::STROKE, s, true);
            ids.push(x);
            nest(&mut n.lines, "stroke", l);
        }
        n.put(0x24003416, V::Oids(ids), Role::Mand);
        match self.r.below(3) {
            0 => {
                let v: Vec<u32> = (0..4).map(|_| self.r.edge() as u32).collect();
                let mut b: Vec<u8> = v.iter().flat_map(|x| x.to_le_bytes()).collect();
                let t = self.r.below(4);
                b.extend(self.r.bytes(t));
                n.put(0x1C003418, V::Bytes(b), Role::Opt);
                n.line(
                    "bounds",
                    format!(
                        "{},{},{},{}",
                        f(v[0] as f32 * fx),
                        f(v[1] as f32 * fy),
                        f((v[3] as f32 - v[1] as f32) * fy),
                        f((v[2] as f32 - v[0] as f32) * fx)
                    ),
                );
            }
            1 => {
                let k = *self.r.pick(&[0usize, 12, 15, 20]);
                let b = self.r.bytes(k);
                n.put(0x1C003418, V::Bytes(b), Role::Opt);
                n.line("bounds", "-".into());
            }
            _ => n.line("bounds", "-".into()),
        }
        self.add(id::INK_DATA, n, true)
    }

    fn ink(&mut self) -> (Ex, Lines) {
        let mut n = Node::new();
        let mut sub = Node::new();
        let sx = self.f32p(&mut sub, 0x14001C46, "");
        let sy = self.f32p(&mut sub, 0x14001C47, "");
        n.props.extend(sub.props);
        if self.r.pct(80) {
            let (x, l) = self.ink_data(sx, sy);
            n.put(0x20003415, V::Oid(x), Role::Opt);
            n.lines.extend(l);
        } else {
            n.line("strokes", "0".into());
            n.line("bounds", "-".into());
        }
        let a = self.f32p(&mut n, 0x14001C14, "");
        let b = self.f32p(&mut n, 0x14001C15, "");
        n.line("offset", format!("{},{}", o(a, f), o(b, f)));
        self.time(&mut n, false);
        self.add(id::INK, n, false)
    }

    fn list(&mut self) -> (Ex, Lines) {
        let mut n = Node::new();
        self.strp(&mut n, 0x1C001C52, "list_font");
        let r = if self.there() { Some(self.r.edge() as u32) } else { None };
        if let Some(r) = r {
            n.put(0x14001CB7, V::U32(r), Role::Opt);
        }
        n.line("restart", o(r, |r| (r as i32).to_string()));
        let k = self.r.below(6);
        let mut u: Vec<u16> = vec![];
        let mut show: Vec<char> = vec![];
        for _ in 0..k {
            match self.r.below(4) {
                0 => {
                    // half of a pair
                    u.push(0xDC01);
                    show.push('\u{FFFD}');
                }
                1 => {
                    let c = '\u{1F600}';
                    let mut b = [0; 2];
                    u.extend(c.encode_utf16(&mut b).iter());
                    show.push(c);
                }
                _ => {
                    let c = char::from_u32(self.r.below(0xD800) as u32).unwrap();
                    u.push(c as u16);
                    show.push(c);
                }
            }
        }
        let mut b: Vec<u8> = vec![];
        if k > 0 || self.r.pct(50) {
            b.extend([k as u8, 0]);
        }
        b.extend(u.iter().flat_map(|x| x.to_le_bytes()));
        if self.r.pct(20) {
            b.push(7);
        }
        n.put(0x1C001C1A, V::Bytes(b), Role::Mand);
        n.line("format", format!("{:?}", show));
        self.boolp(&mut n, 0x08001C04, "bold", false);
        self.boolp(&mut n, 0x08001C05, "italic", false);
        self.strp(&mut n, 0x1C001C0A, "font");
        self.u16p(&mut n, 0x10001C0B, "size");
        self.crefp(&mut n, 0x14001C0C, "color");
        self.u32p(&mut n, 0x14001C3B, "");
        self.time(&mut n, true);
        self.add(id::LIST, n, true)
    }

    fn table(&mut self, depth: u32) -> (Ex, Lines) {
        let me = self.fresh();
        self.ancestors.push(me);
        let mut n = Node::new();
        self.u32m(&mut n, 0x14001D57, "rows");
        self.u32m(&mut n, 0x14001D58, "cols");
        if self.there() {
            let k = self.r.below(5);
            let b = self.r.bytes(k);
            n.line("locked", hex(b.get(1..).unwrap_or(&[])));
            n.put(0x1C001D7D, V::Bytes(b), Role::Opt);
        } else {
            n.line("locked", "".into());
        }
        if self.there() {
            let k = self.r.below(4);
            let mut b = if k == 0 && self.r.pct(50) { vec![] } else { vec![k as u8] };
            let mut s = vec![];
            for _ in 0..k {
                let x = self.float();
                b.extend(x.to_le_bytes());
                s.push(f(x));
            }
            if !b.is_empty() {
                let t = self.r.below(4);
                b.extend(self.r.bytes(t));
            }
            n.line("widths", s.join(","));
            n.put(0x1C001D66, V::Bytes(b), Role::Opt);
        } else {
            n.line("widths", "".into());
        }
        self.boolp(&mut n, 0x08001D5E, "borders", true);
        self.alignp(&mut n);
        self.tags(&mut n);
        let k = self.r.below(3);
        n.line("contents", k.to_string());
        let mut rows = vec![];
        for _ in 0..k {
            let rid = self.fresh();
            self.ancestors.push(rid);
            let mut r = Node::new();
            let m = self.r.below(3);
            let mut cells = vec![];
            r.line("cells", m.to_string());
            for _ in 0..m {
                let cid = self.fresh();
                self.ancestors.push(cid);
                let mut c = Node::new();
                self.colorp(&mut c, 0x14001E26, "background");
                self.f32p(&mut c, 0x14001C1B, "max_width");
                let (b, s) = self.indents();
                c.put(0x1C001C12, V::Bytes(b), Role::Mand);
                c.line("indents", s);
                let e = if self.budget > 0 { self.r.below(3) } else { 0 };
                c.line("elements", e.to_string());
                let mut es = vec![];
                for _ in 0..e {
                    let (x, l) = self.element(depth + 1, true);
                    es.push(x);
                    nest(&mut c.lines, "element", l);
                }
                self.cyclic(&mut es);
                c.put(0x24001C20, V::Oids(es), Role::Mand);
                self.time(&mut c, false);
                self.ancestors.pop();
                let (x, l) = self.add_as(cid, id::CELL, c, None, true);
                cells.push(x);
                nest(&mut r.lines, "cell", l);
            }
            self.cyclic(&mut cells);
            r.put(0x24001C20, V::Oids(cells), Role::Mand);
            self.time(&mut r, false);
            self.ancestors.pop();
            let (x, l) = self.add_as(rid, id::ROW, r, None, true);
            rows.push(x);
            nest(&mut n.lines, "row", l);
        }
        self.cyclic(&mut rows);
        n.put(0x24001C20, V::Oids(rows), Role::Mand);
        self.time(&mut n, true);
        self.ancestors.pop();
        self.add_as(me, id::TABLE, n, None, false)
    }

    /// an object of a kind that is no content here
    fn unknown(&mut self, page: bool) -> (Ex, Lines) {
        let kinds: &[u32] = if page {
            &[id::TEXT, id::TABLE, id::ELEMENT, id::GROUP, id::STYLE, id::TITLE, id::PAGE, id::AUTHOR, id::IFRAME, id::LIST]
        } else {
            &[id::LIST, id::STYLE, id::TITLE, id::PAGE, id::AUTHOR, id::IFRAME, id::SECTION, id::TAG, id::REVISION]
        };
        let mut j = *self.r.pick(kinds);
        if self.hit(Fault::NotAllowed) {
            j = *self.r.pick(&[0u32, 0x60036, 0x60010, 0x20060, 0xffffffff, 0x1060035]);
        }
        let n = Node::new();
        let (x, _) = self.add(j, n, false);
        (x, vec!["unknown".into()])
    }

    fn content(&mut self, depth: u32) -> (Ex, Lines) {
        self.budget -= 1;
        let mut out = vec![];
        let x = match self.r.below(if depth < 4 { 9 } else { 8 }) {
            0 | 1 | 2 => {
                let (x, l) = self.text();
                nest(&mut out, "text", l);
                x
            }
            3 | 4 => {
                let (x, l) = self.image();
                nest(&mut out, "image", l);
                x
            }
            5 => {
                let (x, l) = self.file();
                nest(&mut out, "file", l);
                x
            }
            6 => {
                let (x, l) = self.ink();
                nest(&mut out, "ink", l);
                x
            }
            7 => {
                let (x, l) = self.unknown(false);
                out.extend(l);
                x
            }
            _ => {
                let (x, l) = self.table(depth);
                nest(&mut out, "table", l);
                x
            }
        };
        (x, out)
    }

    fn cyclic(&mut self, ids: &mut Vec<Ex>) {
        if !self.ancestors.is_empty() && self.hit(Fault::Cyclic) {
            let a = self.ancestors[self.r.below(self.ancestors.len())];
            let at = self.r.range(0, ids.len());
            ids.insert(at, a);
        }
    }

    fn items(&mut self, n: &mut Node, depth: u32, label: &str) {
        let k = if self.budget <= 0 || depth > 6 { 0 } else { self.r.below(4) };
        n.line(label, k.to_string());
        let mut ids = vec![];
        for _ in 0..k {
            self.budget -= 1;
            let (x, l) = if self.r.pct(25) { self.group(depth + 1) } else { self.element(depth + 1, false) };
            ids.push(x);
            let again = self.r.pct(4);
            n.lines.extend(l.clone().into_iter().map(|l| format!("  {l}")));
            if again {
                // an object may be there twice
                ids.push(x);
                n.lines.extend(l.into_iter().map(|l| format!("  {l}")));
                let at = n.lines.iter().rposition(|l| l.starts_with(&format!("{label}="))).unwrap();
                let c: usize = n.lines[at][label.len() + 1..].parse().unwrap();
                n.lines[at] = format!("{label}={}", c + 1);
            }
        }
        self.cyclic(&mut ids);
        if !ids.is_empty() || self.r.pct(30) {
            n.put(0x24001C20, V::Oids(ids), Role::Opt);
        }
    }

    fn group(&mut self, depth: u32) -> (Ex, Lines) {
        let me = self.fresh();
        self.ancestors.push(me);
        let mut n = Node::new();
        self.u8m(&mut n, 0x0C001C03, "level");
        self.items(&mut n, depth, "items");
        self.time(&mut n, true);
        self.ancestors.pop();
        let strict = true;
        let (x, l) = self.item_as(me, id::GROUP, n, strict);
        let mut out = vec![];
        nest(&mut out, "group", l);
        (x, out)
    }

    /// groups and elements may take each other's place: no other kind may
    fn item_as(&mut self, me: Ex, jcid: u32, n: Node, _strict: bool) -> (Ex, Lines) {
        let mut jcid = jcid;
        if self.hit(Fault::NotAllowed) {
            loop {
                jcid = *self.r.pick(&id::ALL);
                if jcid != id::GROUP && jcid != id::ELEMENT {
                    break;
                }
            }
        }
        self.add_as(me, jcid, n, None, false)
    }

    fn element(&mut self, depth: u32, in_table: bool) -> (Ex, Lines) {
        self.budget -= 1;
        let me = self.fresh();
        self.ancestors.push(me);
        let mut n = Node::new();
        self.u8m(&mut n, 0x0C001C03, "level");
        self.f32p(&mut n, 0x14001CCB, "spacing");
        let k = if self.budget > 0 { self.r.below(3) } else { 0 };
        n.line("contents", k.to_string());
        let mut ids = vec![];
        for _ in 0..k {
            let (x, l) = self.content(depth);
            ids.push(x);
            n.lines.extend(l.into_iter().map(|l| format!("  {l}")));
        }
        if k > 0 || self.r.pct(30) {
            n.put(0x24001C1F, V::Oids(ids), Role::Opt);
        }
        let k = if self.r.pct(70) { 0 } else { self.r.range(1, 2) };
        let mut ids = vec![];
        n.line("lists", k.to_string());
        for _ in 0..k {
            let (x, l) = self.list();
            ids.push(x);
            nest(&mut n.lines, "list", l);
        }
        if k > 0 || self.r.pct(30) {
            n.put(0x24001C26, V::Oids(ids), Role::Opt);
        }
        self.items(&mut n, depth, "children");
        let t = self.r.next() as u32;
        n.put(0x14001D09, V::U32(t), Role::Mand);
        self.time(&mut n, true);
        let a = self.author();
        n.put(0x20001D78, V::Oid(a), Role::Mand);
        let a = self.author();
        n.put(0x20001D79, V::Oid(a), Role::Mand);
        self.bools(&mut n, &[0x08001C34, 0x08001D0C, 0x08001CB2, 0x08001CB4]);
        self.ancestors.pop();
        if in_table {
            self.add_as(me, id::ELEMENT, n, None, true)
        } else {
            let (x, l) = self.item_as(me, id::ELEMENT, n, false);
            let mut out = vec![];
            nest(&mut out, "element", l);
            (x, out)
        }
    }

    pub fn outline(&mut self, strict: bool) -> (Ex, Lines) {
        let me = self.fresh();
        self.ancestors.push(me);
        let mut n = Node::new();
        self.u8m(&mut n, 0x0C001C03, "level");
        self.f32p(&mut n, 0x14001CCB, "spacing");
        let (b, s) = self.indents();
        n.put(0x1C001C12, V::Bytes(b), Role::Mand);
        n.line("indents", s);
        self.alignp(&mut n);
        self.f32p(&mut n, 0x14001C1C, "max_height");
        self.f32p(&mut n, 0x14001C1B, "max_width");
        self.f32p(&mut n, 0x14001CDB, "reserved");
        self.f32p(&mut n, 0x14001CEC, "minimum");
        self.boolp(&mut n, 0x08001CBD, "by_user", false);
        self.f32p(&mut n, 0x14001C14, "x");
        self.f32p(&mut n, 0x14001C15, "y");
        self.items(&mut n, 0, "items");
        self.time(&mut n, true);
        self.bools(&mut n, &[0x08001CFF, 0x08001D0C, 0x08001CB5, 0x08001CB2, 0x08001CB4, 0x08001CDE, 0x08001CF9, 0x08001C00]);
        self.ancestors.pop();
        self.add_as(me, id::OUTLINE, n, None, strict)
    }

    fn page_content(&mut self) -> (Ex, Lines) {
        let mut out = vec![];
        let x = match self.r.below(8) {
            0..=3 => {
                let (x, l) = self.outline(false);
                nest(&mut out, "outline", l);
                x
            }
            4 => {
                let (x, l) = self.image();
                nest(&mut out, "image", l);
                x
            }
            5 => {
                let (x, l) = self.file();
                nest(&mut out, "file", l);
                x
            }
            6 => {
                let (x, l) = self.ink();
                nest(&mut out, "ink", l);
                x
            }
            _ => {
                let (x, l) = self.unknown(true);
                out.extend(l);
                x
            }
        };
        (x, out)
    }

    /// a page: (content root, metadata root, what it shows)
    fn page(&mut self) -> (Ex, Ex, Lines) {
        let mut m = Node::new();
        let mut n = Node::new();
        if self.there() {
            let l = self.r.edge() as u32;
            m.put(0x14001DFF, V::U32(l), Role::Opt);
            n.line("level", (l as i32).to_string());
        } else {
            n.line("level", "0".into());
        }
        self.guidm(&mut m);
        self.strm(&mut m, 0x1C001CF3, "");
        self.u64m(&mut m, 0x18001C65);
        self.u32p(&mut m, 0x14001D82, "");
        self.u32p(&mut m, 0x1400348B, "");
        self.bools(&mut m, &[0x00001DE9]);
        let (meta, _) = self.add(id::PAGE_META, m, true);

        self.strp(&mut n, 0x1C001D75, "author");
        self.f32p(&mut n, 0x14001C02, "height");
        if self.r.pct(60) {
            let mut t = Node::new();
            self.f32m(&mut t, 0x14001C14, "x");
            self.f32m(&mut t, 0x14001C15, "y");
            self.alignp(&mut t);
            let k = self.r.below(3);
            let mut ids = vec![];
            t.line("outlines", k.to_string());
            for _ in 0..k {
                let (x, l) = self.outline(true);
                ids.push(x);
                nest(&mut t.lines, "outline", l);
            }
            t.put(0x24001C20, V::Oids(ids), Role::Mand);
            self.time(&mut t, true);
            let (x, l) = self.add(id::TITLE, t, true);
            let mut ids = vec![x];
            for _ in 0..self.r.below(2) {
                ids.push(self.any_ref());
            }
            n.put(0x24001D5F, V::Oids(ids), Role::Opt);
            nest(&mut n.lines, "title", l);
        } else {
            if self.r.pct(30) {
                n.put(0x24001D5F, V::Oids(vec![]), Role::Opt);
            }
            n.line("title", "-".into());
        }
        let k = self.r.below(4);
        let mut ids = vec![];
        n.line("contents", k.to_string());
        for _ in 0..k {
            let (x, l) = self.page_content();
            ids.push(x);
            n.lines.extend(l.into_iter().map(|l| format!("  {l}")));
        }
        if k > 0 || self.r.pct(30) {
            n.put(0x24001C20, V::Oids(ids), Role::Opt);
        }
        self.time(&mut n, false);
        self.strp(&mut n, 0x1C001D3C, "");
        self.bools(&mut n, &[0x08001C8E, 0x08001C92]);
        for id in [0x14001C01, 0x14001D0F, 0x14001D10, 0x14001C4E, 0x14001C4F, 0x14001C4C, 0x14001C4D] {
            self.f32p(&mut n, id, "");
        }
        if self.there() {
            let mut v = self.r.below(16) as u8;
            if self.hit(Fault::InvalidValue) {
                v = *self.r.pick(&[16u8, 17, 255]);
            }
            n.put(0x14001C8B, V::U8(v), Role::Opt);
        }
        let (page, lines) = self.add(id::PAGE, n, true);
        let mut h = Node::new();
        let mut ids = vec![page];
        for _ in 0..self.r.below(2) {
            ids.push(self.any_ref());
        }
        if self.hit(Fault::MissingProp) {
            ids.clear();
        }
        h.put(0x24001C1F, V::Oids(ids), Role::Mand);
        let (root, _) = self.add(id::MANIFEST, h, true);
        (root, meta, lines)
    }
}

pub const SECTION_SCHEMA: &str = "1F937CB4-B26F-445F-B9F8-17E20160E461";
pub const TOC_SCHEMA: &str = "E4DBFD38-E5C7-408B-A8A1-0E7B421E1F5F";

fn schema(text: &str, r: &mut Rng, inj: &mut Inject) -> G {
    if inj.hit(Fault::Schema) {
        return match r.below(3) {
            0 => guid(if text == TOC_SCHEMA { SECTION_SCHEMA } else { TOC_SCHEMA }),
            1 => [0; 16],
            _ => {
                let mut g = guid(text);
                g[r.below(16)] ^= 1 << r.below(8);
                g
            }
        };
    }
    guid(text)
}

/// a section: the file, and what it shows (its name is `name` unless it has one of its own)
pub fn section(r: &mut Rng, inj: &mut Inject, name: &str, size: i32) -> (File, Lines) {
    let mut g = Gen::new(r, inj, size);
    let mut lines = vec![];
    let mut spaces: Vec<Space> = vec![];

    let mut m = Node::new();
    let shown = match g.r.below(4) {
        0 => None,
        1 => Some(format!("{}.one", g.string())),
        2 => Some(format!("{}.one.one", g.string())),
        _ => Some(g.string()),
    };
    if let Some(s) = &shown {
        let b = g.text_bytes(s);
        m.put(0x1C00349B, V::Bytes(b), Role::Opt);
    }
    let full = shown.as_deref().unwrap_or(name);
    lines.push(format!("name={}", q(full.strip_suffix(".one").unwrap_or(full))));
    g.colorp(&mut m, 0x14001CBE, "color");
    lines.append(&mut m.lines);
    g.u32m(&mut m, 0x14001D82, "");
    g.u32m(&mut m, 0x1400348B, "");
    let (meta, _) = g.add(id::SECTION_META, m, true);

    let mut s = Node::new();
    let k = g.r.below(4);
    let mut ids = vec![];
    lines.push(format!("series={k}"));
    let mut pages_used = vec![Ex([0x5a; 16], 0)];
    for _ in 0..k {
        let mut p = Node::new();
        let np = g.r.below(3);
        let mut cells = vec![];
        lines.push(format!("  pages={np}"));
        for _ in 0..np {
            let cell = loop {
                let c = Cell(fresh_id(&mut pages_used, g.r), fresh_id(&mut pages_used, g.r));
                // cells that differ in one half only
                let c = match spaces.last() {
                    Some(s) if g.r.pct(30) => Cell(s.cell.0, c.1),
                    Some(s) if g.r.pct(30) => Cell(c.0, s.cell.1),
                    _ => c,
                };
                if !spaces.iter().any(|s: &Space| s.cell == c) {
                    break c;
                }
            };
            let mut pg = Gen::new(g.r, g.inj, size);
            let (root, pm, l) = pg.page();
            let objs = std::mem::take(&mut pg.objs);
            lines.push("    page:".into());
            lines.extend(l.into_iter().map(|l| format!("      {l}")));
            if !g.hit(Fault::MissingObject) {
                spaces.push(Space { cell, objs, content: Some(root), metadata: Some(pm) });
            }
            cells.push(cell);
        }
        if np > 0 || g.r.pct(40) {
            p.put(0x2C001D63, V::Sids(cells), Role::Opt);
        }
        if g.r.pct(50) {
            let n = g.r.below(3);
            let v = (0..n).map(|_| g.any_ref()).collect();
            p.put(0x24003442, V::Oids(v), Role::Opt);
        }
        g.guidm(&mut p);
        if g.r.pct(50) {
            let v = g.r.next();
            p.put(0x18001C65, V::U64(v), Role::Opt);
        }
        let (x, _) = g.add(id::SERIES, p, true);
        ids.push(x);
    }
    if k > 0 || g.r.pct(40) {
        s.put(0x24001C20, V::Oids(ids), Role::Opt);
    }
    g.guidm(&mut s);
    g.u64m(&mut s, 0x18001C65);
    let (root, _) = g.add(id::SECTION, s, true);
    let objs = std::mem::take(&mut g.objs);
    let cell = Cell(fresh_id(&mut pages_used, g.r), fresh_id(&mut pages_used, g.r));
    let data_root = Space { cell, objs, content: Some(root), metadata: Some(meta) };
    let schema = schema(SECTION_SCHEMA, r, inj);
    (File { schema, data_root, spaces }, lines)
}

/// a table of contents with the given entries (ordering number, stored name) in document order
pub fn toc(r: &mut Rng, inj: &mut Inject, entries: &[(u32, String)]) -> (File, String) {
    let mut g = Gen::new(r, inj, 10);
    fn node(g: &mut Gen, entries: &[(u32, String)], depth: u32, color: &mut Option<String>) -> Ex {
        let me = g.fresh();
        g.ancestors.push(me);
        let mut n = Node::new();
        // its children are entries, or lists of entries
        let mut ids = vec![];
        let mut rest = entries;
        while !rest.is_empty() {
            let k = g.r.range(1, rest.len());
            if depth < 5 && g.r.pct(30) {
                ids.push(node(g, &rest[..k], depth + 1, &mut None));
                rest = &rest[k..];
            } else {
                let (num, name) = &rest[0];
                let mut e = Node::new();
                let b = g.text_bytes(name);
                // without a name it would be an empty list
                e.put(0x1C001D6B, V::Bytes(b), Role::Opt);
                e.put(0x14001CB9, V::U32(*num), Role::Mand);
                g.colorp(&mut e, 0x14001CBE, "color");
                if g.r.pct(20) {
                    let n = g.r.below(2);
                    let v = (0..n).map(|_| g.any_ref()).collect();
                    e.put(0x24001CF6, V::Oids(v), Role::Opt);
                }
                let (x, _) = g.add(id::TOC, e, true);
                ids.push(x);
                rest = &rest[1..];
            }
            if g.r.pct(5) {
                ids.push(node(g, &[], depth + 1, &mut None));
            }
        }
        g.cyclic(&mut ids);
        if !ids.is_empty() || g.r.pct(50) {
            n.put(0x24001CF6, V::Oids(ids), Role::Opt);
        }
        if g.r.pct(30) {
            let v = g.r.next() as u32;
            n.put(0x14001CB9, V::U32(v), Role::Opt);
        }
        g.colorp(&mut n, 0x14001CBE, "color");
        *color = Some(n.lines[0].clone());
        g.ancestors.pop();
        g.add_as(me, id::TOC, n, None, true).0
    }
    let mut color = None;
    let root = node(&mut g, entries, 0, &mut color);
    let objs = std::mem::take(&mut g.objs);
    let mut used = vec![Ex([0x5a; 16], 0)];
    let cell = Cell(fresh_id(&mut used, g.r), fresh_id(&mut used, g.r));
    let data_root = Space { cell, objs, content: Some(root), metadata: None };
    let schema = schema(TOC_SCHEMA, r, inj);
    (File { schema, data_root, spaces: vec![] }, color.unwrap())
}

/// signed numbers: their count, and then each of them; the sign in the lowest bit, seven bits per byte
pub fn multi_byte(vals: &[i64], r: &mut Rng) -> Vec<u8> {
    let mut o = vec![];
    let mut put = |mut u: u64, r: &mut Rng| {
        let pad = r.pct(5);
        loop {
            let b = (u & 0x7f) as u8;
            u >>= 7;
            if u == 0 {
                if pad {
                    o.push(b | 0x80);
                    o.push(0);
                } else {
                    o.push(b);
                }
                break;
            }
            o.push(b | 0x80);
        }
    };
    put((vals.len() as u64) << 1, r);
    for v in vals {
        put(v.unsigned_abs() << 1 | (*v < 0) as u64, r);
    }
    o
}

pub fn math_name(t: u32) -> &'static str {
    match t {
        0 => "SimpleText", 10 => "Accent", 11 => "Box", 12 => "BoxedFormula", 13 => "Brackets", 14 => "BracketsWithSeps",
        15 => "EquationArray", 16 => "Fraction", 17 => "FunctionApply", 18 => "LeftSubSup", 19 => "LowerLimit",
        20 => "Matrix", 21 => "Nary", 22 => "OpChar", 23 => "Overbar", 24 => "Phantom", 25 => "Radical",
        26 => "SlashedFraction", 27 => "Stack", 28 => "StretchStack", 29 => "Subscript", 30 => "SubSup",
        31 => "Superscript", 32 => "Underbar", 33 => "UpperLimit", _ => "PlainText",
    }
}

pub const BAD_SHAPE: u16 = 144;
pub const SHAPES: [(u16, &str); 144] = [
    (0, "NoIcon"),
    (1, "GreenCheckBox"),
    (2, "YellowCheckBox"),
    (3, "BlueCheckBox"),
    (4, "GreenStarCheckBox"),
    (5, "YellowStarCheckBox"),
    (6, "BlueStarCheckBox"),
    (7, "GreenExclamationCheckBox"),
    (8, "YellowExclamationCheckBox"),
    (9, "BlueExclamationCheckBox"),
    (10, "GreenRightArrowCheckBox"),
    (11, "YellowRightArrowCheckBox"),
    (12, "BlueRightArrowCheckBox"),
    (13, "YellowStar"),
    (14, "BlueFollowUpFlag"),
    (15, "QuestionMark"),
    (16, "BlueRightArrow"),
    (17, "HighPriority"),
    (18, "ContactInformation"),
    (19, "Meeting"),
    (20, "TimeSensitive"),
    (21, "LightBulb"),
    (22, "Pushpin"),
    (23, "Home"),
    (24, "CommentBubble"),
    (25, "SmilingFace"),
    (26, "AwardRibbon"),
    (27, "YellowKey"),
    (28, "BlueCheckBox1"),
    (29, "BlueCircle1"),
    (30, "BlueCheckBox2"),
    (31, "BlueCircle2"),
    (32, "BlueCheckBox3"),
    (33, "BlueCircle3"),
    (34, "BlueEightPointStar"),
    (35, "BlueCheckMark"),
    (36, "BlueCircle"),
    (37, "BlueDownArrow"),
    (38, "BlueLeftArrow"),
    (39, "BlueSolidTarget"),
    (40, "BlueStar"),
    (41, "BlueSun"),
    (42, "BlueTarget"),
    (43, "BlueTriangle"),
    (44, "BlueUmbrella"),
    (45, "BlueUpArrow"),
    (46, "BlueXWithDots"),
    (47, "BlueX"),
    (48, "GreenCheckBox1"),
    (49, "GreenCircle1"),
    (50, "GreenCheckBox2"),
    (51, "GreenCircle2"),
    (52, "GreenCheckBox3"),
    (53, "GreenCircle3"),
    (54, "GreenEightPointStar"),
    (55, "GreenCheckMark"),
    (56, "GreenCircle"),
    (57, "GreenDownArrow"),
    (58, "GreenLeftArrow"),
    (59, "GreenRightArrow"),
    (60, "GreenSolidArrow"),
    (61, "GreenStar"),
    (62, "GreenSun"),
    (63, "GreenTarget"),
    (64, "GreenTriangle"),
    (65, "GreenUmbrella"),
    (66, "GreenUpArrow"),
    (67, "GreenXWithDots"),
    (68, "GreenX"),
    (69, "YellowCheckBox1"),
    (70, "YellowCircle1"),
    (71, "YellowCheckBox2"),
    (72, "YellowCircle2"),
    (73, "YellowCheckBox3"),
    (74, "YellowCircle3"),
    (75, "YellowEightPointStar"),
    (76, "YellowCheckMark"),
    (77, "YellowCircle"),
    (78, "YellowDownArrow"),
    (79, "YellowLeftArrow"),
    (80, "YellowRightArrow"),
    (81, "YellowSolidTarget"),
    (82, "YellowSun"),
    (83, "YellowTarget"),
    (84, "YellowTriangle"),
    (85, "YellowUmbrella"),
    (86, "YellowUpArrow"),
    (87, "YellowXWithDots"),
    (88, "YellowX"),
    (89, "FollowUpTodayFlag"),
    (90, "FollowUpTomorrowFlag"),
    (91, "FollowUpThisWeekFlag"),
    (92, "FollowUpNextWeekFlag"),
    (93, "NoFollowUpDateFlag"),
    (94, "BluePersonCheckBox"),
    (95, "YellowPersonCheckBox"),
    (96, "GreenPersonCheckBox"),
    (97, "BlueFlagCheckBox"),
    (98, "RedFlagCheckBox"),
    (99, "GreenFlagCheckBox"),
    (100, "RedSquare"),
    (101, "YellowSquare"),
    (102, "BlueSquare"),
    (103, "GreenSquare"),
    (104, "OrangeSquare"),
    (105, "PinkSquare"),
    (106, "EMailMessage"),
    (107, "ClosedEnvelope"),
    (108, "OpenEnvelope"),
    (109, "MobilePhone"),
    (110, "TelephoneWithClock"),
    (111, "QuestionBalloon"),
    (112, "PaperClip"),
    (113, "FrowningFace"),
    (114, "InstantMessagingContactPerson"),
    (115, "PersonWithExclamationMark"),
    (116, "TwoPeople"),
    (117, "ReminderBell"),
    (118, "Contact"),
    (119, "RoseOnAStem"),
    (120, "CalendarDateWithClock"),
    (121, "MusicalNote"),
    (122, "MovieClip"),
    (123, "QuotationMark"),
    (124, "Globe"),
    (125, "HyperlinkGlobe"),
    (126, "Laptop"),
    (127, "Plane"),
    (128, "Car"),
    (129, "Binoculars"),
    (130, "PresentationSlide"),
    (131, "Padlock"),
    (132, "OpenBook"),
    (133, "NotebookWithClock"),
    (134, "BlankPaperWithLines"),
    (135, "Research"),
    (136, "Pen"),
    (137, "DollarSign"),
    (138, "CoinsWithAWindowBackdrop"),
    (139, "ScheduledTask"),
    (140, "LightningBolt"),
    (141, "Cloud"),
    (142, "Heart"),
    (143, "Sunflower"),
];
