//! Encoder for the FSSHTTPB/OneStore container formats: every element in every form the format allows.

pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn pct(&mut self, p: u32) -> bool {
        self.next() % 100 < p as u64
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
    /// numbers near the borders of their widths
    pub fn edge(&mut self) -> u64 {
        let b = self.below(65);
        let base = if b == 64 { u64::MAX } else { 1u64 << b };
        match self.below(4) {
            0 => base,
            1 => base.wrapping_sub(1),
            2 => base.wrapping_add(self.next() % 7),
            _ => self.next() & base.wrapping_sub(1),
        }
    }
}

/// a GUID in text (big-endian) byte order
pub type G = [u8; 16];

pub fn guid(text: &str) -> G {
    let h: Vec<u8> = text.bytes().filter(|b| b.is_ascii_hexdigit()).collect();
    let mut g = [0; 16];
    for i in 0..16 {
        g[i] = u8::from_str_radix(std::str::from_utf8(&h[2 * i..2 * i + 2]).unwrap(), 16).unwrap();
    }
    g
}

pub fn guid_wire(g: G) -> [u8; 16] {
    [
        g[3], g[2], g[1], g[0], g[5], g[4], g[7], g[6], g[8], g[9], g[10], g[11], g[12], g[13], g[14], g[15],
    ]
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Ex(pub G, pub u32);

pub const NIL: Ex = Ex([0; 16], 0);

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Cell(pub Ex, pub Ex);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Serial(pub G, pub u64);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Form {
    Any,
    H16,
    H32,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Fault {
    // packaging
    BadEnd,
    BadHeaderType,
    BadHeaderWidth,
    Truncate,
    BadFormat,
    BadPadding,
    BadVersion,
    BadLog,
    UnknownElement,
    // store
    MissingMapping,
    MissingBase,
    CyclicBase,
    MissingGroup,
    CountMismatch,
    NoMetadata,
    NoData,
    MissingBlob,
    BlobKind,
    RefCount,
    CellCount,
    BadRole,
    NoRoot,
    BadPropType,
    CutProps,
    DeepNesting,
    BadFrequency,
    HeaderProps,
    // document
    WrongType,
    MissingProp,
    WrongNode,
    MissingObject,
    InvalidValue,
    BadText,
    NotAllowed,
    Cyclic,
    Schema,
    // notebook
    Escape,
    NoToc,
}

/// the fault to inject, at its n-th opportunity
#[derive(Clone, Debug)]
pub struct Inject {
    pub kind: Option<Fault>,
    pub nth: usize,
    pub done: bool,
}

impl Inject {
    pub fn none() -> Inject {
        Inject { kind: None, nth: 0, done: false }
    }
    pub fn hit(&mut self, f: Fault) -> bool {
        if self.kind == Some(f) && !self.done {
            if self.nth == 0 {
                self.done = true;
                return true;
            }
            self.nth -= 1;
        }
        false
    }
}

const TYPES16: [u16; 20] = [
    0x01, 0x02, 0x03, 0x05, 0x07, 0x0A, 0x0B, 0x0C, 0x0D, 0x0E, 0x11, 0x15, 0x16, 0x18, 0x19, 0x1A, 0x1C, 0x1D, 0x1E, 0x11,
];

pub struct Enc<'r> {
    pub out: Vec<u8>,
    pub r: &'r mut Rng,
    pub inj: &'r mut Inject,
    pub noend: bool,
}

impl<'r> Enc<'r> {
    pub fn new(r: &'r mut Rng, inj: &'r mut Inject) -> Enc<'r> {
        Enc { out: vec![], r, inj, noend: false }
    }
    pub fn u8(&mut self, v: u8) {
        self.out.push(v)
    }
    pub fn u16(&mut self, v: u16) {
        self.out.extend(v.to_le_bytes())
    }
    pub fn u32(&mut self, v: u32) {
        self.out.extend(v.to_le_bytes())
    }
    pub fn u64(&mut self, v: u64) {
        self.out.extend(v.to_le_bytes())
    }
    pub fn raw(&mut self, v: &[u8]) {
        self.out.extend(v)
    }
    pub fn guid(&mut self, g: G) {
        self.out.extend(guid_wire(g))
    }
    pub fn compact(&mut self, v: u64) {
        let b = compact(v, self.r);
        self.out.extend(b)
    }
    pub fn ex(&mut self, e: Ex) {
        let b = ex_guid(e, self.r);
        self.out.extend(b)
    }
    pub fn cell(&mut self, c: Cell) {
        self.ex(c.0);
        self.ex(c.1);
    }
    pub fn exs(&mut self, v: &[Ex]) {
        self.compact(v.len() as u64);
        for e in v {
            self.ex(*e)
        }
    }
    pub fn cells(&mut self, v: &[Cell]) {
        self.compact(v.len() as u64);
        for e in v {
            self.cell(*e)
        }
    }
    pub fn serial(&mut self, s: Option<Serial>) {
        match s {
            None => self.u8(0),
            Some(s) => {
                // any non-zero type byte
                self.u8(0x80);
                self.guid(s.0);
                self.u64(s.1);
            }
        }
    }
    pub fn item(&mut self, data: &[u8]) {
        self.compact(data.len() as u64);
        self.raw(data)
    }
    pub fn header(&mut self, ty: u16, compound: bool, form: Form) {
        let mut ty = ty;
        let mut form = form;
        if self.inj.hit(Fault::BadHeaderType) {
            // another type: an object or end that does not belong here, or an unknown one
            loop {
                let t = if self.r.pct(70) { *self.r.pick(&TYPES16) } else { self.r.below(64) as u16 };
                // the declaration types are alternatives of one another, so are the data types
                let group = |t: u16| match t {
                    0x18 | 0x05 => 100,
                    0x16 | 0x03 | 0x1C => 101,
                    0x11 | 0x0E | 0x0D => 102,
                    0x0A | 0x19 => 103,
                    t => t,
                };
                if group(t) != group(ty) && !(ty == 0x79 && t == 0x1E) && !(ty == 0x1E && t == 0x79) {
                    ty = t;
                    break;
                }
            }
        }
        if form != Form::Any && self.inj.hit(Fault::BadHeaderWidth) {
            form = if form == Form::H16 { Form::H32 } else { Form::H16 };
        }
        let wide = match form {
            Form::H32 => true,
            Form::H16 => false,
            Form::Any => ty >= 64 || self.r.pct(40),
        };
        let c = compound as u32;
        if wide {
            let long = self.r.pct(30);
            let len = if long { 0x7fff } else { self.r.below(0x7fff) as u32 };
            self.u32(2 | c << 2 | (ty as u32) << 3 | len << 17);
            if long {
                let v = self.r.edge();
                self.compact(v)
            }
        } else {
            let len = self.r.below(128) as u16;
            self.u16((c as u16) << 2 | (ty & 0x3f) << 3 | len << 9);
        }
    }
    pub fn end8(&mut self, ty: u8) {
        let mut ty = ty;
        if !self.noend && self.inj.hit(Fault::BadEnd) {
            ty = self.other_end(ty as u16) as u8 & 0x3f;
        }
        self.u8(ty << 2 | 1)
    }
    pub fn end16(&mut self, ty: u16) {
        let mut ty = ty;
        if self.inj.hit(Fault::BadEnd) {
            ty = self.other_end(ty);
        }
        self.u16(ty << 2 | 3)
    }
    fn other_end(&mut self, ty: u16) -> u16 {
        loop {
            let t = *self.r.pick(&TYPES16);
            if t != ty {
                return t;
            }
        }
    }
}

/// a compact integer in any width that holds it
pub fn compact(v: u64, r: &mut Rng) -> Vec<u8> {
    let mut fits = vec![];
    if v == 0 {
        fits.push(0);
    }
    for w in 1..=7u32 {
        if v >> (7 * w) == 0 {
            fits.push(w);
        }
    }
    fits.push(9);
    let w = if r.pct(60) { fits[0] } else { *r.pick(&fits) };
    compact_form(v, w)
}

pub fn compact_form(v: u64, w: u32) -> Vec<u8> {
    match w {
        0 => vec![0],
        9 => {
            let mut o = vec![0x80];
            o.extend(v.to_le_bytes());
            o
        }
        w => ((v << w) | 1 << (w - 1)).to_le_bytes()[..w as usize].to_vec(),
    }
}

pub fn ex_guid(e: Ex, r: &mut Rng) -> Vec<u8> {
    if e == NIL {
        return vec![0];
    }
    let mut forms = vec![];
    if e.1 < 32 {
        forms.push(0);
    }
    if e.1 < 1 << 10 {
        forms.push(1);
    }
    if e.1 < 1 << 17 {
        forms.push(2);
    }
    forms.push(3);
    let f = *r.pick(&forms);
    ex_guid_form(e, f)
}

pub fn ex_guid_form(e: Ex, f: u32) -> Vec<u8> {
    let v = e.1;
    let mut o = match f {
        0 => vec![(v << 3 | 4) as u8],
        1 => ((v << 6 | 32) as u16).to_le_bytes().to_vec(),
        2 => (v << 7 | 64).to_le_bytes()[..3].to_vec(),
        _ => {
            let mut o = vec![128];
            o.extend(v.to_le_bytes());
            o
        }
    };
    o.extend(guid_wire(e.0));
    o
}
