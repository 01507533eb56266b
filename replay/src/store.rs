//! Object spaces with their revision history -> a file.

use crate::enc::*;
use std::collections::HashMap;

#[derive(Clone, Debug)]
pub enum V {
    Empty,
    Bool(bool),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    Bytes(Vec<u8>),
    Oid(Ex),
    Oids(Vec<Ex>),
    Sid(Cell),
    Sids(Vec<Cell>),
    Cid(Ex),
    Cids(Vec<Ex>),
    Sets(u32, Vec<Vec<P>>),
    Set(Vec<P>),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Role {
    /// parsed, and may be absent
    Opt,
    /// parsed, and has to be there
    Mand,
    /// not looked at
    Extra,
}

#[derive(Clone, Debug)]
pub struct P {
    pub id: u32,
    pub v: V,
    pub role: Role,
}

#[derive(Clone, Debug)]
pub struct Obj {
    pub id: Ex,
    pub jcid: u32,
    pub props: Vec<P>,
    pub file: Option<Vec<u8>>,
    /// its type is demanded by its parent
    pub strict: bool,
}

#[derive(Clone, Debug)]
pub struct Space {
    pub cell: Cell,
    pub objs: Vec<Obj>,
    pub content: Option<Ex>,
    pub metadata: Option<Ex>,
}

pub struct File {
    pub schema: G,
    pub data_root: Space,
    pub spaces: Vec<Space>,
}

pub fn raw_id(id: u32, v: &V) -> u32 {
    let t = match v {
        V::Empty => 1,
        V::Bool(_) => 2,
        V::U8(_) => 3,
        V::U16(_) => 4,
        V::U32(_) => 5,
        V::U64(_) => 6,
        V::Bytes(_) => 7,
        V::Oid(_) => 8,
        V::Oids(_) => 9,
        V::Sid(_) => 10,
        V::Sids(_) => 11,
        V::Cid(_) => 12,
        V::Cids(_) => 13,
        V::Sets(..) => 16,
        V::Set(_) => 17,
    };
    let b = matches!(v, V::Bool(true)) as u32;
    id & 0x3ffffff | t << 26 | b << 31
}

#[derive(Default)]
struct Refs {
    objs: Vec<Ex>,
    spaces: Vec<Cell>,
    ctxs: Vec<Ex>,
}

fn props(e: &mut Enc, ps: &[P], refs: &mut Refs, top: bool) {
    e.u16(ps.len() as u16);
    for p in ps {
        let mut id = raw_id(p.id, &p.v);
        if e.inj.hit(Fault::BadPropType) {
            let t = *e.r.pick(&[0u32, 14, 15, 18, 19, 24, 31]);
            id = id & 0x83ffffff | t << 26;
        }
        e.u32(id);
    }
    for p in ps {
        match &p.v {
            V::Empty | V::Bool(_) => {}
            V::U8(v) => e.u8(*v),
            V::U16(v) => e.u16(*v),
            V::U32(v) => e.u32(*v),
            V::U64(v) => e.u64(*v),
            V::Bytes(v) => {
                e.u32(v.len() as u32);
                e.raw(v)
            }
            V::Oid(x) => refs.objs.push(*x),
            V::Oids(x) => {
                e.u32(x.len() as u32);
                refs.objs.extend(x)
            }
            V::Sid(x) => refs.spaces.push(*x),
            V::Sids(x) => {
                e.u32(x.len() as u32);
                refs.spaces.extend(x)
            }
            V::Cid(x) => refs.ctxs.push(*x),
            V::Cids(x) => {
                e.u32(x.len() as u32);
                refs.ctxs.extend(x)
            }
            V::Sets(id, sets) => {
                e.u32(sets.len() as u32);
                e.u32(*id);
                for s in sets {
                    props(e, s, refs, false)
                }
            }
            V::Set(s) => props(e, s, refs, false),
        }
    }
    let _ = top;
}

/// a property with sets nested `n` deep
pub fn nested(n: usize, r: &mut Rng) -> P {
    let id = 0x2000000 | r.next() as u32 & 0x1ffffff;
    let mut v = V::Empty;
    for _ in 0..n {
        let set = vec![P { id: 0x2000001, v, role: Role::Extra }];
        v = if r.pct(50) { V::Set(set) } else { V::Sets(7, vec![set]) };
    }
    P { id, v, role: Role::Extra }
}

/// (object references, cell references, data)
pub fn object_data(o: &[P], own: Ex, r: &mut Rng, inj: &mut Inject, real: bool) -> (Vec<Ex>, Vec<Cell>, Vec<u8>) {
    let mut none = Inject::none();
    let mut refs = Refs::default();
    let mut deeper: Vec<P> = vec![];
    if real && inj.hit(Fault::DeepNesting) {
        deeper = o.to_vec();
        let at = r.below(deeper.len() + 1);
        let n = r.range(65, 300);
        deeper.insert(at, nested(n, r));
    }
    let o = if deeper.is_empty() { o } else { &deeper };
    let mut body = {
        let mut e = Enc::new(r, if real { &mut *inj } else { &mut none });
        props(&mut e, o, &mut refs, true);
        e.out
    };
    if real && inj.hit(Fault::CutProps) {
        let n = body.len();
        body.truncate(n - 1 - r.below(n - 1));
    }

    // trailing references that no property uses, some of them without an entry in the mapping
    let used = refs.objs.len();
    let mut unmapped = 0;
    if r.pct(15) {
        unmapped = r.range(1, 3);
    }
    // compact ids: one per identity, or shared by several identities, which the position tells apart
    let mode = r.below(4);
    let mut map: HashMap<(Ex, u8), u32> = HashMap::new();
    let mut n = 0u32;
    let base = r.next() as u32;
    let mut cid = |x: Ex, kind: u8, r: &mut Rng| -> u32 {
        let fresh = |n: &mut u32| {
            *n += 1;
            // n and guid index vary independently
            (base.wrapping_add(*n * 0x101)) & 0xffff_ff | 0x4000_0000
        };
        match mode {
            0 => *map.entry((x, kind)).or_insert_with(|| fresh(&mut n)),
            1 => 0x0102 + kind as u32,
            2 => 0x0500 + r.below(3) as u32 * 0x100 + kind as u32,
            _ => {
                if r.pct(50) {
                    0x700 + kind as u32
                } else {
                    fresh(&mut n)
                }
            }
        }
    };
    let mut oid_stream: Vec<u32> = refs.objs.iter().map(|x| cid(*x, 0, r)).collect();
    let sid_stream: Vec<u32> = refs.spaces.iter().map(|x| cid(x.0, 1, r)).collect();
    let ctx_stream: Vec<u32> = refs.ctxs.iter().map(|x| cid(*x, 2, r)).collect();
    for i in 0..unmapped {
        oid_stream.push(0x7f00_0000 | i as u32);
    }
    let mut group = refs.objs.clone();
    let _ = used;
    let mut cells: Vec<Cell> = refs.spaces.clone();
    // contexts are the cells of the own space; they may stand anywhere among the others
    let mut at = 0;
    for c in &refs.ctxs {
        at = r.range(at, cells.len());
        cells.insert(at, Cell(*c, own));
        at += 1;
    }
    if real && own != NIL && inj.hit(Fault::RefCount) {
        for _ in 0..unmapped + 1 {
            group.push(Ex(r.bytes(16).try_into().unwrap(), 1));
        }
    }
    if real && own != NIL && inj.hit(Fault::CellCount) {
        if cells.is_empty() || r.pct(50) {
            cells.push(Cell(Ex(r.bytes(16).try_into().unwrap(), 1), own));
        } else {
            cells.pop();
        }
    }

    let has_ctx = !ctx_stream.is_empty() || r.pct(15);
    let has_sid = !sid_stream.is_empty() || has_ctx || r.pct(30);
    let mut d = vec![];
    let stream = |ids: &[u32], ext: bool, noosid: bool, d: &mut Vec<u8>| {
        d.extend((ids.len() as u32 | (ext as u32) << 30 | (noosid as u32) << 31).to_le_bytes());
        for i in ids {
            d.extend(i.to_le_bytes());
        }
    };
    stream(&oid_stream, has_ctx, !has_sid, &mut d);
    if has_sid {
        stream(&sid_stream, has_ctx, false, &mut d);
        if has_ctx {
            stream(&ctx_stream, false, false, &mut d);
        }
    }
    d.extend(body);
    (group, cells, d)
}

fn scramble(ps: &[P], r: &mut Rng) -> Vec<P> {
    ps.iter()
        .map(|p| {
            let v = match &p.v {
                V::Bool(b) => V::Bool(!b),
                V::U8(_) => V::U8(r.next() as u8),
                V::U16(_) => V::U16(r.next() as u16),
                V::U32(_) => V::U32(r.next() as u32),
                V::Bytes(b) => {
                    let mut b = b.clone();
                    b.reverse();
                    V::Bytes(b)
                }
                V::Oids(x) => {
                    let mut x = x.clone();
                    x.reverse();
                    V::Oids(x)
                }
                v => v.clone(),
            };
            P { id: p.id, v, role: p.role }
        })
        .collect()
}

struct Pkg {
    elements: Vec<(u8, Vec<u8>)>,
    cell_maps: Vec<(Cell, Ex, Option<Serial>)>,
    rev_maps: Vec<(Ex, Ex, Option<Serial>)>,
    used: Vec<Ex>,
    serials: u64,
}

/// ids that differ in the GUID only, or in the number only
pub fn fresh_id(used: &mut Vec<Ex>, r: &mut Rng) -> Ex {
    loop {
        let g = if !used.is_empty() && r.pct(60) {
            used[r.below(used.len())].0
        } else {
            r.bytes(16).try_into().unwrap()
        };
        let v = match r.below(5) {
            0 => r.range(1, 40) as u32,
            1 => (r.edge() & 0xffff_ffff) as u32,
            2 => used.last().map(|x| x.1).unwrap_or(1),
            3 => used.last().map(|x| x.1.wrapping_add(1)).unwrap_or(1),
            _ => r.next() as u32,
        };
        let x = Ex(g, v);
        if x.0 != [0; 16] && !used.contains(&x) {
            used.push(x);
            return x;
        }
    }
}

impl Pkg {
    fn id(&mut self, r: &mut Rng) -> Ex {
        fresh_id(&mut self.used, r)
    }
    fn serial(&mut self, r: &mut Rng) -> Option<Serial> {
        self.serials += 1;
        let g = if r.pct(50) { [7; 16] } else { r.bytes(16).try_into().unwrap() };
        Some(Serial(g, self.serials | (r.next() << 40)))
    }
    fn element(&mut self, id: Ex, ty: u64, body: Vec<u8>, r: &mut Rng, inj: &mut Inject) {
        let mut e = Enc::new(r, inj);
        let mut ty = ty;
        e.header(0x01, true, Form::H16);
        e.ex(id);
        let s = if e.r.pct(30) { None } else { Some(Serial(e.r.bytes(16).try_into().unwrap(), e.r.edge())) };
        e.serial(s);
        if e.inj.hit(Fault::UnknownElement) {
            ty = *e.r.pick(&[0u64, 7, 8, 9, 0xB, 0x10, 0x105, 0x1_0000_0005]);
        }
        e.compact(ty);
        e.raw(&body);
        e.end8(0x01);
        let out = e.out;
        self.elements.push((ty as u8, out));
    }

    fn group(&mut self, objs: &[&Obj], own: Ex, real: bool, tag: Option<&[P]>, r: &mut Rng, inj: &mut Inject) -> Ex {
        let gid = self.id(r);
        // the items of the group: (object, partition, content)
        enum Item {
            Obj(Vec<Ex>, Vec<Cell>, Vec<u8>),
            Blob(Ex),
            Excluded,
        }
        let mut items: Vec<(Ex, u64, Item)> = vec![];
        for o in objs {
            let (g, c, d) = object_data(&o.props, own, r, inj, real);
            let mut mine = vec![];
            let mut meta = o.jcid.to_le_bytes().to_vec();
            let more = if r.pct(30) { 3 } else { 0 };
            meta.extend(r.bytes(more));
            if !(real && inj.hit(Fault::NoMetadata)) {
                mine.push((o.id, 4, Item::Obj(vec![], vec![], meta)));
            }
            if real && inj.hit(Fault::NoData) {
                if r.pct(50) {
                    mine.push((o.id, 1, Item::Excluded));
                }
            } else {
                mine.push((o.id, 1, Item::Obj(g, c, d)));
            }
            if let Some(f) = &o.file {
                let b = self.id(r);
                let miss = real && inj.hit(Fault::MissingBlob);
                if !miss {
                    let mut e = Enc::new(r, inj);
                    e.header(0x02, false, Form::Any);
                    e.item(f);
                    let body = e.out;
                    self.element(b, 0x0A, body, r, inj);
                }
                if real && inj.hit(Fault::BlobKind) {
                    mine.push((o.id, 2, Item::Obj(vec![], vec![], f.clone())));
                } else {
                    mine.push((o.id, 2, Item::Blob(b)));
                }
            }
            // data of other partitions does not matter
            if r.pct(10) {
                let it = if r.pct(50) { Item::Excluded } else { Item::Obj(vec![], vec![], r.bytes(4)) };
                mine.push((o.id, *r.pick(&[3u64, 5, 260, 1 << 32 | 1]), it));
            }
            r.shuffle(&mut mine);
            items.append(&mut mine);
        }
        if r.pct(50) {
            r.shuffle(&mut items);
        }
        if let Some(ps) = tag {
            // the header object comes first
            let (g, c, d) = object_data(ps, NIL, r, inj, real);
            let hid = self.id(r);
            if r.pct(50) {
                items.insert(0, (hid, 4, Item::Obj(vec![], vec![], vec![1, 0, 2, 0])));
                items.insert(1, (hid, 1, Item::Obj(g, c, d)));
            } else {
                items.insert(0, (hid, 1, Item::Obj(g, c, d)));
                items.push((hid, 4, Item::Obj(vec![], vec![], vec![1, 0, 2, 0])));
            }
        }
        let mut e = Enc::new(r, inj);
        e.header(0x1D, true, Form::Any);
        for (id, part, it) in &items {
            match it {
                Item::Blob(b) => {
                    e.header(0x05, false, Form::Any);
                    e.ex(*id);
                    e.ex(*b);
                    e.compact(*part);
                }
                _ => {
                    e.header(0x18, false, Form::Any);
                    e.ex(*id);
                    e.compact(*part);
                    let v = e.r.edge();
                    e.compact(v);
                }
            }
            let (a, b) = (e.r.edge(), e.r.edge());
            e.compact(a);
            e.compact(b);
        }
        e.end8(0x1D);
        if e.r.pct(40) {
            e.header(0x79, true, Form::Any);
            let n = if e.r.pct(20) { e.r.below(3) } else { items.len() };
            for _ in 0..n {
                e.header(0x78, false, Form::H32);
                let mut v = e.r.below(5) as u64;
                if e.inj.hit(Fault::BadFrequency) {
                    v = *e.r.pick(&[5u64, 6, 255, 256, 1 << 32]);
                }
                e.compact(v);
            }
            e.end16(0x79);
        }
        e.header(0x1E, true, Form::Any);
        let short = real && tag.is_none() && !items.is_empty() && e.inj.hit(Fault::CountMismatch);
        let n = items.len() - short as usize;
        for (_, _, it) in &items[..n] {
            match it {
                Item::Obj(g, c, d) => {
                    e.header(0x16, false, Form::Any);
                    e.exs(g);
                    e.cells(c);
                    e.item(d);
                }
                Item::Blob(b) => {
                    e.header(0x1C, false, Form::Any);
                    let k = e.r.below(3);
                    let g: Vec<Ex> = (0..k).map(|i| Ex([3; 16], i as u32)).collect();
                    e.exs(&g);
                    let c: Vec<Cell> = g.iter().map(|x| Cell(*x, NIL)).collect();
                    e.cells(&c);
                    e.ex(*b);
                }
                Item::Excluded => {
                    e.header(0x03, false, Form::Any);
                    let k = e.r.below(3);
                    let g: Vec<Ex> = (0..k).map(|i| Ex([4; 16], i as u32)).collect();
                    e.exs(&g);
                    let c: Vec<Cell> = g.iter().map(|x| Cell(NIL, *x)).collect();
                    e.cells(&c);
                    let v = e.r.edge();
                    e.compact(v);
                }
            }
        }
        e.end8(0x1E);
        let body = e.out;
        self.element(gid, 5, body, r, inj);
        gid
    }

    /// the revisions of a space, newest first; returns what its cell mapping leads to
    fn space(&mut self, s: &Space, real: bool, header: Option<&[P]>, r: &mut Rng, inj: &mut Inject) {
        let own = s.cell.1;
        let nrev = if r.pct(40) { 1 } else { r.range(2, 4) };
        let mut groups: Vec<Vec<Ex>> = vec![vec![]; nrev];
        let mut home: Vec<usize> = s.objs.iter().map(|_| r.below(nrev)).collect();
        if header.is_some() {
            home.iter_mut().for_each(|h| *h = 0);
        }
        for rev in 0..nrev {
            let mut mine: Vec<&Obj> = s.objs.iter().zip(&home).filter(|(_, h)| **h == rev).map(|(o, _)| o).collect();
            r.shuffle(&mut mine);
            if rev == 0 && header.is_some() {
                let g = self.group(&mine, own, real, header, r, inj);
                groups[0].push(g);
                continue;
            }
            let k = if mine.len() > 1 && r.pct(50) { r.range(2, 3) } else { 1 };
            let mut parts: Vec<Vec<&Obj>> = vec![vec![]; k];
            for o in mine {
                let i = r.below(k);
                parts[i].push(o)
            }
            for p in &parts {
                let g = self.group(p, own, real, None, r, inj);
                groups[rev].push(g);
            }
            // older versions of objects of newer revisions
            let old: Vec<Obj> = s
                .objs
                .iter()
                .zip(&home)
                .filter(|(_, h)| **h < rev || **h == rev && false)
                .filter(|_| r.pct(50))
                .map(|(o, _)| Obj { props: o.props.clone(), ..o.clone() })
                .collect();
            if !old.is_empty() {
                let old: Vec<Obj> = old
                    .into_iter()
                    .map(|o| Obj { props: scramble(&o.props, r), file: o.file.map(|mut f| { f.reverse(); f.push(1); f }), ..o })
                    .collect();
                let refs: Vec<&Obj> = old.iter().collect();
                let g = self.group(&refs, own, false, None, r, inj);
                groups[rev].push(g);
            }
        }
        // decoys: a later group of the same revision has no say over an object of an earlier group
        if header.is_none() && r.pct(25) && !s.objs.is_empty() {
            let i = r.below(s.objs.len());
            let o = &s.objs[i];
            let d = Obj { props: scramble(&o.props, r), ..o.clone() };
            let g = self.group(&[&d], own, false, None, r, inj);
            groups[home[i]].push(g);
        }
        // revision ids and the elements they are stored in
        let revs: Vec<(Ex, Ex)> = (0..nrev)
            .map(|_| {
                let e = self.id(r);
                let direct = r.pct(25);
                let id = if direct { e } else { self.id(r) };
                (id, e)
            })
            .collect();
        let role = guid("4A3717F8-1C14-49E7-9526-81D942DE1741");
        let root_at = |r: &mut Rng| r.below(nrev);
        let (ca, ma) = (root_at(r), root_at(r));
        let no_root = real && header.is_none() && inj.hit(Fault::NoRoot);
        for rev in 0..nrev {
            let mut base = if rev + 1 < nrev { revs[rev + 1].0 } else { NIL };
            if real && header.is_none() {
                if inj.hit(Fault::CyclicBase) {
                    let to = r.below(rev + 1);
                    base = revs[to].0;
                } else if inj.hit(Fault::MissingBase) {
                    base = self.id(r);
                    if r.pct(50) {
                        // it is mapped, but to nothing
                        let s = self.serial(r);
                        let to = self.id(r);
                        self.rev_maps.push((base, to, s));
                    }
                }
            }
            let mut e = Enc::new(r, inj);
            e.header(0x1A, false, Form::H16);
            let id = if e.r.pct(80) { revs[rev].0 } else { Ex([9; 16], rev as u32) };
            e.ex(id);
            e.ex(base);
            let mut items: Vec<(bool, Ex, Ex)> = vec![];
            let decoy = |r: &mut Rng| if s.objs.is_empty() { Ex([8; 16], 1) } else { s.objs[r.below(s.objs.len())].id };
            for (k, at, x) in [(1u32, ca, s.content), (2, ma, s.metadata)] {
                if let Some(x) = x {
                    if rev == at && !(no_root && k == 1) {
                        items.push((true, Ex(role, k), x));
                    } else if rev > at && !no_root && e.r.pct(40) {
                        items.push((true, Ex(role, k), decoy(e.r)));
                    }
                }
            }
            if e.r.pct(20) {
                items.push((true, Ex(role, 4), decoy(e.r)));
            }
            if real && header.is_none() && e.inj.hit(Fault::BadRole) {
                let bad = if e.r.pct(50) { Ex(role, *e.r.pick(&[0u32, 5, 0x101])) } else { Ex([5; 16], 1) };
                items.push((true, bad, Ex([8; 16], 1)));
            }
            for g in &groups[rev] {
                items.push((false, *g, NIL));
            }
            if real && (header.is_none() || rev == 0) && e.inj.hit(Fault::MissingGroup) {
                let at = if header.is_some() { 0 } else { items.len() };
                items.insert(at, (false, Ex([6; 16], 77), NIL));
            }
            // the order of the groups counts, the one of the roots does not
            if e.r.pct(50) {
                let roots: Vec<_> = items.iter().filter(|i| i.0).cloned().collect();
                let mut rest: Vec<_> = items.into_iter().filter(|i| !i.0).collect();
                for x in roots {
                    let at = e.r.range(0, rest.len());
                    rest.insert(at, x);
                }
                items = rest;
            }
            for (root, a, b) in items {
                if root {
                    e.header(0x0A, false, Form::H16);
                    e.ex(a);
                    e.ex(b);
                } else {
                    e.header(0x19, false, Form::H16);
                    e.ex(a);
                }
            }
            let body = e.out;
            self.element(revs[rev].1, 4, body, r, inj);
            if revs[rev].0 != revs[rev].1 {
                let s = self.serial(r);
                self.rev_maps.push((revs[rev].0, revs[rev].1, s));
                if r.pct(15) {
                    // a manifest with the id of the revision is not the one it is mapped to
                    let mut e = Enc::new(r, inj);
                    e.header(0x1A, false, Form::H16);
                    e.ex(revs[rev].0);
                    e.ex(NIL);
                    let body = e.out;
                    self.element(revs[rev].0, 4, body, r, inj);
                }
            }
        }
        // the mapping of the cell: cell manifest -> revision, the revision itself, or the serial number
        let mut serial = self.serial(r);
        let way = r.below(4);
        let map_id = match way {
            0 | 1 => {
                let m = self.id(r);
                let mut e = Enc::new(r, inj);
                e.header(0x0B, false, Form::H16);
                e.ex(revs[0].0);
                let body = e.out;
                self.element(m, 3, body, r, inj);
                m
            }
            2 => revs[0].0,
            _ => {
                let m = self.id(r);
                match self.rev_maps.iter().find(|x| x.0 == revs[0].0) {
                    Some(x) => serial = x.2,
                    None => {
                        let k = self.id(r);
                        self.rev_maps.push((k, revs[0].1, serial));
                    }
                }
                m
            }
        };
        if real && inj.hit(Fault::MissingMapping) {
            return;
        }
        self.cell_maps.push((s.cell, map_id, serial));
    }
}

pub fn encode(f: &File, r: &mut Rng, inj: &mut Inject) -> Vec<u8> {
    let mut p = Pkg { elements: vec![], cell_maps: vec![], rev_maps: vec![], used: vec![], serials: 0 };
    let header_cell = Cell(p.id(r), p.id(r));
    // header object
    let mut hp = vec![
        P { id: 0x1D94, v: V::Bytes(r.bytes(16)), role: Role::Mand },
        P { id: 0x1D95, v: V::Bytes(r.bytes(16)), role: Role::Mand },
        P { id: 0x1D93, v: V::U32(r.next() as u32), role: Role::Mand },
    ];
    if r.pct(50) {
        hp.push(P { id: 0x1D99, v: V::U32(r.next() as u32), role: Role::Opt });
    }
    if inj.hit(Fault::HeaderProps) {
        let i = r.below(hp.len());
        if hp[i].role == Role::Mand && r.pct(50) {
            hp.remove(i);
        } else {
            hp[i].v = V::U16(3);
        }
    }
    r.shuffle(&mut hp);
    let hs = Space { cell: header_cell, objs: vec![], content: None, metadata: None };
    p.space(&hs, true, Some(&hp), r, inj);
    p.space(&f.data_root, true, None, r, inj);
    for s in &f.spaces {
        p.space(s, true, None, r, inj);
    }
    // things that do not matter
    if r.pct(30) {
        // an empty cell without a revision
        let m = p.id(r);
        let mut e = Enc::new(r, inj);
        e.header(0x0B, false, Form::H16);
        e.ex(NIL);
        let body = e.out;
        p.element(m, 3, body, r, inj);
        let (c, s) = (Cell(p.id(r), p.id(r)), p.serial(r));
        p.cell_maps.push((c, m, s));
    }
    if r.pct(30) {
        let (c, s) = (Cell(p.id(r), p.id(r)), p.serial(r));
        p.cell_maps.push((c, NIL, s));
    }
    for _ in 0..r.below(3) {
        // a fragment
        let id = if r.pct(50) && !p.used.is_empty() { p.used[r.below(p.used.len())] } else { p.id(r) };
        let n = r.below(20);
        let mut e = Enc::new(r, inj);
        e.header(0x6A, false, Form::H32);
        e.ex(id);
        e.compact(n as u64);
        let v = e.r.edge();
        e.compact(v);
        let v = e.r.edge();
        e.compact(v);
        let b = e.r.bytes(n);
        e.raw(&b);
        let body = e.out;
        p.element(id, 6, body, r, inj);
    }
    if r.pct(30) {
        let id = p.used[r.below(p.used.len())];
        // an element of another kind with an id that is used already
        // (only if no cell manifest could have this id)
        if !p.cell_maps.iter().any(|m| m.1 == id) && !p.rev_maps.iter().any(|m| m.0 == id) {
            let mut e = Enc::new(r, inj);
            e.header(0x0B, false, Form::H16);
            e.ex(Ex([1; 16], 9));
            let body = e.out;
            p.element(id, 3, body, r, inj);
        }
    }
    // storage manifest
    let mid = p.id(r);
    {
        let mut e = Enc::new(r, inj);
        e.header(0x0C, false, Form::H16);
        e.guid(f.schema);
        let mut roots = vec![
            (Ex(guid("1A5A319C-C26B-41AA-B9C5-9BD8C44E07D4"), 1), header_cell),
            (Ex(guid("84DEFAB9-AAA3-4A0D-A3A8-520C77AC7073"), 2), f.data_root.cell),
        ];
        if e.r.pct(30) {
            roots.push((Ex(guid("84DEFAB9-AAA3-4A0D-A3A8-520C77AC7073"), 1), header_cell));
        }
        if e.r.pct(30) {
            roots.push((Ex(guid("1A5A319C-C26B-41AA-B9C5-9BD8C44E07D4"), 2), f.data_root.cell));
        }
        e.r.shuffle(&mut roots);
        for (k, c) in roots {
            e.header(0x07, false, Form::H16);
            e.ex(k);
            e.cell(c);
        }
        let body = e.out;
        p.element(mid, 2, body, r, inj);
    }
    // storage index, and one that is not the file's
    let sid = p.id(r);
    let index = |cells: &[(Cell, Ex, Option<Serial>)], revs: &[(Ex, Ex, Option<Serial>)], r: &mut Rng, inj: &mut Inject| {
        let mut e = Enc::new(r, inj);
        let mut items: Vec<(u8, usize)> = vec![(0, 0)];
        items.extend((0..cells.len()).map(|i| (1, i)));
        items.extend((0..revs.len()).map(|i| (2, i)));
        e.r.shuffle(&mut items);
        // a later entry for the same cell or revision replaces an earlier one
        for i in 0..items.len() {
            let (k, at) = items[i];
            if k != 0 && e.r.pct(8) {
                let to = e.r.range(0, i);
                items.insert(to, (k + 2, at));
            }
        }
        for (k, i) in items {
            match k {
                3 => {
                    e.header(0x0E, false, Form::H16);
                    e.cell(cells[i].0);
                    let other = e.r.below(cells.len());
                    let x = if e.r.pct(70) { cells[other].1 } else { Ex([2; 16], 5) };
                    e.ex(x);
                    e.serial(Some(Serial([2; 16], 3)));
                }
                4 => {
                    e.header(0x0D, false, Form::H16);
                    e.ex(revs[i].0);
                    let other = e.r.below(revs.len());
                    let x = if e.r.pct(70) { revs[other].1 } else { Ex([2; 16], 6) };
                    e.ex(x);
                    e.serial(Some(Serial([2; 16], 4)));
                }
                0 => {
                    e.header(0x11, false, Form::H16);
                    e.ex(mid);
                    e.serial(None);
                }
                1 => {
                    e.header(0x0E, false, Form::H16);
                    e.cell(cells[i].0);
                    e.ex(cells[i].1);
                    e.serial(cells[i].2);
                }
                _ => {
                    e.header(0x0D, false, Form::H16);
                    e.ex(revs[i].0);
                    e.ex(revs[i].1);
                    e.serial(revs[i].2);
                }
            }
        }
        e.out
    };
    let body = index(&p.cell_maps.clone(), &p.rev_maps.clone(), r, inj);
    let mut declared = sid;
    if r.pct(30) {
        let mut cells = p.cell_maps.clone();
        if cells.len() > 1 {
            let a = cells[0].1;
            cells[0].1 = cells[1].1;
            cells[1].1 = a;
        }
        let other = index(&cells, &[], r, inj);
        let oid = p.id(r);
        p.element(oid, 1, other, r, inj);
    } else if r.pct(20) {
        declared = p.id(r);
    }
    p.element(sid, 1, body, r, inj);

    // the elements may come in any order
    let mut elements: Vec<Vec<u8>> = p.elements.into_iter().map(|x| x.1).collect();
    if r.pct(80) {
        r.shuffle(&mut elements);
    }

    let package_store = guid("638DE92F-A6D4-4BC1-9A36-B3FC2511A5B7");
    let revision_store = guid("109ADD3F-911B-49F5-A5D0-1791EDC8AED8");
    let way = r.below(4);
    let mut e = Enc::new(r, inj);
    let ty = e.r.bytes(16);
    let file = e.r.bytes(16);
    let first = |e: &mut Enc, legacy: G, mut format: G, checked: bool| {
        e.raw(&ty);
        e.raw(&file);
        e.guid(legacy);
        if checked && e.inj.hit(Fault::BadFormat) {
            format[e.r.below(16)] ^= 1 << e.r.below(8);
        }
        e.guid(format);
    };
    let nz: G = {
        let mut g: G = e.r.bytes(16).try_into().unwrap();
        g[e.r.below(16)] |= 1;
        g
    };
    match way {
        0 => first(&mut e, nz, package_store, true),
        1 => first(&mut e, [0; 16], package_store, true),
        2 => first(&mut e, nz, revision_store, true),
        _ => {
            // a revision store file around the package
            first(&mut e, [0; 16], revision_store, true);
            for _ in 0..4 {
                let mut v = *e.r.pick(&[0x2Au32, 0x1B]);
                if e.inj.hit(Fault::BadVersion) {
                    v = *e.r.pick(&[0x29u32, 0, 0x1A, 0x2B, 0x2A00, 0x12A]);
                }
                e.u32(v);
            }
            let skip = e.r.bytes(8 + 8 + 4 + 4 + 8 + 8 + 4 + 4 + 16 + 4 + 12);
            e.raw(&skip);
            let here = e.out.len() + 12;
            let gap = if e.r.pct(50) { 0 } else { e.r.below(600) };
            let cb = e.r.below(gap + here) as u32;
            let mut stp = (here + gap) as u64 - cb as u64;
            if e.inj.hit(Fault::BadLog) {
                // behind itself, beyond the end, or overflowing
                stp = match e.r.below(3) {
                    0 => (here as u64 - 1).saturating_sub(cb as u64 + e.r.below(here) as u64),
                    1 => 1 << 40,
                    _ => u64::MAX - e.r.below(cb as usize + 1) as u64,
                };
                if stp == u64::MAX && cb == 0 {
                    stp -= 1;
                }
            }
            e.u64(stp);
            e.u32(cb);
            let b = e.r.bytes(gap);
            e.raw(&b);
            let l = if e.r.pct(50) { [0; 16] } else { nz };
            let fm: G = if e.r.pct(50) { package_store } else { e.r.bytes(16).try_into().unwrap() };
            first(&mut e, l, fm, false);
        }
    }
    let pad = if e.inj.hit(Fault::BadPadding) { 1u32 << e.r.below(32) } else { 0 };
    e.u32(pad);
    e.header(0x7a, true, Form::H32);
    e.ex(declared);
    let g = e.r.bytes(16);
    e.raw(&g);
    e.header(0x15, true, Form::H16);
    let pad = if e.inj.hit(Fault::BadPadding) { 1u8 << e.r.below(8) } else { 0 };
    e.u8(pad);
    for b in elements {
        e.raw(&b);
    }
    e.end8(0x15);
    e.end16(0x7a);
    let hit = e.inj.hit(Fault::Truncate);
    let mut out = e.out;
    if hit {
        let n = if r.pct(30) { out.len() - 1 - r.below(30) } else { r.below(out.len()) };
        out.truncate(n);
    } else if r.pct(20) {
        // what follows the package does not matter
        let n = r.below(20);
        let b = r.bytes(n);
        out.extend(b);
    }
    out
}
