//! C03: row allocation on data pages, explored as a state machine against a reference model.

use crate::c_rows::{page_type, u16le};
use crate::engine::*;
use crate::refpdb::*;
use binrw::{BinRead, BinWrite};
use rekordcrate::pdb::*;
use std::io::Cursor;

/// A type number no table uses: its rows have no content, so any size can be requested.
const UNKNOWN: u32 = 77;
const GENRE: u32 = 1;

#[derive(Clone)]
struct Model {
    page_size: usize,
    img: DataPage,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    /// Request this many bytes and fill the row in.
    Put(u16),
    /// Request this many bytes and drop the reservation.
    Reserve(u16),
    /// Write the page and read it back.
    Reload,
}

fn align4(b: u16) -> u32 {
    (b as u32).div_ceil(4) * 4
}

pub fn genre_row(size: usize) -> Vec<u8> {
    // 4 bytes id + encoded string
    let n = size - 4;
    let s = if n <= 127 { "g".repeat(n - 1) } else { "g".repeat(n - 4) };
    spec("Genre").row(&[("id", size as u64)], &[&s])
}

fn genre_fits(size: u16) -> bool {
    size >= 5 && !(size > 131 && size < 135) && size < 32000
}

fn row_for(ptype: u32, size: u16) -> (Row, Vec<u8>) {
    if ptype == UNKNOWN {
        return (Row::Unknown, vec![]);
    }
    let b = genre_row(size as usize);
    assert_eq!(b.len(), size as usize);
    (Row::read_le_args(&mut Cursor::new(&b), (page_type(false, ptype),)).unwrap(), b)
}

impl Model {
    fn new(page_size: usize, ptype: u32, prefill: usize) -> Model {
        let mut img = DataPage::empty(3, ptype, 4, page_size);
        for i in 0..prefill {
            let row = if ptype == UNKNOWN { vec![0; 4] } else { genre_row(5 + i % 7) };
            img.add(&row, i % 5 != 3);
            if ptype == UNKNOWN {
                img.rows.last_mut().unwrap().1.clear();
            }
        }
        img.rows.retain(|(o, _)| {
            let mut keep = false;
            for g in &img.groups {
                for i in 0..16 {
                    if g.flags & (1 << i) != 0 && g.offs[i] == *o {
                        keep = true;
                    }
                }
            }
            keep
        });
        img.flags = 0x24;
        Model { page_size, img }
    }
    fn page(&self) -> Page {
        let b = self.img.bytes(self.page_size, 0);
        Page::read_le_args(&mut Cursor::new(&b), (self.page_size as u32, DatabaseType::Plain)).unwrap()
    }
    /// (must grant, must refuse)
    fn expect(&self, bytes: u16) -> (bool, bool) {
        let a = align4(bytes).max(4);
        let new_group = self.img.num_rows % 16 == 0;
        let need = a + 2 + if new_group { 4 } else { 0 };
        let free = self.img.free as u32;
        let countable = self.img.num_rows < 8191 && self.img.num_valid < 2047;
        (free >= a + 6 && countable, free < need || !countable)
    }
    fn grant(&mut self, bytes: u16, content: Option<Vec<u8>>) {
        let a = align4(bytes).max(4) as u16;
        let i = self.img.num_rows as usize;
        if i % 16 == 0 {
            self.img.groups.push(Grp { offs: [0; 16], n: 0, flags: 0, unknown: 0 });
            self.img.free -= 4;
        }
        let off = self.img.used;
        let g = self.img.groups.last_mut().unwrap();
        g.offs[i % 16] = off;
        g.n = i % 16 + 1;
        self.img.num_rows += 1;
        self.img.used += a;
        self.img.free -= a + 2;
        if let Some(c) = content {
            g.flags |= 1 << (i % 16);
            self.img.num_valid += 1;
            self.img.rows.push((off, c));
        }
    }
    /// Compares the page with the model.
    fn compare(&self, p: &Page) -> Result<(), String> {
        let h = &p.header;
        let m = &self.img;
        let got = (h.packed_row_counts.num_rows(), h.packed_row_counts.num_rows_valid(), h.used_size, h.free_size);
        let want = (m.num_rows, m.num_valid, m.used, m.free);
        if got != want {
            return Err(format!("(rows, present, used, free) = {got:?}, expected {want:?}"));
        }
        let Some(d) = p.content.as_data() else { return Err("not a data page".into()) };
        if d.row_groups.len() != m.groups.len() {
            return Err(format!("{} row groups, expected {}", d.row_groups.len(), m.groups.len()));
        }
        for (gi, (g, w)) in d.row_groups.iter().zip(&m.groups).enumerate() {
            if g.row_presence_flags != w.flags {
                return Err(format!("group {gi}: presence flags {:#x}, expected {:#x}", g.row_presence_flags, w.flags));
            }
            for i in 0..16 {
                if w.flags & (1 << i) != 0 && g.row_offsets[15 - i] != w.offs[i] {
                    return Err(format!("group {gi} row {i}: offset {:#x}, expected {:#x}", g.row_offsets[15 - i], w.offs[i]));
                }
            }
        }
        let keys: Vec<u16> = d.rows.keys().copied().collect();
        let mut wk: Vec<u16> = m.rows.iter().map(|r| r.0).collect();
        wk.sort();
        if keys != wk {
            return Err(format!("rows at {keys:x?}, expected {wk:x?}"));
        }
        // everything else in the header stays
        if u32::from(h.page_flags.into_bytes()[0]) != m.flags as u32 || h.unknown1 != m.u1 || h.unknown2 != m.u2 {
            return Err("other header fields changed".into());
        }
        Ok(())
    }
    /// Writes the page, compares the image with the model's, and reads it back.
    fn reload(&self, p: &Page) -> Result<Page, String> {
        let mut c = Cursor::new(vec![]);
        let r = guard(|| p.write_le_args(&mut c, (self.page_size as u32,)));
        match r {
            Err(e) => return Err(format!("writing panics: {e}")),
            Ok(Err(e)) => return Err(format!("writing fails: {e}")),
            Ok(Ok(())) => (),
        }
        if c.position() != self.page_size as u64 {
            return Err(format!("writing ends at {:#x} of {:#x}", c.position(), self.page_size));
        }
        let mut out = c.into_inner();
        if out.len() > self.page_size {
            return Err(format!("page image has {:#x} bytes", out.len()));
        }
        if !self.img.groups.is_empty() && out.len() != self.page_size {
            return Err(format!("page image has {:#x} of {:#x} bytes", out.len(), self.page_size));
        }
        out.resize(self.page_size, 0);
        let masks: Vec<(u16, Vec<bool>)> = self.img.rows.iter().map(|(o, r)| (*o, vec![true; r.len()])).collect();
        let own = self.img.owned(self.page_size, &masks);
        let mut want = self.img.bytes(self.page_size, 0);
        for i in 0..want.len() {
            if !own[i] {
                want[i] = 0;
            }
        }
        if out != want {
            let d = (0..out.len()).find(|i| out[*i] != want[*i]).unwrap();
            return Err(format!("page image differs at {d:#x}: {:02x} instead of {:02x} (word {:04x})", out[d], want[d], u16le(&out, d & !1)));
        }
        match guard(|| Page::read_le_args(&mut Cursor::new(&out), (self.page_size as u32, DatabaseType::Plain))) {
            Err(e) => Err(format!("reading back panics: {e}")),
            Ok(Err(e)) => Err(format!("reading back fails: {e}")),
            Ok(Ok(q)) => {
                self.compare(&q).map_err(|e| format!("read back: {e}"))?;
                if q != *p {
                    return Err("page read back is not equal".into());
                }
                Ok(q)
            }
        }
    }
}

fn step(rec: &mut Rec, m: &mut Model, p: &mut Page, op: Op, trace: &dyn Fn() -> String) -> bool {
    rec.count("transitions", 1);
    let ptype = m.img.ptype;
    match op {
        Op::Reload => match m.reload(p) {
            Ok(q) => {
                *p = q;
                // The offset of a reservation above the highest present row is not stored.
                for g in &mut m.img.groups {
                    let hi = 16 - g.flags.leading_zeros() as usize;
                    g.offs[hi..].fill(0);
                }
                true
            }
            Err(e) => {
                rec.fail("serialize", format!("{e}; {}", trace()));
                false
            }
        },
        Op::Put(b) | Op::Reserve(b) => {
            let put = matches!(op, Op::Put(_));
            let before = p.clone();
            let (row, bytes) = if put { row_for(ptype, b) } else { (Row::Unknown, vec![]) };
            let r = guard(|| match p.allocate_row(b) {
                None => false,
                Some(f) => {
                    if put {
                        f(row);
                    }
                    true
                }
            });
            let (must, never) = m.expect(b);
            match r {
                Err(e) => {
                    rec.fail("panic", format!("{op:?} panics: {e}; {}", trace()));
                    return false;
                }
                Ok(false) => {
                    if must {
                        rec.fail("refused", format!("{op:?} refused with {} bytes free; {}", m.img.free, trace()));
                        return false;
                    }
                    rec.count("refused", 1);
                    if *p != before {
                        rec.fail("refused-changes", format!("{op:?} refused but the page changed; {}", trace()));
                        return false;
                    }
                }
                Ok(true) => {
                    if never {
                        rec.fail("overflow", format!("{op:?} granted with {} bytes free, {} rows; {}", m.img.free, m.img.num_rows, trace()));
                        return false;
                    }
                    rec.count("granted", 1);
                    m.grant(b, put.then_some(bytes));
                }
            }
            if let Err(e) = m.compare(p) {
                rec.fail("accounting", format!("after {op:?}: {e}; {}", trace()));
                return false;
            }
            true
        }
    }
}

fn dfs(rec: &mut Rec, start: &str, m: &Model, p: &Page, ops: &[Op], path: &mut Vec<Op>, depth: usize, ser: usize) {
    rec.count("states", 1);
    if path.len() <= ser {
        rec.count("traces", 1);
        if let Err(e) = m.reload(p) {
            rec.fail("serialize", format!("{e}; start {start}, ops {path:?}"));
            return;
        }
    }
    if depth == 0 || rec.full() {
        return;
    }
    for op in ops {
        let (mut m2, mut p2) = (m.clone(), p.clone());
        path.push(*op);
        let pc = path.clone();
        if step(rec, &mut m2, &mut p2, *op, &|| format!("start {start}, ops {pc:?}")) {
            dfs(rec, start, &m2, &p2, ops, path, depth - 1, ser);
        }
        path.pop();
    }
}

pub fn c03(ctx: &mut Ctx) {
    ctx.level = "model_checking";
    ctx.rule = "states = (page, model) pairs reached by operation sequences; transitions = allocate+fill / allocate+drop / write+read-back steps executed on the real Page and on the model; traces = page images compared byte for byte with the model's and read back".into();
    ctx.assume("page size at most 65575 so that the 16-bit free/used sizes can describe the heap; the starting page's counters are consistent");
    let quick = ctx.quick();
    // 1. all short sequences from many start states
    let depth = if quick { 4 } else { 5 };
    let sizes: [u16; 7] = [0, 1, 4, 5, 13, 24, 61];
    let mut ops: Vec<Op> = vec![Op::Reload];
    for s in sizes {
        ops.push(Op::Put(s));
        ops.push(Op::Reserve(s));
    }
    let prefills = [0usize, 1, 14, 15, 16, 17, 31, 32];
    let leftovers: Vec<usize> = (0..=46).map(|x| x * 2).collect();
    ctx.bound(format!("all sequences of {depth} operations (put/reserve of {sizes:?} bytes, reload) from {} start pages ({prefills:?} existing rows x leftover space 0..=92 bytes)", prefills.len() * leftovers.len()));
    let n = (prefills.len() * leftovers.len()) as u64;
    let (opsr, lo) = (&ops, &leftovers);
    ctx.par("sequences", n, |i, rec| {
        let pre = prefills[i as usize / lo.len()];
        let left = lo[i as usize % lo.len()];
        let ps = HEAP + 4 * pre + 4 * pre.div_ceil(16) + 2 * pre + left;
        let m = Model::new(ps, UNKNOWN, pre);
        let p = m.page();
        let name = format!("{pre} rows, {left} bytes left (page size {ps})");
        rec.sample(|| name.clone());
        rec.outcome(&format!("{pre} rows at start"));
        dfs(rec, &name, &m, &p, opsr, &mut vec![], depth, 3);
    });
    // 2. the same with real rows
    let gs: [u16; 5] = [5, 8, 12, 13, 30];
    let mut gops: Vec<Op> = vec![Op::Reload];
    for s in gs {
        gops.push(Op::Put(s));
        gops.push(Op::Reserve(s));
    }
    let gdepth = if quick { 4 } else { 5 };
    ctx.bound(format!("all sequences of {gdepth} operations with genre rows of {gs:?} bytes, every image compared"));
    let gopsr = &gops;
    let pres = [0usize, 3, 15, 16];
    ctx.par("sequences-rows", pres.len() as u64 * 12, |i, rec| {
        let pre = pres[i as usize / 12];
        let left = (i as usize % 12) * 8 + 2;
        let m0 = Model::new(4096, GENRE, pre);
        let ps = 4096 - m0.img.free as usize + left;
        let m = Model::new(ps, GENRE, pre);
        let p = m.page();
        let name = format!("{pre} genre rows, {left} bytes left (page size {ps})");
        dfs(rec, &name, &m, &p, gopsr, &mut vec![], gdepth, gdepth);
    });
    // 3. every request size against every nearby amount of free space
    ctx.bound("every request size 0..=65535 x free space within -4..=12 of the need x rows in the last group 0, 1, 15, 16");
    ctx.par("sizes", 256, |i, rec| {
        for lo in 0..256u32 {
            let b = (i as u32 * 256 + lo) as u16;
            for pre in [0usize, 1, 15, 16] {
                let fixed = 4 * pre + 4 * pre.div_ceil(16) + 2 * pre;
                for d in -4i64..=12 {
                    for free in [align4(b) as i64 + d, 65495 - fixed as i64 - (d + 4)] {
                        if free < 0 || free as usize + fixed > 65495 {
                            continue;
                        }
                        let ps = HEAP + fixed + free as usize;
                        let mut m = Model::new(HEAP + fixed, UNKNOWN, pre);
                        m.page_size = ps;
                        m.img.free = free as u16;
                        // the image needs the right page size only when it is serialized
                        let mut p = Model { page_size: HEAP + fixed, img: m.img.clone() }.page();
                        rec.count("states", 1);
                        for op in [Op::Put(b), Op::Reserve(b)] {
                            let (mut m2, mut p2) = (m.clone(), p.clone());
                            step(rec, &mut m2, &mut p2, op, &|| format!("{pre} rows, {free} bytes free"));
                        }
                        p.header.unknown1 = m.img.u1;
                        if rec.full() {
                            return;
                        }
                    }
                }
            }
        }
    });
    // 4. fill pages completely
    let psizes = [256usize, 512, 1000, 4096, 8192, 32768, 65536];
    let mut fills: Vec<(usize, u16, u8, u32)> = vec![];
    for ps in psizes {
        let mut s = 1usize;
        while s < ps - HEAP {
            for pat in 0..4u8 {
                fills.push((ps, s as u16, pat, UNKNOWN));
                if genre_fits(s as u16) {
                    fills.push((ps, s as u16, pat, GENRE));
                }
            }
            s += if !quick && ps <= 4096 {
                1
            } else if s < 70 || (ps == 4096 && s < 300) {
                1
            } else {
                s / 9
            };
        }
    }
    ctx.bound(format!("{} fill-to-refusal runs on page sizes {psizes:?} (constant request size, always filled / never / alternating / mixed sizes), images compared and read back on the way", fills.len()));
    let fr = &fills;
    ctx.par("fill", fills.len() as u64, |i, rec| {
        let (ps, s, pat, ptype) = fr[i as usize];
        let mut m = Model::new(ps, ptype, 0);
        let mut p = m.page();
        let mut k = 0usize;
        let limit = 12000;
        let mut last = m.img.num_rows;
        let mut refusals = 0;
        rec.outcome(&format!("page size {ps}"));
        while k < limit {
            let size = if pat == 3 {
                let x = s + (k % 3) as u16 * 4;
                if ptype == GENRE && !genre_fits(x) {
                    s
                } else {
                    x
                }
            } else {
                s
            };
            let op = match (pat, k % 2) {
                (1, _) | (2, 1) => Op::Reserve(size),
                _ => Op::Put(size),
            };
            rec.count("states", 1);
            if !step(rec, &mut m, &mut p, op, &|| format!("fill page of {ps} bytes with rows of {s} bytes ({pat}), step {k}")) {
                return;
            }
            if m.img.num_rows == last {
                refusals += 1;
                if refusals > 3 {
                    break;
                }
            } else {
                last = m.img.num_rows;
            }
            if k % 64 == 17 || k < 2 {
                rec.count("traces", 1);
                if !step(rec, &mut m, &mut p, Op::Reload, &|| format!("fill page of {ps} bytes with rows of {s} bytes ({pat}), step {k}")) {
                    return;
                }
            }
            k += 1;
        }
        rec.count("traces", 1);
        step(rec, &mut m, &mut p, Op::Reload, &|| format!("full page of {ps} bytes with rows of {s} bytes ({pat})"));
        // the row that is refused last must really not fit, and a smaller one may still fit
        for b in [1u16, 4, 8] {
            if ptype == UNKNOWN {
                step(rec, &mut m, &mut p, Op::Put(b), &|| format!("full page of {ps} bytes with rows of {s} bytes ({pat})"));
            }
        }
    });
    // 5. index pages have no rows
    ctx.par("index", 1, |_, rec| {
        let b = IndexPage::new(3, 0, 4, vec![]).bytes(4096);
        let mut p = Page::read_le_args(&mut Cursor::new(&b), (4096, DatabaseType::Plain)).unwrap();
        for s in [0u16, 1, 100, 4000, 65535] {
            let q = p.clone();
            match guard(|| p.allocate_row(s).is_some()) {
                Ok(false) if p == q => (),
                r => rec.fail("index-page", format!("{s}: {r:?}")),
            }
            rec.count("transitions", 1);
        }
    });
}
