//! C06 and C07 on databases with many and with large pages, kept in a device that only stores
//! what is not zero.

use crate::c_rows::page_type;
use crate::engine::*;
use crate::refpdb::*;
use fallible_iterator::FallibleIterator;
use rekordcrate::pdb::io::Database;
use rekordcrate::pdb::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::rc::Rc;

const CHUNK: u64 = 256;

#[derive(Clone, Default, PartialEq)]
struct Store {
    len: u64,
    chunks: BTreeMap<u64, Vec<u8>>,
}

impl Store {
    fn put(&mut self, at: u64, bytes: &[u8]) {
        for (i, b) in bytes.iter().enumerate() {
            let p = at + i as u64;
            let c = p / CHUNK;
            if *b == 0 && !self.chunks.contains_key(&c) {
                continue;
            }
            self.chunks.entry(c).or_insert_with(|| vec![0; CHUNK as usize])[(p % CHUNK) as usize] = *b;
        }
        self.len = self.len.max(at + bytes.len() as u64);
    }
    fn get(&self, at: u64, out: &mut [u8]) -> usize {
        let n = self.len.saturating_sub(at).min(out.len() as u64) as usize;
        let mut i = 0;
        while i < n {
            let p = at + i as u64;
            let k = ((CHUNK - p % CHUNK) as usize).min(n - i);
            match self.chunks.get(&(p / CHUNK)) {
                Some(c) => out[i..i + k].copy_from_slice(&c[(p % CHUNK) as usize..(p % CHUNK) as usize + k]),
                None => out[i..i + k].fill(0),
            }
            i += k;
        }
        n
    }
    /// The first position where two stores differ.
    fn diff(&self, o: &Store) -> Option<String> {
        if self.len != o.len {
            return Some(format!("length {} instead of {}", self.len, o.len));
        }
        let zero = vec![0; CHUNK as usize];
        for c in self.chunks.keys().chain(o.chunks.keys()) {
            let (a, b) = (self.chunks.get(c).unwrap_or(&zero), o.chunks.get(c).unwrap_or(&zero));
            if let Some(i) = (0..CHUNK as usize).find(|i| a[*i] != b[*i]) {
                return Some(format!("byte {:#x} is {:#04x} instead of {:#04x}", c * CHUNK + i as u64, a[i], b[i]));
            }
        }
        None
    }
}

#[derive(Clone)]
struct Sparse {
    store: Rc<RefCell<Store>>,
    pos: u64,
}
impl Read for Sparse {
    fn read(&mut self, out: &mut [u8]) -> io::Result<usize> {
        let n = self.store.borrow().get(self.pos, out);
        self.pos += n as u64;
        Ok(n)
    }
}
impl Write for Sparse {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.store.borrow_mut().put(self.pos, b);
        self.pos += b.len() as u64;
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Seek for Sparse {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        let to = match p {
            SeekFrom::Start(x) => i128::from(x),
            SeekFrom::Current(x) => i128::from(self.pos) + i128::from(x),
            SeekFrom::End(x) => i128::from(self.store.borrow().len) + i128::from(x),
        };
        self.pos = u64::try_from(to).map_err(|_| io::Error::from(io::ErrorKind::InvalidInput))?;
        Ok(self.pos)
    }
}

const ENTRIES: u32 = 8;

struct Case {
    /// Page size, number of pages (header included), the chain and where it claims to end.
    ps: u64,
    total: u32,
    chain: Vec<u32>,
}

impl Case {
    fn show(&self) -> String {
        format!("pages of {:#x} bytes, {} of them, chain {:?}", self.ps, self.total, self.chain)
    }
    fn rows(page: u32) -> [(u32, u32, u32); 2] {
        [(page, page ^ 0x00a5_5a00, 7), (page.wrapping_mul(3), !page, 9)]
    }
    fn store(&self) -> Store {
        let mut db = Db::new(128);
        db.tables = vec![(1, 99, 0x3ff_ff00, 0x3ff_ff00), (ENTRIES, 98, self.chain[0], *self.chain.last().unwrap())];
        db.next_unused = self.total;
        let mut h = db.header();
        h[4..8].copy_from_slice(&(self.ps as u32).to_le_bytes());
        let mut s = Store::default();
        s.put(0, &h);
        for (i, p) in self.chain.iter().enumerate() {
            let mut d = DataPage::empty(*p, ENTRIES, self.chain.get(i + 1).copied().unwrap_or(self.total), 128);
            for r in Case::rows(*p) {
                d.add(&playlist_entry(r.0, r.1, r.2), true);
            }
            let img = d.bytes(128, 0);
            let at = u64::from(*p) * self.ps;
            s.put(at, &img[..96]);
            s.put(at + self.ps - 32, &img[96..]);
        }
        s.len = u64::from(self.total) * self.ps;
        s
    }
    fn sorted(&self) -> bool {
        self.chain.windows(2).all(|w| w[0] < w[1])
    }
}

fn cases(quick: bool) -> Vec<Case> {
    let mut v = vec![];
    let near = |x: u32| [x - 1, x, x + 1];
    // many pages
    let marks: Vec<u32> = [1, 2].into_iter().chain(near(256)).chain(near(4096)).chain(near(32768)).chain(near(65536)).chain([69_999]).collect();
    for (k, ps) in [128u64, 4096, 0x1_0000, 0x10_0000].into_iter().enumerate() {
        for a in 0..marks.len() {
            for b in 0..marks.len() {
                // chains that lead back as well
                if a != b && (!quick || k % 2 == 0 || (a + b) % 3 == 0) {
                    v.push(Case { ps, total: 70_000, chain: vec![marks[a], marks[b]] });
                }
                for c in b + 1..marks.len() {
                    if a < b && (!quick || (a + b + c + k) % 4 == 0) {
                        v.push(Case { ps, total: 70_000, chain: vec![marks[a], marks[b], marks[c]] });
                    }
                }
            }
        }
        v.push(Case { ps, total: 70_000, chain: marks.clone() });
    }
    // large pages
    for e in 16..32 {
        for ps in [(1u64 << e) - 1, 1 << e, (1 << e) + 1, u64::from(u32::MAX)] {
            v.push(Case { ps, total: 8, chain: vec![1, 2, 3, 7] });
            v.push(Case { ps, total: 8, chain: vec![2, 5, 6] });
        }
    }
    // page numbers up to a million
    for p in [99_999, 131_071, 131_072, 262_143, 262_144, 262_145] {
        v.push(Case { ps: 128, total: 262_146, chain: vec![1, p] });
        v.push(Case { ps: 0x1000, total: 262_146, chain: vec![p - 1, p] });
    }
    v
}

type D = Database<Sparse>;

fn page_no(p: &Page) -> u32 {
    p.header.page_index.offset(1) as u32
}

/// Visits the chain and compares with the expected pages and rows.
fn read(c: &Case, db: &mut D) -> Result<(), String> {
    let mut got = vec![];
    let mut end = Ok(());
    {
    let mut it = db.iter_pages(page_type(false, ENTRIES)).map_err(|e| e.to_string())?;
    loop {
        match it.next() {
            Ok(Some(p)) => got.push(page_no(p)),
            Ok(None) => break,
            Err(e) => {
                end = Err(e.to_string());
                break;
            }
        }
        if got.len() > 100 {
            return Err("endless".into());
        }
    }
    }
    let n = c.chain.windows(2).take_while(|w| w[0] < w[1]).count() + 1;
    if got != c.chain[..n] || end.is_ok() != c.sorted() {
        return Err(format!("visits pages {got:?}, ends with {end:?}, expected {:?}, {}", &c.chain[..n], if c.sorted() { "end" } else { "error" }));
    }
    let mut rows = vec![];
    let mut it = db.iter_rows::<PlaylistEntry>().map_err(|e| e.to_string())?;
    let end = loop {
        match it.next() {
            Ok(Some(r)) => rows.push((r.entry_index, r.track_id.0, r.playlist_id.0)),
            Ok(None) => break true,
            Err(_) => break false,
        }
    };
    let want: Vec<_> = c.chain[..n].iter().flat_map(|p| Case::rows(*p)).collect();
    if rows != want || end != c.sorted() {
        return Err(format!("rows {rows:?}, expected {want:?}"));
    }
    Ok(())
}

/// Loads pages and their neighbours one by one.
fn load(c: &Case, db: &mut D) -> Result<(), String> {
    for p in &c.chain {
        for q in [p - 1, *p, p + 1] {
            let r = db.load_page(PageIndex::try_from(q).unwrap());
            let want = match q {
                0 => None,
                q if q >= c.total => None,
                q if c.chain.contains(&q) => Some((q, 2)),
                _ => Some((0, 0)),
            };
            let got = match r {
                Ok(p) => Ok((page_no(p), p.content.as_data().map_or(99, |d| d.rows.len()))),
                Err(e) => Err(e.to_string()),
            };
            if got.as_ref().ok() != want.as_ref() {
                return Err(format!("load_page({q}) gives {got:?}, expected {want:?}"));
            }
        }
    }
    Ok(())
}

fn open(s: Store) -> Result<(D, Rc<RefCell<Store>>), String> {
    let store = Rc::new(RefCell::new(s));
    Database::open(Sparse { store: store.clone(), pos: 0 }, DatabaseType::Plain).map(|d| (d, store)).map_err(|e| format!("does not open: {e}"))
}

pub fn c06(ctx: &mut Ctx) {
    let v = cases(ctx.quick());
    ctx.bound(format!("{} databases of up to 262146 pages and pages of up to 2^32-1 bytes: chains of pages around 2^8, 2^12, 2^15, 2^16 (all pairs in both directions, triples), files to 64 GiB", v.len()));
    let vr = &v;
    ctx.par("large", v.len() as u64, |i, rec| {
        let c = &vr[i as usize];
        rec.count("states", 1);
        rec.count("traces", 2);
        let r = guard(|| -> Result<(), String> {
            let s = c.store();
            for order in 0..2 {
                let (mut db, store) = open(s.clone())?;
                for k in 0..2 {
                    rec.count("transitions", 1);
                    if (order + k) % 2 == 0 {
                        read(c, &mut db)?;
                    } else {
                        load(c, &mut db)?;
                    }
                }
                let d = store.borrow().diff(&s);
                if let Some(d) = d {
                    return Err(format!("reading changes the file: {d}"));
                }
            }
            Ok(())
        });
        match r {
            Ok(Ok(())) => rec.outcome("large"),
            Ok(Err(e)) => rec.fail("large", format!("{e}; {}", c.show())),
            Err(p) => rec.fail("large-panic", format!("{p}; {}", c.show())),
        }
    });
}

pub fn c07(ctx: &mut Ctx) {
    let v: Vec<Case> = cases(ctx.quick()).into_iter().filter(|c| c.sorted()).collect();
    ctx.bound(format!("{} databases of up to 262146 pages and pages of up to 2^32-1 bytes (files to 64 GiB): a row of each page around 2^8, 2^12, 2^15, 2^16 changed, one at a time and together, neighbouring pages loaded", v.len()));
    let vr = &v;
    ctx.par("large", v.len() as u64, |i, rec| {
        let c = &vr[i as usize];
        rec.count("states", 1);
        rec.count("traces", 1);
        let r = guard(|| -> Result<(), String> {
            let mut want = c.store();
            let (mut db, store) = open(want.clone())?;
            let same = |what: &str, want: &Store| match store.borrow().diff(want) {
                Some(d) => Err(format!("{what}: {d}")),
                None => Ok(()),
            };
            db.flush().map_err(|e| e.to_string())?;
            same("flush of an unread database", &want)?;
            load(c, &mut db)?;
            db.flush().map_err(|e| e.to_string())?;
            same("flush of unmodified pages", &want)?;
            let few: Vec<u32> = if c.chain.len() > 4 { vec![c.chain[0], c.chain[3], *c.chain.last().unwrap()] } else { c.chain.clone() };
            for p in few {
                rec.count("transitions", 1);
                let page = db.load_page(PageIndex::try_from(p).unwrap()).map_err(|e| e.to_string())?;
                let row = page.content.as_data_mut().unwrap().rows.get_mut(&12).ok_or("no row at 12")?;
                PlaylistEntry::from_row_mut(row).ok_or("no entry")?.entry_index = 0xabcd_0000 + p;
                same("a modification in memory", &want)?;
                db.flush().map_err(|e| e.to_string())?;
                want.put(u64::from(p) * c.ps + 0x28 + 12, &(0xabcd_0000 + p).to_le_bytes());
                same(&format!("flush after a change of page {p}"), &want)?;
            }
            {
                let mut it = db.iter_rows::<PlaylistEntry>().map_err(|e| e.to_string())?;
                while let Some(r) = it.next().map_err(|e| e.to_string())? {
                    if r.playlist_id.0 == 7 {
                        r.entry_index = 0x55aa_1122;
                    }
                }
            }
            db.get_header_mut().sequence = 0x1234_5678;
            same("a modification in memory", &want)?;
            db.close().map_err(|e| e.to_string())?;
            for p in &c.chain {
                want.put(u64::from(*p) * c.ps + 0x28, &0x55aa_1122u32.to_le_bytes());
            }
            want.put(20, &0x1234_5678u32.to_le_bytes());
            same("close after changes", &want)
        });
        match r {
            Ok(Ok(())) => rec.outcome("large"),
            Ok(Err(e)) => rec.fail("large", format!("{e}; {}", c.show())),
            Err(p) => rec.fail("large-panic", format!("{p}; {}", c.show())),
        }
    });
}
