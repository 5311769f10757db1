//! C07: histories of a database handle against a byte-level edit model.

use crate::c_chain::page_number;
use crate::c_rows::{page_type, public_values, row_kind, SAMPLE_PDBS};
use crate::engine::*;
use crate::refpdb::*;
use binrw::BinRead;
use fallible_iterator::FallibleIterator;
use rekordcrate::pdb::ext::*;
use rekordcrate::pdb::io::Database;
use rekordcrate::pdb::*;
use rekordcrate::util::TableIndex;
use std::cell::RefCell;
use std::io::{Cursor, Read, Result, Seek, SeekFrom, Write};
use std::rc::Rc;

/// An in-memory disk that outlives the handles opened on it and counts writes.
#[derive(Clone)]
pub struct Disk(pub Rc<RefCell<DiskState>>);
pub struct DiskState {
    pub bytes: Vec<u8>,
    pub writes: u64,
}
pub struct Dev {
    disk: Disk,
    pos: u64,
}
impl Disk {
    pub fn new(bytes: Vec<u8>) -> Disk {
        Disk(Rc::new(RefCell::new(DiskState { bytes, writes: 0 })))
    }
    pub fn dev(&self) -> Dev {
        Dev { disk: self.clone(), pos: 0 }
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.0.borrow().bytes.clone()
    }
    pub fn writes(&self) -> u64 {
        self.0.borrow().writes
    }
}
impl Read for Dev {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let d = self.disk.0.borrow();
        let at = (self.pos as usize).min(d.bytes.len());
        let n = buf.len().min(d.bytes.len() - at);
        buf[..n].copy_from_slice(&d.bytes[at..at + n]);
        self.pos += n as u64;
        Ok(n)
    }
}
impl Write for Dev {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        let mut d = self.disk.0.borrow_mut();
        d.writes += 1;
        let at = self.pos as usize;
        if buf.is_empty() {
            return Ok(0);
        }
        if d.bytes.len() < at + buf.len() {
            d.bytes.resize(at + buf.len(), 0);
        }
        d.bytes[at..at + buf.len()].copy_from_slice(buf);
        self.pos += buf.len() as u64;
        Ok(buf.len())
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}
impl Seek for Dev {
    fn seek(&mut self, p: SeekFrom) -> Result<u64> {
        let n = match p {
            SeekFrom::Start(x) => x as i128,
            SeekFrom::Current(x) => self.pos as i128 + x as i128,
            SeekFrom::End(x) => self.disk.0.borrow().bytes.len() as i128 + x as i128,
        };
        if n < 0 {
            return Err(std::io::ErrorKind::InvalidInput.into());
        }
        self.pos = n as u64;
        Ok(self.pos)
    }
}

const PS: usize = 0x300;
// Page numbers of the test database.
const T0: u32 = 1; // tracks: index, 2 data pages
const T1: u32 = 2;
const T2: u32 = 3;
const A0: u32 = 4; // artists: index, data
const A1: u32 = 5;
const P1: u32 = 7; // playlist tree: index (6), data
const U1: u32 = 9; // unknown table: index (8), data

/// The base image.
fn base(kind: u32) -> Vec<u8> {
    let mut db = Db::new(PS);
    db.filler = 0x6b;
    let t = |id: u32, title: &str| track(id, id * 2, title, &format!("/Contents/{title}.mp3"));
    db.table(0, &[vec![(t(1, "one"), true), (t(2, "two"), false), (t(3, "three"), true)], vec![(t(4, "four"), true)]]);
    db.table(2, &[vec![(artist(2, "alpha"), true), (artist(6, "beta"), true)]]);
    db.table(7, &[vec![(tree_node(0, 0, 1, 1, "root folder"), true), (tree_node(1, 0, 2, 0, "list"), true)]]);
    db.table(77, &[vec![(vec![0xd7; 16], true), (vec![0xd8; 12], false)]]);
    let mut b = db.bytes();
    match kind {
        1 => {
            // the header claims fewer pages than the file has, and there are trailing bytes
            b[12..16].copy_from_slice(&8u32.to_le_bytes());
            b.extend_from_slice(&[0xf1; 777]);
        }
        2 => {
            // the unused rest of the header page is not zero, more pages are claimed than exist
            let h = 28 + 4 * 16;
            for (i, x) in b[h..PS].iter_mut().enumerate() {
                *x = i as u8 | 1;
            }
            b[12..16].copy_from_slice(&40u32.to_le_bytes());
        }
        _ => (),
    }
    b
}

fn at(page: u32, off: usize) -> usize {
    page as usize * PS + off
}

/// The reference: what the disk holds and what the handle shows.
#[derive(Clone)]
struct Model {
    disk: Vec<u8>,
    mem: Vec<u8>,
    /// Offsets of reservations that no present row follows yet: (page, row number, offset).
    pending: Vec<(u32, u16, u16)>,
    npages: u32,
}

impl Model {
    fn g16(&self, i: usize) -> u16 {
        u16::from_le_bytes([self.mem[i], self.mem[i + 1]])
    }
    fn g32(&self, i: usize) -> u32 {
        u32::from_le_bytes(self.mem[i..i + 4].try_into().unwrap())
    }
    fn p16(&mut self, i: usize, v: u16) {
        self.mem[i..i + 2].copy_from_slice(&v.to_le_bytes());
    }
    fn p32(&mut self, i: usize, v: u32) {
        self.mem[i..i + 4].copy_from_slice(&v.to_le_bytes());
    }
    fn counts(&self, page: u32) -> (u16, u16) {
        let w = self.g32(at(page, 24)) & 0xff_ffff;
        ((w & 0x1fff) as u16, (w >> 13) as u16)
    }
    fn set_counts(&mut self, page: u32, c: (u16, u16)) {
        let w = c.0 as u32 | (c.1 as u32) << 13;
        let i = at(page, 24);
        self.mem[i..i + 3].copy_from_slice(&w.to_le_bytes()[..3]);
    }
    fn grp_end(&self, page: u32, row: u16) -> usize {
        at(page, PS) - 36 * (row as usize / 16)
    }
    /// (row number, offset) of present rows, by address.
    fn rows(&self, page: u32) -> Vec<(u16, u16)> {
        let n = self.counts(page).0;
        let mut v = vec![];
        for r in 0..n {
            let end = self.grp_end(page, r);
            if self.g16(end - 4) >> (r % 16) & 1 == 1 {
                v.push((r, self.g16(end - 4 - 2 * (r as usize % 16 + 1))));
            }
        }
        v.sort_by_key(|x| x.1);
        v
    }
    fn row_at(&self, page: u32, k: usize) -> Option<(u16, usize)> {
        let (r, o) = *self.rows(page).get(k)?;
        Some((r, at(page, HEAP + o as usize)))
    }
    fn has(&self, page: u32) -> bool {
        page >= 1 && page <= self.npages && at(page + 1, 0) <= self.mem.len()
    }
    /// (granted)
    fn add(&mut self, page: u32, bytes: u16, row: Option<&[u8]>) -> bool {
        let a = bytes.div_ceil(4) * 4;
        let free = self.g16(at(page, 28));
        if free < a + 6 {
            return false;
        }
        let (n, v) = self.counts(page);
        let used = self.g16(at(page, 30));
        let end = self.grp_end(page, n);
        let mut nf = free - a - 2;
        if n % 16 == 0 {
            nf -= 4;
            self.p16(end - 4, 0);
            self.p16(end - 2, 0);
        }
        self.p16(at(page, 28), nf);
        self.p16(at(page, 30), used + a);
        self.set_counts(page, (n + 1, v + u16::from(row.is_some())));
        match row {
            Some(r) => {
                let g = n / 16;
                let earlier: Vec<_> = self.pending.iter().filter(|p| p.0 == page && p.1 / 16 == g).copied().collect();
                self.pending.retain(|p| !(p.0 == page && p.1 / 16 == g));
                for (_, rr, o) in earlier {
                    self.p16(end - 4 - 2 * (rr as usize % 16 + 1), o);
                }
                self.p16(end - 4 - 2 * (n as usize % 16 + 1), used);
                let f = self.g16(end - 4) | 1 << (n % 16);
                self.p16(end - 4, f);
                let h = at(page, HEAP + used as usize);
                self.mem[h..h + r.len()].copy_from_slice(r);
            }
            None => self.pending.push((page, n, used)),
        }
        true
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Pages(u32),
    Rows,
    Load(u32),
    /// Rating of the k-th track (in iteration order).
    Rating(usize),
    /// IDs of the first track.
    Ids,
    /// Artist id and name (same length).
    Artist,
    /// Node name (shorter) and parent.
    Node,
    Sequence,
    /// First page pointer of a table in the header.
    TablePtr,
    /// unknown1 of the header of a page.
    PageField(u32),
    /// Flags, next page and free size of a data page's header.
    PageFlags,
    /// Changes an index entry and header of the index page.
    Index,
    AddArtist,
    ReserveArtist,
    AddTrack,
    /// Deletes the first present artist the way the format does.
    Delete,
    Flush,
    /// Drop the handle without flushing and open again.
    Reopen,
    Close,
    BadLoad,
}

const NEW_ARTIST: u32 = 0x0bad_cafe;

fn parse_row(t: u32, b: &[u8]) -> Row {
    Row::read_le_args(&mut Cursor::new(b), (page_type(false, t),)).unwrap()
}

type D = Database<Dev>;

fn open(disk: &Disk, persistent: bool) -> std::result::Result<D, String> {
    if persistent {
        Database::open(disk.dev(), DatabaseType::Plain).map_err(|e| e.to_string())
    } else {
        Database::open_non_persistent(disk.dev(), DatabaseType::Plain).map_err(|e| e.to_string())
    }
}

fn table_of(m: &Model, t: u32) -> Vec<u32> {
    // chains of the test database; pages beyond the claimed number do not exist
    let all: &[u32] = match t {
        0 => &[T0, T1, T2],
        2 => &[A0, A1],
        7 => &[P1 - 1, P1],
        _ => &[U1 - 1, U1],
    };
    all.iter().copied().take_while(|p| m.has(*p)).collect()
}

fn chain_complete(m: &Model, t: u32) -> bool {
    table_of(m, t).len() == if t == 0 { 3 } else { 2 }
}

fn tracks(m: &Model) -> Vec<usize> {
    let mut v = vec![];
    for p in [T1, T2] {
        for (_, o) in m.rows(p) {
            v.push(at(p, HEAP + o as usize));
        }
    }
    v
}

fn want<T: PartialEq + std::fmt::Debug>(what: &str, got: T, exp: T) -> std::result::Result<(), String> {
    if got == exp {
        Ok(())
    } else {
        Err(format!("{what}: {got:?}, expected {exp:?}"))
    }
}

fn check_rows(db: &mut D, m: &Model) -> std::result::Result<(), String> {
    let s = spec("Track");
    let p = |n: &str| s.build(&RowVal { vals: s.default_vals(0), strs: vec![vec![3]; 21], offs: None }).pos[s.fields.iter().position(|f| f.0 == n).unwrap()];
    let (pid, prat, part) = (p("id"), p("rating"), p("artist_id"));
    let mut got = vec![];
    {
        let mut it = db.iter_rows::<Track>().map_err(|e| e.to_string())?;
        while let Some(t) = it.next().map_err(|e| e.to_string())? {
            got.push((t.id.0, t.artist_id.0, t.rating));
        }
    }
    let exp: Vec<_> = tracks(m)
        .iter()
        .map(|i| (m.g32(i + pid), m.g32(i + part), m.mem[i + prat]))
        .collect();
    want("tracks", got, exp)?;
    let mut got = vec![];
    {
        let mut it = db.iter_rows::<Artist>().map_err(|e| e.to_string())?;
        while let Some(t) = it.next().map_err(|e| e.to_string())? {
            got.push((t.id.0, t.offsets.name.to_string()));
        }
    }
    let exp: Vec<_> = m
        .rows(A1)
        .iter()
        .map(|(_, o)| {
            let i = at(A1, HEAP + *o as usize);
            let so = m.mem[i + 9] as usize;
            let len = (m.mem[i + so] >> 1) as usize - 1;
            (m.g32(i + 4), String::from_utf8(m.mem[i + so + 1..i + so + 1 + len].to_vec()).unwrap())
        })
        .collect();
    want("artists", got, exp)?;
    let mut got = vec![];
    if chain_complete(m, 7) {
        let mut it = db.iter_rows::<PlaylistTreeNode>().map_err(|e| e.to_string())?;
        while let Some(t) = it.next().map_err(|e| e.to_string())? {
            got.push((t.parent_id.0, t.id.0, t.name.to_string()));
        }
        let exp: Vec<_> = m
            .rows(P1)
            .iter()
            .map(|(_, o)| {
                let i = at(P1, HEAP + *o as usize);
                let len = (m.mem[i + 20] >> 1) as usize - 1;
                (m.g32(i), m.g32(i + 12), String::from_utf8(m.mem[i + 21..i + 21 + len].to_vec()).unwrap())
            })
            .collect();
        want("playlist nodes", got, exp)?;
    }
    let h = db.get_header();
    want("sequence", h.sequence, m.g32(20))?;
    for (i, t) in h.tables.iter().enumerate() {
        want("table", t.first_page.offset(1), m.g32(28 + 16 * i + 8) as u64)?;
    }
    Ok(())
}

/// Applies the operation to handle and model. Ok(false): not applicable in this state.
fn apply(op: Op, db: &mut Option<D>, m: &mut Model, disk: &Disk, persistent: bool) -> std::result::Result<(), String> {
    let e = |x: rekordcrate::util::RekordcrateError| x.to_string();
    let d = db.as_mut().unwrap();
    let s = spec("Track");
    let tpos = |n: &str| s.build(&RowVal { vals: s.default_vals(0), strs: vec![vec![3]; 21], offs: None }).pos[s.fields.iter().position(|f| f.0 == n).unwrap()];
    match op {
        Op::Pages(t) => {
            let mut got = vec![];
            let ti = [0u32, 2, 7, 77].iter().position(|x| *x == t).unwrap();
            let mut it = d.iter_pages_for_table(TableIndex::from(ti)).map_err(e)?;
            let mut ok = true;
            loop {
                match it.next() {
                    Ok(Some(p)) => got.push(page_number(p)),
                    Ok(None) => break,
                    Err(_) => {
                        ok = false;
                        break;
                    }
                }
            }
            want("pages", (got, ok), (table_of(m, t), chain_complete(m, t)))
        }
        Op::Rows => check_rows(d, m),
        Op::Load(p) => {
            let r = d.load_page(PageIndex::try_from(p).unwrap()).map(|p| (page_number(p), p.header.unknown1));
            match r {
                Ok(x) if m.has(p) => want("page", x, (p, m.g32(at(p, 16)))),
                Err(_) if !m.has(p) => Ok(()),
                r => Err(format!("load_page({p}): {r:?}")),
            }
        }
        Op::BadLoad => {
            for p in [0u32, 41, 1000, 0x03ff_fffe] {
                if d.load_page(PageIndex::try_from(p).unwrap()).is_ok() {
                    return Err(format!("page {p} loaded"));
                }
            }
            Ok(())
        }
        Op::Rating(k) => {
            let ts = tracks(m);
            if let Some(i) = ts.get(k) {
                let mut it = d.iter_rows::<Track>().map_err(e)?;
                let t = it.nth(k).map_err(e)?.ok_or("track missing")?;
                t.rating = t.rating.wrapping_add(1 + k as u8);
                let i = i + tpos("rating");
                m.mem[i] = m.mem[i].wrapping_add(1 + k as u8);
            }
            Ok(())
        }
        Op::Ids => {
            if let Some(i) = tracks(m).first().copied() {
                let mut it = d.iter_rows::<Track>().map_err(e)?;
                let t = it.next().map_err(e)?.ok_or("track missing")?;
                t.id.0 = t.id.0.wrapping_mul(3).wrapping_add(0x0101_0000);
                t.artist_id = ArtistId(!t.artist_id.0);
                let v = m.g32(i + tpos("id")).wrapping_mul(3).wrapping_add(0x0101_0000);
                m.p32(i + tpos("id"), v);
                let v = !m.g32(i + tpos("artist_id"));
                m.p32(i + tpos("artist_id"), v);
            }
            Ok(())
        }
        Op::Artist => {
            if let Some((_, i)) = m.row_at(A1, 0) {
                let mut it = d.iter_rows::<Artist>().map_err(e)?;
                let a = it.next().map_err(e)?.ok_or("artist missing")?;
                a.id = ArtistId(a.id.0.wrapping_add(5));
                let name: String = a.offsets.name.to_string().chars().rev().collect();
                a.offsets.inner.name = name.parse().unwrap();
                let v = m.g32(i + 4).wrapping_add(5);
                m.p32(i + 4, v);
                let so = m.mem[i + 9] as usize;
                let len = (m.mem[i + so] >> 1) as usize - 1;
                m.mem[i + so + 1..i + so + 1 + len].reverse();
            }
            Ok(())
        }
        Op::Node => {
            if !chain_complete(m, 7) {
                return Ok(());
            }
            if let Some((_, i)) = m.row_at(P1, 0) {
                let mut it = d.iter_rows::<PlaylistTreeNode>().map_err(e)?;
                let n = it.next().map_err(e)?.ok_or("node missing")?;
                let old = n.name.to_string();
                let new = if old.is_empty() { String::new() } else { old[1..].to_string() };
                n.name = new.parse().unwrap();
                n.parent_id = PlaylistTreeNodeId(n.parent_id.0 + 9);
                let v = m.g32(i) + 9;
                m.p32(i, v);
                let b = crate::c_string::ref_encode(&new).unwrap();
                // only the string that is flushed reaches the disk, not the ones in between
                let end = i + 21 + old.len();
                let disk = m.disk[i + 20..end].to_vec();
                m.mem[i + 20..end].copy_from_slice(&disk);
                m.mem[i + 20..i + 20 + b.len()].copy_from_slice(&b);
            }
            Ok(())
        }
        Op::Sequence => {
            d.get_header_mut().sequence += 3;
            let v = m.g32(20) + 3;
            m.p32(20, v);
            Ok(())
        }
        Op::TablePtr => {
            // the unknown table now starts at its data page (or back again)
            let t = d.get_header_mut().tables.get_mut(3).ok_or("no table")?;
            let v = if t.first_page.offset(1) == 0x1234 { 8 } else { 0x1234 };
            t.first_page = PageIndex::try_from(v).unwrap();
            m.p32(28 + 16 * 3 + 8, v);
            d.get_header_mut().unknown ^= 0xff00;
            let v = m.g32(16) ^ 0xff00;
            m.p32(16, v);
            Ok(())
        }
        Op::PageField(p) => {
            if !m.has(p) {
                return Ok(());
            }
            let pg = d.load_page(PageIndex::try_from(p).unwrap()).map_err(e)?;
            pg.header.unknown1 = pg.header.unknown1.wrapping_add(0x0100_0001);
            let v = m.g32(at(p, 16)).wrapping_add(0x0100_0001);
            m.p32(at(p, 16), v);
            Ok(())
        }
        Op::PageFlags => {
            let pg = d.load_page(PageIndex::try_from(T2).unwrap()).map_err(e)?;
            let x = !pg.header.page_flags.contains_deleted();
            pg.header.page_flags.set_contains_deleted(x);
            pg.header.unknown2 ^= 0x8000_0000;
            if let Some(c) = pg.content.as_data_mut() {
                c.header.unknown7 ^= 0x55aa;
                if let Some(g) = c.row_groups.first_mut() {
                    g.unknown ^= 0x0ff0;
                }
            }
            let i = at(T2, 27);
            m.mem[i] ^= 0x10;
            let v = m.g32(at(T2, 20)) ^ 0x8000_0000;
            m.p32(at(T2, 20), v);
            let v = m.g16(at(T2, 0x26)) ^ 0x55aa;
            m.p16(at(T2, 0x26), v);
            let v = m.g16(at(T2, PS - 2)) ^ 0x0ff0;
            m.p16(at(T2, PS - 2), v);
            Ok(())
        }
        Op::Index => {
            let pg = d.load_page(PageIndex::try_from(T0).unwrap()).map_err(e)?;
            let ix = pg.content.as_index_mut().ok_or("not an index page")?;
            let n = ix.entries.len();
            if n < 8 {
                ix.entries.push(IndexEntry::try_from((PageIndex::try_from(30 + n as u32).unwrap(), 1)).unwrap());
                ix.header.num_entries += 1;
                ix.header.next_offset += 1;
                m.p32(at(T0, 60 + 4 * n), (30 + n as u32) << 3 | 1);
                let v = m.g16(at(T0, 56)) + 1;
                m.p16(at(T0, 56), v);
                let v = m.g16(at(T0, 38)) + 1;
                m.p16(at(T0, 38), v);
            }
            Ok(())
        }
        Op::AddArtist | Op::ReserveArtist => {
            let row = artist(NEW_ARTIST, "new");
            let pg = d.load_page(PageIndex::try_from(A1).unwrap()).map_err(e)?;
            let put = op == Op::AddArtist;
            let got = match pg.allocate_row(row.len() as u16) {
                None => false,
                Some(f) => {
                    if put {
                        f(parse_row(2, &row));
                    }
                    true
                }
            };
            want("row granted", got, m.add(A1, row.len() as u16, put.then_some(&row[..])))
        }
        Op::AddTrack => {
            let row = track(77, 78, "new", "/n");
            let pg = d.load_page(PageIndex::try_from(T2).unwrap()).map_err(e)?;
            let got = match pg.allocate_row(row.len() as u16) {
                None => false,
                Some(f) => {
                    f(parse_row(0, &row));
                    true
                }
            };
            want("row granted", got, m.add(T2, row.len() as u16, Some(&row)))
        }
        Op::Delete => {
            let rows = m.rows(A1);
            if let Some((r, o)) = rows.first().copied() {
                let pg = d.load_page(PageIndex::try_from(A1).unwrap()).map_err(e)?;
                let v = pg.header.packed_row_counts.num_rows_valid();
                pg.header.packed_row_counts.set_num_rows_valid(v - 1);
                pg.header.page_flags.set_contains_deleted(true);
                let c = pg.content.as_data_mut().ok_or("not a data page")?;
                if c.rows.remove(&o).is_none() {
                    return Err(format!("no row at {o:#x}"));
                }
                c.row_groups[r as usize / 16].row_presence_flags &= !(1 << (r % 16));
                let (n, v) = m.counts(A1);
                m.set_counts(A1, (n, v - 1));
                m.mem[at(A1, 27)] |= 0x10;
                let end = m.grp_end(A1, r);
                let f = m.g16(end - 4) & !(1 << (r % 16));
                m.p16(end - 4, f);
                // neither are the slots behind the last present row of the group
                let (g, f) = (r / 16, m.g16(end - 4));
                let first = g * 16 + (16 - f.leading_zeros() as u16);
                for x in first..n.min(g * 16 + 16) {
                    let i = end - 4 - 2 * (x as usize % 16 + 1);
                    if !m.pending.iter().any(|p| (p.0, p.1) == (A1, x)) {
                        let v = m.g16(i);
                        m.pending.push((A1, x, v));
                    }
                    let old = u16::from_le_bytes([m.disk[i], m.disk[i + 1]]);
                    m.p16(i, old);
                }
                // the space of a deleted row is not written any more: pending modifications of it are gone
                let i = at(A1, HEAP + o as usize);
                let so = m.mem[i + 9] as usize;
                let len = so + (m.mem[i + so] >> 1) as usize;
                let old = m.disk[i..i + len].to_vec();
                m.mem[i..i + len].copy_from_slice(&old);
            }
            Ok(())
        }
        Op::Flush | Op::Close => {
            if op == Op::Flush {
                d.flush().map_err(e)?;
            } else {
                db.take().unwrap().close().map_err(e)?;
            }
            m.disk = m.mem.clone();
            let got = disk.bytes();
            if got.len() != m.disk.len() {
                return Err(format!("file has {} bytes, expected {}", got.len(), m.disk.len()));
            }
            if let Some(i) = (0..got.len()).find(|i| got[*i] != m.disk[*i]) {
                return Err(format!("after {op:?} byte {:#x} of page {} is {:02x}, expected {:02x}", i % PS, i / PS, got[i], m.disk[i]));
            }
            if op == Op::Close {
                m.pending.clear();
                *db = Some(open(disk, persistent)?);
            }
            Ok(())
        }
        Op::Reopen => {
            *db = None;
            m.mem = m.disk.clone();
            m.pending.clear();
            *db = Some(open(disk, persistent)?);
            Ok(())
        }
    }
}

fn run(rec: &mut Rec, kind: u32, base: &[u8], ops: &[Op], persistent: bool) -> bool {
    rec.count("traces", 1);
    let disk = Disk::new(base.to_vec());
    let np = u32::from_le_bytes(base[12..16].try_into().unwrap()) - 1;
    let mut m = Model { disk: base.to_vec(), mem: base.to_vec(), pending: vec![], npages: np };
    let mut db = match guard(|| open(&disk, persistent)) {
        Ok(Ok(d)) => Some(d),
        Ok(Err(e)) => {
            rec.fail("open", format!("{e}, base {kind}"));
            return false;
        }
        Err(e) => {
            rec.fail("panic", format!("{e}, base {kind}"));
            return false;
        }
    };
    let tail = [Op::Rows, Op::Flush, Op::Reopen, Op::Rows, Op::Pages(0), Op::Pages(77), Op::Close, Op::Rows];
    let mut done: Vec<Op> = vec![];
    for op in ops.iter().chain(if persistent { &tail[..] } else { &tail[..1] }) {
        rec.count("transitions", 1);
        let w0 = disk.writes();
        if *op == Op::Pages(77) && m.g32(28 + 16 * 3 + 8) == 0x1234 {
            continue;
        }
        let r = guard(|| apply(*op, &mut db, &mut m, &disk, persistent));
        done.push(*op);
        let err = match r {
            Ok(Ok(())) => {
                if !matches!(op, Op::Flush | Op::Close) && disk.writes() != w0 {
                    Some(("wrote", "an operation other than flush or close writes".to_string()))
                } else {
                    None
                }
            }
            Ok(Err(e)) => Some((if matches!(op, Op::Flush | Op::Close) { "disk" } else { "view" }, e)),
            Err(p) => Some(("panic", p)),
        };
        if let Some((k, e)) = err {
            rec.fail(k, format!("{e}; operations {done:?} on base image {kind}{}", if persistent { "" } else { " (non-persistent)" }));
            return false;
        }
    }
    let w0 = disk.writes();
    drop(db);
    if disk.writes() != w0 || disk.bytes() != m.disk {
        rec.fail("drop", format!("dropping the handle changes the file; operations {done:?}"));
        return false;
    }
    true
}

fn digits(mut x: u64, base: u64, n: usize) -> Vec<usize> {
    (0..n)
        .map(|_| {
            let d = x % base;
            x /= base;
            d as usize
        })
        .collect()
}

pub fn c07(ctx: &mut Ctx) {
    ctx.level = "model_checking";
    ctx.rule = "states = (base image, operation prefix) pairs, each a model state (disk bytes, handle bytes); transitions = operations executed on the real handle and on the byte-level edit model, compared after each; traces = complete histories replayed from opening to reopening".into();
    ctx.assume("modified strings are not longer than before (longer ones would overlap the next row by construction)");
    let ops = [
        Op::Flush, Op::Rating(0), Op::Rating(2), Op::Load(T1), Op::AddArtist, Op::ReserveArtist, Op::Delete, Op::Reopen, Op::Close, Op::Pages(0), Op::Sequence,
        Op::Artist, Op::Index, Op::PageField(U1), Op::Ids, Op::Node, Op::AddTrack, Op::PageFlags, Op::TablePtr, Op::Rows, Op::BadLoad, Op::PageField(T2), Op::Load(A0), Op::Pages(77),
    ];
    let nb = ops.len() as u64;
    ctx.bound(format!("every sequence of 4 operations out of {ops:?} on 3 base images (claimed page count exact / too small with trailing bytes / too large with a non-zero header page), followed by read, flush, reopen, read, close, read"));
    let bases: Vec<Vec<u8>> = (0..3).map(base).collect();
    let br = &bases;
    let opsr = &ops;
    let all = |ctx: &mut Ctx, section: &str, depth: u32, kinds: u64| {
        ctx.par(section, kinds * nb * nb, |i, rec| {
            let kind = (i % kinds) as u32;
            let (a, b) = ((i / kinds % nb) as usize, (i / kinds / nb) as usize);
            for r in 0..nb.pow(depth - 2) {
                let mut seq = vec![opsr[a], opsr[b]];
                seq.extend(digits(r, nb, depth as usize - 2).iter().map(|d| opsr[*d]));
                rec.count("states", 1);
                if !run(rec, kind, &br[kind as usize], &seq, true) {
                    return;
                }
            }
            rec.outcome(&format!("base {kind}"));
            rec.sample(|| format!("base {kind}: {:?} {:?} ...", opsr[a], opsr[b]));
        });
    };
    all(ctx, "histories", 4, 3);
    if !ctx.quick() {
        ctx.bound("every sequence of 5 of these operations on the first base image");
        all(ctx, "deep-histories", 5, 1);
    }
    // longer histories over the operations that touch one page
    let core = [Op::AddArtist, Op::ReserveArtist, Op::Delete, Op::Flush, Op::Reopen, Op::Artist];
    let cdepth = ctx.pick(7usize, 8);
    ctx.bound(format!("every sequence of {cdepth} operations out of {core:?}"));
    let nc = core.len() as u64;
    ctx.par("page-histories", nc * nc * nc, |i, rec| {
        let head: Vec<Op> = digits(i, nc, 3).iter().map(|d| core[*d]).collect();
        for r in 0..nc.pow(cdepth as u32 - 3) {
            let mut seq = head.clone();
            seq.extend(digits(r, nc, cdepth - 3).iter().map(|d| core[*d]));
            rec.count("states", 1);
            if !run(rec, 0, &br[0], &seq, true) {
                return;
            }
        }
    });
    // non-persistent handles
    ctx.bound("every sequence of 3 operations (without flush and close) on a non-persistent handle");
    let np: Vec<Op> = ops.iter().copied().filter(|o| !matches!(o, Op::Flush | Op::Close)).collect();
    let npr = &np;
    ctx.par("non-persistent", (np.len() as u64).pow(2), |i, rec| {
        let n = npr.len() as u64;
        for k in 0..n {
            let seq = [npr[(i % n) as usize], npr[(i / n) as usize], npr[k as usize]];
            rec.count("states", 1);
            if !run(rec, 0, &br[0], &seq, false) {
                return;
            }
        }
    });
    // filling a page through a handle
    ctx.par("fill", 64, |i, rec| {
        let mut seq = vec![];
        for k in 0..60 {
            seq.push(if i >> (k % 6) & 1 == 1 { Op::ReserveArtist } else { Op::AddArtist });
            if k % 11 == 5 {
                seq.push([Op::Flush, Op::Reopen, Op::Close][k / 11 % 3]);
            }
        }
        rec.count("states", 1);
        run(rec, 0, &br[0], &seq, true);
    });
    // real databases: page by page, and one modification at a time
    ctx.bound("the sample databases: every single page loaded and flushed, all pages loaded and flushed, every row of every public-field type modified on its own");
    samples(ctx);
    // the database of a device, in a real file
    ctx.bound("a device directory: every sequence of 3 operations on the database opened through the device (nothing reaches the file), and the file edited through a persistent handle");
    ctx.par("device", (np.len() as u64).pow(2), |i, rec| {
        let n = npr.len() as u64;
        let dir = std::env::temp_dir().join(format!("rcv-device-{}", std::process::id()));
        let r = guard(|| device(rec, &dir, &br[0], &[npr[(i % n) as usize], npr[(i / n) as usize]], npr));
        let _ = std::fs::remove_dir_all(&dir);
        match r {
            Ok(Ok(())) => (),
            Ok(Err(e)) => rec.fail("device", e),
            Err(p) => rec.fail("device-panic", p),
        }
    });
    crate::c_large::c07(ctx);
}

fn device(rec: &mut Rec, dir: &std::path::Path, image: &[u8], head: &[Op], all: &[Op]) -> std::result::Result<(), String> {
    let text = |e: std::io::Error| format!("scratch: {e}");
    let loader = rekordcrate::DeviceExportLoader::new(dir.to_path_buf());
    if loader.get_path() != dir {
        return Err(format!("the path of the device is {:?}", loader.get_path()));
    }
    if loader.open_pdb_non_persistent().is_ok() {
        return Err("a database is opened on a device that does not exist".into());
    }
    let sub = dir.join("PIONEER").join("rekordbox");
    std::fs::create_dir_all(&sub).map_err(text)?;
    if loader.open_pdb_non_persistent().is_ok() {
        return Err("a database is opened on a device without one".into());
    }
    let file = sub.join("export.pdb");
    // other files of a device are not the database
    std::fs::write(sub.join("exportExt.pdb"), b"x").map_err(text)?;
    std::fs::write(dir.join("PIONEER").join("export.pdb"), b"x").map_err(text)?;
    std::fs::write(&file, image).map_err(text)?;
    for last in all.iter().take(6) {
        let seq = [head[0], head[1], *last];
        rec.count("states", 1);
        rec.count("traces", 1);
        {
            let mut db = loader.open_pdb_non_persistent().map_err(|e| format!("open: {e}"))?;
            let mut twin = Database::open_non_persistent(Cursor::new(image), DatabaseType::Plain).map_err(|e| e.to_string())?;
            for op in seq {
                rec.count("transitions", 1);
                match op {
                    Op::Rating(_) | Op::Artist | Op::Ids | Op::Node => {
                        let (mut a, mut b) = (vec![], vec![]);
                        macro_rules! touch {
                            ($db:ident, $out:ident) => {{
                                let mut it = $db.iter_rows::<Track>().map_err(|e| e.to_string())?;
                                while let Some(t) = it.next().map_err(|e| e.to_string())? {
                                    t.rating ^= 1;
                                    $out.push(format!("{t:?}"));
                                }
                            }};
                        }
                        touch!(db, a);
                        touch!(twin, b);
                        if a != b {
                            return Err(format!("the tracks of the device read {a:?} instead of {b:?}"));
                        }
                    }
                    Op::Pages(_) | Op::Rows | Op::Sequence | Op::Load(_) | Op::Index => {
                        for p in 1..8 {
                            let pi = PageIndex::try_from(p).unwrap();
                            let a = db.load_page(pi).map(|p| p.clone()).map_err(|_| ());
                            let b = twin.load_page(pi).map(|p| p.clone()).map_err(|_| ());
                            if a != b {
                                return Err(format!("page {p} of the device reads {a:?} instead of {b:?}"));
                            }
                        }
                    }
                    _ => {
                        let n = db.get_header().tables.len();
                        let h = db.get_header_mut();
                        h.sequence ^= 1;
                        h.tables.truncate(n);
                    }
                }
            }
        }
        if std::fs::read(&file).map_err(text)? != image {
            return Err(format!("operations on a non-persistent database change the file: {seq:?}"));
        }
    }
    // a persistent handle on the same file
    let open = || std::fs::OpenOptions::new().read(true).write(true).open(&file).map_err(text);
    let mut want = image.to_vec();
    {
        let mut db = Database::open(open()?, DatabaseType::Plain).map_err(|e| format!("open: {e}"))?;
        db.get_header_mut().sequence ^= 0x0101;
        if std::fs::read(&file).map_err(text)? != want {
            return Err("an unflushed modification reaches the file".into());
        }
        db.close().map_err(|e| format!("close: {e}"))?;
    }
    want[20] ^= 1;
    want[21] ^= 1;
    if std::fs::read(&file).map_err(text)? != want {
        return Err("the file does not hold exactly the modification after closing".into());
    }
    let db = loader.open_pdb_non_persistent().map_err(|e| format!("reopen: {e}"))?;
    if db.get_header().sequence != u32::from_le_bytes(want[20..24].try_into().unwrap()) {
        return Err("reopening shows another sequence number".into());
    }
    Ok(())
}

fn modify(rec: &mut Rec, row: &mut Row, n: u32) -> bool {
    let _ = rec;
    match row {
        Row::Plain(PlainRow::Track(t)) => {
            t.rating ^= 0x5a;
            t.id.0 ^= n;
            t.artist_id.0 ^= 0x0101;
        }
        Row::Plain(PlainRow::Artist(a)) => a.id.0 ^= n,
        Row::Plain(PlainRow::PlaylistTreeNode(t)) => {
            t.id.0 ^= n;
            t.parent_id.0 ^= !n;
        }
        Row::Plain(PlainRow::PlaylistEntry(t)) => {
            t.entry_index ^= n;
            t.track_id.0 ^= 3;
            t.playlist_id.0 ^= !n;
        }
        Row::Plain(PlainRow::Menu(t)) => {
            t.category_id ^= n as u16;
            t.content_pointer ^= 0x1111;
            t.unknown ^= 1;
            t.sort_order = !t.sort_order;
            t.visibility = MenuVisibility::Unknown(0x77);
        }
        Row::Ext(ExtRow::Tag(t)) => {
            t.index_shift ^= 0x0101;
            t.unknown1 ^= n;
            t.unknown2 ^= !n;
            t.position ^= n;
            t.id.0 ^= n;
            t.raw_is_category ^= 1;
        }
        Row::Ext(ExtRow::TrackTag(t)) => {
            t.track_id.0 ^= n;
            t.tag_id.0 ^= !n;
            t.unknown_const ^= 0xf0;
        }
        _ => return false,
    }
    true
}

fn samples(ctx: &mut Ctx) {
    let mut jobs: Vec<(usize, u32)> = vec![];
    let files: Vec<Vec<u8>> = SAMPLE_PDBS.iter().map(|(p, _)| std::fs::read(format!("/repo/{p}")).unwrap_or_default()).collect();
    for (f, b) in files.iter().enumerate() {
        if b.len() < 32 {
            continue;
        }
        let ps = u32::from_le_bytes(b[4..8].try_into().unwrap());
        for p in 0..(b.len() as u32 / ps) {
            jobs.push((f, p));
        }
    }
    let (fr, jr) = (&files, &jobs);
    ctx.par("samples", jobs.len() as u64, |i, rec| {
        let (f, page) = jr[i as usize];
        let (name, ext) = SAMPLE_PDBS[f];
        let kind = if ext { DatabaseType::Ext } else { DatabaseType::Plain };
        let orig = &fr[f];
        let ps = u32::from_le_bytes(orig[4..8].try_into().unwrap()) as usize;
        let disk = Disk::new(orig.clone());
        rec.count("states", 1);
        let r = guard(|| -> std::result::Result<(), String> {
            let mut db = Database::open(disk.dev(), kind).map_err(|e| e.to_string())?;
            if page == 0 {
                // all tables loaded, nothing modified
                let n = db.get_header().tables.len();
                for t in 0..n {
                    let mut it = db.iter_pages_for_table(TableIndex::from(t)).map_err(|e| e.to_string())?;
                    while it.next().map_err(|e| format!("table {t}: {e}"))?.is_some() {}
                }
                db.flush().map_err(|e| e.to_string())?;
                let b = disk.bytes();
                if b != *orig {
                    let x = (0..b.len().min(orig.len())).find(|x| b[*x] != orig[*x]);
                    return Err(format!("flushing the unmodified database changes byte {x:x?} ({} bytes instead of {})", b.len(), orig.len()));
                }
                return Ok(());
            }
            let Ok(pg) = db.load_page(PageIndex::try_from(page).unwrap()) else { return Ok(()) };
            let offs: Vec<u16> = pg.content.as_data().map(|d| d.rows.keys().copied().collect()).unwrap_or_default();
            db.flush().map_err(|e| e.to_string())?;
            if disk.bytes() != *orig {
                return Err("flushing one loaded page changes the file".into());
            }
            // modify each row alone
            let mut prev = orig.clone();
            for (k, o) in offs.iter().enumerate().take(40) {
                let pg = db.load_page(PageIndex::try_from(page).unwrap()).map_err(|e| e.to_string())?;
                let row = pg.content.as_data_mut().unwrap().rows.get_mut(o).unwrap();
                if !modify(rec, row, 0x01020304 + k as u32) {
                    break;
                }
                let (kind_name, want) = (row_kind(row), public_values(row));
                db.flush().map_err(|e| e.to_string())?;
                rec.count("transitions", 1);
                rec.count("traces", 1);
                let b = disk.bytes();
                // the modified row must read back with the new values, and only its own bytes change
                let s = SPECS.iter().find(|s| s.name == kind_name).unwrap();
                let start = page as usize * ps + HEAP + *o as usize;
                let fixed = s.fixed();
                if b.len() != prev.len() {
                    return Err(format!("modifying row {o:#x} changes the file length"));
                }
                if let Some(x) = (0..b.len()).find(|x| b[*x] != prev[*x] && !(start..start + fixed).contains(x)) {
                    return Err(format!("modifying row {o:#x} of page {page} changes byte {x:#x} outside the row"));
                }
                if b == prev {
                    return Err(format!("modifying row {o:#x} of page {page} changes nothing on disk"));
                }
                let mut fresh = Database::open_non_persistent(Cursor::new(&b), kind).map_err(|e| e.to_string())?;
                let pg = fresh.load_page(PageIndex::try_from(page).unwrap()).map_err(|e| e.to_string())?;
                let got = public_values(&pg.content.as_data().unwrap().rows[o]);
                if got != want {
                    return Err(format!("row {o:#x} of page {page} reads back {got:?} instead of {want:?}"));
                }
                prev = b;
            }
            Ok(())
        });
        match r {
            Ok(Ok(())) => (),
            Ok(Err(e)) => rec.fail("sample", format!("{name} page {page}: {e}")),
            Err(p) => rec.fail("sample-panic", format!("{name} page {page}: {p}")),
        }
    });
}
