//! C06: all page-link graphs against a reference chain walk; all short histories of one handle.

use crate::c_rows::page_type;
use crate::engine::*;
use crate::refpdb::*;
use fallible_iterator::FallibleIterator;
use rekordcrate::pdb::io::Database;
use rekordcrate::pdb::*;
use rekordcrate::util::TableIndex;
use std::io::Cursor;

const PS: usize = 0x100;
/// Table A holds playlist entries, table B artists.
const A: u32 = 8;
const B: u32 = 2;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    /// Index page.
    Index,
    /// Data page with three present rows (address order differs from row order) and a deleted one.
    Rows,
    /// Data page whose rows are all deleted.
    Deleted,
    /// Data page without rows.
    Empty,
    /// Data page with rows of table B.
    Foreign,
    /// Page whose signature is damaged.
    Broken,
    /// Data page with 20 rows in two groups, every third one deleted.
    Many,
}
use Kind::*;

fn entry_val(page: u32, i: u32) -> (u32, u32, u32) {
    (page * 100 + i, page * 1000 + i, 7)
}

/// The page image and the (entry_index, track_id) values of its present rows in address order.
fn make_page(index: u32, kind: Kind, next: u32) -> (Vec<u8>, Vec<(u32, u32)>) {
    let row = |i: u32| {
        let v = entry_val(index, i);
        playlist_entry(v.0, v.1, v.2)
    };
    let mut p = DataPage::empty(index, A, next, PS);
    let mut vals = vec![];
    match kind {
        Index => return (IndexPage::new(index, A, next, vec![(index + 1) << 3]).bytes(PS), vals),
        Rows => {
            for (i, slot) in [2u32, 0, 3, 1].iter().enumerate() {
                p.add_at(*slot as u16 * 12, &row(*slot), i != 2);
                p.used += 12;
            }
            vals = [0u32, 1, 2].iter().map(|s| (entry_val(index, *s).0, entry_val(index, *s).1)).collect();
        }
        Deleted => {
            for i in 0..3 {
                p.add(&row(i), false);
            }
        }
        Empty => (),
        Many => {
            for i in 0..18u32 {
                let slot = (i * 5) % 18;
                let present = i % 3 != 1 && slot < 12;
                // deleted rows own no heap bytes
                p.add_at(if present { slot as u16 * 12 } else { 0xfff0 }, if present { row(slot) } else { vec![] }.as_slice(), present);
                if present {
                    vals.push((entry_val(index, slot).0, entry_val(index, slot).1));
                }
            }
            vals.sort();
            p.rows.retain(|r| r.0 != 0xfff0);
        }
        Foreign => {
            p.ptype = B;
            p.add(&artist(index * 10, "foreign"), true);
        }
        Broken => {
            let mut b = DataPage::empty(index, A, next, PS).bytes(PS, 0);
            b[0] = 0x55;
            return (b, vals);
        }
    }
    (p.bytes(PS, 0xee), vals)
}

struct World {
    n: u32,
    pages: Vec<(Vec<u8>, Vec<(u32, u32)>)>,
    kinds: Vec<Kind>,
    next: Vec<u32>,
    first: u32,
    last: u32,
    /// next_unused of the header.
    unused: u32,
    /// pages physically in the file
    present: u32,
}

#[derive(Clone, Debug, PartialEq)]
enum End {
    Ok,
    Err,
}

impl World {
    fn bytes(&self) -> Vec<u8> {
        // pages 1..=n belong to the graph; n+1, n+2 are the healthy table B
        let mut db = Db::new(PS);
        let b = self.n + 1;
        db.tables = vec![(A, 99, self.first, self.last), (B, 98, b, b + 1)];
        db.next_unused = self.unused;
        let mut out = db.header();
        out.resize(PS, 0);
        for (i, (p, _)) in self.pages.iter().enumerate() {
            let at = out.len();
            out.extend_from_slice(p);
            out[at + 12..at + 16].copy_from_slice(&self.next[i].to_le_bytes());
        }
        out.extend_from_slice(&IndexPage::new(b, B, b + 1, vec![]).bytes(PS));
        let mut p = DataPage::empty(b + 1, B, 999, PS);
        p.add(&artist(41, "x"), true);
        p.add(&artist(42, "y"), true);
        out.extend_from_slice(&p.bytes(PS, 0));
        out.truncate((self.present as usize + 1) * PS);
        out
    }
    fn kind(&self, i: u32) -> Option<Kind> {
        if i == 0 || i >= self.unused || i > self.present {
            return None;
        }
        if i <= self.n {
            return Some(self.kinds[i as usize - 1]);
        }
        match i - self.n {
            1 => Some(Index),
            2 => Some(Foreign),
            _ => None,
        }
    }
    fn next(&self, i: u32) -> u32 {
        if i <= self.n {
            self.next[i as usize - 1]
        } else if i == self.n + 1 {
            i + 1
        } else {
            999
        }
    }
    /// Reference walk: the pages visited and how it ends.
    fn walk(&self, first: u32, last: u32) -> (Vec<u32>, End) {
        let mut v: Vec<u32> = vec![];
        let mut cur = first;
        loop {
            if v.last().is_some_and(|x| cur <= *x) {
                return (v, End::Err);
            }
            match self.kind(cur) {
                None | Some(Broken) => return (v, End::Err),
                _ => (),
            }
            v.push(cur);
            if cur == last {
                return (v, End::Ok);
            }
            cur = self.next(cur);
        }
    }
    /// Rows of type A in the chain, and how it ends.
    fn rows_a(&self) -> (Vec<(u32, u32)>, End) {
        let (pages, end) = self.walk(self.first, self.last);
        let mut out = vec![];
        for p in pages {
            if self.kind(p) == Some(Foreign) {
                return (out, End::Err);
            }
            if p <= self.n {
                out.extend(self.pages[p as usize - 1].1.iter().copied());
            }
        }
        (out, end)
    }
    fn desc(&self) -> String {
        format!("first {} last {} next {:?} pages {:?} next_unused {} pages in file {} (page 0 is the header)", self.first, self.last, self.next, self.kinds, self.unused, self.present)
    }
}

type D = Database<Cursor<Vec<u8>>>;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    PagesA,
    PagesByIndexA,
    /// Only the first k pages, then the iterator is dropped.
    SomePagesA(usize),
    RowsA,
    SomeRowsA(usize),
    PagesB,
    RowsB,
    Load(u32),
    /// A table type the database does not have.
    Missing,
}

fn run_pages<'a, I: FallibleIterator<Item = &'a mut Page, Error = rekordcrate::util::RekordcrateError>>(mut it: I, max: usize) -> (Vec<(u32, bool)>, Result<(), String>) {
    let mut v = vec![];
    loop {
        if v.len() >= max {
            return (v, Ok(()));
        }
        match it.next() {
            Ok(Some(p)) => {
                v.push((page_number(p), p.content.as_index().is_some()));
            }
            Ok(None) => return (v, Ok(())),
            Err(e) => {
                // The iterator must stay finite and must not yield anything twice after an error.
                for _ in 0..8 {
                    match it.next() {
                        Ok(None) | Err(_) => (),
                        Ok(Some(_)) => return (v, Err("yields a page after an error".into())),
                    }
                }
                return (v, Err(format!("ERR {e}")));
            }
        }
        if v.len() > 200 {
            return (v, Err("endless".into()));
        }
    }
}

fn cmp_pages(w: &World, got: (Vec<(u32, bool)>, Result<(), String>), want: (Vec<u32>, End), max: usize) -> Result<(), String> {
    let (mut wp, mut we) = want;
    if wp.len() >= max {
        wp.truncate(max);
        we = End::Ok;
    }
    let gp: Vec<u32> = got.0.iter().map(|x| x.0).collect();
    if gp != wp {
        return Err(format!("visits pages {gp:?} ({:?}), expected {wp:?} ({we:?})", got.1));
    }
    for (p, idx) in &got.0 {
        if *idx != (w.kind(*p) == Some(Index)) {
            return Err(format!("page {p} parsed as the wrong kind"));
        }
    }
    match (&got.1, &we) {
        (Ok(()), End::Ok) => Ok(()),
        (Err(e), End::Err) if e.starts_with("ERR") => Ok(()),
        (g, e) => Err(format!("iteration ends with {g:?}, expected {e:?}")),
    }
}

fn debug_u32(s: &str, field: &str) -> u32 {
    let at = s.find(field).map(|i| i + field.len()).unwrap_or(0);
    s[at..].chars().skip_while(|c| !c.is_ascii_digit()).take_while(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap_or(u32::MAX)
}

fn do_op(w: &World, db: &mut D, op: Op) -> Result<(), String> {
    let ta = page_type(false, A);
    let tb = page_type(false, B);
    match op {
        Op::PagesA => {
            let r = db.iter_pages(ta).map_err(|e| e.to_string())?;
            cmp_pages(w, run_pages(r, usize::MAX), w.walk(w.first, w.last), usize::MAX)
        }
        Op::PagesByIndexA => {
            let r = db.iter_pages_for_table(TableIndex::from(0)).map_err(|e| e.to_string())?;
            cmp_pages(w, run_pages(r, usize::MAX), w.walk(w.first, w.last), usize::MAX)
        }
        Op::SomePagesA(k) => {
            let r = db.iter_pages(ta).map_err(|e| e.to_string())?;
            cmp_pages(w, run_pages(r, k), w.walk(w.first, w.last), k)
        }
        Op::PagesB => {
            let r = db.iter_pages_for_table(TableIndex::from(1)).map_err(|e| e.to_string())?;
            cmp_pages(w, run_pages(r, usize::MAX), w.walk(w.n + 1, w.n + 2), usize::MAX)
        }
        Op::RowsA | Op::SomeRowsA(_) => {
            let max = if let Op::SomeRowsA(k) = op { k } else { usize::MAX };
            let mut it = db.iter_rows::<PlaylistEntry>().map_err(|e| e.to_string())?;
            let mut got = vec![];
            let mut end = End::Ok;
            while got.len() < max {
                match it.next() {
                    Ok(Some(r)) => {
                        let s = format!("{r:?}");
                        got.push((debug_u32(&s, "entry_index"), debug_u32(&s, "track_id")));
                    }
                    Ok(None) => break,
                    Err(_) => {
                        end = End::Err;
                        break;
                    }
                }
                if got.len() > 500 {
                    return Err("endless rows".into());
                }
            }
            let (mut wr, mut we) = w.rows_a();
            if wr.len() >= max {
                wr.truncate(max);
                we = End::Ok;
            }
            if got != wr || end != we {
                return Err(format!("rows {got:?} ({end:?}), expected {wr:?} ({we:?})"));
            }
            Ok(())
        }
        Op::RowsB => {
            let mut it = db.iter_rows::<Artist>().map_err(|e| e.to_string())?;
            let mut got = vec![];
            loop {
                match it.next() {
                    Ok(Some(r)) => got.push(r.id.0),
                    Ok(None) => break,
                    Err(e) => {
                        if w.present < w.n + 2 || w.unused < w.n + 3 {
                            return Ok(());
                        }
                        return Err(format!("table B is unreadable: {e}"));
                    }
                }
            }
            if w.present < w.n + 2 || w.unused < w.n + 3 {
                return Err(format!("table B is outside the file but gives {got:?}"));
            }
            if got != [41, 42] {
                return Err(format!("table B rows {got:?}"));
            }
            let _ = tb;
            Ok(())
        }
        Op::Load(i) => {
            let r = db.load_page(page_index(i)).map(|p| page_number(p));
            match (w.kind(i), r) {
                (None | Some(Broken), Err(_)) => Ok(()),
                (Some(k), Ok(p)) if k != Broken => {
                    if p == i {
                        Ok(())
                    } else {
                        Err(format!("load_page({i}) gives page {p}"))
                    }
                }
                (k, r) => Err(format!("load_page({i}) of {k:?} gives {r:?}")),
            }
        }
        Op::Missing => {
            if db.iter_pages(page_type(false, 5)).is_ok() || db.iter_pages_for_table(TableIndex::from(2)).is_ok() || db.iter_rows::<Genre>().is_ok() {
                return Err("a table that does not exist is iterated".into());
            }
            Ok(())
        }
    }
}

pub fn page_number(p: &Page) -> u32 {
    p.header.page_index.offset(1) as u32
}

fn page_index(i: u32) -> PageIndex {
    PageIndex::try_from(i).unwrap()
}

fn run_ops(rec: &mut Rec, w: &World, bytes: &[u8], ops: &[Op]) -> bool {
    rec.count("traces", 1);
    let mut db = match guard(|| D::open_non_persistent(Cursor::new(bytes.to_vec()), DatabaseType::Plain)) {
        Ok(Ok(d)) => d,
        e => {
            rec.fail("open", format!("{e:?}; {}", w.desc()));
            return false;
        }
    };
    for (i, op) in ops.iter().enumerate() {
        rec.count("transitions", 1);
        let r = guard(|| do_op(w, &mut db, *op));
        let e = match r {
            Ok(Ok(())) => continue,
            Ok(Err(e)) => e,
            Err(p) => format!("panic: {p}"),
        };
        let kind = match op {
            Op::Load(_) => "load",
            Op::RowsA | Op::SomeRowsA(_) | Op::RowsB => "rows",
            Op::Missing => "missing",
            _ => "pages",
        };
        let key = if e.starts_with("panic") { format!("{kind}-panic") } else { kind.to_string() };
        rec.fail(key, format!("{op:?} after {:?}: {e}; {}", &ops[..i], w.desc()));
        return false;
    }
    true
}

fn world(n: u32, kinds: &[Kind], next: Vec<u32>, first: u32, last: u32) -> World {
    World { n, pages: kinds.iter().enumerate().map(|(i, k)| make_page(i as u32 + 1, *k, 0)).collect(), kinds: kinds.to_vec(), next, first, last, unused: n + 3, present: n + 2 }
}

fn digits(mut x: u64, base: u64, n: usize) -> Vec<u64> {
    (0..n)
        .map(|_| {
            let d = x % base;
            x /= base;
            d
        })
        .collect()
}

pub fn c06(ctx: &mut Ctx) {
    ctx.level = "model_checking";
    ctx.rule = "states = databases (page-link graph x page kinds x table first/last x file extent); transitions = operations executed on the real handle and compared with a reference walk; traces = operation histories replayed on the implementation from a fresh handle".into();
    ctx.assume("pages are 256 bytes; table B is healthy unless the file is cut");
    let quick = ctx.quick();
    let probe = [Op::RowsB, Op::PagesA, Op::PagesByIndexA, Op::RowsA, Op::PagesA, Op::PagesB, Op::RowsB, Op::RowsA, Op::Missing];
    let probe2 = [Op::RowsA, Op::PagesA, Op::RowsB];

    // 1. every link graph over 3 pages with every assignment of page kinds
    let kinds_all = [Index, Rows, Deleted, Empty, Foreign, Broken, Many];
    let targets = |n: u32| -> Vec<u32> { (0..=n + 3).chain([0x03ff_ffff, u32::MAX]).collect() };
    for n in [1u32, 2, 3] {
        let t = targets(n);
        let b = t.len() as u64;
        let kn = if n == 3 && quick { 4 } else { kinds_all.len() as u64 };
        let ks: Vec<Kind> = if kn == 4 { vec![Index, Rows, Foreign, Broken] } else { kinds_all.to_vec() };
        let total = kn.pow(n) * b.pow(n);
        ctx.bound(format!("{n} page(s): every next pointer in {t:?} per page, every first and last page likewise, page kinds {ks:?}"));
        ctx.par(&format!("graph-{n}"), total, |i, rec| {
            let kd = digits(i / b.pow(n), kn, n as usize);
            let nd = digits(i % b.pow(n), b, n as usize);
            let kinds: Vec<Kind> = kd.iter().map(|k| ks[*k as usize]).collect();
            let next: Vec<u32> = nd.iter().map(|d| t[*d as usize]).collect();
            let mut w = world(n, &kinds, next, 1, 1);
            let ft: Vec<u32> = if n == 3 && quick { vec![0, 1, 2, 3, 4, 7] } else { t.clone() };
            let lt: Vec<u32> = if n == 3 && quick { vec![0, 1, 2, 3, 5] } else { t.clone() };
            let mut bytes = w.bytes();
            for f in &ft {
                for l in &lt {
                    w.first = *f;
                    w.last = *l;
                    bytes[28 + 8..28 + 12].copy_from_slice(&f.to_le_bytes());
                    bytes[28 + 12..28 + 16].copy_from_slice(&l.to_le_bytes());
                    rec.count("states", 1);
                    let walk = w.walk(*f, *l);
                    rec.outcome(&format!("{} pages, {:?}", walk.0.len(), walk.1));
                    if !run_ops(rec, &w, &bytes, &probe) || !run_ops(rec, &w, &bytes, &probe2) {
                        return;
                    }
                }
            }
            rec.sample(|| w.desc());
        });
    }
    // 2. larger graphs with fixed kinds
    for n in if quick { vec![4u32] } else { vec![4u32, 5] } {
        let t: Vec<u32> = (0..=n + 1).collect();
        let b = t.len() as u64;
        let pats: Vec<Vec<Kind>> = vec![
            [Index, Rows, Rows, Rows, Rows][..n as usize].to_vec(),
            [Rows, Index, Deleted, Many, Rows][..n as usize].to_vec(),
            [Rows, Rows, Broken, Rows, Empty][..n as usize].to_vec(),
        ];
        ctx.bound(format!("{n} pages: every next pointer in {t:?}, every first/last, {} kind patterns", pats.len()));
        ctx.par(&format!("graph-{n}"), pats.len() as u64 * b.pow(n), |i, rec| {
            let kinds = &pats[(i / b.pow(n)) as usize];
            let next: Vec<u32> = digits(i % b.pow(n), b, n as usize).iter().map(|d| t[*d as usize]).collect();
            let mut w = world(n, kinds, next, 1, 1);
            let mut bytes = w.bytes();
            for f in &t {
                for l in &t {
                    w.first = *f;
                    w.last = *l;
                    bytes[28 + 8..28 + 12].copy_from_slice(&f.to_le_bytes());
                    bytes[28 + 12..28 + 16].copy_from_slice(&l.to_le_bytes());
                    rec.count("states", 1);
                    if !run_ops(rec, &w, &bytes, &probe2) {
                        return;
                    }
                }
            }
        });
    }
    // 3. file cut and wrong next_unused
    ctx.bound("3-page chains with every file length in pages and every next_unused 0..=8");
    ctx.par("extent", 9 * 6, |i, rec| {
        for kinds in [[Index, Rows, Rows], [Rows, Many, Deleted]] {
            for next in [vec![2, 3, 4], vec![3, 2, 9], vec![2, 4, 9], vec![2, 3, 6]] {
                for (f, l) in [(1, 3), (1, 2), (2, 3), (3, 3), (1, 4), (1, 7)] {
                    let mut w = world(3, &kinds, next.clone(), f, l);
                    w.unused = (i % 9) as u32;
                    w.present = (i / 9) as u32;
                    let bytes = w.bytes();
                    rec.count("states", 1);
                    let mut ops: Vec<Op> = (0..9).map(Op::Load).collect();
                    ops.extend([Op::PagesA, Op::RowsA, Op::RowsB, Op::RowsA]);
                    if !run_ops(rec, &w, &bytes, &ops) || !run_ops(rec, &w, &bytes, &probe2) {
                        return;
                    }
                }
            }
        }
    });
    // 4. all histories of one handle
    let ops = [
        Op::PagesA, Op::PagesByIndexA, Op::SomePagesA(1), Op::SomePagesA(2), Op::RowsA, Op::SomeRowsA(1), Op::SomeRowsA(4), Op::PagesB, Op::RowsB,
        Op::Load(0), Op::Load(1), Op::Load(2), Op::Load(3), Op::Load(4), Op::Load(6), Op::Load(9), Op::Missing,
    ];
    let depth = ctx.pick(4, 5);
    ctx.bound(format!("every sequence of {depth} operations {ops:?} on 6 databases"));
    let nb = ops.len() as u64;
    ctx.par("histories", nb * nb * 6, |i, rec| {
        let w = match i / (nb * nb) {
            0 => world(4, &[Index, Rows, Many, Rows], vec![2, 3, 4, 9], 1, 4),
            1 => world(4, &[Index, Rows, Many, Rows], vec![3, 4, 2, 9], 1, 4),
            2 => world(4, &[Index, Rows, Broken, Rows], vec![2, 3, 4, 9], 1, 4),
            3 => world(4, &[Rows, Foreign, Rows, Rows], vec![2, 3, 4, 9], 1, 4),
            4 => world(4, &[Index, Rows, Rows, Empty], vec![3, 2, 3, 4], 1, 4),
            _ => world(4, &[Index, Rows, Deleted, Many], vec![2, 4, 4, 1], 2, 4),
        };
        rec.count("states", 1);
        let bytes = w.bytes();
        let (a, b) = (ops[(i % nb) as usize], ops[(i / nb % nb) as usize]);
        for r in 0..nb.pow(depth - 2) {
            let mut seq = vec![a, b];
            seq.extend(digits(r, nb, depth as usize - 2).iter().map(|d| ops[*d as usize]));
            if !run_ops(rec, &w, &bytes, &seq) {
                return;
            }
        }
    });
    crate::c_large::c06(ctx);
}
