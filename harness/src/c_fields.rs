//! C21: page references and packed page fields; C23: table types of both database kinds.

use crate::c_rows::{page_type, row_kind};
use crate::engine::*;
use crate::refpdb::*;
use binrw::{BinRead, BinWrite};
use fallible_iterator::FallibleIterator;
use rekordcrate::pdb::bitfields::*;
use rekordcrate::pdb::ext::*;
use rekordcrate::pdb::io::Database;
use rekordcrate::pdb::*;
use rekordcrate::util::TableIndex;
use std::io::Cursor;

/// First value that is not a usable page index.
const LIMIT: u32 = 0x03ff_ffff;

fn le32<T: for<'a> BinWrite<Args<'a> = ()> + binrw::meta::WriteEndian>(x: &T) -> u32 {
    let mut b = [0u8; 4];
    x.write(&mut Cursor::new(&mut b[..])).unwrap();
    u32::from_le_bytes(b)
}

fn raw_index(v: u32) -> PageIndex {
    PageIndex::read(&mut Cursor::new(&v.to_le_bytes())).unwrap()
}
fn raw_entry(v: u32) -> IndexEntry {
    IndexEntry::read(&mut Cursor::new(&v.to_le_bytes())).unwrap()
}

fn check_page_number(rec: &mut Rec, v: u32, sizes: &[u32], deep: bool) -> bool {
    match PageIndex::try_from(v) {
        Ok(p) => {
            if v >= LIMIT {
                rec.fail("page-range", format!("page number {v:#x} is accepted"));
                return false;
            }
            if p.offset(1) != v as u64 {
                rec.fail("page-value", format!("page {v:#x} becomes {:?}", p));
                return false;
            }
            if p != raw_index(v) || le32(&p) != v {
                rec.fail("page-binary", format!("page {v:#x}: binary form {:#x}", le32(&p)));
                return false;
            }
            for s in sizes {
                if p.offset(*s) != v as u64 * *s as u64 {
                    rec.fail("page-offset", format!("page {v:#x} x {s:#x} = {:#x}", p.offset(*s)));
                    return false;
                }
            }
            for f in 0..8u8 {
                let e = match IndexEntry::try_from((p, f)) {
                    Ok(e) => e,
                    Err(x) => {
                        rec.fail("entry-refused", format!("page {v:#x} flags {f}: {x}"));
                        return false;
                    }
                };
                if e.page_index().ok() != Some(p) || e.index_flags() != f || e.is_empty() || e == IndexEntry::empty() {
                    rec.fail("entry-value", format!("page {v:#x} flags {f}: {:?} {} {}", e.page_index(), e.index_flags(), e.is_empty()));
                    return false;
                }
                if deep && (le32(&e) != (v << 3 | f as u32) || raw_entry(v << 3 | f as u32) != e) {
                    rec.fail("entry-binary", format!("page {v:#x} flags {f}: {:#x}", le32(&e)));
                    return false;
                }
            }
            true
        }
        Err(_) => {
            if v < LIMIT {
                rec.fail("page-range", format!("page number {v:#x} is refused"));
                return false;
            }
            // such a reference can still be read from a file
            let p = raw_index(v);
            if le32(&p) != v || p.offset(1) != v as u64 {
                rec.fail("page-binary", format!("stored page reference {v:#x} becomes {:?}", p));
                return false;
            }
            for s in sizes {
                if p.offset(*s) != v as u64 * *s as u64 {
                    rec.fail("page-offset", format!("stored page reference {v:#x} x {s:#x} = {:#x}", p.offset(*s)));
                    return false;
                }
            }
            for f in [0u8, 5, 7] {
                if let Ok(e) = IndexEntry::try_from((p, f)) {
                    rec.fail("entry-range", format!("stored page reference {v:#x} with flags {f} is turned into the entry {:#x} (page {:?}, empty {})", le32(&e), e.page_index().map(|p| p.offset(1)), e.is_empty()));
                    return false;
                }
            }
            true
        }
    }
}

fn check_raw_entry(rec: &mut Rec, v: u32, dbg: bool) -> bool {
    let e = raw_entry(v);
    let page = e.page_index().ok().map(|p| p.offset(1) as u32);
    let want = Some(v >> 3).filter(|x| *x < LIMIT);
    if page != want || e.index_flags() as u32 != v & 7 || e.is_empty() != (v == 0x1fff_fff8) || (e == IndexEntry::empty()) != (v == 0x1fff_fff8) || le32(&e) != v {
        rec.fail("stored-entry", format!("stored entry {v:#x}: page {page:?} flags {} empty {} written as {:#x}", e.index_flags(), e.is_empty(), le32(&e)));
        return false;
    }
    if dbg {
        if let Err(p) = guard(|| format!("{e:?}")) {
            rec.fail("entry-display-panics", format!("stored entry {v:#x}: {p}"));
            return false;
        }
    }
    true
}

pub fn c21(ctx: &mut Ctx) {
    ctx.rule = "a case is one field value (page number, index entry, packed counter word, flag byte, page number x page size), converted to and from its binary form; all values are different by construction".into();
    let quick = ctx.quick();
    let sizes = [0u32, 1, 2, 3, 512, 1000, 4096, 4097, 0x1_0000, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff];
    // every page number (chunks of 2^16)
    let hi = if quick { 0x2000 } else { 0x1_0000 };
    ctx.bound(format!("every page number in range{}, with all 8 flags and {} page sizes", if quick { " and one in nine 64 Ki chunks of the larger numbers" } else { " and every larger 32-bit number" }, sizes.len()));
    ctx.par("pages", hi, |i, rec| {
        // beyond the range, quick visits every ninth chunk
        let chunk = if quick && i >= 0x400 { 0xffff - (i - 0x400) * 9 } else { i };
        let deep = true;
        for x in 0..0x1_0000u64 {
            let v = (chunk << 16 | x) as u32;
            rec.count("evaluations", 1);
            if !check_page_number(rec, v, if deep { &sizes } else { &sizes[6..8] }, deep) {
                return;
            }
        }
        rec.count("distinct_by_construction", 0x1_0000);
        rec.outcome(if chunk < 0x3ff { "in range" } else { "at or beyond the limit" });
        rec.sample(|| format!("pages {:#x}..{:#x}", chunk << 16, (chunk + 1) << 16));
    });
    ctx.bound("every flags byte 0..=255 with boundary pages");
    ctx.one("flags-range", |rec| {
        for p in [0u32, 1, 2, 0x1234, LIMIT - 2, LIMIT - 1] {
            let pi = PageIndex::try_from(p).unwrap();
            for f in 0..=255u8 {
                rec.count("evaluations", 1);
                rec.count("distinct_by_construction", 1);
                if IndexEntry::try_from((pi, f)).is_ok() != (f < 8) {
                    rec.fail("flags-range", format!("page {p:#x} flags {f:#x}"));
                }
            }
        }
        if !IndexEntry::empty().is_empty() || le32(&IndexEntry::empty()) != 0x1fff_fff8 {
            rec.fail("empty", format!("{:#x}", le32(&IndexEntry::empty())));
        }
        if IndexEntry::BINARY_SIZE != 4 {
            rec.fail("size", "");
        }
    });
    // stored entries
    let step = if quick { 3u32 } else { 1 };
    ctx.bound(if quick { "stored index entries: every third 32-bit word and all words within 64 of a multiple of 2^20" } else { "stored index entries: every 32-bit word" });
    ctx.par("stored-entries", 4096, |i, rec| {
        let base = (i as u32) << 20;
        let mut x = 0u32;
        while x < 1 << 20 {
            rec.count("evaluations", 1);
            rec.count("distinct_by_construction", 1);
            if !check_raw_entry(rec, base + x, x % 1009 == 0) {
                return;
            }
            x += step;
        }
        for d in 0..64 {
            rec.count("evaluations", 2);
            if !check_raw_entry(rec, base + d, true) || !check_raw_entry(rec, base.wrapping_sub(d), true) {
                return;
            }
        }
    });
    // packed row counters
    ctx.bound("packed row counters: every 24-bit word; every (rows, present) pair through the setters of both fields; out-of-range values 0..=65535 per field");
    ctx.par("counters", 8192, |i, rec| {
        let rows = i as u16;
        for valid in 0..2048u16 {
            let w = rows as u32 | (valid as u32) << 13;
            let b = [w as u8, (w >> 8) as u8, (w >> 16) as u8];
            rec.count("evaluations", 1);
            rec.count("distinct_by_construction", 1);
            let c = PackedRowCounts::read_le(&mut Cursor::new(&b)).unwrap();
            if (c.num_rows(), c.num_rows_valid()) != (rows, valid) {
                rec.fail("counters-read", format!("{w:#x}: {c:?}"));
                return;
            }
            let mut o = [0u8; 3];
            c.write_le(&mut Cursor::new(&mut o[..])).unwrap();
            if o != b {
                rec.fail("counters-write", format!("{w:#x}: {o:x?}"));
                return;
            }
            // each setter leaves the other field alone, whatever was there before
            let mut d = PackedRowCounts::new().with_num_rows(!rows & 0x1fff).with_num_rows_valid(valid);
            d.set_num_rows(rows);
            let mut e = PackedRowCounts::new().with_num_rows(rows).with_num_rows_valid(!valid & 0x7ff);
            e.set_num_rows_valid(valid);
            if d != c || e != c {
                rec.fail("counters-set", format!("{w:#x}: {d:?} {e:?}"));
                return;
            }
        }
        if rows < 2048 {
            let a = PackedRowCounts::from_all_valid(rows as usize);
            if (a.num_rows(), a.num_rows_valid()) != (rows, rows) {
                rec.fail("counters-all-valid", format!("{rows}: {a:?}"));
            }
        }
    });
    ctx.par("counters-range", 65536, |i, rec| {
        let x = i as u16;
        let base = PackedRowCounts::new().with_num_rows(0x1555).with_num_rows_valid(0x2aa);
        rec.count("evaluations", 2);
        match base.with_num_rows_checked(x) {
            Ok(c) if x < 0x2000 && c.num_rows() == x && c.num_rows_valid() == 0x2aa => (),
            Err(_) if x >= 0x2000 => (),
            r => rec.fail("counters-range", format!("num_rows {x}: {r:?}")),
        }
        match base.with_num_rows_valid_checked(x) {
            Ok(c) if x < 0x800 && c.num_rows_valid() == x && c.num_rows() == 0x1555 => (),
            Err(_) if x >= 0x800 => (),
            r => rec.fail("counters-range", format!("num_rows_valid {x}: {r:?}")),
        }
        // a count that does not fit must not be stored as another one
        for n in [x as usize, x as usize + 65536, (x as usize) << 16 | 7, (x as usize) << 32 | 3] {
            if n >= 2048 {
                if let Ok(c) = guard(|| PackedRowCounts::from_all_valid(n)) {
                    rec.fail("counters-truncated", format!("from_all_valid({n}) = {c:?}"));
                }
            }
        }
    });
    // flags
    ctx.bound("page flags: all 256 bytes x every flag toggled");
    ctx.one("page-flags", |rec| {
        type Get = fn(&PageFlags) -> bool;
        type Set = fn(&mut PageFlags, bool);
        let acc: [(u8, Get, Set); 8] = [
            (0, |f| f.unknown0(), |f, x| f.set_unknown0(x)),
            (1, |f| f.unknown1(), |f, x| f.set_unknown1(x)),
            (2, |f| f.unknown2(), |f, x| f.set_unknown2(x)),
            (3, |f| f.unknown3(), |f, x| f.set_unknown3(x)),
            (4, |f| f.contains_deleted(), |f, x| f.set_contains_deleted(x)),
            (5, |f| f.unknown5(), |f, x| f.set_unknown5(x)),
            (6, |f| f.is_index_page(), |f, x| f.set_is_index_page(x)),
            (7, |f| f.unknown7(), |f, x| f.set_unknown7(x)),
        ];
        for b in 0..=255u8 {
            let f = PageFlags::read_le(&mut Cursor::new(&[b])).unwrap();
            rec.count("evaluations", 1);
            rec.count("distinct_by_construction", 1);
            let mut o = [0u8];
            f.write_le(&mut Cursor::new(&mut o[..])).unwrap();
            if o != [b] || f.into_bytes() != [b] {
                rec.fail("flags-binary", format!("{b:#x}: {o:x?}"));
            }
            for (bit, get, set) in acc {
                if get(&f) != (b >> bit & 1 == 1) {
                    rec.fail("flags-get", format!("{b:#x} bit {bit}"));
                }
                for v in [false, true] {
                    let mut g = f;
                    set(&mut g, v);
                    let want = (b & !(1 << bit)) | (v as u8) << bit;
                    if g.into_bytes() != [want] {
                        rec.fail("flags-set", format!("{b:#x} bit {bit} := {v}: {:x?}", g.into_bytes()));
                    }
                }
            }
        }
        if PageFlags::new_data_page().into_bytes() != [0x24] || PageFlags::new_index_page().into_bytes() != [0x64] || PageFlags::default().into_bytes() != [0x24] {
            rec.fail("flags-default", "");
        }
    });
    // the fields inside a page header
    ctx.bound("every 16-bit half of every reference in page, index and table headers inside its neighbours");
    ctx.par("in-header", 4096, |i, rec| {
        for x in (i as u32 * 16)..(i as u32 + 1) * 16 {
            for shift in [0, 10, 16] {
                let v = (x << shift) | (x & 0x3ff);
                rec.count("evaluations", 1);
                rec.count("distinct_by_construction", 1);
                let mut dp = DataPage::empty(v, 1, !v, 256);
                dp.u1 = v.rotate_left(7);
                dp.u2 = !v.rotate_left(3);
                dp.num_rows = 0;
                let hb = {
                    let mut h = dp.header();
                    // packed counters and flags carry the value as well
                    h[24..28].copy_from_slice(&v.to_le_bytes());
                    h[28..32].copy_from_slice(&v.wrapping_mul(3).to_le_bytes());
                    h
                };
                let h = PageHeader::read_le_args(&mut Cursor::new(&hb), (DatabaseType::Plain,)).unwrap();
                let got = (h.page_index.offset(1), h.next_page.offset(1), h.unknown1, h.unknown2, h.packed_row_counts.num_rows() as u32, h.packed_row_counts.num_rows_valid() as u32, h.page_flags.into_bytes()[0] as u32, h.free_size as u32 | (h.used_size as u32) << 16);
                let want = (v as u64, !v as u64, dp.u1, dp.u2, v & 0x1fff, v >> 13 & 0x7ff, v >> 24, v.wrapping_mul(3));
                let mut o = Cursor::new(vec![]);
                h.write_le(&mut o).unwrap();
                if got != want || o.into_inner() != hb {
                    rec.fail("header", format!("{v:#x}: {got:x?} instead of {want:x?}"));
                    return;
                }
                let ih = {
                    let mut ip = IndexPage::new(v, 1, !v, vec![]);
                    ip.num_entries = Some(v as u16);
                    ip.first_empty = (v >> 16) as u16;
                    ip.next_offset = (v >> 8) as u16;
                    ip.bytes(256)[0x20..0x20 + 28].to_vec()
                };
                let h = IndexPageHeader::read_le(&mut Cursor::new(&ih)).unwrap();
                let mut o = Cursor::new(vec![]);
                h.write_le(&mut o).unwrap();
                if (h.page_index.offset(1), h.next_page.offset(1), h.num_entries, h.first_empty, h.next_offset) != (v as u64, !v as u64, v as u16, (v >> 16) as u16, (v >> 8) as u16) || o.into_inner() != ih {
                    rec.fail("index-header", format!("{v:#x}: {h:?}"));
                    return;
                }
                let tb: Vec<u8> = [1u32, v.rotate_left(5), v, !v].iter().flat_map(|x| x.to_le_bytes()).collect();
                let t = Table::read_le_args(&mut Cursor::new(&tb), (DatabaseType::Plain,)).unwrap();
                let mut o = Cursor::new(vec![]);
                t.write_le_args(&mut o, (DatabaseType::Plain,)).unwrap();
                if (t.first_page.offset(1), t.last_page.offset(1)) != (v as u64, !v as u64) || o.into_inner() != tb {
                    rec.fail("table", format!("{v:#x}: {t:?}"));
                    return;
                }
            }
        }
    });
}

// ------------------------------------------------------------------------------------------

const PLAIN: [u32; 15] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 12, 13, 16, 17, 19];
const EXT: [u32; 2] = [3, 4];

fn kind(ext: bool) -> DatabaseType {
    if ext {
        DatabaseType::Ext
    } else {
        DatabaseType::Plain
    }
}

fn check_type(rec: &mut Rec, ext: bool, n: u32) -> bool {
    let want = page_type(ext, n);
    let known = if ext { EXT.contains(&n) } else { PLAIN.contains(&n) };
    let got = PageType::read_le_args(&mut Cursor::new(&n.to_le_bytes()), (kind(ext),));
    let ok = match &got {
        Ok(t) => *t == want && matches!(t, PageType::Unknown(_)) != known && {
            let mut b = [0u8; 4];
            t.write_le(&mut Cursor::new(&mut b[..])).unwrap();
            b == n.to_le_bytes()
        },
        Err(_) => false,
    };
    if !ok {
        rec.fail("type-number", format!("type {n:#x} in an {} database becomes {got:?}, expected {want:?}", if ext { "extended" } else { "plain" }));
    }
    ok
}

/// One row of the given table type.
fn sample_row(ext: bool, t: u32, salt: u64) -> Vec<u8> {
    match SPECS.iter().find(|s| s.ext == ext && s.ptype == t) {
        None => vec![0xd0 + (t & 0xf) as u8; 12],
        Some(s) => {
            let texts: Vec<String> = (0..s.num_strings()).map(|i| format!("{}{}", ["x", "yy", "zzz"][i % 3], salt)).collect();
            let strs = texts.iter().map(|t| crate::c_string::ref_encode(t).unwrap()).collect();
            s.build(&RowVal { vals: s.default_vals(salt), strs, offs: None }).bytes
        }
    }
}

fn expected_kind(ext: bool, t: u32) -> &'static str {
    SPECS.iter().find(|s| s.ext == ext && s.ptype == t).map_or("Unknown", |s| s.name)
}

const PS: usize = 0x200;

struct TypedDb {
    types: Vec<u32>,
    /// Interpretation the rows were written for.
    ext: bool,
    bytes: Vec<u8>,
}

impl TypedDb {
    fn new(types: &[u32], ext: bool) -> TypedDb {
        let mut db = Db::new(PS);
        db.filler = 0x3c;
        for (i, t) in types.iter().enumerate() {
            let r = |s| (sample_row(ext, *t, s), true);
            db.table(*t, &[vec![r(i as u64), r(i as u64 + 3)]]);
        }
        TypedDb { types: types.to_vec(), ext, bytes: db.bytes() }
    }
}

/// A row is available as its own type and as no other one, by value and for modification.
fn typed_access(row: &Row) -> Result<(), String> {
    let name = row_kind(row);
    fn same<T: RowVariant>(row: &Row, want: bool, t: PageType) -> Result<(), String> {
        let at = row.as_variant::<T>().map(|v| v as *const T as usize - row as *const Row as usize);
        let mut copy = row.clone();
        let base = &copy as *const Row as usize;
        let at_mut = copy.as_variant_mut::<T>().map(|v| v as *mut T as usize - base);
        if at.is_some() != want || at != at_mut {
            return Err(format!("a {} row as {}: {at:?} and {at_mut:?}", row_kind(row), std::any::type_name::<T>()));
        }
        if T::PAGE_TYPE != t {
            return Err(format!("rows of type {} belong to {:?}", std::any::type_name::<T>(), T::PAGE_TYPE));
        }
        Ok(())
    }
    macro_rules! types {
        ($($t:ident),*) => {
            $(same::<$t>(row, name == stringify!($t), {
                let s = SPECS.iter().find(|s| s.name == stringify!($t)).unwrap();
                page_type(s.ext, s.ptype)
            })?;)*
        };
    }
    types!(Track, Genre, Artist, Album, Label, Key, Color, PlaylistTreeNode, PlaylistEntry, HistoryPlaylist, HistoryEntry, Artwork, ColumnEntry, Menu, History);
    Ok(())
}

/// The content of a page is available as what it is.
fn content_access(c: &PageContent) -> Result<(), String> {
    let data = matches!(c, PageContent::Data(_));
    let mut m = c.clone();
    let r = [
        c.as_data().is_some(), c.clone().into_data().is_some(), m.as_data_mut().is_some(),
        !c.as_index().is_some(), !c.clone().into_index().is_some(), !m.as_index_mut().is_some(),
    ];
    if r != [data; 6] || m != *c {
        return Err(format!("access to the content of a page: {r:?} for {c:?}"));
    }
    if c.clone().into_data().map(PageContent::Data).or(c.clone().into_index().map(PageContent::Index)).as_ref() != Some(c) {
        return Err("the content of a page changes when it is taken out".into());
    }
    Ok(())
}

fn check_db(rec: &mut Rec, d: &TypedDb, as_ext: bool) -> Result<(), String> {
    rec.count("evaluations", 1);
    let mut db = Database::open(Cursor::new(d.bytes.clone()), kind(as_ext)).map_err(|e| format!("open: {e}"))?;
    let n = d.types.len();
    if db.get_header().tables.len() != n {
        return Err(format!("{} tables", db.get_header().tables.len()));
    }
    for (i, t) in d.types.iter().enumerate() {
        let got = db.get_header().tables[i].page_type;
        if got != page_type(as_ext, *t) {
            return Err(format!("table {i} has type {got:?}, expected {:?}", page_type(as_ext, *t)));
        }
    }
    // tables are found by exactly their own type
    let mut probe: Vec<PageType> = vec![];
    for t in (0..24).chain(d.types.iter().copied()).chain([u32::MAX, 0x100, 0x0100_0000]) {
        probe.push(PageType::Unknown(t));
        probe.push(page_type(false, t));
        probe.push(page_type(true, t));
    }
    for p in probe {
        let want = d.types.iter().position(|t| page_type(as_ext, *t) == p);
        let got = db.get_header().find_table(p).map(|(i, t)| (format!("{i:?}"), t.clone()));
        let got_mut = db.get_header_mut().find_table_mut(p).map(|(i, t)| (format!("{i:?}"), t.clone()));
        if got != got_mut {
            return Err(format!("find_table and find_table_mut disagree for {p:?}"));
        }
        match (&got, want) {
            (None, None) => (),
            (Some((i, t)), Some(w)) if *i == format!("{:?}", TableIndex::from(w)) && *t == db.get_header().tables[w] => (),
            _ => return Err(format!("looking for {p:?} finds {got:?}, expected table {want:?}")),
        }
        if db.iter_pages(p).is_ok() != want.is_some() {
            return Err(format!("iter_pages({p:?}) disagrees with the table list"));
        }
    }
    // each table's pages and rows
    for (i, t) in d.types.iter().enumerate() {
        let same = as_ext == d.ext || expected_kind(as_ext, *t) == "Unknown";
        let mut it = db.iter_pages_for_table(TableIndex::from(i)).map_err(|e| format!("table {i}: {e}"))?;
        let mut rows = vec![];
        let mut err = None;
        loop {
            match it.next() {
                Ok(Some(p)) => {
                    if p.header.page_type != page_type(as_ext, *t) {
                        return Err(format!("page of table {i} has type {:?}", p.header.page_type));
                    }
                    content_access(&p.content)?;
                    if let Some(c) = p.content.as_data() {
                        rows.extend(c.rows.values().cloned());
                    }
                }
                Ok(None) => break,
                Err(e) => {
                    err = Some(e.to_string());
                    break;
                }
            }
        }
        for r in &rows {
            typed_access(r)?;
            if row_kind(r) != expected_kind(as_ext, *t) {
                return Err(format!("type {t} in {} database gives a {} row, expected {}", if as_ext { "an extended" } else { "a plain" }, row_kind(r), expected_kind(as_ext, *t)));
            }
        }
        if same {
            if let Some(e) = err {
                return Err(format!("table {i} (type {t}): {e}"));
            }
            if rows.len() != 2 {
                return Err(format!("table {i} (type {t}) has {} rows", rows.len()));
            }
            if expected_kind(as_ext, *t) != "Unknown" {
                for (r, s) in rows.iter().zip([i as u64, i as u64 + 3]) {
                    let mut c = Cursor::new(vec![]);
                    r.write_le(&mut c).map_err(|e| e.to_string())?;
                    if c.into_inner() != sample_row(as_ext, *t, s) {
                        return Err(format!("row of table {i} (type {t}) reads as {r:?}"));
                    }
                }
            }
        }
        rec.outcome(&format!("{} as {}", expected_kind(d.ext, *t), expected_kind(as_ext, *t)));
    }
    // asking for rows of every type
    type Ask = fn(&mut Database<Cursor<Vec<u8>>>) -> Result<usize, String>;
    fn ask<T: RowVariant + 'static>(db: &mut Database<Cursor<Vec<u8>>>) -> Result<usize, String> {
        let r = db.iter_rows::<T>().map_err(|e| e.to_string())?;
        r.map(|_| Ok(1usize)).fold(0, |a, b| Ok(a + b)).map_err(|_| "late".into())
    }
    let asks: [(u32, Ask); 15] = [
        (0, ask::<Track>), (1, ask::<Genre>), (2, ask::<Artist>), (3, ask::<Album>), (4, ask::<Label>), (5, ask::<Key>), (6, ask::<Color>), (7, ask::<PlaylistTreeNode>),
        (8, ask::<PlaylistEntry>), (11, ask::<HistoryPlaylist>), (12, ask::<HistoryEntry>), (13, ask::<Artwork>), (16, ask::<ColumnEntry>), (17, ask::<Menu>), (19, ask::<History>),
    ];
    for (t, f) in asks {
        let r = f(&mut db);
        let there = !as_ext && d.types.contains(&t);
        match &r {
            Ok(n) if there && (*n == 2 || d.ext) => (),
            Err(e) if there && d.ext && e == "late" => (),
            Err(e) if !there && e != "late" => (),
            _ => return Err(format!("asking for rows of type {t} gives {r:?}")),
        }
    }
    // everything loaded, nothing modified: flushing writes the same bytes
    let mut io = Cursor::new(d.bytes.clone());
    {
        let mut db = Database::open(&mut io, kind(as_ext)).map_err(|e| e.to_string())?;
        for i in 0..n {
            let mut it = db.iter_pages_for_table(TableIndex::from(i)).map_err(|e| e.to_string())?;
            while let Ok(Some(_)) = it.next() {}
        }
        db.flush().map_err(|e| format!("flush: {e}"))?;
    }
    if as_ext == d.ext && io.get_ref() != &d.bytes || io.get_ref().len() != d.bytes.len() {
        let b = io.get_ref();
        let at = (0..b.len().min(d.bytes.len())).find(|i| b[*i] != d.bytes[*i]);
        return Err(format!("flushing an unmodified database changes byte {at:?} (page {:?})", at.map(|a| a / PS)));
    }
    Ok(())
}

fn typed(rec: &mut Rec, types: &[u32], ext: bool) {
    rec.count("distinct_by_construction", 1);
    let d = TypedDb::new(types, ext);
    for as_ext in [ext, !ext] {
        match guard(|| check_db(rec_ref(rec), &d, as_ext)) {
            Ok(Ok(())) => (),
            Ok(Err(e)) => rec.fail("interpretation", format!("{e}; tables {types:?} written for {} opened as {}", kind(ext) as u8, kind(as_ext) as u8)),
            Err(p) => rec.fail("panic", format!("{p}; tables {types:?} written for ext={ext} opened as ext={as_ext}")),
        }
    }
}

// guard() wants an unwind-safe closure; the recorder is only used for counting in there.
fn rec_ref(r: &mut Rec) -> &mut Rec {
    r
}

pub fn c23(ctx: &mut Ctx) {
    ctx.rule = "a case is a type number or a list of table types written as a database image and opened as both kinds; all are different by construction".into();
    let quick = ctx.quick();
    let step = if quick { 331u64 } else { 1 };
    ctx.bound(format!("type numbers: 0..=65535, every {step}th 32-bit number, all numbers within 64 of a power of two or of a byte-shifted known number; both kinds"));
    ctx.par("numbers", 1024, |i, rec| {
        for ext in [false, true] {
            let lo = i as u32 * 64;
            for n in lo..lo + 64 {
                rec.count("evaluations", 1);
                rec.count("distinct_by_construction", 1);
                if !check_type(rec, ext, n) {
                    return;
                }
            }
            let mut x = (i << 22) as u64;
            while x < (i + 1) << 22 {
                rec.count("evaluations", 1);
                if !check_type(rec, ext, x as u32) {
                    return;
                }
                x += step;
            }
        }
    });
    ctx.par("numbers-near", 32, |i, rec| {
        for ext in [false, true] {
            for d in 0..=64u32 {
                for n in [(1u32 << i).wrapping_add(d), (1u32 << i).wrapping_sub(d), d.rotate_left(i as u32), d | 1 << i] {
                    rec.count("evaluations", 1);
                    if !check_type(rec, ext, n) {
                        return;
                    }
                }
            }
        }
    });
    // databases
    let pool: Vec<u32> = PLAIN.iter().copied().chain([9, 10, 14, 15, 18, 20, 0x103, 0x0400_0000, u32::MAX]).collect();
    let np = pool.len() as u64;
    ctx.bound(format!("databases with every list of 1 and 2 table types (duplicates included) out of {pool:?}{}, written for both kinds and opened as both kinds", if quick { "" } else { " and every list of 3" }));
    let pr = &pool;
    ctx.par("one-table", np * 2, |i, rec| typed(rec, &[pr[(i / 2) as usize]], i % 2 == 1));
    ctx.par("two-tables", np * np * 2, |i, rec| typed(rec, &[pr[(i / 2 / np) as usize], pr[(i / 2 % np) as usize]], i % 2 == 1));
    if !quick {
        ctx.par("three-tables", np * np * np * 2, |i, rec| {
            let j = i / 2;
            typed(rec, &[pr[(j / np / np) as usize], pr[(j / np % np) as usize], pr[(j % np) as usize]], i % 2 == 1)
        });
    }
    ctx.one("all-tables", |rec| {
        for ext in [false, true] {
            typed(rec, pr, ext);
            let rev: Vec<u32> = pr.iter().rev().copied().collect();
            typed(rec, &rev, ext);
            typed(rec, &[], ext);
        }
    });
    ctx.bound("lists of 255 to 70000 tables");
    ctx.par("many-tables", 7 * 2, |i, rec| {
        let n = [255u32, 256, 257, 65535, 65536, 65537, 70_000][(i / 2) as usize];
        let ext = i % 2 == 1;
        rec.count("evaluations", 1);
        rec.count("distinct_by_construction", 1);
        // every number is used once, in descending order
        let ps = (28 + 16 * n).next_multiple_of(0x1000);
        let mut b: Vec<u8> = [0u32, ps, n, 2, 5, 7, 0].iter().flat_map(|x| x.to_le_bytes()).collect();
        for t in (0..n).rev() {
            b.extend([t, 1, 1, 1].iter().flat_map(|x| x.to_le_bytes()));
        }
        b.resize(2 * ps as usize, 0);
        let r = guard(|| -> Result<(), String> {
            let mut c = Cursor::new(b.clone());
            let mut db = Database::open(&mut c, kind(ext)).map_err(|e| format!("open: {e}"))?;
            let tables = &db.get_header().tables;
            if tables.len() != n as usize {
                return Err(format!("{} tables", tables.len()));
            }
            for (k, t) in tables.iter().enumerate() {
                if t.page_type != page_type(ext, n - 1 - k as u32) {
                    return Err(format!("table {k} has type {:?}", t.page_type));
                }
            }
            for t in [0, 3, 4, 255, 256, n - 1] {
                let want = (t < n).then(|| format!("{:?}", TableIndex::from((n - 1 - t) as usize)));
                let got = db.get_header().find_table(page_type(ext, t)).map(|(i, _)| format!("{i:?}"));
                if got != want {
                    return Err(format!("type {t} found at {got:?}, expected {want:?}"));
                }
            }
            if db.iter_pages_for_table(TableIndex::from(n as usize)).is_ok() {
                return Err(format!("table {n} exists"));
            }
            db.close().map_err(|e| format!("close: {e}"))?;
            match c.into_inner() == b {
                true => Ok(()),
                false => Err("written back differently".into()),
            }
        });
        rec.outcome("many tables");
        if let Err(e) = r.and_then(|x| x) {
            rec.fail("many-tables", format!("{n} tables, ext={ext}: {e}"));
        }
    });
    let _ = ExtPageType::Tag;
}
