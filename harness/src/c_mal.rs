//! C19: malformed input of every kind is answered with a result or an error, never with a crash,
//! a hang or an allocation out of proportion.

use crate::c_anlz;
use crate::c_rows::page_type;
use crate::c_settings::default_files;
use crate::c_string::{ref_encode, ref_encode_isrc};
use crate::engine::*;
use crate::refpdb::*;
use binrw::{BinRead, BinWrite, Endian};
use fallible_iterator::FallibleIterator;
use rekordcrate::anlz::ANLZ;
use rekordcrate::pdb::io::Database;
use rekordcrate::pdb::string::DeviceSQLString;
use rekordcrate::pdb::*;
use rekordcrate::setting::{Setting, SettingType};
use rekordcrate::util::TableIndex;
use rekordcrate::xml::Document;
use std::cell::Cell;
use std::fmt::Write as _;
use std::io::{Cursor, Error as IoError, ErrorKind, Read, Result as IoResult, Seek, SeekFrom, Write};
use std::rc::Rc;

/// A device that counts calls and transferred bytes, and gives up beyond a budget.
#[derive(Clone)]
struct Dev {
    data: Rc<std::cell::RefCell<Vec<u8>>>,
    /// Bytes that writes may reach.
    limit: usize,
    pos: u64,
    work: Rc<Cell<u64>>,
    budget: u64,
}

impl Dev {
    fn new(b: &[u8]) -> Dev {
        Dev { data: Rc::new(std::cell::RefCell::new(b.to_vec())), limit: b.len() * 4 + 4096, pos: 0, work: Rc::new(Cell::new(0)), budget: 40_000 + 200 * b.len() as u64 }
    }
    fn tick(&self, n: u64) -> IoResult<()> {
        let w = self.work.get() + 1 + n / 16;
        self.work.set(w);
        if w > self.budget {
            return Err(IoError::other("work budget exceeded"));
        }
        Ok(())
    }
    fn exhausted(&self) -> bool {
        self.work.get() > self.budget
    }
    fn rewind(&mut self) -> &mut Self {
        self.pos = 0;
        self
    }
}
impl Read for Dev {
    fn read(&mut self, buf: &mut [u8]) -> IoResult<usize> {
        let d = self.data.borrow();
        let at = (self.pos as usize).min(d.len());
        let n = buf.len().min(d.len() - at);
        buf[..n].copy_from_slice(&d[at..at + n]);
        self.tick(n as u64)?;
        self.pos += n as u64;
        Ok(n)
    }
}
impl Write for Dev {
    fn write(&mut self, buf: &[u8]) -> IoResult<usize> {
        self.tick(buf.len() as u64)?;
        let at = self.pos as usize;
        let mut d = self.data.borrow_mut();
        if at + buf.len() <= self.limit {
            if d.len() < at + buf.len() {
                d.resize(at + buf.len(), 0);
            }
            d[at..at + buf.len()].copy_from_slice(buf);
        }
        self.pos += buf.len() as u64;
        Ok(buf.len())
    }
    fn flush(&mut self) -> IoResult<()> {
        Ok(())
    }
}
impl Seek for Dev {
    fn seek(&mut self, p: SeekFrom) -> IoResult<u64> {
        self.tick(0)?;
        let n = match p {
            SeekFrom::Start(x) => x as i128,
            SeekFrom::Current(x) => self.pos as i128 + x as i128,
            SeekFrom::End(x) => self.data.borrow().len() as i128 + x as i128,
        };
        if !(0..=i64::MAX as i128).contains(&n) {
            return Err(ErrorKind::InvalidInput.into());
        }
        self.pos = n as u64;
        Ok(self.pos)
    }
}

/// Formats into nothing, counting bytes.
struct Null(u64);
impl std::fmt::Write for Null {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len() as u64;
        Ok(())
    }
}
fn show<T: std::fmt::Debug>(t: &T) -> u64 {
    let mut n = Null(0);
    let _ = write!(n, "{t:?}");
    n.0
}
fn show_pretty<T: std::fmt::Debug>(t: &T) {
    let _ = write!(Null(0), "{t:#?}");
}

#[derive(Clone, Copy, Debug)]
enum Kind {
    Db(bool),
    Row(bool, u32),
    Text,
    Anlz,
    Setting(SettingType),
    Xml,
}

struct Base {
    name: String,
    kind: Kind,
    bytes: Vec<u8>,
    /// Positions (multiples of two) of the fields that steer the parser; empty: all.
    fields: Vec<usize>,
}

/// Uses the input in every way; the answer says how far it got.
fn exercise(kind: Kind, b: &[u8]) -> Result<String, String> {
    set_alloc_budget(Some(8 << 20 | 256 * b.len() as i64));
    let r = guard(|| exercise_inner(kind, b));
    set_alloc_budget(None);
    r.and_then(|x| x)
}

fn exercise_inner(kind: Kind, b: &[u8]) -> Result<String, String> {
    let mut dev = Dev::new(b);
    let check = |d: &Dev, what: &str| if d.exhausted() { Err(format!("{what}: more I/O than {} calls for {} bytes of input", d.budget, b.len())) } else { Ok(()) };
    let mut out = "error";
    match kind {
        Kind::Db(ext) => {
            let kind = if ext { DatabaseType::Ext } else { DatabaseType::Plain };
            let opened = Database::open(dev.clone(), kind);
            check(&dev, "open")?;
            let Ok(mut db) = opened else { return Ok("not opened".into()) };
            show(db.get_header());
            let (n, ps) = (db.get_header().tables.len(), db.get_header().page_size);
            let (mut errs, mut oks) = (0, 0);
            for t in 0..n {
                match db.iter_pages_for_table(TableIndex::from(t)) {
                    Err(_) => errs += 1,
                    Ok(mut it) => loop {
                        match it.next() {
                            Ok(Some(p)) => {
                                show(p);
                                oks += 1;
                            }
                            Ok(None) => break,
                            Err(_) => {
                                errs += 1;
                                break;
                            }
                        }
                    },
                }
            }
            check(&dev, "iterating")?;
            for p in 0..6u32 {
                match db.load_page(PageIndex::try_from(p).unwrap()) {
                    Ok(p) => {
                        show_pretty(p);
                        oks += 1;
                    }
                    Err(_) => errs += 1,
                }
            }
            let far = PageIndex::try_from((b.len() as u32 / ps.max(1)).min(1 << 20) + 1).unwrap();
            let _ = db.load_page(far);
            check(&dev, "loading")?;
            let w = dev.work.get();
            let flushed = db.flush();
            check(&dev, "writing")?;
            let _ = w;
            out = match (flushed, errs, oks) {
                (Err(_), _, _) => "not written",
                (_, 0, _) => "everything read",
                (_, _, 0) => "no page read",
                _ => "some pages read",
            };
            // rows can be added to whatever parsed
            for p in 1..4u32 {
                if let Ok(page) = db.load_page(PageIndex::try_from(p).unwrap()) {
                    let row = page.content.as_data().and_then(|d| d.rows.values().next().cloned()).unwrap_or(Row::Unknown);
                    if let Some(put) = page.allocate_row(24) {
                        put(row);
                    }
                    show(page);
                }
            }
            let _ = db.flush();
            check(&dev, "writing added rows")?;
        }
        Kind::Row(ext, t) => {
            if let Ok(r) = Row::read_le_args(&mut dev, (page_type(ext, t),)) {
                show(&r);
                out = match r.write_options(&mut Dev::new(b), Endian::Little, ()) {
                    Ok(()) => "read and written",
                    Err(_) => "read",
                };
            }
        }
        Kind::Text => {
            if let Ok(t) = DeviceSQLString::read_options(&mut dev, Endian::Little, ()) {
                show(&t);
                let _ = write!(Null(0), "{t}");
                let _ = t.clone().into_string();
                out = match t.write_options(&mut Dev::new(b), Endian::Little, ()) {
                    Ok(()) => "read and written",
                    Err(_) => "read",
                };
            }
        }
        Kind::Anlz => {
            if let Ok(a) = ANLZ::read(&mut dev) {
                show_pretty(&a);
                out = match a.write(&mut Dev::new(b)) {
                    Ok(()) => "read and written",
                    Err(_) => "read",
                };
            }
        }
        Kind::Setting(t) => {
            if let Ok(s) = Setting::read_args(&mut dev, (t,)) {
                show(&s);
                out = match s.write(dev.rewind()) {
                    Ok(()) => "read and written",
                    Err(_) => "read",
                };
            }
        }
        Kind::Xml => {
            let r: Result<Document, _> = quick_xml::de::from_reader(std::io::BufReader::new(b));
            if let Ok(d) = r {
                show(&d);
                out = match quick_xml::se::to_string(&d) {
                    Ok(_) => "read and written",
                    Err(_) => "read",
                };
            }
        }
    }
    check(&dev, "reading")?;
    Ok(out.to_string())
}

fn texts(k: usize) -> Vec<u8> {
    match k % 5 {
        0 => ref_encode("ab").unwrap(),
        1 => ref_encode("жw").unwrap(),
        2 => ref_encode_isrc("GBAYE6700149"),
        3 => ref_encode("").unwrap(),
        _ => ref_encode(&"l".repeat(130)).unwrap(),
    }
}

pub fn spec_row(sp: &Spec, k: usize) -> Vec<u8> {
    let mut vals = sp.default_vals(k as u64);
    if sp.has_subtype() {
        vals[0] = if sp.name == "Track" || k % 2 == 0 { 0x0644 } else { 0x0640 };
    }
    let strs = (0..sp.num_strings()).map(|i| if sp.name == "Track" { texts((i + k) % 4) } else { texts(i + k) }).collect();
    sp.build(&RowVal { vals, strs, offs: None }).bytes
}

fn bases(thorough: bool) -> Vec<Base> {
    let mut v = vec![];
    for sp in SPECS.iter() {
        let ps = if sp.name == "Track" { 0x400 } else { 0x100 };
        let mut db = Db::new(ps);
        let mut rows = vec![];
        let mut total = 0;
        for k in 0..4 {
            let r = spec_row(sp, k);
            total += r.len() + 6;
            if total + 0x28 + 40 < ps {
                rows.push((r, k != 1));
            }
        }
        db.table(sp.ptype, &[rows]);
        let bytes = db.bytes();
        let mut fields: Vec<usize> = (0..0x2c).step_by(2).chain((ps..ps + 0x40).step_by(2)).chain((2 * ps..2 * ps + 0x28 + 12).step_by(2)).chain((3 * ps - 40..3 * ps).step_by(2)).collect();
        fields.retain(|f| f + 2 <= bytes.len());
        v.push(Base { name: format!("db {}", sp.name), kind: Kind::Db(sp.ext), bytes, fields });
        for k in 0..if thorough { 5 } else { 2 } {
            v.push(Base { name: format!("row {} {k}", sp.name), kind: Kind::Row(sp.ext, sp.ptype), bytes: spec_row(sp, k), fields: vec![] });
        }
    }
    // two tables of an unknown type and a longer chain
    let mut db = Db::new(0x100);
    let g = |k: u32| (spec("Genre").row(&[("id", k as u64)], &["g"]), k % 3 != 0);
    db.table(1, &[(1..18).map(g).collect(), vec![g(30)], vec![]]);
    db.table(77, &[vec![(vec![0xd7; 16], true)]]);
    let bytes = db.bytes();
    v.push(Base { name: "db chain".into(), kind: Kind::Db(false), fields: (0..0x3c).step_by(2).chain((1..5).flat_map(|p| (0x100 * p..0x100 * p + 0x40).step_by(2))).collect(), bytes });
    for k in 0..5 {
        v.push(Base { name: format!("text {k}"), kind: Kind::Text, bytes: texts(k), fields: vec![] });
    }
    for (name, sec) in c_anlz::alphabet() {
        let bytes = c_anlz::file(&[1, 2, 3, 4], &[&sec, &c_anlz::beat_grid(1)]);
        v.push(Base { name: format!("anlz {name}"), kind: Kind::Anlz, fields: (0..bytes.len().min(120)).step_by(2).collect(), bytes });
    }
    for (name, t, bytes) in default_files() {
        v.push(Base { name: name.into(), kind: Kind::Setting(t), bytes, fields: (0..24).step_by(2).chain((96..110).step_by(2)).collect() });
    }
    v.push(Base { name: "xml".into(), kind: Kind::Xml, bytes: XML.as_bytes().to_vec(), fields: vec![0] });
    v
}

pub const XML: &str = r##"<?xml version="1.0" encoding="UTF-8"?>
<DJ_PLAYLISTS Version="1.0.0"><PRODUCT Name="rekordbox" Version="6" Company="AlphaTheta"/>
<COLLECTION Entries="2"><TRACK TrackID="1" Name="a &amp; b" Artist="x" TotalTime="3" AverageBpm="120.5" DateAdded="2024-01-31" Rating="255" Colour="0xFF00FF" Location="file://localhost/a%20b.mp3"><TEMPO Inizio="0.1" Bpm="120.00" Metro="4/4" Battito="1"/><POSITION_MARK Name="" Type="0" Start="0.5" End="1" Num="-1"/></TRACK><TRACK TrackID="2" Location="file://localhost/c"/></COLLECTION>
<PLAYLISTS><NODE Type="0" Name="ROOT" Count="2"><NODE Name="f" Type="0" Count="0"/><NODE Name="p" Type="1" KeyType="0" Entries="1"><TRACK Key="1"/></NODE></NODE></PLAYLISTS></DJ_PLAYLISTS>"##;

fn report(rec: &mut Rec, base: &Base, how: impl Fn() -> String, r: Result<String, String>) {
    rec.count("evaluations", 1);
    match r {
        Ok(o) => rec.outcome(&format!("{}: {o}", base.name.split(' ').next().unwrap())),
        Err(e) => {
            // keyed by where it happens
            let at = e.rsplit(" at ").next().unwrap_or("").to_string();
            rec.fail(format!("{}:{}", base.name.split(' ').next().unwrap(), truncate(&at, 80)), format!("{} {}: {e}", base.name, how()));
        }
    }
}

const V16: [u16; 12] = [0, 1, 2, 4, 0x7f, 0xff, 0x100, 0x1fff, 0x7fff, 0x8000, 0xfffe, 0xffff];
const V32: [u32; 16] = [0, 1, 2, 3, 0x14, 0x27, 0x28, 0xff, 0x1000, 0xffff, 0x0003_ffff, 0x03ff_ffff, 0x0800_0000, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff];

fn put(b: &mut [u8], at: usize, width: usize, val: u32, big: bool) {
    let v = if big { val.to_be_bytes() } else { val.to_le_bytes() };
    let v = if width == 2 { if big { &v[2..] } else { &v[..2] } } else { &v[..] };
    let n = width.min(b.len() - at);
    b[at..at + n].copy_from_slice(&v[..n]);
}

fn big(k: Kind) -> bool {
    matches!(k, Kind::Anlz)
}

pub fn c19(ctx: &mut Ctx) {
    ctx.level = "fault_enumeration";
    ctx.rule = "one evaluation per malformed input: read completely, displayed, written back, rows added; answers with a value or an error within the I/O, memory (8 MB + 256 x input) and time budget".into();
    let bs = bases(!ctx.quick());
    let br = &bs;
    let total: usize = bs.iter().map(|b| b.bytes.len()).sum();
    ctx.bound(format!("{} files, rows and strings of {total} bytes: unchanged, every truncation, every byte with all 256 values{}", bs.len(), if ctx.quick() { " (outside of headers and row groups: 14 values)" } else { "" }));
    const Q: [u8; 6] = [0, 1, 0x40, 0x7f, 0x80, 0xff];
    let quick = ctx.quick();
    let jobs: Vec<(usize, usize)> = bs.iter().enumerate().flat_map(|(i, b)| (0..b.bytes.len()).map(move |p| (i, p))).collect();
    let jr = &jobs;
    ctx.par("unchanged", bs.len() as u64, |i, rec| {
        let b = &br[i as usize];
        let r = exercise(b.kind, &b.bytes);
        if let Ok(x) = &r {
            if !matches!(x.as_str(), "read and written" | "everything read" | "some pages read") {
                rec.fail(format!("base:{}", b.name), format!("{}: the unchanged file gives {x:?}", b.name));
            }
        }
        report(rec, b, || "unchanged".into(), r);
    });
    ctx.par("truncations", jobs.len() as u64, |i, rec| {
        let (k, p) = jr[i as usize];
        let b = &br[k];
        report(rec, b, || format!("cut to {p} bytes"), exercise(b.kind, &b.bytes[..p]));
        if let Kind::Db(e) = b.kind {
            report(rec, b, || format!("opened as the other kind, cut to {p} bytes"), exercise(Kind::Db(!e), &b.bytes[..p]));
        }
    });
    ctx.par("bytes", jobs.len() as u64, |i, rec| {
        let (k, p) = jr[i as usize];
        let b = &br[k];
        let mut m = b.bytes.clone();
        let all = !quick || b.fields.contains(&(p & !1)) || (b.fields.is_empty() && p < 48);
        let old = b.bytes[p];
        for x in 0..=255u8 {
            if x != old && (all || (x ^ old).is_power_of_two() || Q.contains(&x)) {
                m[p] = x;
                rec.count("distinct_by_construction", 1);
                report(rec, b, || format!("byte {p:#x} changed to {x:#x}"), exercise(b.kind, &m));
            }
        }
    });
    ctx.bound(format!("every 16- and 32-bit field at every position with {} and {} boundary values, also relative to the stored value and the file size", V16.len(), V32.len()));
    ctx.par("fields", jobs.len() as u64, |i, rec| {
        let (k, p) = jr[i as usize];
        let b = &br[k];
        let old = u32::from_le_bytes(std::array::from_fn(|j| *b.bytes.get(p + j).unwrap_or(&0)));
        let n = b.bytes.len() as u32;
        for width in [2usize, 4] {
            if p + width > b.bytes.len() {
                continue;
            }
            let vals: Vec<u32> = if width == 2 { V16.iter().map(|x| *x as u32).collect() } else { V32.to_vec() };
            let rel = [old.wrapping_add(1), old.wrapping_sub(1), old.wrapping_mul(2), old.rotate_left(8), n, n - 1, n + 1];
            for v in vals.into_iter().chain(rel) {
                let mut m = b.bytes.clone();
                put(&mut m, p, width, v, big(b.kind));
                report(rec, b, || format!("{width} bytes at {p:#x} set to {v:#x}"), exercise(b.kind, &m));
            }
        }
    });
    // pairs of fields
    let mut pj: Vec<(usize, usize, usize)> = vec![];
    for (i, b) in bs.iter().enumerate() {
        let f: Vec<usize> = if b.fields.is_empty() { (0..b.bytes.len().min(64)).step_by(2).collect() } else { b.fields.clone() };
        let deep = !ctx.quick() || ["db Genre", "db Tag"].contains(&b.name.as_str()) || matches!(b.kind, Kind::Anlz | Kind::Setting(_));
        if deep && !matches!(b.kind, Kind::Xml) {
            for x in 0..f.len() {
                for y in x + 1..f.len() {
                    pj.push((i, f[x], f[y]));
                }
            }
        }
    }
    ctx.bound(format!("{} pairs of steering fields with all pairs of boundary values", pj.len()));
    let pr = &pj;
    ctx.par("pairs", pj.len() as u64, |i, rec| {
        let (k, x, y) = pr[i as usize];
        let b = &br[k];
        let mut m = b.bytes.clone();
        const A: [u32; 7] = [0, 1, 0x27, 0xff, 0x8000, 0x7fff_ffff, 0xffff_ffff];
        for wa in [2usize, 4] {
            for wb in [2usize, 4] {
                if y + wb > m.len() || x + wa > y {
                    continue;
                }
                for va in A {
                    for vb in A {
                        if wa == 2 && va > 0xffff || wb == 2 && vb > 0xffff {
                            continue;
                        }
                        m.copy_from_slice(&b.bytes);
                        put(&mut m, x, wa, va, big(b.kind));
                        put(&mut m, y, wb, vb, big(b.kind));
                        report(rec, b, || format!("{wa} bytes at {x:#x} set to {va:#x}, {wb} bytes at {y:#x} set to {vb:#x}"), exercise(b.kind, &m));
                    }
                }
            }
        }
    });
    // strings: every header
    ctx.bound("every DeviceSQL string of up to two bytes, and every header with every third byte, before 0, 1, 8 and 40 more bytes".to_string());
    ctx.par("string headers", 65536, |i, rec| {
        let b = Base { name: "text header".into(), kind: Kind::Text, bytes: vec![], fields: vec![] };
        let (x, y) = (i as u8, (i >> 8) as u8);
        for third in [0u8, 1, 4, 0x80, 0xff] {
            for fourth in [0u8, 3] {
                for tail in [0usize, 1, 8, 40] {
                    for fill in [0u8, 3, 0xd8] {
                        let mut m = vec![x, y, third, fourth];
                        m.resize(4 + tail, fill);
                        report(rec, &b, || hex(&m), exercise(Kind::Text, &m));
                    }
                }
            }
        }
        report(rec, &b, || hex(&[x, y]), exercise(Kind::Text, &[x, y]));
    });
    // XML: structural damage
    let xb = bs.iter().find(|b| matches!(b.kind, Kind::Xml)).unwrap();
    let x = &xb.bytes;
    let frag: [&[u8]; 16] = [b"<", b">", b"\"", b"&", b"&#0;", b"&#x110000;", b"&lt", b"<!--", b"<![CDATA[", b"<!DOCTYPE a [<!ENTITY b \"c\">]>", b"<?", b"/>", b"</", b"\0", b"\xff\xfe", b"<NODE Type=\"0\">"];
    ctx.bound(format!("XML: every position with {} fragments inserted, every byte range of up to {} bytes removed or repeated", frag.len(), ctx.pick(24, 120)));
    let span = ctx.pick(24usize, 120);
    ctx.par("xml damage", x.len() as u64, |p, rec| {
        let p = p as usize;
        for f in frag {
            let mut m = x[..p].to_vec();
            m.extend_from_slice(f);
            m.extend_from_slice(&x[p..]);
            report(rec, xb, || format!("{:?} inserted at {p}", String::from_utf8_lossy(f)), exercise(Kind::Xml, &m));
        }
        for n in 1..=span.min(x.len() - p) {
            let mut m = x[..p].to_vec();
            m.extend_from_slice(&x[p + n..]);
            report(rec, xb, || format!("{n} bytes removed at {p}"), exercise(Kind::Xml, &m));
            let mut m = x[..p + n].to_vec();
            m.extend_from_slice(&x[p..]);
            report(rec, xb, || format!("{n} bytes repeated at {p}"), exercise(Kind::Xml, &m));
        }
    });
    // deep nesting, on the stack of an ordinary thread
    let depths: Vec<usize> = (1..=64).chain([100, 200, 300, 500, 1000, 2000, 5000, 10_000, 50_000, 200_000]).collect();
    ctx.bound("XML folders nested up to 200000 levels, on a thread with the default stack size".to_string());
    let dr = &depths;
    ctx.par("xml nesting", depths.len() as u64 * 2, |i, rec| {
        let (d, closed) = (dr[(i / 2) as usize], i % 2 == 0);
        let mut t = String::from("<DJ_PLAYLISTS Version=\"1.0.0\"><PRODUCT Name=\"a\" Version=\"b\" Company=\"c\"/><COLLECTION Entries=\"0\"></COLLECTION><PLAYLISTS>");
        t.push_str(&"<NODE Type=\"0\" Name=\"f\" Count=\"1\">".repeat(d));
        if closed {
            t.push_str(&"</NODE>".repeat(d));
            t.push_str("</PLAYLISTS></DJ_PLAYLISTS>");
        }
        let h = std::thread::spawn(move || exercise(Kind::Xml, t.as_bytes()));
        let r = h.join().unwrap_or_else(|_| Err("thread died".into()));
        if closed && d <= 64 && r.as_deref() != Ok("read and written") {
            rec.fail("nesting-refused", format!("{d} nested folders: {r:?}"));
        }
        report(rec, xb, || format!("{d} nested folders, closed: {closed}"), r);
    });
}
