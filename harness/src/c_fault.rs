//! C08: every I/O call of every workload meets every kind of fault.

use crate::c_anlz;
use crate::c_rows::page_type;
use crate::c_settings::default_files;
use crate::engine::*;
use crate::refpdb::*;
use binrw::{BinRead, BinWrite, Endian};
use fallible_iterator::FallibleIterator;
use rekordcrate::anlz::ANLZ;
use rekordcrate::pdb::io::Database;
use rekordcrate::pdb::string::DeviceSQLString;
use rekordcrate::pdb::*;
use rekordcrate::setting::{Setting, SettingType};
use rekordcrate::util::TableIndex;
use std::cell::{Cell, RefCell};
use std::io::{Error as IoError, ErrorKind, Read, Result as IoResult, Seek, SeekFrom, Write};
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fault {
    /// The call fails once.
    Error,
    /// The call fails once, as if the data ended early.
    EofError,
    /// This and all later calls fail until the operation is retried.
    Dead,
    Interrupted,
    /// Zero bytes transferred.
    Nothing,
    /// One byte transferred.
    One,
    /// All but one byte transferred.
    AllButOne,
    /// One byte transferred, and the next call fails.
    Torn,
}
use Fault::*;
const FAULTS: [Fault; 8] = [Error, EofError, Dead, Interrupted, Nothing, One, AllButOne, Torn];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Call {
    Read,
    Write,
    Seek,
    Flush,
}

impl Fault {
    /// Whether this fault makes a difference to such a call.
    fn applies(self, c: Call, len: usize) -> bool {
        match self {
            Error | EofError | Dead => true,
            Interrupted => c != Call::Seek,
            Nothing => matches!(c, Call::Read | Call::Write) && len > 0,
            One | Torn => matches!(c, Call::Read | Call::Write) && len > 1,
            AllButOne => matches!(c, Call::Read | Call::Write) && len > 2,
        }
    }
    /// Faults that must go unnoticed.
    fn invisible(self, c: Call) -> bool {
        match self {
            One | AllButOne => true,
            Interrupted => matches!(c, Call::Read | Call::Write),
            _ => false,
        }
    }
}

pub struct State {
    /// What has reached the medium.
    durable: RefCell<Vec<u8>>,
    /// What the device shows (differs from `durable` when it buffers writes).
    view: RefCell<Vec<u8>>,
    buffered: bool,
    calls: Cell<u64>,
    plan: RefCell<Vec<(u64, Fault)>>,
    dead: Cell<bool>,
    torn: Cell<bool>,
    ended: Cell<bool>,
    /// Number of faults that surfaced as an error or as an early end.
    errors: Cell<u64>,
    limit: Cell<usize>,
    log: RefCell<Option<Vec<(Call, usize)>>>,
}

#[derive(Clone)]
pub struct FDisk(pub Rc<State>);
pub struct FDev {
    d: FDisk,
    pos: u64,
}

impl FDisk {
    fn new(bytes: Vec<u8>, buffered: bool) -> FDisk {
        FDisk(Rc::new(State {
            durable: RefCell::new(bytes.clone()),
            view: RefCell::new(bytes),
            buffered,
            calls: Cell::new(0),
            plan: RefCell::new(vec![]),
            dead: Cell::new(false),
            torn: Cell::new(false),
            ended: Cell::new(false),
            errors: Cell::new(0),
            limit: Cell::new(usize::MAX),
            log: RefCell::new(None),
        }))
    }
    fn dev(&self) -> FDev {
        FDev { d: self.clone(), pos: 0 }
    }
    /// The number of bytes to transfer.
    fn call(&self, c: Call, len: usize) -> IoResult<usize> {
        let s = &self.0;
        let k = s.calls.get();
        s.calls.set(k + 1);
        if let Some(l) = s.log.borrow_mut().as_mut() {
            l.push((c, len));
        }
        if s.dead.get() || s.torn.replace(false) {
            s.errors.set(s.errors.get() + 1);
            return Err(IoError::other("injected fault"));
        }
        if s.ended.get() && c == Call::Read {
            return Ok(0);
        }
        let f = s.plan.borrow().iter().find(|p| p.0 == k).map(|p| p.1);
        let err = || s.errors.set(s.errors.get() + 1);
        match f {
            Some(f) if f.applies(c, len) => match f {
                Fault::Error => {
                    err();
                    Err(IoError::other("injected fault"))
                }
                EofError => {
                    err();
                    Err(ErrorKind::UnexpectedEof.into())
                }
                Dead => {
                    err();
                    s.dead.set(true);
                    Err(ErrorKind::TimedOut.into())
                }
                Interrupted => {
                    if c == Call::Flush {
                        err();
                    }
                    Err(ErrorKind::Interrupted.into())
                }
                Nothing => {
                    err();
                    // the data has ended, until the operation is retried
                    s.ended.set(c == Call::Read);
                    Ok(0)
                }
                One => Ok(1),
                AllButOne => Ok(len - 1),
                Torn => {
                    s.torn.set(true);
                    Ok(1)
                }
            },
            _ => Ok(len.min(s.limit.get())),
        }
    }
}

impl Read for FDev {
    fn read(&mut self, buf: &mut [u8]) -> IoResult<usize> {
        let avail = self.d.0.view.borrow().len().saturating_sub(self.pos as usize);
        let n = self.d.call(Call::Read, buf.len().min(avail))?;
        let v = self.d.0.view.borrow();
        let at = self.pos as usize;
        if n > 0 {
            buf[..n].copy_from_slice(&v[at..at + n]);
        }
        self.pos += n as u64;
        Ok(n)
    }
}
impl Write for FDev {
    fn write(&mut self, buf: &[u8]) -> IoResult<usize> {
        let n = self.d.call(Call::Write, buf.len())?;
        let at = self.pos as usize;
        let put = |v: &mut Vec<u8>| {
            if n > 0 && v.len() < at + n {
                v.resize(at + n, 0);
            }
            v[at..][..n].copy_from_slice(&buf[..n]);
        };
        if n > 0 {
            put(&mut self.d.0.view.borrow_mut());
            if !self.d.0.buffered {
                put(&mut self.d.0.durable.borrow_mut());
            }
        }
        self.pos += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> IoResult<()> {
        self.d.call(Call::Flush, 0)?;
        *self.d.0.durable.borrow_mut() = self.d.0.view.borrow().clone();
        Ok(())
    }
}
impl Seek for FDev {
    fn seek(&mut self, p: SeekFrom) -> IoResult<u64> {
        self.d.call(Call::Seek, 0)?;
        let n = match p {
            SeekFrom::Start(x) => x as i128,
            SeekFrom::Current(x) => self.pos as i128 + x as i128,
            SeekFrom::End(x) => self.d.0.view.borrow().len() as i128 + x as i128,
        };
        if n < 0 {
            return Err(ErrorKind::InvalidInput.into());
        }
        self.pos = n as u64;
        Ok(self.pos)
    }
}

// ------------------------------------------------------------------------------------------
// Workloads

#[derive(Clone, Debug)]
enum Op {
    Open { ext: bool, persistent: bool },
    Header,
    Pages(usize),
    Rows(&'static str),
    Load(u32),
    EditTrack,
    EditArtist,
    EditNode,
    EditPage,
    EditHeader,
    Add,
    Flush,
    /// Reads a row of this type at the start of the disk.
    Row(bool, u32),
    WriteRow(bool, u32, Vec<u8>),
    Text,
    WriteText(String),
    Anlz,
    WriteAnlz(Vec<u8>),
    Setting(SettingType),
    WriteSetting(SettingType, Vec<u8>),
}

struct Work {
    name: String,
    image: Vec<u8>,
    ops: Vec<Op>,
}

struct Run {
    db: Option<Database<FDev>>,
    disk: FDisk,
}

fn s<E: std::fmt::Display>(e: E) -> String {
    e.to_string()
}

macro_rules! rows {
    ($db:expr, $name:expr, [$($t:ident),*]) => {
        match $name {
            $(stringify!($t) => {
                let mut v = vec![];
                let mut it = $db.iter_rows::<$t>().map_err(s)?;
                while let Some(r) = it.next().map_err(s)? {
                    v.push(format!("{r:?}"));
                }
                v.join("\n")
            })*
            x => panic!("{x}"),
        }
    };
}

impl Run {
    fn op(&mut self, op: &Op) -> Result<String, String> {
        let disk = self.disk.clone();
        // a fresh, empty medium for write operations
        let blank = || {
            disk.0.view.borrow_mut().clear();
            disk.0.durable.borrow_mut().clear();
            disk.dev()
        };
        let view = || hex(&disk.0.view.borrow());
        let seen = || hex(&disk.0.durable.borrow());
        if let Op::Open { ext, persistent } = op {
            let kind = if *ext { DatabaseType::Ext } else { DatabaseType::Plain };
            self.db = None;
            let d = if *persistent { Database::open(disk.dev(), kind) } else { Database::open_non_persistent(disk.dev(), kind) };
            let d = d.map_err(s)?;
            let r = format!("{:?}", d.get_header());
            self.db = Some(d);
            return Ok(r);
        }
        Ok(match op {
            Op::Row(ext, t) => format!("{:?}", Row::read_le_args(&mut disk.dev(), (page_type(*ext, *t),)).map_err(s)?),
            Op::WriteRow(ext, t, b) => {
                let row = Row::read_le_args(&mut std::io::Cursor::new(b), (page_type(*ext, *t),)).unwrap();
                row.write_options(&mut blank(), Endian::Little, ()).map_err(s)?;
                view()
            }
            Op::Text => format!("{:?}", DeviceSQLString::read_options(&mut disk.dev(), Endian::Little, ()).map_err(s)?),
            Op::WriteText(t) => {
                let x: DeviceSQLString = t.parse().unwrap();
                x.write_options(&mut blank(), Endian::Little, ()).map_err(s)?;
                view()
            }
            Op::Anlz => format!("{:?}", ANLZ::read(&mut disk.dev()).map_err(s)?),
            Op::WriteAnlz(b) => {
                let a = ANLZ::read(&mut std::io::Cursor::new(b)).unwrap();
                a.write(&mut blank()).map_err(s)?;
                view()
            }
            Op::Setting(t) => format!("{:?}", Setting::read_args(&mut disk.dev(), (*t,)).map_err(s)?),
            Op::WriteSetting(t, b) => {
                let a = Setting::read_args(&mut std::io::Cursor::new(b), (*t,)).unwrap();
                a.write(&mut blank()).map_err(s)?;
                view()
            }
            _ => {
                let db = self.db.as_mut().ok_or("no database")?;
                match op {
                    Op::Header => format!("{:?}", db.get_header()),
                    Op::Pages(t) => {
                        let mut v = vec![];
                        let mut it = db.iter_pages_for_table(TableIndex::from(*t)).map_err(s)?;
                        while let Some(p) = it.next().map_err(s)? {
                            v.push(format!("{p:?}"));
                        }
                        v.join("\n")
                    }
                    Op::Rows(name) => rows!(db, *name, [Track, Artist, Album, Artwork, Color, Genre, HistoryPlaylist, HistoryEntry, History, Key, Label, PlaylistTreeNode, PlaylistEntry, ColumnEntry, Menu]),
                    Op::Load(p) => format!("{:?}", db.load_page(PageIndex::try_from(*p).unwrap()).map_err(s)?),
                    Op::EditTrack => {
                        let mut it = db.iter_rows::<Track>().map_err(s)?;
                        let mut k = 0;
                        while let Some(t) = it.next().map_err(s)? {
                            k += 1;
                            t.rating = k;
                        }
                        String::new()
                    }
                    Op::EditArtist => {
                        let mut it = db.iter_rows::<Artist>().map_err(s)?;
                        let a = it.next().map_err(s)?.ok_or("no artist")?;
                        a.offsets.inner.name = "ALPHA".parse().unwrap();
                        String::new()
                    }
                    Op::EditNode => {
                        let mut it = db.iter_rows::<PlaylistTreeNode>().map_err(s)?;
                        while let Some(n) = it.next().map_err(s)? {
                            n.name = "short".parse().unwrap();
                        }
                        String::new()
                    }
                    Op::EditPage => {
                        let p = db.load_page(PageIndex::try_from(2u32).unwrap()).map_err(s)?;
                        p.header.unknown1 = 0xabcd_ef01;
                        String::new()
                    }
                    Op::EditHeader => {
                        let h = db.get_header_mut();
                        h.tables[0].last_page = h.tables[0].first_page;
                        String::new()
                    }
                    Op::Add => {
                        let row = Row::read_le_args(&mut std::io::Cursor::new(artist(77, "added")), (page_type(false, 2),)).unwrap();
                        let p = db.load_page(PageIndex::try_from(5u32).unwrap()).map_err(s)?;
                        let d = p.content.as_data_mut().map(|_| ());
                        let put = p.allocate_row(24).ok_or("page full")?;
                        put(row);
                        format!("{d:?}")
                    }
                    Op::Flush => {
                        db.flush().map_err(s)?;
                        seen()
                    }
                    x => panic!("{x:?}"),
                }
            }
        })
    }
}

type Plan = Vec<(u64, Fault)>;

/// Runs the workload; an operation that fails because of a fault is retried.
fn run(w: &Work, base: Option<&[String]>, plan: &Plan, limit: usize, buffered: bool, strict: bool, log: Option<&mut Vec<(Call, usize)>>) -> Result<(Vec<String>, bool), String> {
    let disk = FDisk::new(w.image.clone(), buffered);
    *disk.0.plan.borrow_mut() = plan.clone();
    disk.0.limit.set(limit);
    if log.is_some() {
        *disk.0.log.borrow_mut() = Some(vec![]);
    }
    let mut r = Run { db: None, disk: disk.clone() };
    let mut out = vec![];
    let mut reported = false;
    for (i, op) in w.ops.iter().enumerate() {
        let mut tries = 0;
        loop {
            let before = disk.0.errors.get();
            let res = guard(|| r.op(op)).map_err(|p| format!("operation {i} {op:?} panics: {p}"))?;
            match res {
                Ok(o) => {
                    if let Some(b) = base {
                        if b[i] != o {
                            let at = b[i].bytes().zip(o.bytes()).position(|(x, y)| x != y).unwrap_or(b[i].len().min(o.len()));
                            let cut = |x: &str| String::from_utf8_lossy(&x.as_bytes()[at.saturating_sub(60).min(x.len())..(at + 60).min(x.len())]).into_owned();
                            return Err(format!("operation {i} {} succeeds (attempt {tries}) with a wrong result: ..{}.. instead of ..{}..", brief(op), cut(&o), cut(&b[i])));
                        }
                    }
                    out.push(o);
                    break;
                }
                Err(e) => {
                    if disk.0.errors.get() == before {
                        return Err(format!("operation {i} {} fails without a fault (attempt {tries}): {e}", brief(op)));
                    }
                    if strict {
                        return Err(format!("operation {i} {} fails although the transfer was only split: {e}", brief(op)));
                    }
                    reported = true;
                    tries += 1;
                    if tries > 4 {
                        return Err(format!("operation {i} {} keeps failing: {e}", brief(op)));
                    }
                    // the fault is repaired
                    disk.0.dead.set(false);
                    disk.0.torn.set(false);
                    disk.0.ended.set(false);
                }
            }
        }
        // a sticky fault that nobody noticed is repaired as well
        disk.0.dead.set(false);
        disk.0.ended.set(false);
    }
    if let Some(l) = log {
        *l = disk.0.log.borrow_mut().take().unwrap();
    }
    out.push(hex(&disk.0.view.borrow()));
    if let Some(b) = base {
        if b[w.ops.len()] != out[w.ops.len()] {
            return Err("the medium holds something else at the end".into());
        }
    }
    Ok((out, reported))
}

fn brief(op: &Op) -> String {
    truncate(&format!("{op:?}"), 60)
}

const PS: usize = 0x300;

fn edit_image() -> Vec<u8> {
    let mut db = Db::new(PS);
    db.filler = 0x6b;
    let t = |id: u32, title: &str| track(id, id * 2, title, "/x.mp3");
    db.table(0, &[vec![(t(1, "one"), true), (t(2, "two"), false)], vec![(t(4, "four"), true)]]);
    db.table(2, &[vec![(artist(2, "alpha"), true), (artist(6, "beta"), true)]]);
    db.table(7, &[vec![(tree_node(0, 0, 1, 1, "root folder"), true), (tree_node(1, 0, 2, 0, "läst"), true)]]);
    db.table(77, &[vec![(vec![0xd7; 16], true)]]);
    db.bytes()
}

fn rows_of(sp: &Spec, wide: bool) -> Vec<Vec<u8>> {
    let mut v = vec![];
    for k in 0..3u64 {
        let mut vals = sp.default_vals(k);
        for (i, f) in sp.fields.iter().enumerate() {
            match f.1 {
                F::FileType => vals[i] = [1, 0x0b, 0x77][k as usize],
                F::Vis => vals[i] = k,
                F::Color => vals[i] = [0, 3, 8][k as usize],
                _ => (),
            }
            if f.0 == "parent_id" && sp.name == "Tag" {
                vals[i] = [0, 5, 0][k as usize];
            }
        }
        if wide && sp.has_subtype() {
            vals[0] |= 4;
        }
        let texts = ["", "plain", "wïde ♫"];
        let strs = (0..sp.num_strings()).map(|i| crate::c_string::ref_encode(texts[(i + k as usize) % 3]).unwrap()).collect();
        v.push(sp.build(&RowVal { vals, strs, offs: None }).bytes);
    }
    v
}

fn workloads(thorough: bool) -> Vec<Work> {
    let mut v = vec![];
    // databases with every row type
    for ext in [false, true] {
        let specs: Vec<&Spec> = SPECS.iter().filter(|x| x.ext == ext).collect();
        let table = |db: &mut Db, sp: &Spec| {
            let rows = rows_of(sp, sp.name == "Track");
            let rows: Vec<(Vec<u8>, bool)> = rows.into_iter().enumerate().map(|(i, r)| (r, i != 1)).collect();
            db.table(sp.ptype, &[rows]);
        };
        // groups of tables: each by itself, and all together in the thorough tier
        let mut groups: Vec<Vec<&Spec>> = specs.iter().map(|x| vec![*x]).collect();
        if thorough {
            groups.push(specs.clone());
        }
        for g in groups {
            let mut db = Db::new(if g.iter().any(|x| x.name == "Track") { 0x700 } else { 0x200 });
            for sp in &g {
                table(&mut db, sp);
            }
            let image = db.bytes();
            let tag = if g.len() == 1 { g[0].name } else { "all" };
            let mut ops = vec![Op::Open { ext, persistent: false }];
            ops.extend((0..g.len()).map(Op::Pages));
            v.push(Work { name: format!("pages {tag} ext={ext}"), image: image.clone(), ops });
            if !ext {
                let mut ops = vec![Op::Open { ext, persistent: false }];
                ops.extend(g.iter().map(|x| Op::Rows(x.name)));
                ops.push(Op::Header);
                v.push(Work { name: format!("rows {tag}"), image: image.clone(), ops });
            }
            let mut ops = vec![Op::Open { ext, persistent: true }];
            ops.extend((1..=g.len() as u32 * 2).rev().map(Op::Load));
            ops.push(Op::Flush);
            v.push(Work { name: format!("load and flush {tag} ext={ext}"), image, ops });
        }
    }
    let open = Op::Open { ext: false, persistent: true };
    v.push(Work {
        name: "edit".into(),
        image: edit_image(),
        ops: vec![open.clone(), Op::EditTrack, Op::EditArtist, Op::Flush, Op::Add, Op::EditNode, Op::EditPage, Op::Flush, Op::Pages(0), Op::Pages(3), Op::EditHeader, Op::Flush, open.clone(), Op::Pages(0), Op::Pages(1), Op::Pages(2), Op::Pages(3)],
    });
    v.push(Work { name: "small edit".into(), image: edit_image(), ops: vec![open.clone(), Op::EditArtist, Op::Flush, open.clone(), Op::Rows("Artist")] });
    v.push(Work { name: "add".into(), image: edit_image(), ops: vec![open.clone(), Op::Add, Op::Flush, open, Op::Load(5)] });
    // single rows
    for sp in SPECS.iter() {
        for wide in [false, true] {
            if wide && !sp.has_subtype() || !wide && sp.name == "Track" {
                continue;
            }
            for (k, r) in rows_of(sp, wide).into_iter().enumerate() {
                v.push(Work { name: format!("row {} {k} {wide}", sp.name), image: r.clone(), ops: vec![Op::Row(sp.ext, sp.ptype)] });
                v.push(Work { name: format!("write row {} {k} {wide}", sp.name), image: vec![], ops: vec![Op::WriteRow(sp.ext, sp.ptype, r)] });
            }
        }
    }
    // texts
    for t in ["", "a", "abc", "wïde ♫", &"x".repeat(126), &"y".repeat(127), &"♫".repeat(130)] {
        v.push(Work { name: format!("text {}", t.len()), image: crate::c_string::ref_encode(t).unwrap(), ops: vec![Op::Text] });
        v.push(Work { name: format!("write text {}", t.len()), image: vec![], ops: vec![Op::WriteText(t.to_string())] });
    }
    v.push(Work { name: "text isrc".into(), image: crate::c_string::ref_encode_isrc("DEAR41234567"), ops: vec![Op::Text] });
    // analysis files
    let al = c_anlz::alphabet();
    for (name, sec) in &al {
        let f = c_anlz::file(&[1, 2, 3, 4], &[sec, &c_anlz::beat_grid(1)]);
        v.push(Work { name: format!("anlz {name}"), image: f.clone(), ops: vec![Op::Anlz] });
        v.push(Work { name: format!("write anlz {name}"), image: vec![], ops: vec![Op::WriteAnlz(f)] });
    }
    if thorough {
        let all: Vec<&[u8]> = al.iter().map(|x| x.1.as_slice()).collect();
        let f = c_anlz::file(&[], &all);
        v.push(Work { name: "anlz all".into(), image: f.clone(), ops: vec![Op::Anlz] });
        v.push(Work { name: "write anlz all".into(), image: vec![], ops: vec![Op::WriteAnlz(f)] });
    }
    for (name, t, image) in default_files() {
        v.push(Work { name: name.into(), image: image.clone(), ops: vec![Op::Setting(t)] });
        v.push(Work { name: format!("write {name}"), image: vec![], ops: vec![Op::WriteSetting(t, image)] });
    }
    v
}

pub fn c08(ctx: &mut Ctx) {
    ctx.level = "model_checking";
    ctx.rule = "one run per (workload, I/O call, fault): every operation either reports an error and its retry gives the faultless result, or gives the faultless result itself; split and interrupted transfers are never noticed".into();
    ctx.assume("the faultless run of the same build is the reference result (its correctness is the business of C01..C13)");
    let thorough = !ctx.quick();
    let ws = workloads(thorough);
    struct Base {
        obs: Vec<String>,
        log: Vec<(Call, usize)>,
    }
    let mut bases: Vec<Option<Base>> = vec![];
    let mut bad: Vec<String> = vec![];
    for w in &ws {
        let mut log = vec![];
        match run(w, None, &vec![], usize::MAX, false, false, Some(&mut log)) {
            Ok((obs, _)) => bases.push(Some(Base { obs, log })),
            Err(e) => {
                bad.push(format!("{}: {e}", w.name));
                bases.push(None);
            }
        }
    }
    let (wsr, br, badr) = (&ws, &bases, &bad);
    ctx.one("faultless", |rec| {
        for b in badr {
            rec.fail("faultless", format!("without any fault: {b}"));
        }
        rec.count("states", wsr.len() as u64);
    });
    let mut jobs: Vec<(usize, u64)> = vec![];
    for (i, b) in bases.iter().enumerate() {
        if let Some(b) = b {
            jobs.extend((0..b.log.len() as u64).map(|k| (i, k)));
        }
    }
    ctx.bound(format!("{} workloads, {} I/O calls, each with {} kinds of faults", ws.len(), jobs.len(), FAULTS.len()));
    let jr = &jobs;
    ctx.par("single", jobs.len() as u64, |i, rec| {
        let (w, k) = jr[i as usize];
        let (w, b) = (&wsr[w], br[w].as_ref().unwrap());
        let (call, len) = b.log[k as usize];
        for f in FAULTS {
            if !f.applies(call, len) {
                continue;
            }
            rec.count("traces", 1);
            rec.count("transitions", w.ops.len() as u64);
            rec.count("states", 1);
            match run(w, Some(&b.obs), &vec![(k, f)], usize::MAX, false, f.invisible(call), None) {
                Ok((_, rep)) => rec.outcome(&format!("{call:?} {f:?}: {}", if rep { "reported, retry succeeds" } else { "no effect" })),
                Err(e) => {
                    let key = format!("{}:{:?}:{f:?}", w.name, call);
                    rec.fail(key, format!("{}: {f:?} at call {k} ({call:?} of {len} bytes): {e}", w.name));
                }
            }
        }
    });
    // uniformly limited transfers
    let maxlim = ctx.pick(40u64, 300);
    ctx.bound(format!("all transfers limited to 1..={maxlim} bytes"));
    ctx.par("limits", ws.len() as u64 * maxlim, |i, rec| {
        let w = (i % wsr.len() as u64) as usize;
        let lim = (i / wsr.len() as u64) as usize + 1;
        let (w, Some(b)) = (&wsr[w], br[w].as_ref()) else { return };
        rec.count("traces", 1);
        rec.count("transitions", w.ops.len() as u64);
        rec.count("states", 1);
        match run(w, Some(&b.obs), &vec![], lim, false, true, None) {
            Ok(_) => rec.outcome("limited transfers"),
            Err(e) => rec.fail(format!("{}:limit", w.name), format!("{}: transfers of at most {lim} bytes: {e}", w.name)),
        }
    });
    // devices that buffer writes until they are flushed
    let mut bj: Vec<(usize, Option<u64>, Call, usize)> = vec![];
    for (i, b) in bases.iter().enumerate() {
        if let Some(b) = b {
            bj.push((i, None, Call::Flush, 0));
            bj.extend(b.log.iter().enumerate().filter(|(_, c)| matches!(c.0, Call::Flush | Call::Write)).map(|(k, c)| (i, Some(k as u64), c.0, c.1)));
        }
    }
    ctx.bound(format!("{} runs on a device that buffers writes until it is flushed", bj.len()));
    let bjr = &bj;
    ctx.par("buffered", bj.len() as u64, |i, rec| {
        let (w, k, call, len) = bjr[i as usize];
        let (w, b) = (&wsr[w], br[w].as_ref().unwrap());
        let Some(k) = k else {
            rec.count("traces", 1);
            rec.count("states", 1);
            match run(w, Some(&b.obs), &vec![], usize::MAX, true, true, None) {
                Ok(_) => rec.outcome("buffering device"),
                Err(e) => rec.fail("buffered", format!("{}: on a device that buffers writes: {e}", w.name)),
            }
            return;
        };
        for f in [Fault::Error, Torn, Interrupted] {
            if f.applies(call, len) {
                rec.count("traces", 1);
                rec.count("states", 1);
                match run(w, Some(&b.obs), &vec![(k, f)], usize::MAX, true, f.invisible(call), None) {
                    Ok(_) => rec.outcome(&format!("buffering device: {call:?} {f:?}")),
                    Err(e) => rec.fail(format!("buffered:{call:?}:{f:?}"), format!("{}: on a device that buffers writes: {f:?} at call {k} ({call:?}): {e}", w.name)),
                }
            }
        }
    });
    // pairs of faults on short workloads
    let cap = ctx.pick(70u64, 260);
    let short: Vec<usize> = (0..ws.len()).filter(|i| br[*i].as_ref().is_some_and(|b| (b.log.len() as u64) <= cap)).collect();
    let mut pj: Vec<(usize, u64)> = vec![];
    for i in &short {
        pj.extend((0..br[*i].as_ref().unwrap().log.len() as u64).map(|k| (*i, k)));
    }
    ctx.bound(format!("all pairs of faults on the {} workloads of at most {cap} calls", short.len()));
    let pjr = &pj;
    ctx.par("pairs", pj.len() as u64, |i, rec| {
        let (w, k) = pjr[i as usize];
        let (w, b) = (&wsr[w], br[w].as_ref().unwrap());
        let (call, len) = b.log[k as usize];
        let n = b.log.len() as u64;
        for f in [Fault::Error, Interrupted, Nothing, One, Torn] {
            if !f.applies(call, len) {
                continue;
            }
            for l in k + 1..n + 8 {
                for g in [Fault::Error, EofError, Interrupted, One, Nothing] {
                    rec.count("traces", 1);
                    rec.count("transitions", w.ops.len() as u64);
                    rec.count("states", 1);
                    if let Err(e) = run(w, Some(&b.obs), &vec![(k, f), (l, g)], usize::MAX, false, false, None) {
                        rec.fail(format!("{}:pair:{f:?}:{g:?}", w.name), format!("{}: {f:?} at call {k} ({call:?} of {len} bytes), {g:?} at call {l}: {e}", w.name));
                        if rec.full() {
                            return;
                        }
                    }
                }
            }
        }
        rec.outcome("pair");
    });
}
