//! C20 and C22: the command line tool, run as a separate unprivileged process on scratch files.

use crate::c_anlz;
use crate::c_settings::default_files;
use crate::c_string::ref_encode;
use crate::c_tree::{natural, NodeRow, Tree};
use crate::engine::*;
use crate::refpdb::*;
use binrw::BinRead;
use rekordcrate::anlz::ANLZ;
use rekordcrate::pdb::*;
use rekordcrate::setting::Setting;
use rekordcrate::xml::Document;
use rekordcrate::DeviceExportLoader;
use std::cell::OnceCell;
use std::collections::{BTreeMap, HashMap};
use std::fs;
use std::io::Cursor;
use std::os::unix::fs::{chown, symlink, PermissionsExt};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

const NOBODY: u32 = 65534;

/// The scratch area of a whole check.
struct Lab {
    root: PathBuf,
    bin: PathBuf,
}

impl Lab {
    fn new() -> Lab {
        let src = std::env::var_os("RCV_CLI").expect("RCV_CLI names the built command line tool");
        let root = std::env::temp_dir().join(format!("rcv-cli-{}", std::process::id()));
        let _ = fs::remove_dir_all(&root);
        fs::create_dir(&root).unwrap();
        fs::set_permissions(&root, fs::Permissions::from_mode(0o755)).unwrap();
        let bin = root.join("rekordcrate");
        fs::copy(src, &bin).unwrap();
        fs::set_permissions(&bin, fs::Permissions::from_mode(0o755)).unwrap();
        Lab { root, bin }
    }
}
impl Drop for Lab {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.root);
    }
}

/// The scratch area of one worker: the tool may write everywhere below `top`, and nowhere else.
struct Box_ {
    top: PathBuf,
    bin: PathBuf,
}

#[derive(Debug)]
struct Run {
    code: Option<i32>,
    signal: Option<i32>,
    out: String,
    err: String,
}

impl Run {
    fn crashed(&self) -> bool {
        self.signal.is_some() || self.code == Some(101) || self.err.contains("panicked at")
    }
    fn failed(&self) -> bool {
        !self.crashed() && self.code != Some(0)
    }
    fn ok(&self) -> bool {
        !self.crashed() && self.code == Some(0)
    }
    fn show(&self) -> String {
        format!("exit {:?} signal {:?}, stdout {:?}, stderr {:?}", self.code, self.signal, truncate(&self.out, 700), truncate(&self.err, 400))
    }
}

impl Box_ {
    fn get(lab: &Lab) -> Box_ {
        let top = lab.root.join(format!("w{}", std::process::id()));
        if !top.exists() {
            fs::create_dir(&top).unwrap();
            chown(&top, Some(NOBODY), Some(NOBODY)).unwrap();
        }
        Box_ { top, bin: lab.bin.clone() }
    }
    fn clear(&self) {
        for e in fs::read_dir(&self.top).unwrap() {
            let p = e.unwrap().path();
            if p.is_dir() && !p.is_symlink() {
                fs::remove_dir_all(&p).unwrap();
            } else {
                fs::remove_file(&p).unwrap();
            }
        }
    }
    fn dir(&self, rel: &str) -> PathBuf {
        let mut p = self.top.clone();
        for c in rel.split('/') {
            p.push(c);
            if !p.exists() {
                fs::create_dir(&p).unwrap();
                chown(&p, Some(NOBODY), Some(NOBODY)).unwrap();
            }
        }
        p
    }
    fn file(&self, rel: &str, bytes: &[u8]) -> PathBuf {
        if let Some((d, _)) = rel.rsplit_once('/') {
            self.dir(d);
        }
        let p = self.top.join(rel);
        let _ = fs::remove_file(&p);
        fs::write(&p, bytes).unwrap();
        chown(&p, Some(NOBODY), Some(NOBODY)).unwrap();
        p
    }
    /// Runs the tool with limited resources as an unprivileged user.
    fn run(&self, cwd: &Path, args: &[&std::ffi::OsStr]) -> Run {
        let io = self.top.with_extension("io");
        let (o, e) = (io.with_extension("out"), io.with_extension("err"));
        let mut c = Command::new(&self.bin);
        c.args(args).current_dir(cwd).env_clear().stdin(Stdio::null());
        c.stdout(fs::File::create(&o).unwrap()).stderr(fs::File::create(&e).unwrap());
        c.uid(NOBODY).gid(NOBODY);
        unsafe {
            c.pre_exec(|| {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                for (r, v) in [(libc::RLIMIT_CPU, 10), (libc::RLIMIT_AS, 2 << 30), (libc::RLIMIT_FSIZE, 32 << 20), (libc::RLIMIT_CORE, 0)] {
                    let l = libc::rlimit { rlim_cur: v, rlim_max: v };
                    libc::setrlimit(r, &l);
                }
                libc::umask(0o022);
                Ok(())
            });
        }
        let st = c.status().unwrap();
        let r = |p: &Path| String::from_utf8_lossy(&fs::read(p).unwrap()).into_owned();
        Run { code: st.code(), signal: st.signal(), out: r(&o), err: r(&e) }
    }
}

macro_rules! args {
    ($($x:expr),* $(,)?) => { &[$(std::ffi::OsStr::new($x)),*] };
}

/// All files (with contents), directories and links below a path.
fn snapshot(top: &Path, skip: Option<&Path>) -> BTreeMap<String, Vec<u8>> {
    fn walk(p: &Path, top: &Path, skip: Option<&Path>, out: &mut BTreeMap<String, Vec<u8>>) {
        for e in fs::read_dir(p).unwrap() {
            let p = e.unwrap().path();
            if Some(p.as_path()) == skip {
                continue;
            }
            let rel = p.strip_prefix(top).unwrap().to_string_lossy().into_owned();
            if p.is_symlink() {
                out.insert(rel, format!("link {:?}", fs::read_link(&p)).into_bytes());
            } else if p.is_dir() {
                out.insert(format!("{rel}/"), vec![]);
                walk(&p, top, skip, out);
            } else {
                out.insert(rel, fs::read(&p).unwrap_or_else(|e| format!("{e}").into_bytes()));
            }
        }
    }
    let mut out = BTreeMap::new();
    if top.is_dir() {
        walk(top, top, skip, &mut out);
    }
    out
}

// ------------------------------------------------------------------------------------------
// Databases

#[derive(Clone, Debug, Default)]
struct World {
    nodes: Vec<NodeRow>,
    /// (index, track, playlist)
    entries: Vec<(u32, u32, u32)>,
    artists: Vec<(u32, String)>,
    /// (id, artist, title, path)
    tracks: Vec<(u32, u32, String, String)>,
    /// Rows per page.
    per_page: usize,
    /// Order in which the tables are stored.
    order: usize,
}

const TABLES: [u32; 6] = [0, 1, 2, 7, 8, 6];

impl World {
    fn image(&self) -> Vec<u8> {
        let ps = 0x800;
        let mut db = Db::new(ps);
        let pages = |rows: Vec<Vec<u8>>, per: usize| -> Vec<Vec<(Vec<u8>, bool)>> {
            let mut v = vec![vec![]];
            let mut room = ps - 0x28 - 36;
            for r in rows {
                let cur: &mut Vec<_> = v.last_mut().unwrap();
                let need = r.len().next_multiple_of(4) + 8;
                if cur.len() >= per || need > room {
                    v.push(vec![]);
                    room = ps - 0x28 - 36;
                }
                room -= need;
                v.last_mut().unwrap().push((r, true));
            }
            v
        };
        let per = if self.per_page == 0 { 12 } else { self.per_page };
        let mut t = TABLES;
        t.rotate_left(self.order % 6);
        for t in t {
            let rows: Vec<Vec<u8>> = match t {
                0 => self.tracks.iter().map(|x| track(x.0, x.1, &x.2, &x.3)).collect(),
                2 => self.artists.iter().map(|x| artist(x.0, &x.1)).collect(),
                7 => self.nodes.iter().enumerate().map(|(k, r)| tree_node(r.parent, (self.nodes.len() - k) as u32, r.id, r.folder, &r.name)).collect(),
                8 => self.entries.iter().map(|x| playlist_entry(x.0, x.1, x.2)).collect(),
                1 => vec![spec("Genre").row(&[("id", 1)], &["house"])],
                _ => vec![spec("Color").row(&[("color", 1)], &["Pink"])],
            };
            db.table(t, &pages(rows, per));
        }
        db.bytes()
    }
    /// Replaces all ids by others: shifted, counted from the top, spread over all bytes.
    fn spread(&mut self, k: u64) {
        let f = |x: u32| match k % 5 {
            _ if x == 0 => 0,
            1 => x << 16 | x >> 16,
            2 => u32::MAX - x + 1,
            3 => x.wrapping_mul(0x0101_0101),
            4 => x | 0x8000_0000,
            _ => x,
        };
        self.nodes.iter_mut().for_each(|r| (r.id, r.parent) = (f(r.id), f(r.parent)));
        self.entries.iter_mut().for_each(|e| (e.1, e.2) = (f(e.1), f(e.2)));
        self.artists.iter_mut().for_each(|a| a.0 = f(a.0));
        self.tracks.iter_mut().for_each(|t| (t.0, t.1) = (f(t.0), f(t.1)));
    }
    /// Whether ids are reused in ways that contradict each other.
    fn contradictory(&self) -> bool {
        (0..self.nodes.len()).any(|i| self.nodes[i].id == 0 || self.nodes[..i].iter().any(|r| r.id == self.nodes[i].id)) || self.looping()
    }
    fn looping(&self) -> bool {
        // nodes from which the root is not reached and that are reached from the root: only with reused ids
        false
    }
    fn entries_of(&self, id: u32) -> BTreeMap<u32, u32> {
        self.entries.iter().filter(|e| e.2 == id).map(|e| (e.0, e.1)).collect()
    }
    /// What listing the playlists prints.
    fn listing(&self) -> Option<String> {
        fn go(w: &World, parent: u32, level: usize, out: &mut String, budget: &mut usize) -> Option<()> {
            for r in w.nodes.iter().filter(|r| r.parent == parent) {
                *budget = budget.checked_sub(1)?;
                let ind = "    ".repeat(level);
                out.push_str(&format!("{ind}{} {}\n", if r.folder != 0 { "🗀" } else { "🗎" }, r.name));
                for (i, t) in w.entries_of(r.id) {
                    out.push_str(&format!("{ind}  ♫ {i}: "));
                    match w.tracks.iter().find(|x| x.0 == t) {
                        None => out.push_str(&format!("<Track for {:?} not found>\n", TrackId(t))),
                        Some(x) => match w.artists.iter().find(|a| a.0 == x.1) {
                            None => out.push_str(&format!("<Artist for {:?} not found> - {}\n", ArtistId(x.1), x.2)),
                            Some(a) => out.push_str(&format!("{} - {}\n", a.1, x.2)),
                        },
                    }
                }
                go(w, r.id, level + 1, out, budget)?;
            }
            Some(())
        }
        let mut out = String::new();
        go(self, 0, 0, &mut out, &mut (self.nodes.len() * 4 + 8))?;
        Some(out)
    }
    /// Playlists in order: folder names, name, lines relative to the export.
    fn playlists(&self) -> Option<Vec<(Vec<String>, String, Vec<String>)>> {
        fn go(w: &World, t: &[Tree], at: &mut Vec<String>, out: &mut Vec<(Vec<String>, String, Vec<String>)>) {
            for n in t {
                match n {
                    Tree::Folder(_, name, c) => {
                        at.push(name.clone());
                        go(w, c, at, out);
                        at.pop();
                    }
                    Tree::List(id, name) => {
                        let lines = w.entries_of(*id).values().filter_map(|t| w.tracks.iter().find(|x| x.0 == *t)).map(|x| x.3.clone()).collect();
                        out.push((at.clone(), name.clone(), lines));
                    }
                }
            }
        }
        let t = natural(&self.nodes, 0, &mut (self.nodes.len() * 4 + 8), &mut vec![])?;
        let mut out = vec![];
        go(self, &t, &mut vec![], &mut out);
        Some(out)
    }
    fn show(&self) -> String {
        let n: Vec<String> = self.nodes.iter().map(|r| format!("{}{} {:?} below {}", if r.folder != 0 { "folder " } else { "list " }, r.id, r.name, r.parent)).collect();
        format!("{}; entries (index, track, playlist) {:?}; tracks {:?}; artists {:?}; {} rows per page, tables rotated by {}", n.join(", "), self.entries, self.tracks, self.artists, self.per_page, self.order)
    }
}

fn base_world() -> World {
    World {
        artists: vec![(1, "Artist One".into()), (2, "Größe 2".into())],
        tracks: vec![
            (10, 1, "First".into(), "/Contents/a/first.mp3".into()),
            (11, 2, "Zwötes".into(), "/Contents/b c/Zwötes.mp3".into()),
            (12, 3, "Third".into(), "Contents/third.mp3".into()),
            (13, 1, "日本".into(), "/日本.mp3".into()),
        ],
        ..World::default()
    }
}

fn permutations(k: usize) -> Vec<Vec<usize>> {
    if k == 0 {
        return vec![vec![]];
    }
    permutations(k - 1).into_iter().flat_map(|p| (0..k).map(move |i| { let mut q = p.clone(); q.insert(i, k - 1); q })).collect()
}

/// Every forest of n rows: parents out of 0..=n and one that does not exist.
fn forest(n: usize, mut x: u64, ids: &[usize]) -> Vec<NodeRow> {
    (0..n)
        .map(|k| {
            let p = (x % (n as u64 + 2)) as u32;
            x /= n as u64 + 2;
            let folder = (x % 2) as u32;
            x /= 2;
            let parent = if p as usize > n { 99 } else { p };
            NodeRow { id: ids[k] as u32 + 1, parent, folder, name: ["n1", "zwö 2", "third", "4"][k].into() }
        })
        .collect()
}
fn forests(n: usize) -> u64 {
    ((n as u64 + 2) * 2).pow(n as u32)
}

// ------------------------------------------------------------------------------------------
// C22: listings and dumps

fn check_list(rec: &mut Rec, b: &Box_, w: &World) {
    rec.count("evaluations", 1);
    let p = b.file("db.pdb", &w.image());
    let r = b.run(&b.top, args!["list-playlists", &p]);
    let want = w.listing();
    if r.crashed() {
        rec.fail("list-crash", format!("{}: {}", w.show(), r.show()));
        return;
    }
    match want {
        Some(_) if w.contradictory() && r.failed() => rec.outcome("list: contradictory rows refused"),
        None if r.failed() => rec.outcome("list: contradictory rows refused"),
        None => rec.outcome("list: contradictory rows, finite"),
        Some(t) => {
            if !r.ok() || r.out != t {
                rec.fail("list", format!("{}: {}, expected {t:?}", w.show(), r.show()));
            } else {
                rec.outcome(if t.is_empty() { "list: empty" } else { "list: tree" });
            }
        }
    }
}

fn list_sections(ctx: &mut Ctx, lab: &Lab) {
    let max = 3;
    ctx.bound("listing: every forest of up to 3 rows (ids in every order; parents that do not exist, cycles, playlists with children included) and of 4 rows with ids in order, two entries per node; ids small, shifted, counted from the top, repeated in all bytes and with the highest bit");
    for n in 0..=max {
        let perms = permutations(n);
        ctx.par(&format!("list forests {n}"), forests(n) * perms.len() as u64, |i, rec| {
            let b = Box_::get(lab);
            let mut w = base_world();
            w.nodes = forest(n, i / perms.len() as u64, &perms[i as usize % perms.len()]);
            w.entries = w.nodes.iter().flat_map(|r| vec![(2, 10 + r.id % 4, r.id), (1, 13, r.id)]).collect();
            w.per_page = [12, 1, 2][i as usize % 3];
            w.order = i as usize;
            w.spread(i / 3);
            check_list(rec, &b, &w);
        });
    }
    let n4 = forests(4);
    let step = ctx.pick(4, 1);
    ctx.par("list forests 4", n4 / step, |i, rec| {
        let b = Box_::get(lab);
        let mut w = base_world();
        w.nodes = forest(4, i * step + (i / 7) % step, &[0, 1, 2, 3]);
        w.entries = vec![(1, 10, 2), (7, 11, 4)];
        w.order = i as usize;
        w.spread(i / 3);
        check_list(rec, &b, &w);
    });
    // reused and zero ids
    ctx.bound("listing: every list of up to 3 rows with ids and parents out of 0..3");
    for n in 1..=3u32 {
        ctx.par(&format!("list reused {n}"), 18u64.pow(n), |mut x, rec| {
            let b = Box_::get(lab);
            let mut w = base_world();
            for k in 0..n {
                let (id, parent, folder) = ((x % 3) as u32, (x / 3 % 3) as u32, (x / 9 % 2) as u32);
                x /= 18;
                w.nodes.push(NodeRow { id, parent, folder, name: format!("n{k}") });
            }
            check_list(rec, &b, &w);
        });
    }
    // entries
    let k = 4usize;
    ctx.bound("listing: playlists with up to 4 entries, stored in every order, every choice of 4 tracks (one unknown, one without artist), positions 0, 1, 5 and 2^32-1, over two playlists");
    for n in 0..=k {
        let perms = permutations(n);
        let np = perms.len() as u64;
        let choices = 4u64.pow(n as u32);
        ctx.par(&format!("list entries {n}"), np * choices * (1 << n), |i, rec| {
            let b = Box_::get(lab);
            let (perm, mut c, lists) = (&perms[(i % np) as usize], i / np % choices, i / np / choices);
            if n == 4 && lists != 0 && lists != 5 && lists != 14 {
                return;
            }
            let mut w = base_world();
            w.nodes = vec![NodeRow { id: 5, parent: 0, folder: 0, name: "A".into() }, NodeRow { id: 6, parent: 0, folder: 0, name: "B".into() }];
            for (j, p) in perm.iter().enumerate() {
                let t = [10, 11, 12, 77][(c % 4) as usize];
                c /= 4;
                w.entries.push(([0, 1, 5, u32::MAX][*p], t, 5 + (lists >> j & 1) as u32));
            }
            w.per_page = 1 + i as usize % 4;
            w.spread(i / 3);
            check_list(rec, &b, &w);
        });
    }
    // texts
    let texts: Vec<String> = ["", " ", "a", "  x", "x  ", "\u{3000}x", "x\ny", "x\r\n", "\u{1}", "\u{200b}", "\u{feff}a", "Ünï", "日本語", "😀🎵", "tab\there", "\"quoted\"", "{}", "%s", "\\n"].iter().map(|s| s.to_string()).chain([126usize, 127, 200].iter().map(|n| "L".repeat(*n))).collect();
    ctx.bound(format!("listing: {} texts as folder name, playlist name, artist name and title, all pairs of places", texts.len()));
    let tr = &texts;
    let nt = texts.len() as u64;
    ctx.par("list texts", nt * nt * 6, |i, rec| {
        let b = Box_::get(lab);
        let (x, y, places) = (&tr[(i % nt) as usize], &tr[(i / nt % nt) as usize], (i / nt / nt) as usize);
        let pl = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)][places];
        let mut t = ["F".to_string(), "P".into(), "A".into(), "T".into()];
        t[pl.0] = x.clone();
        t[pl.1] = y.clone();
        let [f, p, a, ti] = t;
        let w = World {
            nodes: vec![NodeRow { id: 1, parent: 0, folder: 1, name: f }, NodeRow { id: 2, parent: 1, folder: 0, name: p }],
            entries: vec![(1, 9, 2)],
            artists: vec![(4, a)],
            tracks: vec![(9, 4, ti, "/x".into())],
            ..World::default()
        };
        check_list(rec, &b, &w);
    });
    ctx.bound("listing: chains of 1..=100, 500, 3000 and 20000 nested folders, open and closed; 1..=60 siblings with as many entries");
    let depths: Vec<u32> = (1..=100).chain([500, 3000, 20_000]).collect();
    let dr = &depths;
    ctx.par("list shapes", depths.len() as u64 * 2 + 60, |i, rec| {
        let b = Box_::get(lab);
        let mut w = base_world();
        if let Some(n) = dr.get(i as usize / 2) {
            w.nodes = (1..=*n).map(|k| NodeRow { id: k, parent: k - 1, folder: 1, name: "f".into() }).collect();
            if i % 2 == 1 {
                w.nodes.push(NodeRow { id: n / 2 + 1, parent: *n, folder: 1, name: "loop".into() });
                w.nodes.push(NodeRow { id: 0, parent: 0, folder: 1, name: "root".into() });
            }
            if *n > 200 {
                // may be refused, must not crash
                let p = b.file("db.pdb", &w.image());
                let r = b.run(&b.top, args!["list-playlists", &p]);
                rec.count("evaluations", 1);
                if r.crashed() {
                    rec.fail("list-crash", format!("chain of {n} folders (closed: {}): {}", i % 2 == 1, r.show()));
                }
                rec.outcome("list: deep tree");
                return;
            }
        } else {
            let n = i as u32 - dr.len() as u32 * 2 + 1;
            w.nodes = (1..=n).rev().map(|k| NodeRow { id: k, parent: 0, folder: 0, name: format!("p{k}") }).collect();
            w.entries = (1..=n).rev().map(|k| (k, 10 + k % 5, 3)).collect();
            w.tracks = (0..n).map(|k| (10 + k, k % 3, format!("t{k}"), format!("/{k}"))).collect();
        }
        check_list(rec, &b, &w);
    });
    let sizes = SIZES;
    ctx.bound(format!("listing: {sizes:?} tracks, artists, playlists, entries of one playlist and entries spread over playlists, stored in ascending and descending order"));
    ctx.par("list sizes", sizes.len() as u64 * 10, |i, rec| {
        let b = Box_::get(lab);
        let w = large(sizes[i as usize / 10], i as usize / 2 % 5, i % 2 == 1);
        check_list(rec, &b, &w);
    });
}

const SIZES: [u32; 8] = [63, 64, 65, 255, 256, 257, 1000, 4000];

/// A database with many rows of one kind.
fn large(n: u32, kind: usize, backwards: bool) -> World {
    let mut w = base_world();
    let list = |id: u32, name: String| NodeRow { id, parent: 0, folder: 0, name };
    w.nodes = vec![list(5, "A".into()), list(6, "B".into())];
    match kind {
        0 => {
            // many tracks, of which one playlist has the first and the last ones
            w.tracks = (1..=n).map(|k| (k, 1 + k % 3, format!("title {k}"), format!("/Contents/{k}.mp3"))).collect();
            w.entries = [1, 2, n / 2, n - 1, n, n + 1].iter().enumerate().map(|(k, t)| (k as u32, *t, 5)).collect();
        }
        1 => {
            w.artists = (1..=n).map(|k| (k, format!("artist {k}"))).collect();
            w.tracks = (1..=n + 1).step_by(1 + n as usize / 50).map(|k| (k, k, format!("title {k}"), format!("/Contents/{k}.mp3"))).collect();
            w.entries = w.tracks.iter().map(|t| (t.0, t.0, 6)).collect();
        }
        2 => {
            w.nodes = (1..=n).map(|k| list(k, format!("list {k}"))).collect();
            w.entries = [1, n / 2, n].iter().map(|k| (1, 10, *k)).collect();
        }
        3 => {
            w.entries = (0..n).map(|k| (k * 3, 10 + k % 5, 5)).collect();
        }
        _ => {
            w.nodes = (1..=40).map(|k| list(k, format!("list {k}"))).collect();
            w.entries = (0..n).map(|k| (k / 40, 10 + k % 4, 1 + k % 40)).collect();
        }
    }
    if backwards {
        w.tracks.reverse();
        w.artists.reverse();
        w.entries.reverse();
    }
    w.per_page = 60;
    w
}

/// The lines of a rendering, in order, must occur in the output in that order.
fn subsequence(out: &str, want: &[String]) -> Result<(), String> {
    let mut at = 0;
    for w in want {
        match out[at..].find(w.as_str()) {
            Some(p) => at += p + w.len(),
            None => return Err(truncate(w, 300)),
        }
    }
    Ok(())
}

/// Debug renderings of what is stored in each table, made without the database access layer.
fn table_dump(db: &Db, ext: bool, t: usize) -> Vec<String> {
    let (ty, _, first, last) = db.tables[t];
    let pt = crate::c_rows::page_type(ext, ty);
    let mut v = vec![];
    for p in first..=last {
        match &db.pages[p as usize - 1] {
            Pg::Index(ix) => {
                for e in &ix.entries {
                    let e = IndexEntry::read_le(&mut Cursor::new(e.to_le_bytes())).unwrap();
                    v.push(format!("      {e:?}"));
                }
            }
            Pg::Data(d) => {
                let bytes = d.bytes(db.page_size, db.filler);
                let mut offs = d.present();
                offs.sort();
                for o in offs {
                    let mut c = Cursor::new(&bytes[HEAP + o as usize..]);
                    // offsets inside a row are relative to the row
                    match Row::read_le_args(&mut c, (pt,)) {
                        Ok(r) => v.push(format!("      {r:?}")),
                        Err(e) => panic!("{e}"),
                    }
                }
            }
            Pg::Raw(_) => (),
        }
    }
    v
}

fn dump_db(ext: bool) -> Db {
    let mut db = Db::new(0x400);
    if ext {
        for (k, sp) in SPECS.iter().filter(|s| s.ext).enumerate() {
            let rows = present((0..2 + k % 2).map(|i| crate::c_mal::spec_row(sp, i)).collect());
            db.table(sp.ptype, &[rows, present(vec![crate::c_mal::spec_row(sp, 3)])]);
        }
    } else {
        for sp in SPECS.iter().filter(|s| !s.ext) {
            let n = if sp.name == "Track" { 1 } else { 3 };
            let rows = present((0..n).map(|i| crate::c_mal::spec_row(sp, i)).collect());
            db.table(sp.ptype, &[rows, present(vec![crate::c_mal::spec_row(sp, 3)])]);
        }
    }
    db.table(77, &[vec![(vec![0xd7; 16], true)]]);
    db
}

fn dump_sections(ctx: &mut Ctx, lab: &Lab) {
    // databases: kind of contents x file name x option x unknown tables
    ctx.bound("database dumps: plain and extended contents x 5 file names x 3 kind options x unknown tables skipped or parsed; every table damaged in 4 ways, cut at every 64 bytes");
    let names = ["export.pdb", "exportExt.pdb", "Export.pdb", "x.pdb", "export.pdb.bak"];
    let dbs = [dump_db(false), dump_db(true)];
    let dbs = &dbs;
    // kinds of tables as they are told on stdout
    let title = |db: &Db, ext: bool, t: usize| format!("{:?}", crate::c_rows::page_type(ext, db.tables[t].0));
    let dump = |b: &Box_, img: &[u8], name: &str, opt: usize, unknown: bool| -> Run {
        let p = b.file(&format!("d/{name}"), img);
        let mut a: Vec<std::ffi::OsString> = vec!["dump-pdb".into()];
        if unknown {
            a.push("--parse-unknown-tables".into());
        }
        if opt > 0 {
            a.push("--db-type".into());
            a.push(["", "plain", "ext"][opt].into());
        }
        a.push(p.into());
        let a: Vec<&std::ffi::OsStr> = a.iter().map(|x| x.as_os_str()).collect();
        b.run(&b.top, &a)
    };
    ctx.par("dump options", 2 * 5 * 3 * 2, |i, rec| {
        let b = Box_::get(lab);
        rec.count("evaluations", 1);
        let (ext, name, opt, unknown) = (i % 2 == 1, names[(i / 2 % 5) as usize], (i / 10 % 3) as usize, i / 30 == 1);
        let db = &dbs[usize::from(ext)];
        let r = dump(&b, &db.bytes(), name, opt, unknown);
        let what = format!("{} contents in {name}, option {opt}, unknown tables parsed: {unknown}", if ext { "extended" } else { "plain" });
        let used = match (opt, name) {
            (1, _) => Some(false),
            (2, _) => Some(true),
            (_, "export.pdb") => Some(false),
            (_, "exportExt.pdb") => Some(true),
            _ => None,
        };
        let Some(used) = used else {
            rec.outcome("dump: kind not known");
            if !r.failed() {
                rec.fail("dump-kind", format!("{what}: {}", r.show()));
            }
            return;
        };
        if !r.ok() {
            rec.fail("dump-exit", format!("{what}: {}", r.show()));
            return;
        }
        let mut want = vec![];
        for t in 0..db.tables.len() {
            want.push(format!("Table {:?}: {}", rekordcrate::util::TableIndex::from(t), title(db, used, t)));
            if used == ext && db.tables[t].0 != 77 {
                want.extend(table_dump(db, ext, t));
            }
        }
        rec.outcome("dump: whole database");
        if let Err(m) = subsequence(&r.out, &want) {
            rec.fail("dump", format!("{what}: missing or out of order: {m}; {}", r.show()));
        }
        if used != ext {
            return;
        }
        let skipped = !r.out.contains(&"Skipping".to_string());
        if skipped != unknown {
            rec.fail("dump-unknown", format!("{what}: unknown table {}", if unknown { "skipped" } else { "not skipped" }));
        }
    });
    // damage
    let cases: Vec<(usize, usize, usize)> = (0..2).flat_map(|k| (0..dbs[k].tables.len()).flat_map(move |t| (0..4).map(move |d| (k, t, d)))).collect();
    let cr = &cases;
    ctx.par("dump damage", cases.len() as u64, |i, rec| {
        let b = Box_::get(lab);
        rec.count("evaluations", 1);
        let (k, t, d) = cr[i as usize];
        let db = &dbs[k];
        let mut img = db.bytes();
        let first = db.tables[t].2 as usize * 0x400;
        match d {
            // page magic, page link, header of the data page, first page outside of the file
            0 => img[first] = 0xff,
            1 => img[first + 12..first + 16].copy_from_slice(&0x1234u32.to_le_bytes()),
            2 => img[first + 0x400 + 3] = 0x55,
            _ => {
                let at = 28 + 16 * t + 8;
                img[at..at + 4].copy_from_slice(&0x9999u32.to_le_bytes());
            }
        }
        let r = dump(&b, &img, ["export.pdb", "exportExt.pdb"][k], 0, true);
        let what = format!("{} database, table {t} damaged in way {d}", ["plain", "extended"][k]);
        if r.crashed() {
            rec.fail("dump-crash", format!("{what}: {}", r.show()));
            return;
        }
        let mut want = vec![];
        for u in 0..db.tables.len() {
            want.push(format!("Table {:?}: {}", rekordcrate::util::TableIndex::from(u), title(db, k == 1, u)));
            if u != t && db.tables[u].0 != 77 {
                want.extend(table_dump(db, k == 1, u));
            }
        }
        rec.outcome("dump: damaged table");
        if let Err(m) = subsequence(&r.out, &want) {
            rec.fail("dump-continue", format!("{what}: missing or out of order: {m}; {}", r.show()));
        } else if r.err.is_empty() {
            rec.fail("dump-silent", format!("{what}: no message; {}", r.show()));
        }
    });
    let cuts = dbs[0].bytes().len() as u64 / 64;
    ctx.par("dump cut", cuts * 2, |i, rec| {
        let b = Box_::get(lab);
        rec.count("evaluations", 1);
        let k = (i % 2) as usize;
        let img = dbs[k].bytes();
        let n = (i / 2 * 64) as usize;
        if n >= img.len() {
            return;
        }
        let r = dump(&b, &img[..n], ["export.pdb", "exportExt.pdb"][k], 0, true);
        let header = 28 + 16 * dbs[k].tables.len();
        rec.outcome(if n < header { "dump: cut in the header" } else { "dump: cut" });
        if r.crashed() || (n < header && !r.failed()) || (n >= header && r.err.is_empty()) {
            rec.fail("dump-cut", format!("{} database cut to {n} bytes: {}", ["plain", "extended"][k], r.show()));
            return;
        }
        // tables in front of the cut
        if n >= header {
            let db = &dbs[k];
            let mut want = vec![];
            for u in 0..db.tables.len() {
                want.push(format!("Table {:?}: {}", rekordcrate::util::TableIndex::from(u), title(db, k == 1, u)));
                if db.tables[u].0 != 77 && (db.tables[u].3 as usize + 1) * 0x400 <= n {
                    want.extend(table_dump(db, k == 1, u));
                }
            }
            if let Err(m) = subsequence(&r.out, &want) {
                rec.fail("dump-continue", format!("{} database cut to {n} bytes: missing or out of order: {m}; {}", ["plain", "extended"][k], r.show()));
            }
        }
    });
    // settings
    ctx.bound("setting dumps: 4 kinds of contents x 6 file names x 5 options; every cut of every file");
    let files = default_files();
    let fr = &files;
    let snames = ["DEVSETTING.DAT", "DJMMYSETTING.DAT", "MYSETTING.DAT", "MYSETTING2.DAT", "mysetting.dat", "SETTING.DAT"];
    let opts = ["", "devsetting", "djmmysetting", "mysetting", "mysetting2"];
    let kind = |name: &str| fr.iter().position(|f| f.0 == name);
    ctx.par("setting options", fr.len() as u64 * 6 * 5, |i, rec| {
        let b = Box_::get(lab);
        rec.count("evaluations", 1);
        let n = fr.len() as u64;
        let (c, name, opt) = (&fr[(i % n) as usize], snames[(i / n % 6) as usize], opts[(i / n / 6) as usize]);
        let p = b.file(&format!("s/{name}"), &c.2);
        let r = if opt.is_empty() { b.run(&b.top, args!["dump-setting", &p]) } else { b.run(&b.top, args!["dump-setting", "--setting-type", opt, &p]) };
        let used = if opt.is_empty() { kind(name) } else { kind(&format!("{}.DAT", opt.to_uppercase())) };
        let what = format!("contents of {} in {name}, option {opt:?}", c.0);
        let want = used.and_then(|u| Setting::read_args(&mut Cursor::new(&c.2), (fr[u].1,)).ok());
        rec.outcome(if want.is_some() { "setting: shown" } else { "setting: refused" });
        match want {
            Some(s) => {
                if !r.ok() || r.out.trim_end() != format!("{s:#04x?}") {
                    rec.fail("setting", format!("{what}: {}", r.show()));
                }
            }
            None => {
                if !r.failed() {
                    rec.fail("setting-refused", format!("{what}: {}", r.show()));
                }
            }
        }
    });
    let cuts: Vec<(usize, usize)> = fr.iter().enumerate().flat_map(|(k, f)| (0..f.2.len()).map(move |n| (k, n))).collect();
    let cr = &cuts;
    ctx.par("setting cuts", cuts.len() as u64, |i, rec| {
        let b = Box_::get(lab);
        rec.count("evaluations", 1);
        let (k, n) = cr[i as usize];
        let p = b.file(&format!("s/{}", fr[k].0), &fr[k].2[..n]);
        let r = b.run(&b.top, args!["dump-setting", &p]);
        rec.outcome("setting: cut");
        if !r.failed() {
            rec.fail("setting-cut", format!("{} cut to {n} bytes: {}", fr[k].0, r.show()));
        }
    });
    // all settings of a device
    ctx.bound("settings listings: every combination of present, missing, empty and damaged files");
    ctx.par("list settings", 4u64.pow(4), |mut i, rec| {
        let b = Box_::get(lab);
        b.clear();
        rec.count("evaluations", 1);
        let top = b.dir("export/PIONEER");
        let what = format!("file states {i}");
        let mut missing = 0;
        for f in fr.iter() {
            let rel = format!("export/PIONEER/{}", f.0);
            match i % 4 {
                0 => drop(b.file(&rel, &f.2)),
                1 => missing += 1,
                2 => { b.file(&rel, b""); missing += 1 }
                _ => { b.file(&rel, &f.2[..f.2.len() - 3]); missing += 1 }
            }
            i /= 4;
        }
        let e = top.parent().unwrap();
        let r = b.run(&b.top, args!["list-settings", e]);
        let want = DeviceExportLoader::new(e.into()).load_settings().to_string();
        rec.outcome("settings listed");
        if !r.ok() || r.out.trim_end() != want.trim_end() {
            rec.fail("settings", format!("{what}: {}", r.show()));
        } else if (missing > 0) != !r.err.is_empty() {
            rec.fail("settings-warning", format!("{what}: {missing} files not usable; {}", r.show()));
        }
    });
    // analysis files
    let secs = c_anlz::alphabet();
    ctx.bound(format!("analysis dumps: every pair of {} sections, every cut of each", secs.len()));
    let sr = &secs;
    let ns = secs.len() as u64;
    ctx.par("dump analysis", ns * ns, |i, rec| {
        let b = Box_::get(lab);
        rec.count("evaluations", 1);
        let (x, y) = (&sr[(i % ns) as usize], &sr[(i / ns) as usize]);
        let img = c_anlz::file(&[1, 2, 3, 4], &[&x.1, &y.1]);
        let p = b.file("a/ANLZ0000.DAT", &img);
        let r = b.run(&b.top, args!["dump-anlz", &p]);
        let want = ANLZ::read(&mut Cursor::new(&img)).unwrap();
        rec.outcome("analysis: shown");
        if !r.ok() || r.out.trim_end() != format!("{want:#?}").trim_end() {
            rec.fail("anlz", format!("{} and {}: {}", x.0, y.0, r.show()));
        }
        if i % ns == i / ns {
            for n in 0..img.len() {
                rec.count("evaluations", 1);
                let p = b.file("a/ANLZ0000.DAT", &img[..n]);
                let r = b.run(&b.top, args!["dump-anlz", &p]);
                if !r.failed() {
                    rec.fail("anlz-cut", format!("{} twice, cut to {n} bytes: {}", x.0, r.show()));
                }
                if n >= 400 {
                    break;
                }
            }
        }
    });
    // XML
    let xml = crate::c_mal::XML;
    ctx.bound("XML dumps: a document with every element, cut at every position, one byte replaced at every position by 4 others");
    ctx.par("dump xml", xml.len() as u64 * 6 + 1, |i, rec| {
        let b = Box_::get(lab);
        rec.count("evaluations", 1);
        let at = (i / 6) as usize;
        let mut m = xml.as_bytes().to_vec();
        match i % 6 {
            5 => m.truncate(at),
            0 if i > 0 => return,
            0 => (),
            k => m[at] = b"?<>\""[k as usize - 1],
        }
        let p = b.file("x/rekordbox.xml", &m);
        let r = b.run(&b.top, args!["dump-xml", &p]);
        let want = guard(|| quick_xml::de::from_reader::<_, Document>(std::io::BufReader::new(&m[..])));
        rec.outcome(if matches!(want, Ok(Ok(_))) { "xml: shown" } else { "xml: refused" });
        let good = match want {
            Ok(Ok(d)) => r.ok() && r.out.trim_end() == format!("{d:#?}").trim_end(),
            _ => r.failed() && !r.err.is_empty(),
        };
        if !good {
            rec.fail("xml", format!("form {} at {at}: {}", i % 6, r.show()));
        }
    });
    // unreadable input
    ctx.bound("every command on a missing file, a directory, an unreadable file, an empty file, 64 KB of zeroes, of 0xff and of counting bytes, on '.', '..', '/' and on a file whose name is not text");
    let cmds = ["list-playlists", "dump-anlz", "dump-pdb", "dump-setting", "dump-xml", "export-playlists"];
    ctx.par("unreadable", cmds.len() as u64 * 11, |i, rec| {
        let b = Box_::get(lab);
        b.clear();
        rec.count("evaluations", 1);
        let (cmd, how) = (cmds[i as usize / 11], i % 11);
        let name = match cmd {
            "dump-pdb" => "e/export.pdb",
            "dump-setting" => "e/MYSETTING.DAT",
            "export-playlists" => "e/PIONEER/rekordbox/export.pdb",
            _ => "e/file",
        };
        let p = match how {
            0 => b.dir("e").join("none").join(name),
            1 => b.dir(name),
            2 => {
                let p = b.file(name, b"secret");
                fs::set_permissions(&p, fs::Permissions::from_mode(0)).unwrap();
                p
            }
            3 => b.file(name, b""),
            4 => b.file(name, &[0; 65536]),
            5 => b.file(name, &[0xff; 65536]),
            6 => b.file(name, &(0..65536).map(|x| x as u8).collect::<Vec<u8>>()),
            7 => ".".into(),
            8 => "..".into(),
            9 => "/".into(),
            _ => {
                use std::os::unix::ffi::OsStrExt;
                let p = b.dir("e").join(std::ffi::OsStr::from_bytes(b"\xff\xfe.pdb"));
                fs::write(&p, [0x55; 100]).unwrap();
                p
            }
        };
        let out = b.dir("out");
        let e = if how >= 7 { p.clone() } else { b.top.join("e") };
        let r = if cmd == "export-playlists" { b.run(&b.top, args![cmd, &e, &out]) } else { b.run(&b.top, args![cmd, &p]) };
        rec.outcome("unreadable input");
        if !r.failed() || r.err.is_empty() {
            rec.fail("unreadable", format!("{cmd}, form {how}: {}", r.show()));
        }
        if how == 2 {
            let _ = fs::set_permissions(&p, fs::Permissions::from_mode(0o755));
        }
    });
    // damaged databases never crash the listing
    let mut w = base_world();
    w.nodes = vec![NodeRow { id: 1, parent: 0, folder: 1, name: "f".into() }, NodeRow { id: 2, parent: 1, folder: 0, name: "p".into() }];
    w.entries = vec![(1, 10, 2)];
    let img = w.image();
    let ir = &img;
    ctx.bound("listing a database cut at every 32 bytes");
    ctx.par("list cut", img.len() as u64 / 32, |i, rec| {
        let b = Box_::get(lab);
        rec.count("evaluations", 1);
        let n = i as usize * 32;
        let p = b.file("db.pdb", &ir[..n]);
        let r = b.run(&b.top, args!["list-playlists", &p]);
        rec.outcome(if r.ok() { "list: cut, nothing needed lost" } else { "list: cut" });
        if r.crashed() || (r.ok() && Some(&r.out) != w.listing().as_ref()) || (r.failed() && r.err.is_empty()) {
            rec.fail("list-cut", format!("database cut to {n} bytes: {}", r.show()));
        }
    });
}

pub fn c22(ctx: &mut Ctx) {
    ctx.level = "exploration";
    ctx.rule = "one evaluation per run of the built tool on one set of files: stdout, stderr and exit status compared with the expectation".into();
    ctx.assume("entries of one playlist have distinct positions; rows that reuse an id may be refused");
    let lab = Lab::new();
    let _once: OnceCell<()> = OnceCell::new();
    list_sections(ctx, &lab);
    dump_sections(ctx, &lab);
}

// ------------------------------------------------------------------------------------------
// C20: exporting playlists

/// Whether the name is used unchanged as the name of a file.
fn ordinary(n: &str) -> bool {
    !n.is_empty() && n != "." && n != ".." && !n.contains(['/', '\\', '\0', '\n', '\r']) && n.len() <= 250
}

struct Export<'a> {
    /// How the export is named on the command line, and the folder it really is.
    arg: PathBuf,
    real: PathBuf,
    out_arg: PathBuf,
    out: PathBuf,
    cwd: PathBuf,
    /// Files that are in the output directory before.
    before: &'a [(&'a str, &'a [u8])],
}

fn check_export(rec: &mut Rec, b: &Box_, w: &World, x: &Export) {
    rec.count("evaluations", 1);
    let rel = |p: &Path| p.strip_prefix(&b.top).unwrap().to_string_lossy().into_owned();
    b.file(&format!("{}/PIONEER/rekordbox/export.pdb", rel(&x.real)), &w.image());
    b.file("a/b/sentinel", b"do not touch");
    b.file("a/sentinel.m3u", b"do not touch");
    b.file("sentinel.m3u", b"do not touch");
    for (n, c) in x.before {
        b.file(&format!("{}/{n}", rel(&x.out)), c);
    }
    let outside = snapshot(&b.top, Some(&x.out));
    let r = b.run(&x.cwd, args!["export-playlists", &x.arg, &x.out_arg]);
    let after = snapshot(&b.top, Some(&x.out));
    let mut got = snapshot(&x.out, None);
    got.retain(|n, _| !n.ends_with('/'));
    let what = || format!("{}: {}", w.show(), r.show());
    if after != outside {
        let new: Vec<_> = after.iter().filter(|e| outside.get(e.0) != Some(e.1)).map(|e| e.0).collect();
        let gone: Vec<_> = outside.keys().filter(|e| !after.contains_key(*e)).collect();
        rec.fail("escape", format!("outside of the output directory changed or created {new:?}, removed {gone:?}; {}", what()));
        return;
    }
    if r.crashed() {
        rec.fail("export-crash", what());
        return;
    }
    let Some(lists) = w.playlists() else {
        rec.outcome("export: contradictory rows");
        return;
    };
    if w.contradictory() && r.failed() {
        rec.outcome("export: contradictory rows refused");
        return;
    }
    let real = x.real.canonicalize().unwrap();
    let content = |lines: &[String]| -> Vec<u8> { lines.iter().map(|l| format!("{}/{}\n", real.display(), l.trim_start_matches('/'))).collect::<String>().into_bytes() };
    let all_ordinary = lists.iter().all(|l| ordinary(&l.1) && l.0.iter().all(|n| ordinary(n)));
    let paths: Vec<String> = lists.iter().map(|l| l.0.iter().map(|n| format!("{n}/")).collect::<String>() + &l.1 + ".m3u").collect();
    let dup = paths.iter().enumerate().any(|(i, p)| paths[..i].contains(p));
    // a folder and a playlist file that have the same path cannot both exist; overlong names neither
    let clash = paths.iter().any(|p| paths.iter().any(|q| q.starts_with(&format!("{p}/"))));
    let long = lists.iter().any(|l| l.1.len() > if dup { 240 } else { 250 } || l.0.iter().any(|n| n.len() > 250));
    if r.failed() && (clash || long) {
        rec.outcome("export: names that cannot be used refused");
        return;
    }
    if !r.ok() {
        rec.fail("export-failed", what());
        return;
    }
    let mut missing = vec![];
    // files that were there before and are not replaced stay as they are
    let mut expect: BTreeMap<String, Vec<u8>> = x.before.iter().map(|(n, c)| (n.to_string(), c.to_vec())).collect();
    if all_ordinary && !dup {
        for (p, l) in paths.iter().zip(&lists) {
            expect.insert(p.clone(), content(&l.2));
        }
        if got != expect {
            rec.fail("export", format!("wrote {got:?}, expected {expect:?}; {}", what()));
            return;
        }
        let printed: Vec<String> = paths.iter().map(|p| x.out_arg.join(p).display().to_string()).collect();
        if r.out.lines().collect::<Vec<_>>() != printed {
            rec.fail("export-printed", format!("expected {printed:?}; {}", what()));
        }
        rec.outcome(if lists.is_empty() { "export: nothing" } else { "export: exact" });
        return;
    }
    // with names that need to be changed: each playlist has exactly one file of its own
    for (n, c) in x.before {
        if got.get(*n).map(|g| &g[..]) != Some(*c) {
            rec.outcome("export: replaced an earlier file");
        }
    }
    for (i, l) in lists.iter().enumerate() {
        let c = content(&l.2);
        let p = &paths[i];
        let plain = ordinary(&l.1) && l.0.iter().all(|n| ordinary(n)) && !paths[..i].contains(p);
        let found = if plain && got.get(p) == Some(&c) { Some(p.clone()) } else { got.iter().find(|g| *g.1 == c && g.0.ends_with(".m3u")).map(|g| g.0.clone()) };
        match found {
            Some(f) => drop(got.remove(&f)),
            None => missing.push(format!("{:?}", (l, plain))),
        }
    }
    if !missing.is_empty() || got.keys().any(|k| !x.before.iter().any(|b| b.0 == k)) {
        rec.fail("export-names", format!("no file for {missing:?}, left over {:?}; {}", got.keys().collect::<Vec<_>>(), what()));
    }
    rec.outcome("export: changed names");
}

fn standard(b: &Box_) -> Export<'static> {
    let real = b.dir("a/b/in");
    let out = b.top.join("a/b/out");
    Export { arg: real.clone(), real, out_arg: out.clone(), out, cwd: b.top.clone(), before: &[] }
}

/// Gives every playlist entries that no other playlist has.
fn own_entries(w: &mut World) {
    let ids: Vec<u32> = w.nodes.iter().map(|r| r.id).collect();
    for (k, id) in ids.iter().enumerate() {
        w.tracks.push((100 + k as u32, 1, format!("own {k}"), format!("/Contents/own {k}.mp3")));
        w.entries.push((3, 10, *id));
        w.entries.push((1, 100 + k as u32, *id));
        w.entries.push((2, 999, *id));
    }
}

pub fn c20(ctx: &mut Ctx) {
    ctx.level = "exploration";
    ctx.rule = "one evaluation per run of the built tool on one device export: all files below and beside the output directory compared with the expectation".into();
    ctx.assume("entries of one playlist have distinct positions; rows that reuse an id may be refused; a case-sensitive file system");
    let lab = &Lab::new();
    ctx.bound("every forest of up to 3 rows (ids in every order; parents that do not exist, cycles, playlists with children included) and of 4 rows with ids in order; ids small, shifted, counted from the top, repeated in all bytes and with the highest bit");
    for n in 0..=3usize {
        let perms = permutations(n);
        ctx.par(&format!("forests {n}"), forests(n) * perms.len() as u64, |i, rec| {
            let b = Box_::get(lab);
            b.clear();
            let mut w = base_world();
            w.nodes = forest(n, i / perms.len() as u64, &perms[i as usize % perms.len()]);
            w.per_page = [12, 1, 2][i as usize % 3];
            w.order = i as usize;
            own_entries(&mut w);
            w.spread(i / 3);
            check_export(rec, &b, &w, &standard(&b));
        });
    }
    let step = ctx.pick(4, 1);
    ctx.par("forests 4", forests(4) / step, |i, rec| {
        let b = Box_::get(lab);
        b.clear();
        let mut w = base_world();
        w.nodes = forest(4, i * step + (i / 7) % step, &[0, 1, 2, 3]);
        own_entries(&mut w);
        w.spread(i / 3);
        check_export(rec, &b, &w, &standard(&b));
    });
    ctx.bound("every list of up to 3 rows with ids and parents out of 0..3");
    for n in 1..=3u32 {
        ctx.par(&format!("reused {n}"), 18u64.pow(n), |mut x, rec| {
            let b = Box_::get(lab);
            b.clear();
            let mut w = base_world();
            for k in 0..n {
                let (id, parent, folder) = ((x % 3) as u32, (x / 3 % 3) as u32, (x / 9 % 2) as u32);
                x /= 18;
                w.nodes.push(NodeRow { id, parent, folder, name: format!("n{k}") });
            }
            check_export(rec, &b, &w, &standard(&b));
        });
    }
    // names
    let abs = "\u{1}";
    let long = "L".repeat(300);
    let wide = "é".repeat(125);
    let names: Vec<String> = [
        "a", "b", "A b", "é", "日本", "a.m3u", "a (2)", "", ".", "..", "...", "../x", "../../x", "../../../x", "x/../../../y", "/", "a/b", "a/", "a\\b", "a\0b", "a\nb", " ", ".hidden", "-", "~", "$HOME", "%41", "_", "a_b", abs, &long,
        " a", "a ", "a.", "..a", "A", "a:b", "a*?", "\"a\"", "a\tb", "a%b", "con", &long[..250], &wide,
    ]
    .iter()
    .map(|s| s.to_string())
    .filter(|s| ref_encode(s).is_some())
    .collect();
    let nn = names.len() as u64;
    let nr = &names;
    ctx.bound(format!("{nn} names (ordinary, empty, dots, parent directories, separators, absolute, control characters, overlong): one playlist, all pairs in 5 shapes, all triples of {} in 2 shapes", ctx.pick(12, nn)));
    let subst = |s: &str, b: &Box_| if s == abs { b.top.join("a/abs").to_string_lossy().into_owned() } else { s.to_string() };
    let shape = |k: usize, n: &[String]| -> Vec<NodeRow> {
        let r = |id: u32, parent: u32, folder: u32, name: &str| NodeRow { id, parent, folder, name: name.into() };
        match k {
            0 => vec![r(1, 0, 0, &n[0])],
            1 => vec![r(1, 0, 1, &n[0]), r(2, 1, 0, &n[1])],
            2 => vec![r(1, 0, 0, &n[0]), r(2, 0, 0, &n[1])],
            3 => vec![r(1, 0, 1, &n[0]), r(2, 0, 0, &n[1]), r(3, 1, 0, "in")],
            4 => vec![r(1, 0, 1, &n[0]), r(2, 0, 1, &n[1]), r(3, 1, 0, "p"), r(4, 2, 0, "p")],
            5 => vec![r(3, 0, 1, "f"), r(1, 3, 0, &n[1]), r(2, 3, 0, &n[0]), r(4, 0, 0, &n[1])],
            6 => vec![r(1, 0, 1, &n[0]), r(2, 1, 1, &n[1]), r(3, 2, 0, &n[2])],
            _ => vec![r(1, 0, 0, &n[0]), r(2, 0, 0, &n[1]), r(3, 0, 0, &n[2])],
        }
    };
    let run = |rec: &mut Rec, k: usize, n: &[&String]| {
        let b = Box_::get(lab);
        b.clear();
        let n: Vec<String> = n.iter().map(|s| subst(s, &b)).collect();
        let mut w = base_world();
        w.nodes = shape(k, &n);
        own_entries(&mut w);
        check_export(rec, &b, &w, &standard(&b));
    };
    ctx.par("one name", nn, |i, rec| run(rec, 0, &[&nr[i as usize]]));
    ctx.par("two names", nn * nn * 5, |i, rec| run(rec, 1 + (i % 5) as usize, &[&nr[(i / 5 % nn) as usize], &nr[(i / 5 / nn) as usize]]));
    let few: Vec<&String> = if ctx.quick() {
        ["a", "a.m3u", "a (2)", "", ".", "..", "../../x", "/", "a/b", "a_b", "_", abs].iter().map(|s| nr.iter().find(|n| n == s).unwrap()).collect()
    } else {
        nr.iter().collect()
    };
    let nf = few.len() as u64;
    let fr = &few;
    ctx.par("three names", nf * nf * nf * 2, |i, rec| run(rec, 6 + (i % 2) as usize, &[fr[(i / 2 % nf) as usize], fr[(i / 2 / nf % nf) as usize], fr[(i / 2 / nf / nf) as usize]]));
    ctx.bound("2..=40 playlists of the same name in one folder");
    ctx.par("same name", 39, |i, rec| {
        let b = Box_::get(lab);
        b.clear();
        let mut w = base_world();
        w.nodes = (1..=i as u32 + 2).map(|k| NodeRow { id: k, parent: 0, folder: 0, name: if k % 5 == 4 { "same (2)".into() } else { "same".into() } }).collect();
        own_entries(&mut w);
        check_export(rec, &b, &w, &standard(&b));
    });
    // entries
    let k = ctx.pick(3usize, 4);
    ctx.bound(format!("playlists with up to {k} entries, stored in every order, every choice of 4 tracks (one unknown), positions 0, 1, 5 and 2^32-1, over two playlists; 1..=60 entries"));
    for n in 0..=k {
        let perms = permutations(n);
        let np = perms.len() as u64;
        let choices = 4u64.pow(n as u32);
        ctx.par(&format!("entries {n}"), np * choices * (1 << n), |i, rec| {
            let b = Box_::get(lab);
            b.clear();
            let (perm, mut c, lists) = (&perms[(i % np) as usize], i / np % choices, i / np / choices);
            let mut w = base_world();
            w.nodes = vec![NodeRow { id: 5, parent: 0, folder: 0, name: "A".into() }, NodeRow { id: 6, parent: 0, folder: 0, name: "B".into() }];
            for (j, p) in perm.iter().enumerate() {
                let t = [10, 11, 12, 77][(c % 4) as usize];
                c /= 4;
                w.entries.push(([0, 1, 5, u32::MAX][*p], t, 5 + (lists >> j & 1) as u32));
            }
            w.per_page = 1 + i as usize % 4;
            w.spread(i / 3);
            check_export(rec, &b, &w, &standard(&b));
        });
    }
    ctx.par("many entries", 60, |i, rec| {
        let b = Box_::get(lab);
        b.clear();
        let n = i as u32 + 1;
        let mut w = base_world();
        w.nodes = vec![NodeRow { id: 5, parent: 0, folder: 0, name: "A".into() }];
        w.entries = (1..=n).rev().map(|k| (k * 7 % 61, 1000 + k % 23, 5)).collect();
        w.tracks = (0..20).map(|k| (1000 + k, 1, format!("t{k}"), format!("/Contents/{k}.mp3"))).collect();
        check_export(rec, &b, &w, &standard(&b));
    });
    let sizes = SIZES;
    ctx.bound(format!("{sizes:?} tracks, artists, playlists, entries of one playlist and entries spread over playlists, stored in ascending and descending order; chains of 1..=40 folders around a playlist"));
    ctx.par("sizes", sizes.len() as u64 * 10, |i, rec| {
        let b = Box_::get(lab);
        b.clear();
        let w = large(sizes[i as usize / 10], i as usize / 2 % 5, i % 2 == 1);
        check_export(rec, &b, &w, &standard(&b));
    });
    ctx.par("folders", 80, |i, rec| {
        let b = Box_::get(lab);
        b.clear();
        let n = i as u32 / 2 + 1;
        let mut w = base_world();
        w.nodes = (1..=n).map(|k| NodeRow { id: k, parent: k - 1, folder: 1, name: format!("f {k}") }).collect();
        // a playlist at each level
        w.nodes.extend((1..=n).map(|k| NodeRow { id: 100 + k, parent: k - 1, folder: 0, name: format!("p{}", k % 2) }));
        w.nodes.push(NodeRow { id: 99, parent: n, folder: 0, name: "innermost".into() });
        if i % 2 == 1 {
            w.nodes.reverse();
        }
        own_entries(&mut w);
        check_export(rec, &b, &w, &standard(&b));
    });
    // track paths
    let tps = ["/Contents/a.mp3", "Contents/b.mp3", "//c.mp3", "///d.mp3", "/Ünï cödé/d e.mp3", "/日本/😀.mp3", "/a//b.mp3", "/x y/z.mp3/", "/#EXT", "#EXTM3U", " /a.mp3", "/a.mp3 ", "/a/../b.mp3", "/./a.mp3", "/a\\b.mp3", "/A.MP3", "/.hidden", "/%41.mp3", "~/x"];
    ctx.bound(format!("{} stored track paths, all pairs", tps.len()));
    let np = tps.len() as u64;
    ctx.par("track paths", np * np, |i, rec| {
        let b = Box_::get(lab);
        b.clear();
        let w = World {
            nodes: vec![NodeRow { id: 1, parent: 0, folder: 0, name: "p".into() }],
            entries: vec![(1, 1, 1), (2, 2, 1)],
            tracks: vec![(1, 9, "x".into(), tps[(i % np) as usize].into()), (2, 9, "y".into(), tps[(i / np) as usize].into())],
            ..World::default()
        };
        check_export(rec, &b, &w, &standard(&b));
    });
    // how the directories are given and what is there before
    ctx.bound("export given absolute, relative, with trailing slash, through a link, as '.'; output directory absent, nested, relative, with earlier and unrelated files");
    let before: [&[(&str, &[u8])]; 4] = [&[], &[("p.m3u", &[b'\n'; 9999]), ("f/q.m3u", &[b'x'; 9999])], &[("other.m3u", b"stay"), ("f/other.txt", b"stay"), ("g/p.m3u", b"stay")], &[("f/q.m3u", b""), ("p (2).m3u", b"stay")]];
    ctx.par("directories", 5 * 4 * 4, |i, rec| {
        let b = Box_::get(lab);
        b.clear();
        let mut w = base_world();
        w.nodes = vec![
            NodeRow { id: 1, parent: 0, folder: 1, name: "f".into() },
            NodeRow { id: 2, parent: 0, folder: 0, name: "p".into() },
            NodeRow { id: 3, parent: 1, folder: 0, name: "q".into() },
            NodeRow { id: 4, parent: 0, folder: 1, name: "empty".into() },
        ];
        own_entries(&mut w);
        let mut x = standard(&b);
        x.cwd = b.dir("a/b");
        match i % 5 {
            1 => x.arg = "in".into(),
            2 => x.arg = "./in/".into(),
            3 => {
                symlink("b/in", b.top.join("a/link")).unwrap();
                x.arg = b.top.join("a/link");
            }
            4 => {
                x.cwd = x.real.clone();
                x.arg = ".".into();
            }
            _ => (),
        }
        match i / 5 % 4 {
            1 => {
                x.out = b.top.join("a/b/new/er/out");
                x.out_arg = x.out.clone();
                if !before[(i / 20) as usize].is_empty() {
                    b.dir("a/b/new/er");
                } else {
                    // the directories above the output directory are created as well
                    b.dir("a/b/new/er");
                }
            }
            2 if i % 5 != 4 => x.out_arg = "out".into(),
            2 => x.out_arg = "../out".into(),
            3 if i % 5 != 4 => x.out_arg = "./in/../out/".into(),
            3 => x.out_arg = "../../b/out".into(),
            _ => (),
        }
        x.before = before[(i / 20) as usize];
        check_export(rec, &b, &w, &x);
    });
    // damaged databases
    ctx.bound("a database cut at every 32 bytes, and with every byte of the playlist tables replaced by 6 values: no crash, nothing outside changed");
    let mut w = base_world();
    w.nodes = vec![NodeRow { id: 1, parent: 0, folder: 1, name: "f".into() }, NodeRow { id: 2, parent: 1, folder: 0, name: "p".into() }];
    own_entries(&mut w);
    let img = w.image();
    let ir = &img;
    let damage = |rec: &mut Rec, m: &[u8], what: &dyn Fn() -> String| {
        let b = Box_::get(lab);
        b.clear();
        rec.count("evaluations", 1);
        let e = b.file("a/b/in/PIONEER/rekordbox/export.pdb", m);
        let _ = e;
        b.file("a/b/sentinel", b"do not touch");
        let (input, out) = (b.top.join("a/b/in"), b.top.join("a/b/out"));
        let before = snapshot(&b.top, Some(&out));
        let r = b.run(&b.top, args!["export-playlists", &input, &out]);
        if before != snapshot(&b.top, Some(&out)) {
            rec.fail("escape", format!("{}: files outside of the output directory changed; {}", what(), r.show()));
        }
        if r.crashed() || (r.failed() && r.err.is_empty()) {
            rec.fail("export-crash", format!("{}: {}", what(), r.show()));
        }
        rec.outcome(if r.ok() { "export: damage without effect on the result" } else { "export: damage refused" });
    };
    ctx.par("cut", img.len() as u64 / 32, |i, rec| damage(rec, &ir[..i as usize * 32], &|| format!("cut to {} bytes", i * 32)));
    // the pages of playlist tree and entries
    let at: Vec<usize> = {
        let db_pages: HashMap<u32, usize> = TABLES.iter().enumerate().map(|(k, t)| (*t, 2 * k + 1)).collect();
        [7u32, 8].iter().flat_map(|t| {
            let p = (db_pages[t] + 1) * 0x800;
            (p..p + 0x28 + 80).chain(p + 0x7d0..p + 0x800).collect::<Vec<_>>()
        }).collect()
    };
    let ar = &at;
    ctx.par("damage", at.len() as u64 * 6, |i, rec| {
        let p = ar[i as usize / 6];
        let mut m = ir.clone();
        m[p] = match i % 6 {
            0 => m[p] ^ 1,
            1 => m[p].wrapping_add(1),
            2 => 0,
            3 => 0xff,
            4 => b'/',
            _ => b'.',
        };
        damage(rec, &m, &|| format!("byte {p:#x} set to {:#x}", m[p]));
    });
}
