//! C16: the playlist tree built from any set of stored playlist rows.

use crate::engine::*;
use crate::refpdb::*;
use rekordcrate::device::{get_playlists, PlaylistNode};
use rekordcrate::pdb::io::Database;
use rekordcrate::pdb::*;
use std::io::Cursor;

#[derive(Clone, Debug, PartialEq)]
pub struct NodeRow {
    pub id: u32,
    pub parent: u32,
    pub folder: u32,
    pub name: String,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tree {
    Folder(u32, String, Vec<Tree>),
    List(u32, String),
}

/// The tree the rows describe; None if it has no finite form within the given number of nodes.
pub fn natural(rows: &[NodeRow], parent: u32, budget: &mut usize, path: &mut Vec<u32>) -> Option<Vec<Tree>> {
    let mut out = vec![];
    for r in rows.iter().filter(|r| r.parent == parent) {
        *budget = budget.checked_sub(1)?;
        if r.folder != 0 {
            if r.id == 0 || path.contains(&r.id) {
                return None;
            }
            path.push(r.id);
            let c = natural(rows, r.id, budget, path)?;
            path.pop();
            out.push(Tree::Folder(r.id, r.name.clone(), c));
        } else {
            out.push(Tree::List(r.id, r.name.clone()));
        }
    }
    Some(out)
}

fn same(got: &[PlaylistNode], want: &[Tree]) -> bool {
    got.len() == want.len()
        && got.iter().zip(want).all(|(g, w)| match (g, w) {
            (PlaylistNode::Folder(f), Tree::Folder(id, n, c)) => f.id.0 == *id && f.name == *n && same(&f.children, c),
            (PlaylistNode::Playlist(p), Tree::List(id, n)) => p.id.0 == *id && p.name == *n,
            _ => false,
        })
}

pub fn node_db(pages: &[Vec<(NodeRow, bool)>], page_size: usize) -> Vec<u8> {
    let mut db = Db::new(page_size);
    db.table(0, &[vec![]]);
    let pages: Vec<Vec<(Vec<u8>, bool)>> = pages.iter().map(|p| p.iter().map(|(r, x)| (tree_node(r.parent, 0, r.id, r.folder, &r.name), *x)).collect()).collect();
    db.table(7, &pages);
    db.bytes()
}

fn check(rec: &mut Rec, img: &[u8], rows: &[NodeRow], what: &dyn Fn() -> String) -> bool {
    rec.count("evaluations", 1);
    let dup = (0..rows.len()).any(|i| rows[i].id == 0 || rows[..i].iter().any(|r| r.id == rows[i].id));
    let mut budget = rows.len() * if dup { 4 } else { 1 } + 8;
    let want = natural(rows, 0, &mut budget, &mut vec![]);
    let got = guard(|| {
        let mut db = Database::open_non_persistent(Cursor::new(img), DatabaseType::Plain)?;
        get_playlists(&mut db)
    });
    match (got, want) {
        (Err(p), _) => {
            rec.fail("panic", format!("{}: {p}", what()));
            false
        }
        (Ok(Ok(g)), Some(w)) => {
            rec.outcome(if w.is_empty() { "empty tree" } else { "tree" });
            if same(&g, &w) {
                true
            } else {
                rec.fail("tree", format!("{}: got {}, expected {}", what(), truncate(&format!("{g:?}"), 400), truncate(&format!("{w:?}"), 400)));
                false
            }
        }
        (Ok(Err(_)), _) if dup => {
            rec.outcome("contradictory rows refused");
            true
        }
        (Ok(Ok(_)), None) => {
            rec.outcome("contradictory rows: finite tree");
            true
        }
        (Ok(Err(e)), _) => {
            rec.fail("error", format!("{}: {e}", what()));
            false
        }
    }
}

fn show(rows: &[NodeRow]) -> String {
    rows.iter().map(|r| format!("{}{} below {}", if r.folder != 0 { "folder " } else { "list " }, r.id, r.parent)).collect::<Vec<_>>().join(", ")
}

pub fn c16(ctx: &mut Ctx) {
    ctx.level = "exploration";
    ctx.rule = "evaluations = databases with a playlist table whose tree is computed by the library and compared with the reference tree; distinct = distinct row lists".into();
    ctx.assume("rows below a playlist (not a folder) are not reachable; rows with duplicate or zero ids may be refused with an error");
    let n = 4u64;
    ctx.bound("every list of up to 4 rows (thorough: 5) with ids and parents out of 0..4 and both kinds, duplicates, cycles and orphans included");
    // every list of rows over ids 0..3 and parents 0..3
    let ids = n;
    let per = ids * ids * 2;
    let max = ctx.pick(4u32, 5);
    let row = move |mut x: u64, k: usize| {
        let id = (x % ids) as u32;
        x /= ids;
        let parent = (x % ids) as u32;
        x /= ids;
        NodeRow { id, parent, folder: x as u32, name: ["a", "bb", "ccc", "Ö", "e"][k].into() }
    };
    for len in 0..=max {
        let total = per.pow(len);
        let chunk = per.pow(len.saturating_sub(2)).max(1);
        ctx.par(&format!("lists of {len}"), total.div_ceil(chunk), |c, rec| {
            for x in c * chunk..(c + 1) * chunk {
                let mut y = x;
                let rows: Vec<NodeRow> = (0..len as usize)
                    .map(|k| {
                        let r = row(y % per, k);
                        y /= per;
                        r
                    })
                    .collect();
                // row lists in one page, and split into two pages
                let img = node_db(&[rows.iter().cloned().map(|r| (r, true)).collect()], 0x200);
                rec.count("distinct_by_construction", 1);
                if !check(rec, &img, &rows, &|| show(&rows)) && rec.full() {
                    return;
                }
                // rows are told apart by their ids alone: the same with equal names
                if len < 4 || x % 3 == 0 {
                    let mut rows = rows.clone();
                    let all = len < 4 || x % 2 == 0;
                    for (k, r) in rows.iter_mut().enumerate() {
                        r.name = if all || k % 2 == 0 { "same" } else { "" }.into();
                    }
                    let img = node_db(&[rows.iter().cloned().map(|r| (r, true)).collect()], 0x200);
                    rec.count("distinct_by_construction", 1);
                    if !check(rec, &img, &rows, &|| format!("{} (equal names)", show(&rows))) && rec.full() {
                        return;
                    }
                }
                if len > 0 && x % 7 == 0 {
                    let k = (x / 7) as usize % len as usize;
                    let (a, b) = rows.split_at(k);
                    let t = |v: &[NodeRow]| v.iter().cloned().map(|r| (r, true)).collect::<Vec<_>>();
                    let img = node_db(&[t(a), t(b)], 0x200);
                    check(rec, &img, &rows, &|| format!("{} (two pages, split at {k})", show(&rows)));
                }
            }
            rec.sample(|| format!("row lists of length {len}, block {c}"));
        });
    }
    // unique ids, every parent assignment
    let m = ctx.pick(6u64, 7);
    ctx.bound(format!("{m} rows with distinct ids 1..={m} in two orders, every assignment of parents out of 0..={m}, all folders / last ones playlists"));
    ctx.par("parents", (m + 1).pow(m as u32 - 3), |c, rec| {
        for d in 0..(m + 1).pow(3) {
            let mut x = c * (m + 1).pow(3) + d;
            let mut rows: Vec<NodeRow> = (1..=m)
                .map(|i| {
                    let p = (x % (m + 1)) as u32;
                    x /= m + 1;
                    NodeRow { id: i as u32, parent: p, folder: u32::from(i < m || c % 2 == 0), name: format!("n{i}") }
                })
                .collect();
            if d % 2 == 1 {
                rows.reverse();
            }
            let img = node_db(&[rows.iter().cloned().map(|r| (r, true)).collect()], 0x300);
            rec.count("distinct_by_construction", 1);
            if !check(rec, &img, &rows, &|| show(&rows)) && rec.full() {
                return;
            }
        }
    });
    // presence: deleted rows do not take part
    ctx.bound("every presence pattern of a tree of 9 rows on two pages; every folder flag value 2^k; ids and parents 2^k");
    let base = |k: u32| NodeRow { id: k, parent: [0, 0, 1, 1, 3, 0, 6, 6, 2, 4][k as usize], folder: u32::from([1, 3, 4, 6].contains(&k)), name: format!("node {k}") };
    ctx.par("presence", 512, |mask, rec| {
        let all: Vec<(NodeRow, bool)> = (1..=9).map(|k| (base(k), mask >> (k - 1) & 1 == 1)).collect();
        let rows: Vec<NodeRow> = all.iter().filter(|r| r.1).map(|r| r.0.clone()).collect();
        for split in 0..=9 {
            let (a, b) = all.split_at(split);
            let img = node_db(&[a.to_vec(), b.to_vec()], 0x300);
            rec.distinct(&img);
            check(rec, &img, &rows, &|| format!("presence {mask:#b}, split {split}"));
        }
    });
    ctx.par("values", 32 * 32, |i, rec| {
        let (a, b) = (1u32 << (i % 32), 1u32 << (i / 32));
        for flag in [0u32, 1, 2, a, b, a | b, u32::MAX] {
            let id2 = if a == b { a ^ 0x55 } else { b };
            let rows = vec![
                NodeRow { id: a, parent: 0, folder: flag, name: "f".into() },
                NodeRow { id: id2, parent: a, folder: 0, name: "l".into() },
                NodeRow { id: 0x7777_7777, parent: id2, folder: 1, name: "hidden".into() },
            ];
            let img = node_db(&[rows.iter().cloned().map(|r| (r, true)).collect()], 0x300);
            rec.distinct(&img);
            check(rec, &img, &rows, &|| format!("{} flag {flag:#x}", show(&rows)));
        }
    });
    // names
    ctx.bound("names of every length 0..=300, every Unicode class, and undecodable names");
    ctx.par("names", 301, |i, rec| {
        for c in ['a', 'é', '漢', '😀', '/', '\u{ff}'] {
            let name: String = std::iter::repeat_n(c, i as usize).collect();
            let rows = vec![NodeRow { id: 1, parent: 0, folder: 1, name: name.clone() }, NodeRow { id: 2, parent: 1, folder: 0, name }];
            if crate::c_string::ref_encode(&rows[0].name).is_none() {
                continue;
            }
            let img = node_db(&[rows.iter().cloned().map(|r| (r, true)).collect()], 0x1000);
            rec.distinct(&img);
            check(rec, &img, &rows, &|| format!("names of {i} times {c:?}"));
        }
    });
    ctx.one("undecodable names", |rec| {
        // lone surrogate: reachable => error, unreachable => ignored
        for (parent, must_fail) in [(0u32, true), (5, false)] {
            let mut bad = tree_node(parent, 0, 2, 0, "");
            bad.truncate(20);
            bad.extend_from_slice(&[0x90, 8, 0, 0, 0x41, 0, 0, 0xd8]);
            let mut db = Db::new(0x300);
            db.table(7, &[vec![(tree_node(0, 0, 1, 1, "ok"), true), (bad, true)]]);
            let img = db.bytes();
            rec.count("evaluations", 1);
            rec.distinct(&img);
            let r = guard(|| get_playlists(&mut Database::open_non_persistent(Cursor::new(&img), DatabaseType::Plain).unwrap()));
            match r {
                Ok(Err(_)) if must_fail => rec.outcome("undecodable name reported"),
                Ok(Ok(t)) if !must_fail && t.len() == 1 => rec.outcome("unreachable row ignored"),
                r => rec.fail("name", format!("undecodable name below {parent}: {r:?}")),
            }
        }
    });
    // large shapes
    let depths: Vec<u32> = vec![1, 2, 10, 50, 64, 100, 200, 255, 256, 257, 1000, 5000, 20_000, 60_000];
    ctx.bound(format!("chains of {depths:?} nested folders, closed and open; folders with up to 70000 children; every level doubled (2 to the 40 paths)"));
    let dr = &depths;
    let many = |rows: &[NodeRow]| -> Vec<u8> {
        let pages: Vec<Vec<(NodeRow, bool)>> = rows.chunks(60).map(|c| c.iter().cloned().map(|r| (r, true)).collect()).collect();
        node_db(&pages, 0x2000)
    };
    ctx.par_opts("chains", depths.len() as u64 * 3, Opts { case_timeout: 60.0, ..Opts::default() }, |i, rec| {
        let n = dr[(i / 3) as usize];
        let mut rows: Vec<NodeRow> = (1..=n).map(|k| NodeRow { id: k, parent: k - 1, folder: 1, name: "f".into() }).collect();
        match i % 3 {
            1 => rows.reverse(),
            2 => rows.push(NodeRow { id: n / 2 + 1, parent: n, folder: 1, name: "loop".into() }),
            _ => (),
        }
        let img = many(&rows);
        rec.distinct(&img);
        rec.count("evaluations", 1);
        let what = format!("chain of {n} folders, form {}", i % 3);
        let r = guard(|| {
            let t = get_playlists(&mut Database::open_non_persistent(Cursor::new(&img), DatabaseType::Plain).unwrap());
            match t {
                Err(_) => None,
                Ok(t) => {
                    // walked without recursion
                    let mut depth = 0u32;
                    let mut cur = &t;
                    let mut ok = true;
                    while let [PlaylistNode::Folder(f)] = &cur[..] {
                        depth += 1;
                        ok &= f.id.0 == depth;
                        cur = &f.children;
                        if depth > n {
                            break;
                        }
                    }
                    let r = (depth, ok && cur.is_empty());
                    Some(r)
                }
            }
        });
        match r {
            Err(p) => rec.fail("panic", format!("{what}: {p}")),
            Ok(None) if i % 3 == 2 || n > 200 => rec.outcome("deep tree refused"),
            Ok(Some(x)) if i % 3 != 2 && x == (n, true) => rec.outcome("deep tree"),
            Ok(Some(_)) if i % 3 == 2 => rec.outcome("contradictory rows: finite tree"),
            Ok(x) => rec.fail("chain", format!("{what}: {x:?}")),
        }
    });
    ctx.par_opts("wide", 7, Opts { case_timeout: 60.0, ..Opts::default() }, |i, rec| {
        let n = [16u32, 17, 1000, 5000, 20_000, 60_000, 70_000][i as usize];
        let mut rows: Vec<NodeRow> = (1..=n).map(|k| NodeRow { id: k + 1, parent: k % 2, folder: 0, name: format!("{k}") }).collect();
        rows.insert(n as usize / 2, NodeRow { id: 1, parent: 0, folder: 1, name: "half".into() });
        let img = many(&rows);
        rec.distinct(&img);
        check(rec, &img, &rows, &|| format!("{n} children"));
    });
    ctx.par_opts("doubled", 40, Opts { case_timeout: 30.0, ..Opts::default() }, |i, rec| {
        let rows: Vec<NodeRow> = (1..=i as u32 + 1).flat_map(|k| vec![NodeRow { id: k, parent: k - 1, folder: 1, name: "d".into() }; 2]).collect();
        let img = many(&rows);
        rec.distinct(&img);
        check(rec, &img, &rows, &|| format!("{} levels with doubled ids", i + 1));
    });
}
