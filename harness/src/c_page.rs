//! C09: page images survive a read/write cycle byte for byte.

use crate::c_rows::{page_type, SAMPLE_PDBS};
use crate::engine::*;
use crate::refpdb::*;
use binrw::{BinRead, BinWrite};
use rekordcrate::pdb::*;
use std::io::{Cursor, Seek, SeekFrom};

const ENTRY: u32 = 8;

fn place(p: &str) -> String {
    crate::c_string::place(p)
}

/// What each byte of the page must look like after writing over a background.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Must {
    /// Equal to the original page.
    Page,
    /// Untouched.
    Background,
    /// Either.
    Either,
}

fn entry(i: u32) -> Vec<u8> {
    playlist_entry(i.wrapping_mul(0x01010101), 0xa0000000 + i, 0x55000000 + i)
}

fn data_must(p: &DataPage, ps: usize) -> Vec<Must> {
    let mut m = vec![Must::Background; ps];
    m[..HEAP].fill(Must::Page);
    for (g, grp) in p.groups.iter().enumerate() {
        let end = ps - 36 * g;
        let hi = 16 - grp.flags.leading_zeros() as usize;
        for i in 0..hi {
            let at = end - 4 - 2 * (i + 1);
            m[at..at + 2].fill(if grp.flags & (1 << i) != 0 { Must::Page } else { Must::Either });
        }
        m[end - 4..end].fill(Must::Page);
    }
    for off in p.present() {
        let r = &p.rows.iter().find(|r| r.0 == off).unwrap().1;
        m[HEAP + off as usize..HEAP + off as usize + r.len()].fill(Must::Page);
    }
    m
}

/// Reads the page image at the given stream position.
fn read(img: &[u8], ps: usize, at: usize) -> Result<Result<Page, String>, String> {
    guard(|| {
        let mut c = Cursor::new(vec![0x99; at]);
        c.get_mut().extend_from_slice(img);
        c.get_mut().extend_from_slice(&[0x77; 40]);
        c.seek(SeekFrom::Start(at as u64)).unwrap();
        let p = Page::read_le_args(&mut c, (ps as u32, DatabaseType::Plain)).map_err(|e| e.to_string())?;
        Ok(p)
    })
}

fn write_over(p: &Page, ps: usize, at: usize, bg: u8) -> Result<Vec<u8>, String> {
    guard(|| {
        let mut c = Cursor::new(vec![bg; at + ps + 40]);
        c.seek(SeekFrom::Start(at as u64)).unwrap();
        p.write_le_args(&mut c, (ps as u32,)).map_err(|e| format!("fails: {e}"))?;
        if c.position() != (at + ps) as u64 {
            return Err(format!("ends at {:#x} instead of {:#x}", c.position(), at + ps));
        }
        let v = c.into_inner();
        if v.len() != at + ps + 40 || v[..at].iter().any(|x| *x != bg) || v[at + ps..].iter().any(|x| *x != bg) {
            return Err("touches bytes outside the page".into());
        }
        Ok(v[at..at + ps].to_vec())
    })
    .unwrap_or_else(|p| Err(format!("panics: {p}")))
}

fn check(rec: &mut Rec, kind: &str, img: &[u8], must: &[Must], ps: usize, at: usize, what: &dyn Fn() -> String) -> Option<Page> {
    rec.count("evaluations", 1);
    let p = match read(img, ps, at) {
        Err(e) => {
            rec.fail(format!("{kind}:read-panics-{}", place(&e)), format!("{e}; {}", what()));
            return None;
        }
        Ok(Err(e)) => {
            rec.fail(format!("{kind}:read-fails"), format!("{e}; {}", what()));
            return None;
        }
        Ok(Ok(p)) => p,
    };
    for bg in [0x00u8, 0xb7] {
        let out = match write_over(&p, ps, at, bg) {
            Ok(o) => o,
            Err(e) => {
                rec.fail(format!("{kind}:write"), format!("writing {e}; {}", what()));
                return None;
            }
        };
        for i in 0..ps {
            let ok = match must[i] {
                Must::Page => out[i] == img[i],
                Must::Background => out[i] == bg,
                Must::Either => out[i] == img[i] || out[i] == bg,
            };
            if !ok {
                rec.fail(
                    format!("{kind}:bytes"),
                    format!("byte {i:#x} of the page is {:02x} after writing over {bg:02x}; page has {:02x}, expected {:?}; {}", out[i], img[i], must[i], what()),
                );
                return None;
            }
        }
    }
    // reading what was written gives the same page again
    Some(p)
}

fn check_data(rec: &mut Rec, dp: &DataPage, ps: usize, at: usize, filler: u8, what: &dyn Fn() -> String) {
    let img = dp.bytes(ps, filler);
    let must = data_must(dp, ps);
    let Some(p) = check(rec, "data", &img, &must, ps, at, what) else { return };
    let h = &p.header;
    let got = (h.unknown1, h.unknown2, h.packed_row_counts.num_rows(), h.packed_row_counts.num_rows_valid(), h.free_size, h.used_size, h.page_type);
    let want = (dp.u1, dp.u2, dp.num_rows, dp.num_valid, dp.free, dp.used, page_type(false, dp.ptype));
    if got != want {
        rec.fail("data:header", format!("header {got:?}, expected {want:?}; {}", what()));
    }
    let Some(d) = p.content.as_data() else {
        rec.fail("data:kind", what());
        return;
    };
    let hd = (d.header.unknown5, d.header.unknown_not_num_rows_large, d.header.unknown6, d.header.unknown7);
    if hd != (dp.dh[0], dp.dh[1], dp.dh[2], dp.dh[3]) {
        rec.fail("data:header", format!("data header {hd:x?}; {}", what()));
    }
    let fl: Vec<u16> = d.row_groups.iter().map(|g| g.row_presence_flags).collect();
    let wf: Vec<u16> = dp.groups.iter().map(|g| g.flags).collect();
    let un: Vec<u16> = d.row_groups.iter().map(|g| g.unknown).collect();
    let wu: Vec<u16> = dp.groups.iter().map(|g| g.unknown).collect();
    if fl != wf || un != wu {
        rec.fail("data:groups", format!("row group flags {fl:x?} unknown {un:x?}, expected {wf:x?} {wu:x?}; {}", what()));
    }
    let mut keys = dp.present();
    keys.sort();
    if d.rows.keys().copied().collect::<Vec<_>>() != keys {
        rec.fail("data:rows", format!("rows at {:x?}, expected {keys:x?}; {}", d.rows.keys().collect::<Vec<_>>(), what()));
    }
    if dp.ptype == ENTRY {
        for (o, r) in &d.rows {
            let raw = &dp.rows.iter().find(|x| x.0 == *o).unwrap().1;
            let mut c = Cursor::new(vec![]);
            r.write_le(&mut c).unwrap();
            if c.get_ref() != raw {
                rec.fail("data:row", format!("row at {o:#x} is {:?}; {}", r, what()));
            }
        }
    }
}

/// A page with `n` rows, bit i of `present` says whether row i is present; `slot` places them.
fn patterned(n: usize, present: &dyn Fn(usize) -> bool, slot: &dyn Fn(usize) -> u16, ps: usize) -> DataPage {
    let mut p = DataPage::empty(3, ENTRY, 4, ps);
    p.u1 = 0x01020304;
    p.u2 = 0x0a0b0c0d;
    p.dh = [0x1122, 0x3344, 0x5566, 0x7788];
    for i in 0..n {
        if present(i) {
            p.add_at(slot(i), &entry(i as u32 + 1), true);
        } else {
            p.add_at(slot(i), &[], false);
        }
    }
    p.used = 12 * n as u16;
    p.rows.retain(|r| !r.1.is_empty());
    for (i, g) in p.groups.iter_mut().enumerate() {
        g.unknown = 0x8100 + i as u16;
    }
    p
}

pub fn c09(ctx: &mut Ctx) {
    ctx.level = "exploration";
    ctx.rule = "a case is a page image, read by the real parser and written over two different backgrounds; every byte is classified by the reference layout as page content, untouched or either; cases differ by construction".into();
    ctx.assume("rows of a page do not overlap; page sizes hold the headers and all row groups");
    let quick = ctx.quick();
    // 1. all presence patterns
    ctx.bound("all 2^n presence patterns of a last group of n = 0..=16 rows behind 0, 1 or 2 earlier groups");
    ctx.par("patterns", 3 * 17 * 64, |i, rec| {
        let groups = (i % 3) as usize;
        let n = (i / 3 % 17) as usize;
        let part = i / 51;
        let total = 1u32 << n;
        let mut x = part as u32;
        while x < total {
            let rows = groups * 16 + n;
            let ps = 0x28 + 12 * rows + 36 * (groups + 1);
            let dp = patterned(rows, &|k| if k < groups * 16 { k % 7 != 2 } else { x >> (k - groups * 16) & 1 == 1 }, &|k| 12 * k as u16, ps);
            rec.count("distinct_by_construction", 1);
            check_data(rec, &dp, ps, if x & 1 == 0 { 0 } else { 0x123 }, 0xee, &|| format!("{rows} rows, pattern {x:#x} in the last group"));
            if rec.full() {
                return;
            }
            x += 64;
        }
        rec.outcome(&format!("{} groups", groups + usize::from(n > 0)));
    });
    // 2. number of groups x patterns x page sizes
    let mut many: Vec<(usize, usize)> = vec![];
    for ps in [0x200usize, 0x800, 0x1000, 0x2000, 0x8000, 0x10000, 0x10010] {
        for n in (0..=2047usize).take_while(|n| 0x28 + 12 * n + 36 * n.div_ceil(16) <= ps) {
            if n < 50 || n % 16 < 2 || n % 16 == 15 || !quick {
                many.push((ps, n));
            }
        }
    }
    ctx.bound(format!("{} (page size, row count) pairs up to 64 KiB pages x 6 presence patterns x 3 placements", many.len()));
    let mr = &many;
    ctx.par("groups", many.len() as u64, |i, rec| {
        let (ps, n) = mr[i as usize];
        for pat in 0..6 {
            for pl in 0..3 {
                if n > 300 && pl != (i as usize + pat) % 3 {
                    continue;
                }
                let present = |k: usize| match pat {
                    0 => true,
                    1 => false,
                    2 => k % 2 == 0,
                    3 => k % 16 == 15,
                    4 => k % 16 == 0,
                    _ => k / 16 % 2 == 0,
                };
                let slot = |k: usize| -> u16 {
                    12 * match pl {
                        0 => k as u16,
                        1 => (n - 1 - k) as u16,
                        _ => (k ^ 1) as u16,
                    }
                };
                // xor placement collides on odd counts
                if pl == 2 && n % 2 == 1 {
                    continue;
                }
                let dp = patterned(n, &present, &slot, ps);
                rec.count("distinct_by_construction", 1);
                check_data(rec, &dp, ps, 0, 0x5a, &|| format!("page size {ps:#x}, {n} rows, pattern {pat}, placement {pl}"));
                if rec.full() {
                    return;
                }
            }
        }
        rec.outcome(&format!("page size {ps:#x}"));
    });
    // 3. every page size
    let sizes: Vec<usize> = (0x28..if quick { 0x28 + 3000 } else { 20000 }).chain((1..=if quick { 30 } else { 100 }).map(|k| k * 65536 / 30 + k % 5)).collect();
    ctx.bound(format!("{} page sizes (every size from 0x28) x 0, 1, 2, 16, 17, 33 rows", sizes.len()));
    let sr = &sizes;
    ctx.par("sizes", sizes.len() as u64, |i, rec| {
        let ps = sr[i as usize];
        for n in [0usize, 1, 2, 16, 17, 33] {
            // The library reads all 16 offset slots of a group, so a group needs 36 bytes.
            if ps < 0x28 + 36 * n.div_ceil(16) + 12 * n {
                continue;
            }
            let dp = patterned(n, &|k| k % 3 != 1, &|k| 12 * k as u16, ps);
            rec.count("distinct_by_construction", 1);
            check_data(rec, &dp, ps, 7, 0x31, &|| format!("page size {ps:#x}, {n} rows"));
        }
        if ps >= 0x28 + 12 + 6 {
            // a single row whose group's unused slots lie in the heap
            let dp = patterned(1, &|_| true, &|_| 0, ps.max(0x28 + 12 + 6));
            rec.count("distinct_by_construction", 1);
            check_data(rec, &dp, ps, 0, 0x31, &|| format!("page size {ps:#x}, one row in a tight page"));
        }
    });
    // 4. placements: all permutations of 5 rows into 5 slots with gaps
    ctx.bound("all 120 orders of 5 rows x all 2^5 presence patterns x 7 gap sizes (0..=6 bytes, unaligned rows too)");
    ctx.par("placement", 120 * 7, |i, rec| {
        let mut perm: Vec<usize> = vec![];
        let mut rest: Vec<usize> = (0..5).collect();
        let mut k = i % 120;
        for f in [24, 6, 2, 1, 1] {
            perm.push(rest.remove((k / f) as usize % rest.len()));
            k %= f;
        }
        let gap = (i / 120) as u16;
        for m in 0..32u32 {
            let ps = 0x28 + 5 * 18 + 36;
            let dp = patterned(5, &|k| m >> k & 1 == 1, &|k| perm[k] as u16 * (12 + gap) + gap % 3, ps);
            rec.count("distinct_by_construction", 1);
            check_data(rec, &dp, ps, 0, 0xc3, &|| format!("rows in order {perm:?}, gap {gap}, pattern {m:#x}"));
        }
    });
    // 5. header fields: every value of every 8/16-bit field, byte patterns of the others
    ctx.bound("every 16-bit value of every 16-bit field of the page header, data header, row group and index header; every byte value at every header byte; all 128 data page flags");
    ctx.par("fields", 65536 / 64, |i, rec| {
        for x in (i as u32 * 64)..(i as u32 + 1) * 64 {
            let x = x as u16;
            let ps = 0x28 + 36 + 60;
            for f in 0..8 {
                let mut dp = patterned(3, &|k| k != 1, &|k| 12 * k as u16, ps);
                match f {
                    0 => dp.free = x,
                    1 => dp.used = x,
                    2..=5 => dp.dh[f - 2] = x,
                    6 => dp.groups[0].unknown = x,
                    _ => {
                        dp.groups[0].offs[1] = x;
                        dp.u1 = (x as u32) << 16 | 0x1234;
                        dp.u2 = x as u32;
                        dp.flags = (x & 0xbf) as u8;
                    }
                }
                rec.count("distinct_by_construction", 1);
                check_data(rec, &dp, ps, 0, 0, &|| format!("field {f} = {x:#x}"));
            }
            for f in 0..5 {
                let mut ip = IndexPage::new(3, ENTRY, 4, vec![8, 16]);
                match f {
                    0 => ip.ua = x,
                    1 => ip.ub = x,
                    2 => ip.next_offset = x,
                    3 => ip.first_empty = x,
                    _ => {
                        ip.free = x;
                        ip.used = !x;
                        ip.packed = (x as u32) << 4 | 3;
                        ip.flags = 0x40 | (x as u8);
                    }
                }
                rec.count("distinct_by_construction", 1);
                check_index(rec, &ip, 256, 0, &|| format!("index header field {f} = {x:#x}"));
            }
            if rec.full() {
                return;
            }
        }
    });
    ctx.par("header-bytes", 0x28, |i, rec| {
        let ps = 0x100;
        let dp = patterned(3, &|k| k != 1, &|k| 12 * k as u16, ps);
        let base = dp.bytes(ps, 0x44);
        let must = data_must(&dp, ps);
        for x in 0..=255u8 {
            let mut img = base.clone();
            img[i as usize] = x;
            // bytes 0..4 are the signature, 8..12 the type, 24..27 the row counters, 27 the flags
            let at = i as usize;
            let sig = at < 4 && x != 0;
            let counts = (24..27).contains(&at) && x != base[at];
            let flags = at == 27 && x & 0x40 != 0;
            if counts || flags || (8..12).contains(&at) {
                continue;
            }
            rec.count("evaluations", 1);
            match read(&img, ps, 0) {
                Ok(Err(_)) if sig => (),
                Ok(Ok(p)) if !sig => match write_over(&p, ps, 0, 0xb7) {
                    Ok(out) => {
                        for k in 0..ps {
                            if must[k] == Must::Page && out[k] != img[k] || must[k] == Must::Background && out[k] != 0xb7 {
                                rec.fail("data:header-byte", format!("header byte {at} = {x:#x}: byte {k:#x} is written as {:#x}", out[k]));
                            }
                        }
                    }
                    Err(e) => rec.fail("data:header-byte", format!("header byte {at} = {x:#x}: writing {e}")),
                },
                r => rec.fail("data:header-byte", format!("header byte {at} = {x:#x}: {r:?}")),
            }
        }
    });
    // 6. contradicting row counts
    ctx.bound("every num_rows_valid 0..=2047 against pages with 0, 1, 3, 16, 20 present rows, and every num_rows of the same group count");
    ctx.par("mismatch", 5, |i, rec| {
        let n = [0usize, 1, 4, 20, 26][i as usize];
        let ps = 0x400;
        let dp0 = patterned(n, &|k| k % 4 != 2, &|k| 12 * k as u16, ps);
        let real = dp0.num_valid;
        for v in 0..=2047u16 {
            let mut dp = dp0.clone();
            dp.num_valid = v;
            rec.count("evaluations", 1);
            rec.count("distinct_by_construction", 1);
            match read(&dp.bytes(ps, 0), ps, 0) {
                Ok(r) if r.is_ok() == (v == real) => (),
                Err(e) => rec.fail("mismatch-panic", format!("num_rows_valid {v}, {real} rows present: {e}")),
                Ok(r) => rec.fail("mismatch", format!("num_rows_valid {v}, {real} rows present: {}", r.map_or_else(|e| e, |_| "accepted".into()))),
            }
        }
        // presence bits against the count
        if n > 0 {
            for b in 0..16 {
                let mut dp = dp0.clone();
                dp.groups[0].flags ^= 1 << b;
                if b >= dp.groups[0].n {
                    // no such row; the slot belongs to the heap and could name any offset
                    dp.groups[0].offs[b] = 12 * 40;
                    dp.groups[0].n = b + 1;
                }
                rec.count("evaluations", 1);
                match read(&dp.bytes(ps, 0), ps, 0) {
                    Ok(Err(_)) => (),
                    r => rec.fail("mismatch", format!("presence bit {b} flipped, {real} rows in the header: {r:?}")),
                }
            }
            let lo = (n - 1) / 16 * 16 + 1;
            for num in lo..lo + 16 {
                let mut dp = dp0.clone();
                dp.num_rows = num as u16;
                check_data(rec, &dp, ps, 0, 0, &|| format!("num_rows {num} with {n} rows"));
            }
        }
    });
    // 7. index pages
    let psizes: Vec<usize> = if quick { vec![80, 84, 100, 256, 512, 4096] } else { vec![80, 84, 88, 100, 256, 512, 1024, 2048, 4096, 8192] };
    let mut idx: Vec<(usize, usize)> = vec![];
    for ps in &psizes {
        for n in 0..=IndexPage::capacity(*ps) {
            idx.push((*ps, n));
        }
    }
    for ps in [65_532usize, 65_536, 65_540, 262_144, 300_000] {
        let cap = IndexPage::capacity(ps).min(65_535);
        idx.extend([0, 1, 255, 256, 257, 4095, 4096, cap - 1, cap].map(|n| (ps, n)));
    }
    ctx.bound(format!("index pages of {psizes:?} bytes with every number of entries 0..=capacity, of 65532 to 300000 bytes with 9 numbers up to 65535, five entry value patterns"));
    let ir = &idx;
    ctx.par("index", idx.len() as u64, |i, rec| {
        let (ps, n) = ir[i as usize];
        for pat in 0..5u32 {
            let entries: Vec<u32> = (0..n as u32)
                .map(|k| match pat {
                    0 => (k + 2) << 3,
                    1 => (k + 2) << 3 | (k % 8),
                    2 => 0x1fff_fff8,
                    3 => 0x03ff_fffe << 3 | 7,
                    _ => k.wrapping_mul(0x9e37_79b9),
                })
                .collect();
            let mut ip = IndexPage::new(3, ENTRY, 4, entries);
            ip.first_empty = n as u16;
            ip.next_offset = n as u16 / 2;
            ip.u1 = 0xdeadbeef;
            rec.count("distinct_by_construction", 1);
            check_index(rec, &ip, ps, if pat == 1 { 0x31 } else { 0 }, &|| format!("index page of {ps} bytes with {n} entries, pattern {pat}"));
        }
    });
    ctx.bound("index pages of 256 bytes with entries behind the counted ones: every count 0..=40 x every last used slot x three patterns of empty slots");
    ctx.par("index-stale", 42 * 3, |i, rec| {
        let cap = IndexPage::capacity(256);
        let last = (i / 3) as usize;
        let entries: Vec<u32> = (0..last.min(cap)).map(|k| if i % 3 == 1 && k % 3 == 1 || i % 3 == 2 && k + 1 < last { 0x1fff_fff8 } else { (k as u32 + 2) << 3 }).collect();
        for n in 0..=cap {
            let mut ip = IndexPage::new(3, ENTRY, 4, entries.clone());
            ip.num_entries = Some(n as u16);
            ip.first_empty = 1;
            let img = ip.bytes(256);
            let what = || format!("index page with num_entries {n} and used entries up to slot {last}, pattern {}", i % 3);
            rec.count("distinct_by_construction", 1);
            check(rec, "index-stale", &img, &vec![Must::Page; 256], 256, 0, &what);
        }
    });
    // 8. every page of the sample exports
    ctx.bound("every page of the sample databases");
    let files: Vec<(&str, bool)> = SAMPLE_PDBS.to_vec();
    let fr = &files;
    ctx.par("samples", files.len() as u64, |i, rec| {
        let (path, ext) = fr[i as usize];
        let Ok(b) = std::fs::read(format!("/repo/{path}")) else {
            rec.count("missing_samples", 1);
            return;
        };
        let ps = u32::from_le_bytes(b[4..8].try_into().unwrap()) as usize;
        for k in 1..b.len() / ps {
            let img = &b[k * ps..(k + 1) * ps];
            let kind = if ext { DatabaseType::Ext } else { DatabaseType::Plain };
            let Ok(Ok(p)) = guard(|| Page::read_le_args(&mut Cursor::new(img), (ps as u32, kind))) else {
                rec.count("unreadable_sample_pages", 1);
                continue;
            };
            rec.count("evaluations", 1);
            rec.count("sample_pages", 1);
            for bg in [0u8, 0xff] {
                match write_over(&p, ps, 0, bg) {
                    Ok(out) => {
                        if let Some(x) = (0..ps).find(|x| out[*x] != img[*x] && out[*x] != bg) {
                            rec.fail("sample-bytes", format!("{path} page {k}: byte {x:#x} is written as {:#x}, page has {:#x}", out[x], img[x]));
                        }
                    }
                    Err(e) => rec.fail("sample-write", format!("{path} page {k}: writing {e}")),
                }
            }
        }
    });
}

fn check_index(rec: &mut Rec, ip: &IndexPage, ps: usize, at: usize, what: &dyn Fn() -> String) {
    let img = ip.bytes(ps);
    let must = vec![Must::Page; ps];
    let Some(p) = check(rec, "index", &img, &must, ps, at, what) else { return };
    let Some(ix) = p.content.as_index() else {
        rec.fail("index:kind", what());
        return;
    };
    let h = &ix.header;
    if (h.unknown_a, h.unknown_b, h.next_offset, h.num_entries as usize, h.first_empty) != (ip.ua, ip.ub, ip.next_offset, ip.entries.len(), ip.first_empty) {
        rec.fail("index:header", format!("{h:?}; {}", what()));
    }
    let got: Vec<(Option<u64>, u8, bool)> = ix.entries.iter().map(|e| (e.page_index().ok().map(|p| p.offset(1)), e.index_flags(), e.is_empty())).collect();
    let want: Vec<(Option<u64>, u8, bool)> = ip
        .entries
        .iter()
        .map(|e| (Some((e >> 3) as u64).filter(|x| *x < 0x03ff_ffff), (e & 7) as u8, *e == 0x1fff_fff8))
        .collect();
    if got != want {
        rec.fail("index:entries", format!("{got:?}; {}", what()));
    }
}
