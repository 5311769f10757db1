//! C04: computed heap sizes against serialized sizes (needs the guarded accessor of the library).

use crate::c_rows::page_type;
use crate::c_string::{ref_encode, ref_encode_isrc};
use crate::engine::*;
use crate::refpdb::*;
use binrw::{BinRead, BinWrite, Endian};
use rekordcrate::pdb::ext::*;
use rekordcrate::pdb::*;
use rekordcrate::util::MaybeCalculated;
use std::io::{Cursor, Seek, SeekFrom};

/// Encoded strings of every kind and of every size modulo four.
fn shapes(thorough: bool) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = ["", "a", "ab", "abc", "ж", "жж", "♫aж"].iter().map(|t| ref_encode(t).unwrap()).collect();
    v.extend((126..=130).map(|n| ref_encode(&"x".repeat(n)).unwrap()));
    v.push(ref_encode_isrc("GBAYE6700149"));
    v.push(ref_encode_isrc("ABC"));
    if thorough {
        v.extend((5..=9).map(|n| ref_encode(&"y".repeat(n)).unwrap()));
        v.extend((5..=9).map(|n| ref_encode(&"ю".repeat(n)).unwrap()));
        v.push(ref_encode("😀").unwrap());
        v.push(ref_encode_isrc("A"));
    }
    v
}

/// A parsed row holding these strings behind offsets of this width.
fn make(sp: &Spec, strs: &[Vec<u8>], salt: u64, wide: bool) -> Option<Row> {
    let mut vals = sp.default_vals(salt);
    if sp.has_subtype() {
        vals[0] = if wide { 0x0644 } else { 0x0640 };
    }
    let img = sp.build(&RowVal { vals, strs: strs.to_vec(), offs: None });
    Row::read_le_args(&mut Cursor::new(&img.bytes), (page_type(sp.ext, sp.ptype),)).ok()
}

/// Switches the row to calculated offsets; false if that is not possible.
fn calculated(r: &mut Row) -> bool {
    match r {
        Row::Plain(PlainRow::Artist(a)) => a.offsets.offsets = MaybeCalculated::Calculated,
        Row::Plain(PlainRow::Track(t)) => t.offsets.offsets = MaybeCalculated::Calculated,
        Row::Ext(ExtRow::Tag(t)) => t.offsets.offsets = MaybeCalculated::Calculated,
        _ => return false,
    }
    true
}

fn serialize(r: &Row, at: u64) -> Result<Vec<u8>, String> {
    let mut c = Cursor::new(vec![]);
    c.seek(SeekFrom::Start(at)).unwrap();
    guard(|| r.write_options(&mut c, Endian::Little, ()).map_err(|e| e.to_string()))??;
    Ok(c.into_inner().split_off(at as usize))
}

fn heap(r: &Row) -> Result<u16, String> {
    guard(|| r.verif_heap_bytes_required())
}

/// Compares the computed with the serialized size for explicit and for calculated offsets.
fn check(rec: &mut Rec, sp: &Spec, strs: &[Vec<u8>], salt: u64) {
    let mut one = |r: &Row, how: &str, exact: bool| {
        rec.count("evaluations", 1);
        rec.count("distinct_by_construction", 1);
        for at in [0u64, 0x28, 0x131] {
            let b = match serialize(r, at) {
                Ok(b) => b,
                Err(_) if how == "calculated 8-bit" => {
                    // only offsets above 255 are a reason not to write
                    let n: usize = strs.iter().map(|s| s.len() + 3).sum::<usize>() + sp.arr_end(false);
                    rec.outcome("calculated 8-bit: does not fit");
                    if n <= 255 {
                        rec.fail(format!("{}:write", sp.name), format!("{} {how}: {strs:02x?} not written", sp.name));
                    }
                    return;
                }
                Err(e) => {
                    rec.fail(format!("{}:write", sp.name), format!("{} {how}: strings of sizes {:?}: {e}", sp.name, strs.iter().map(|s| s.len()).collect::<Vec<_>>()));
                    return;
                }
            };
            match heap(r) {
                Err(p) => rec.fail(format!("{}:panic", sp.name), format!("{} {how}: computing the size panics: {p}", sp.name)),
                Ok(h) if h as usize == b.len() || !exact && h as usize > b.len() => rec.outcome(&format!("{how}: {}", if h as usize == b.len() { "equal" } else { "larger" })),
                Ok(h) => rec.fail(
                    format!("{}:{how}", sp.name),
                    format!("{} {how}: computed size {h}, serialized at {at:#x} in {} bytes, string sizes {:?}", sp.name, b.len(), strs.iter().map(|s| s.len()).collect::<Vec<_>>()),
                ),
            }
        }
    };
    let mut bad = false;
    let fits8 = sp.arr_end(false) + strs.iter().map(|s| s.len()).sum::<usize>() <= 255;
    for wide in [true, false] {
        if !wide && !(sp.has_subtype() && fits8) {
            continue;
        }
        let Some(mut r) = make(sp, strs, salt, wide) else {
            bad = true;
            continue;
        };
        if !sp.has_subtype() {
            one(&r, "fixed layout", true);
            continue;
        }
        one(&r, if wide { "explicit 16-bit" } else { "explicit 8-bit" }, false);
        if calculated(&mut r) {
            one(&r, if wide { "calculated 16-bit" } else { "calculated 8-bit" }, true);
        }
    }
    if bad {
        rec.fail(format!("{}:read", sp.name), format!("{} with strings {strs:02x?} cannot be read", sp.name));
    }
}

pub fn c04(ctx: &mut Ctx) {
    ctx.level = "exploration";
    ctx.rule = "one evaluation per (row type, string shapes, offset mode): the computed heap size against the length of the serialized row".into();
    ctx.assume("the accessor added under cfg(rekordcrate_verif) returns what page allocation is meant to be called with");
    let sh = shapes(!ctx.quick());
    let ns = sh.len() as u64;
    ctx.bound(format!("{ns} string shapes; every combination for rows with up to three strings; for tracks every background shape x every pair of fields x every pair of shapes, and all periodic patterns of up to {} shapes", ctx.pick(2, 3)));
    let s = &sh;
    for sp in SPECS.iter().filter(|x| x.name != "Track") {
        let n = ns.pow(sp.num_strings() as u32);
        ctx.par(&format!("row {}", sp.name), n * 2, |i, rec| {
            let mut k = i / 2;
            let strs: Vec<Vec<u8>> = (0..sp.num_strings())
                .map(|_| {
                    let x = s[(k % ns) as usize].clone();
                    k /= ns;
                    x
                })
                .collect();
            check(rec, sp, &strs, i % 2);
        });
    }
    let t = spec("Track");
    let pairs: Vec<(usize, usize)> = (0..21).flat_map(|a| (a + 1..21).map(move |b| (a, b))).collect();
    let pr = &pairs;
    ctx.par("track pairs", ns * pairs.len() as u64, |i, rec| {
        let bg = (i % ns) as usize;
        let (a, b) = pr[(i / ns) as usize];
        for x in 0..s.len() {
            for y in 0..s.len() {
                let mut strs = vec![s[bg].clone(); 21];
                strs[a] = s[x].clone();
                strs[b] = s[y].clone();
                check(rec, t, &strs, 0);
            }
        }
    });
    let period = ctx.pick(2u32, 3);
    ctx.par("track patterns", ns.pow(period + 1), |i, rec| {
        let p: Vec<usize> = (0..=period).map(|j| ((i / ns.pow(j)) % ns) as usize).collect();
        for len in 1..=p.len() {
            let strs: Vec<Vec<u8>> = (0..21).map(|j| s[p[j % len]].clone()).collect();
            check(rec, t, &strs, 1);
        }
    });
    // strings of every length
    let maxlen = ctx.pick(700u64, 4000);
    ctx.bound(format!("one string of every length up to {maxlen}, ASCII and wide"));
    ctx.par("lengths", maxlen * 2, |i, rec| {
        let (n, wide) = ((i / 2) as usize, i % 2 == 1);
        let text = if wide { "ж".repeat(n) } else { "z".repeat(n) };
        let e = ref_encode(&text).unwrap();
        for sp in SPECS.iter() {
            for k in 0..sp.num_strings() {
                let strs: Vec<Vec<u8>> = (0..sp.num_strings()).map(|j| if j == k { e.clone() } else { s[(j + 4) % s.len()].clone() }).collect();
                check(rec, sp, &strs, 0);
            }
        }
    });
    // rows placed one after another using these sizes
    ctx.bound("all ordered triples of 14 rows of one type placed one after another on a page by their computed sizes".to_string());
    for name in ["Artist", "Track", "Tag", "Album", "Genre", "PlaylistTreeNode", "History"] {
        let sp = spec(name);
        ctx.par(&format!("placing {name}"), ns * ns * ns, |i, rec| {
            let pick = |j: u32| ((i / ns.pow(j)) % ns) as usize;
            let page = DataPage::empty(3, sp.ptype, 4, 0x4000).bytes(0x4000, 0xee);
            let kind = if sp.ext { DatabaseType::Ext } else { DatabaseType::Plain };
            let mut p = Page::read_le_args(&mut Cursor::new(&page), (0x4000, kind)).unwrap();
            let mut want = vec![];
            rec.count("evaluations", 1);
            for j in 0..3 {
                let strs: Vec<Vec<u8>> = (0..sp.num_strings()).map(|k| s[(pick(j) + k * 5) % s.len()].clone()).collect();
                let mut r = make(sp, &strs, j as u64, true).unwrap();
                calculated(&mut r);
                let Ok(h) = heap(&r) else { return };
                let Some(put) = p.allocate_row(h) else { return };
                want.push(serialize(&r, 0));
                put(r);
            }
            let mut c = Cursor::new(page.clone());
            if let Err(e) = guard(|| p.write_options(&mut c, Endian::Little, (0x4000,)).map_err(|e| e.to_string())).and_then(|x| x) {
                rec.fail(format!("{name}:place-write"), e);
                return;
            }
            let b = c.into_inner();
            let got = match Page::read_le_args(&mut Cursor::new(&b), (0x4000, kind)) {
                Ok(p) => p,
                Err(e) => {
                    rec.fail(format!("{name}:place-read"), format!("triple {i}: {e}"));
                    return;
                }
            };
            let d = got.content.as_data().unwrap();
            let got: Vec<_> = d
                .rows
                .values()
                .map(|r| {
                    let mut r = r.clone();
                    calculated(&mut r);
                    serialize(&r, 0)
                })
                .collect();
            rec.outcome("placed");
            if got != want {
                rec.fail(format!("{name}:place"), format!("rows {} {} {} placed one after another read back differently", pick(0), pick(1), pick(2)));
            }
        });
    }
}
