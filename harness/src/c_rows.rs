//! C05: row layouts against the byte-level description in `refpdb`.

use crate::c_string::{place, ref_encode, ref_encode_isrc};
use crate::engine::*;
use crate::refpdb::*;
use binrw::{BinRead, BinWrite};
use rekordcrate::pdb::ext::*;
use rekordcrate::pdb::*;
use std::io::{Cursor, Seek, SeekFrom};

pub fn page_type(ext: bool, n: u32) -> PageType {
    if ext {
        match n {
            3 => PageType::Ext(ExtPageType::Tag),
            4 => PageType::Ext(ExtPageType::TrackTag),
            n => PageType::Unknown(n),
        }
    } else {
        use PlainPageType::*;
        PageType::Plain(match n {
            0 => Tracks,
            1 => Genres,
            2 => Artists,
            3 => Albums,
            4 => Labels,
            5 => Keys,
            6 => Colors,
            7 => PlaylistTree,
            8 => PlaylistEntries,
            11 => HistoryPlaylists,
            12 => HistoryEntries,
            13 => Artwork,
            16 => Columns,
            17 => Menu,
            19 => History,
            n => return PageType::Unknown(n),
        })
    }
}

pub fn row_kind(r: &Row) -> &'static str {
    match r {
        Row::Plain(p) => match p {
            PlainRow::Album(_) => "Album",
            PlainRow::Artist(_) => "Artist",
            PlainRow::Artwork(_) => "Artwork",
            PlainRow::Color(_) => "Color",
            PlainRow::Genre(_) => "Genre",
            PlainRow::HistoryPlaylist(_) => "HistoryPlaylist",
            PlainRow::HistoryEntry(_) => "HistoryEntry",
            PlainRow::History(_) => "History",
            PlainRow::Key(_) => "Key",
            PlainRow::Label(_) => "Label",
            PlainRow::PlaylistTreeNode(_) => "PlaylistTreeNode",
            PlainRow::PlaylistEntry(_) => "PlaylistEntry",
            PlainRow::ColumnEntry(_) => "ColumnEntry",
            PlainRow::Menu(_) => "Menu",
            PlainRow::Track(_) => "Track",
        },
        Row::Ext(ExtRow::Tag(_)) => "Tag",
        Row::Ext(ExtRow::TrackTag(_)) => "TrackTag",
        Row::Unknown => "Unknown",
    }
}

/// The publicly accessible values of a row.
pub fn public_values(r: &Row) -> (Vec<(&'static str, u64)>, Vec<(&'static str, String)>) {
    match r {
        Row::Plain(PlainRow::Artist(a)) => (vec![("id", a.id.0 as u64)], vec![("name", a.offsets.name.to_string())]),
        Row::Plain(PlainRow::PlaylistTreeNode(n)) => (
            vec![("parent_id", n.parent_id.0 as u64), ("id", n.id.0 as u64), ("?folder", n.is_folder() as u64)],
            vec![("name", n.name.to_string())],
        ),
        Row::Plain(PlainRow::PlaylistEntry(n)) => {
            (vec![("entry_index", n.entry_index as u64), ("track_id", n.track_id.0 as u64), ("playlist_id", n.playlist_id.0 as u64)], vec![])
        }
        Row::Plain(PlainRow::ColumnEntry(n)) => (vec![], vec![("column_name", n.column_name.to_string())]),
        Row::Plain(PlainRow::Menu(n)) => (
            vec![
                ("category_id", n.category_id as u64),
                ("content_pointer", n.content_pointer as u64),
                ("unknown", n.unknown as u64),
                (
                    "visibility",
                    match n.visibility {
                        MenuVisibility::Visible => 0,
                        MenuVisibility::Hidden => 1,
                        MenuVisibility::Unknown(0 | 1) => 0x1000,
                        MenuVisibility::Unknown(x) => x as u64,
                    },
                ),
                ("sort_order", n.sort_order as u64),
            ],
            vec![],
        ),
        Row::Plain(PlainRow::Track(t)) => (
            vec![("artist_id", t.artist_id.0 as u64), ("id", t.id.0 as u64), ("rating", t.rating as u64)],
            vec![("title", t.offsets.title.to_string()), ("file_path", t.offsets.file_path.to_string())],
        ),
        Row::Ext(ExtRow::Tag(t)) => (
            vec![
                ("subtype", t.subtype.0 as u64),
                ("index_shift", t.index_shift as u64),
                ("unknown1", t.unknown1 as u64),
                ("unknown2", t.unknown2 as u64),
                ("parent_id", t.parent_id.0.map_or(0, |x| x.get()) as u64),
                ("position", t.position as u64),
                ("id", t.id.0 as u64),
                ("raw_is_category", t.raw_is_category as u64),
            ],
            vec![("name", t.offsets.name.to_string()), ("unknown", t.offsets.unknown.to_string())],
        ),
        Row::Ext(ExtRow::TrackTag(t)) => {
            (vec![("track_id", t.track_id.0 as u64), ("tag_id", t.tag_id.0 as u64), ("unknown_const", t.unknown_const as u64)], vec![])
        }
        _ => (vec![], vec![]),
    }
}

const COLORS: [&str; 9] = ["None", "Pink", "Red", "Orange", "Yellow", "Green", "Aqua", "Blue", "Purple"];
pub const FILE_TYPES: [(u16, &str); 6] = [(0, "Unknown"), (1, "Mp3"), (4, "M4a"), (5, "Flac"), (0xb, "Wav"), (0xc, "Aiff")];

/// Occurrences of `name: value` in a Debug rendering.
fn debug_values<'a>(dbg: &'a str, name: &str) -> Vec<&'a str> {
    let pat = format!("{name}: ");
    let mut out = vec![];
    let mut from = 0;
    while let Some(i) = dbg[from..].find(&pat) {
        let at = from + i;
        from = at + pat.len();
        if at > 0 {
            let c = dbg.as_bytes()[at - 1];
            if c.is_ascii_alphanumeric() || c == b'_' {
                continue;
            }
        }
        out.push(&dbg[from..]);
    }
    out
}

fn debug_number(rest: &str) -> Option<u64> {
    let mut r = rest;
    // strip newtype wrappers
    while let Some(i) = r.find('(') {
        if i > 0 && r[..i].chars().all(|c| c.is_ascii_alphanumeric() || c == '_') && !r[..i].chars().all(|c| c.is_ascii_digit()) {
            r = &r[i + 1..];
        } else {
            break;
        }
    }
    let end = r.find(|c: char| !c.is_ascii_digit()).unwrap_or(r.len());
    r[..end].parse().ok()
}

#[derive(Clone, Debug)]
pub struct Case {
    pub spec: usize,
    pub val: RowVal,
    pub texts: Vec<String>,
    pub at: usize,
    pub trailer: Vec<u8>,
}

/// Parses, inspects and writes back one row.  Returns false when a violation was recorded.
pub fn check_row(rec: &mut Rec, c: &Case, expect_ok: bool) -> bool {
    let spec = &SPECS[c.spec];
    let n0 = rec.violations.len();
    let img = spec.build(&c.val);
    if spec.has_subtype() && !spec.wide(&c.val) && c.val.offs.is_none() {
        // strings that start beyond an 8-bit offset cannot be laid out
        let last = c.val.strs.last().map_or(0, |s| s.len());
        if img.bytes.len() - last > 255 {
            rec.count("not_representable", 1);
            return true;
        }
    }
    let mut input = vec![0xee; c.at];
    input.extend_from_slice(&img.bytes);
    input.extend_from_slice(&c.trailer);
    let what = || format!("{} row at {}: {} vals {:x?} offsets {:?}", spec.name, c.at, hex(&img.bytes), c.val.vals, c.val.offs);
    let pt = page_type(spec.ext, spec.ptype);
    let key = |k: &str| format!("{}:{k}", spec.name);
    rec.count("evaluations", 1);
    let row = match guard(|| {
        let mut cur = Cursor::new(&input);
        cur.seek(SeekFrom::Start(c.at as u64)).unwrap();
        Row::read_le_args(&mut cur, (pt,))
    }) {
        Err(p) => {
            rec.fail(key(&format!("read-panics-{}", place(&p))), format!("{p}: {}", what()));
            return false;
        }
        Ok(Err(e)) => {
            if expect_ok {
                rec.fail(key("read-fails"), format!("{e}: {}", what()));
            } else {
                rec.count("rejected", 1);
            }
            return !expect_ok;
        }
        Ok(Ok(r)) => r,
    };
    if !expect_ok {
        rec.fail(key("accepts"), format!("accepted although a value is not representable: {}", what()));
        return false;
    }
    rec.count("distinct_by_construction", 1);
    if row_kind(&row) != spec.name {
        rec.fail(key("kind"), format!("parsed as {}: {}", row_kind(&row), what()));
        return false;
    }
    // values
    let names: Vec<&str> = spec.fields.iter().filter(|f| matches!(f.1, F::Str)).map(|f| f.0).chain(spec.arr.iter().copied()).collect();
    let (nums, strs) = public_values(&row);
    for (n, v) in nums {
        if n == "?folder" {
            let i = spec.fields.iter().position(|f| f.0 == "node_is_folder").unwrap();
            if (v == 1) != (c.val.vals[i] != 0) {
                rec.fail(key("is_folder"), what());
            }
            continue;
        }
        let i = spec.fields.iter().position(|f| f.0 == n).unwrap();
        if v != c.val.vals[i] {
            rec.fail(key(&format!("value-{n}")), format!("{n} is {v:#x}, stored {:#x}: {}", c.val.vals[i], what()));
        }
    }
    for (n, s) in strs {
        let i = names.iter().position(|x| *x == n).unwrap();
        if s != c.texts[i] {
            rec.fail(key(&format!("text-{n}")), format!("{n} is {s:?}, stored {:?}: {}", c.texts[i], what()));
        }
    }
    let dbg = format!("{row:?}");
    for (i, n, f) in spec.value_fields() {
        let vs = debug_values(&dbg, n);
        if vs.is_empty() {
            rec.count("debug_field_not_shown", 1);
            continue;
        }
        let v = c.val.vals[i];
        let ok = vs.iter().any(|rest| match f {
            F::Color => rest.starts_with(COLORS[v as usize]),
            F::FileType => match FILE_TYPES.iter().find(|t| t.0 as u64 == v) {
                Some((_, name)) => rest.starts_with(name),
                None => debug_number(rest) == Some(v),
            },
            F::Vis => match v {
                0 => rest.starts_with("Visible"),
                1 => rest.starts_with("Hidden"),
                v => debug_number(rest) == Some(v),
            },
            // the subtype and a parent id are shown in different ways
            _ if n == "parent_id" && spec.ext => true,
            _ => debug_number(rest) == Some(v),
        });
        if !ok {
            rec.fail(key(&format!("shown-{n}")), format!("{n} is shown as {} instead of {v}: {}", truncate(vs[0], 60), what()));
        }
    }
    for (i, n) in names.iter().enumerate() {
        let vs = debug_values(&dbg, n);
        if vs.is_empty() {
            rec.count("debug_field_not_shown", 1);
            continue;
        }
        if !vs.iter().any(|rest| rest.contains(&c.texts[i]) && rest.find(&c.texts[i]).unwrap() < 24) {
            rec.fail(key(&format!("shown-{n}")), format!("{n} is shown as {} instead of {:?}: {}", truncate(vs[0], 60), c.texts[i], what()));
        }
    }
    // write back over a background that must stay where the row owns nothing
    let total = c.at + img.bytes.len() + 5;
    let out = guard(|| {
        let mut cur = Cursor::new(vec![0x5au8; total]);
        cur.seek(SeekFrom::Start(c.at as u64)).unwrap();
        row.write_le(&mut cur).map(|_| cur.into_inner())
    });
    match out {
        Err(p) => rec.fail(key("write-panics"), format!("{p}: {}", what())),
        Ok(Err(e)) => rec.fail(key("write-fails"), format!("{e}: {}", what())),
        Ok(Ok(out)) => {
            let mut want = vec![0x5au8; total];
            for (i, b) in img.bytes.iter().enumerate() {
                if img.owned[i] {
                    want[c.at + i] = *b;
                }
            }
            if out != want {
                let d = (0..out.len().max(want.len())).find(|i| out.get(*i) != want.get(*i)).unwrap();
                rec.fail(
                    key("write-back"),
                    format!("written bytes differ at row offset {}: {:?} instead of {:?}; {}", d as i64 - c.at as i64, out.get(d), want.get(d), what()),
                );
            }
        }
    }
    rec.outcome(&format!("{}{}", spec.name, if spec.has_subtype() { if spec.wide(&c.val) { " 16-bit" } else { " 8-bit" } } else { "" }));
    rec.sample(what);
    rec.violations.len() == n0
}

pub fn texts_for(n: usize, variant: usize) -> (Vec<String>, Vec<Vec<u8>>) {
    let mut t = vec![];
    let mut b = vec![];
    for i in 0..n {
        let (s, e) = str_variant(i, variant + i * (variant / 5));
        t.push(s);
        b.push(e);
    }
    (t, b)
}

/// String kinds: empty, short, wide, ISRC record, long ASCII.
pub fn str_variant(i: usize, variant: usize) -> (String, Vec<u8>) {
    match variant % 5 {
        0 => {
            let s = format!("s{}", (b'a' + i as u8) as char);
            let e = ref_encode(&s).unwrap();
            (s, e)
        }
        1 => (String::new(), vec![3]),
        2 => {
            let s = format!("ж{}", (b'a' + i as u8) as char);
            let e = ref_encode(&s).unwrap();
            (s, e)
        }
        3 => {
            let s = format!("GBAYE67001{:02}", i);
            let e = ref_encode_isrc(&s);
            (s, e)
        }
        _ => {
            let s = format!("{}{}", "long text ".repeat(13), i);
            let e = ref_encode(&s).unwrap();
            (s, e)
        }
    }
}

fn base_case(si: usize, wide: bool, variant: usize) -> Case {
    let spec = &SPECS[si];
    let mut vals = spec.default_vals(variant as u64);
    if spec.has_subtype() {
        vals[0] = if wide { 0x0644 } else { 0x0640 };
    }
    let v = if spec.has_subtype() && !wide && spec.arr.len() > 2 { variant % 2 } else { variant };
    let (texts, strs) = texts_for(spec.num_strings(), v);
    Case { spec: si, val: RowVal { vals, strs, offs: None }, texts, at: [0usize, 4, 0x28, 0x123][variant % 4], trailer: vec![0xee; variant % 3] }
}

/// Values tried for a field.
fn field_values(f: F, thorough: bool) -> Vec<u64> {
    match f {
        F::U8 | F::Vis | F::Color => (0..256).collect(),
        F::U16 | F::FileType => (0..65536).collect(),
        F::U32 => {
            let mut v: Vec<u64> = vec![0, 1, u32::MAX as u64, 1 << 31, (1 << 31) - 1];
            for b in 0..4 {
                for x in 0..256u64 {
                    v.push(x << (8 * b));
                    v.push((x << (8 * b)) ^ 0xffff_ffff);
                }
            }
            for b in 0..32 {
                v.push(1 << b);
                v.push((1u64 << b) - 1);
            }
            if thorough {
                for hi in 0..256u64 {
                    for lo in 0..256u64 {
                        v.push(hi << 24 | lo);
                        v.push(hi << 16 | lo << 8);
                        v.push(hi << 8 | lo);
                    }
                }
            }
            v.sort();
            v.dedup();
            v
        }
        _ => vec![],
    }
}

/// A row with these strings whose offsets are to be computed; `other` keeps explicit offsets of the other width.
fn with_strings(sp: &Spec, strs: &[Vec<u8>], wide: bool, other: bool) -> Option<Row> {
    use rekordcrate::pdb::ext::ExtRow;
    use rekordcrate::util::MaybeCalculated::Calculated;
    let read = |strs: Vec<Vec<u8>>, wide: bool, offs: Option<Vec<usize>>| {
        let mut vals = sp.default_vals(0);
        vals[0] = if wide { 0x0644 } else { 0x0640 };
        let img = sp.build(&RowVal { vals, strs, offs });
        Row::read_le_args(&mut Cursor::new(&img.bytes), (page_type(sp.ext, sp.ptype),)).ok()
    };
    let empty: Vec<Vec<u8>> = strs.iter().map(|_| vec![3]).collect();
    let mut r = read(empty.clone(), wide, None)?;
    let from = if other {
        read(empty, !wide, None)?
    } else {
        // one after another behind 16-bit offsets, the longest last
        let mut order: Vec<usize> = (0..strs.len()).collect();
        order.sort_by_key(|k| strs[*k].len());
        let mut offs = vec![0; strs.len()];
        let mut at = sp.arr_end(true);
        for (i, k) in order.iter().enumerate() {
            // equal strings are stored once
            if i > 0 && strs[order[i - 1]] == strs[*k] {
                offs[*k] = offs[order[i - 1]];
                continue;
            }
            offs[*k] = at;
            at += strs[*k].len();
        }
        read(strs.to_vec(), true, Some(offs))?
    };
    match (&mut r, from) {
        (Row::Plain(PlainRow::Artist(r)), Row::Plain(PlainRow::Artist(f))) => r.offsets = f.offsets,
        (Row::Plain(PlainRow::Track(r)), Row::Plain(PlainRow::Track(f))) => r.offsets = f.offsets,
        (Row::Ext(ExtRow::Tag(r)), Row::Ext(ExtRow::Tag(f))) => r.offsets = f.offsets,
        _ => return None,
    }
    if !other {
        match &mut r {
            Row::Plain(PlainRow::Artist(r)) => r.offsets.offsets = Calculated,
            Row::Plain(PlainRow::Track(r)) => r.offsets.offsets = Calculated,
            Row::Ext(ExtRow::Tag(r)) => r.offsets.offsets = Calculated,
            _ => (),
        }
    }
    Some(r)
}

/// The row is written so that the offsets lead to its strings, or refused because they do not fit.
fn computed(rec: &mut Rec, sp: &Spec, strs: &[Vec<u8>], wide: bool, what: &dyn Fn() -> String) {
    rec.count("evaluations", 1);
    rec.count("distinct_by_construction", 1);
    let Some(r) = with_strings(sp, strs, wide, false) else {
        rec.fail("computed-setup", format!("row cannot be read: {}", what()));
        return;
    };
    let at = 0x28usize;
    let mut c = Cursor::new(vec![0xaa; at]);
    c.set_position(at as u64);
    let res = guard(|| r.write_options(&mut c, binrw::Endian::Little, ()).map_err(|e| e.to_string()));
    let max = if wide { 65535 } else { 255 };
    let head = sp.arr_end(wide);
    let last = strs.len() - 1;
    let low = head + strs[..last].iter().map(|s| s.len()).sum::<usize>();
    let b = match res {
        Err(p) => {
            rec.fail("computed-panics", format!("{p}; {}", what()));
            return;
        }
        Ok(Err(e)) => {
            rec.outcome("computed offsets do not fit");
            if low + 3 * strs.len() <= max {
                rec.fail("computed-refused", format!("{e}; {}", what()));
            }
            return;
        }
        Ok(Ok(())) => c.into_inner().split_off(at),
    };
    rec.outcome("computed offsets");
    if low > max {
        rec.fail("computed-overflow", format!("written although the last offset would be at least {low}; {}", what()));
        return;
    }
    let w = if wide { 2 } else { 1 };
    let mut end = vec![];
    for (k, s) in strs.iter().enumerate() {
        let p = sp.fixed() + (k + 1) * w;
        let o = if wide { u16::from_le_bytes([b[p], b[p + 1]]) as usize } else { b[p] as usize };
        if o < head || b.get(o..o + s.len()) != Some(&s[..]) {
            rec.fail("computed-offset", format!("offset {k} is {o:#x}, where the string is not; {}", what()));
            return;
        }
        end.push((o, o + s.len()));
    }
    end.sort();
    if end.windows(2).any(|x| x[0].1 > x[1].0) {
        rec.fail("computed-overlap", format!("strings overlap: {end:?}; {}", what()));
    }
}

pub fn c05(ctx: &mut Ctx) {
    ctx.rule = "a case is one row image built from the documented layout; distinct by construction; checked: variant, every public value and text, every value shown by Debug, exact write-back over a background".into();
    ctx.assume("the layout tables in harness/src/refpdb.rs state the documented format (validated against the sample exports of the repository: every row of every sample page re-reads and re-writes under them)");
    ctx.bound("every value of every 8- and 16-bit field; 32-bit fields: every value of every byte plus all boundary values, one field at a time over a background of distinct values, for both offset widths");
    let quick = ctx.quick();
    samples(ctx);
    // fields
    let mut jobs: Vec<(usize, bool, usize)> = vec![];
    for (si, s) in SPECS.iter().enumerate() {
        for wide in [false, true] {
            if wide && !s.has_subtype() {
                continue;
            }
            for (fi, _, _) in s.value_fields() {
                jobs.push((si, wide, fi));
            }
        }
    }
    let jobs = &jobs;
    ctx.par("fields", jobs.len() as u64, |i, rec| {
        let (si, wide, fi) = jobs[i as usize];
        let spec = &SPECS[si];
        let f = spec.fields[fi].1;
        let is_subtype = spec.fields[fi].0 == "subtype" && spec.has_subtype();
        // 16-bit fields of the big track row are swept with a stride in the second width
        for v in field_values(f, !quick) {
            if f == F::U16 && wide && !is_subtype && quick && v % 251 != 0 {
                continue;
            }
            let mut c = base_case(si, wide, 0);
            c.val.vals[fi] = v;
            if is_subtype && (v & 4 != 0) != wide {
                continue;
            }
            let ok = !(f == F::Color && v > 8);
            if !check_row(rec, &c, ok) && rec.full() {
                return;
            }
        }
    });
    // all pairs of string kinds / background variants
    ctx.bound("all string kinds (short, empty, wide, ISRC, long) in every string position, alone and in combination");
    ctx.par("strings", SPECS.len() as u64 * 2, |i, rec| {
        let si = (i / 2) as usize;
        let wide = i % 2 == 1;
        let spec = &SPECS[si];
        if wide && !spec.has_subtype() {
            return;
        }
        for variant in 0..60 {
            check_row(rec, &base_case(si, wide, variant), true);
        }
        let n = spec.num_strings();
        for p in 0..n {
            for k in 0..5 {
                for bg in 0..2 {
                    let mut c = base_case(si, wide, bg);
                    let (t, b) = str_variant(p, k);
                    c.texts[p] = t;
                    c.val.strs[p] = b;
                    for at in [0usize, 1, 4, 0x28, 4000] {
                        c.at = at;
                        let end = spec.build(&c.val).bytes.len();
                        if !wide && spec.has_subtype() && end > 255 {
                            continue;
                        }
                        check_row(rec, &c, true);
                    }
                }
            }
        }
        if n >= 1 && n <= 3 {
            for k in 0..5usize.pow(n as u32) {
                let mut c = base_case(si, wide, 0);
                let mut kk = k;
                for p in 0..n {
                    let (t, b) = str_variant(p, kk % 5);
                    kk /= 5;
                    c.texts[p] = t;
                    c.val.strs[p] = b;
                }
                if !wide && spec.has_subtype() && spec.build(&c.val).bytes.len() > 255 {
                    continue;
                }
                check_row(rec, &c, true);
            }
        }
    });
    // offsets: one or two strings, everywhere
    ctx.bound("rows with one or two offset strings: the string at every representable offset (8 bit: all; 16 bit: all up to 4 KiB and every 61st up to 65535 in the quick tier, all in the thorough tier), both orders, all gaps up to 12");
    let arr_specs: Vec<usize> = (0..SPECS.len()).filter(|i| SPECS[*i].has_subtype()).collect();
    let arr_specs = &arr_specs;
    ctx.par("offsets", arr_specs.len() as u64 * 2 * 64, |i, rec| {
        let si = arr_specs[(i / 128) as usize];
        let wide = i / 64 % 2 == 1;
        let part = (i % 64) as usize;
        let spec = &SPECS[si];
        let start = spec.arr_end(wide);
        if spec.arr.len() <= 2 {
            let max = if wide { 65535 } else { 255 };
            for o in (start..=max).filter(|o| o % 64 == part) {
                if wide && quick && o > 4096 && (o / 64) % 61 != 0 && o < 65500 {
                    continue;
                }
                let mut c = base_case(si, wide, 0);
                let mut offs = vec![o];
                if spec.arr.len() == 2 {
                    let l0 = c.val.strs[0].len();
                    offs = vec![o, start];
                    if o < start + c.val.strs[1].len() {
                        offs[1] = o + l0;
                    }
                    if offs[1] > max {
                        continue;
                    }
                }
                c.val.offs = Some(offs);
                check_row(rec, &c, true);
            }
            if spec.arr.len() == 2 && part < 13 {
                for gap in 0..13 {
                    for (k0, k1) in [(0, 0), (2, 2), (1, 0), (0, 2), (3, 1)] {
                        let mut c = base_case(si, wide, 0);
                        for (p, k) in [(0, k0), (1, k1)] {
                            let (t, b) = str_variant(p, k);
                            c.texts[p] = t;
                            c.val.strs[p] = b;
                        }
                        let a = start + part;
                        c.val.offs = Some(vec![a, a + c.val.strs[0].len() + gap]);
                        check_row(rec, &c, true);
                        c.val.offs = Some(vec![a + c.val.strs[1].len() + gap, a]);
                        check_row(rec, &c, true);
                    }
                }
            }
        } else {
            // many strings: all transpositions, all rotations, reversal, gap patterns, shared empty strings
            let n = spec.arr.len();
            let mut orders: Vec<Vec<usize>> = vec![];
            if part < n {
                let mut o: Vec<usize> = (0..n).collect();
                o.rotate_left(part);
                orders.push(o.clone());
                o.reverse();
                orders.push(o);
                for b in part + 1..n {
                    let mut o: Vec<usize> = (0..n).collect();
                    o.swap(part, b);
                    orders.push(o);
                }
            }
            for o in orders {
                for gap in [0usize, 1, 2, 3, 7] {
                    for (bg, share) in [(0, false), (1, false), (2, false), (1, true)] {
                        let mut c = base_case(si, wide, bg);
                        let mut offs = vec![0; n];
                        let mut at = start + gap;
                        let mut shared = None;
                        for s in &o {
                            if share && c.texts[*s].is_empty() {
                                if let Some(x) = shared {
                                    offs[*s] = x;
                                    continue;
                                }
                                shared = Some(at);
                            }
                            offs[*s] = at;
                            at += c.val.strs[*s].len() + gap;
                        }
                        if !wide && offs.iter().any(|x| *x > 255) {
                            continue;
                        }
                        c.val.offs = Some(offs);
                        check_row(rec, &c, true);
                    }
                }
            }
        }
    });
    // rows whose offsets the library computes, and rows whose offsets have the wrong width
    ctx.bound("offsets computed by the library: one or two strings of every length to 300 and boundary lengths to 32000 at every position, for both offset widths; explicit offsets of the other width than the row's subtype");
    let lens: Vec<usize> = (0..300).chain([4000, 16000, 31000, 32000]).collect();
    let lens = &lens;
    ctx.par("calculated", lens.len() as u64 * 2, |i, rec| {
        let (len, wide_text) = (lens[(i / 2) as usize], i % 2 == 1);
        let text = if wide_text { "ж".repeat(len / 2) } else { "z".repeat(len) };
        let Some(e) = ref_encode(&text) else { return };
        for name in ["Artist", "Track", "Tag"] {
            let sp = spec(name);
            let n = sp.num_strings();
            for a in 0..n {
                for b in if len > 200 { a..n.min(a + 3) } else { a..n.min(a + 2) } {
                    // two strings at least where the second follows the first
                    let mut strs: Vec<Vec<u8>> = (0..n).map(|j| str_variant(j, 1).1).collect();
                    strs[a] = e.clone();
                    strs[b] = e.clone();
                    if len > 4096 && b > a {
                        strs[(b + 1) % n] = e.clone();
                    }
                    for wide in [false, true] {
                        computed(rec, sp, &strs, wide, &|| format!("{name}, {} bytes at {a} and {b}, 16-bit: {wide}", e.len()));
                    }
                }
            }
        }
    });
    ctx.par("width", 3 * 2, |i, rec| {
        let sp = spec(["Artist", "Track", "Tag"][(i / 2) as usize]);
        let strs: Vec<Vec<u8>> = (0..sp.num_strings()).map(|_| vec![3]).collect();
        rec.count("evaluations", 1);
        let Some(r) = with_strings(sp, &strs, i % 2 == 1, true) else {
            rec.fail("width-setup", sp.name.to_string());
            return;
        };
        let mut c = Cursor::new(vec![]);
        match guard(|| r.write_options(&mut c, binrw::Endian::Little, ()).is_ok()) {
            Ok(false) => rec.outcome("offsets of the wrong width refused"),
            Ok(true) => rec.fail("width-written", format!("{}: offsets of the other width than the subtype says are written", sp.name)),
            Err(p) => rec.fail("width-panics", format!("{}: {p}", sp.name)),
        }
    });
    // wrong constants and wrong offset-array markers are errors
    ctx.bound("constants: every value of every constant field byte; offset-array marker: every value");
    ctx.par("constants", SPECS.len() as u64 * 2, |i, rec| {
        let si = (i / 2) as usize;
        let wide = i % 2 == 1;
        let spec = &SPECS[si];
        if wide && !spec.has_subtype() {
            return;
        }
        for (fi, (_, f)) in spec.fields.iter().enumerate() {
            let (n, c0) = match f {
                F::C16(c) => (2, *c as u64),
                F::C32(c) => (4, *c as u64),
                F::Arr => (if wide { 2 } else { 1 }, 3),
                _ => continue,
            };
            for b in 0..n {
                for x in 0..256u64 {
                    let v = (c0 & !(0xff << (8 * b))) | (x << (8 * b));
                    let mut c = base_case(si, wide, 0);
                    if *f == F::Arr {
                        // patch the marker through a raw image
                        let img = spec.build(&c.val);
                        let mut bytes = img.bytes.clone();
                        bytes[img.pos[fi]..img.pos[fi] + n].copy_from_slice(&v.to_le_bytes()[..n]);
                        let r = guard(|| Row::read_le_args(&mut Cursor::new(&bytes), (page_type(spec.ext, spec.ptype),)).is_ok());
                        rec.count("evaluations", 1);
                        if r != Ok(v == c0) {
                            rec.fail(format!("{}:marker", spec.name), format!("offset array marker {v:#x}: {r:?}"));
                        }
                    } else {
                        c.val.vals[fi] = v;
                        check_row(rec, &c, v == c0);
                    }
                }
            }
        }
    });
    // truncation: every prefix of a row is rejected
    ctx.bound("every proper prefix of every row (both widths) is rejected");
    ctx.par("truncated", SPECS.len() as u64 * 2, |i, rec| {
        let si = (i / 2) as usize;
        let wide = i % 2 == 1;
        let spec = &SPECS[si];
        if wide && !spec.has_subtype() {
            return;
        }
        let c = base_case(si, wide, 0);
        let img = spec.build(&c.val);
        for l in 0..img.bytes.len() {
            rec.count("evaluations", 1);
            match guard(|| Row::read_le_args(&mut Cursor::new(&img.bytes[..l]), (page_type(spec.ext, spec.ptype),)).is_ok()) {
                Ok(false) => (),
                r => rec.fail(format!("{}:truncated", spec.name), format!("{l} of {} bytes: {r:?}", img.bytes.len())),
            }
        }
    });
}

pub const SAMPLE_PDBS: [(&str, bool); 5] = [
    ("data/complete_export/demo_tracks/PIONEER/rekordbox/export.pdb", false),
    ("data/complete_export/empty/PIONEER/rekordbox/export.pdb", false),
    ("data/pdb/num_rows/export.pdb", false),
    ("data/complete_export/demo_tracks/PIONEER/rekordbox/exportExt.pdb", true),
    ("data/complete_export/empty/PIONEER/rekordbox/exportExt.pdb", true),
];

pub fn u32le(b: &[u8], at: usize) -> u32 {
    u32::from_le_bytes(b[at..at + 4].try_into().unwrap())
}
pub fn u16le(b: &[u8], at: usize) -> u16 {
    u16::from_le_bytes(b[at..at + 2].try_into().unwrap())
}

/// Raw view of the present rows of a data page: (offset from page start).
pub fn raw_rows(page: &[u8]) -> Vec<usize> {
    if page[0x1b] & 0x40 != 0 {
        return vec![];
    }
    let num = (u32le(page, 0x18) & 0x1fff) as usize;
    let mut out = vec![];
    for i in 0..num {
        let end = page.len() - 36 * (i / 16);
        if u16le(page, end - 4) & (1 << (i % 16)) != 0 {
            out.push(HEAP + u16le(page, end - 4 - 2 * (i % 16 + 1)) as usize);
        }
    }
    out
}

/// The layout tables against the repository's sample exports.
fn samples(ctx: &mut Ctx) {
    ctx.par("samples", SAMPLE_PDBS.len() as u64, |i, rec| {
        let (path, ext) = SAMPLE_PDBS[i as usize];
        let Ok(file) = std::fs::read(format!("/repo/{path}")) else { return };
        let ps = u32le(&file, 4) as usize;
        let ntab = u32le(&file, 8) as usize;
        let types: Vec<u32> = (0..ntab).map(|t| u32le(&file, 28 + 16 * t)).collect();
        for page in file.chunks_exact(ps).skip(1) {
            let pt = u32le(page, 8);
            if page.iter().all(|b| *b == 0) || !types.contains(&pt) {
                continue;
            }
            let Some(spec) = SPECS.iter().find(|s| s.ext == ext && s.ptype == pt) else { continue };
            for at in raw_rows(page) {
                let row = match guard(|| {
                    let mut c = Cursor::new(page);
                    c.set_position(at as u64);
                    Row::read_le_args(&mut c, (page_type(ext, pt),))
                }) {
                    Ok(Ok(r)) => r,
                    e => {
                        rec.fail(format!("{}:sample", spec.name), format!("{path}: row at {at}: {e:?}"));
                        continue;
                    }
                };
                rec.count("evaluations", 1);
                rec.count("sample_rows", 1);
                let mut pos = at;
                for (n, f) in spec.fields {
                    if let Some((_, v)) = public_values(&row).0.iter().find(|x| x.0 == *n) {
                        let raw = (0..f.size()).fold(0u64, |a, k| a | (page[pos + k] as u64) << (8 * k));
                        if raw != *v {
                            rec.fail(format!("{}:sample-{n}", spec.name), format!("{path}: row at {at}: {n} is {v}, stored {raw}"));
                        }
                    }
                    pos += f.size();
                }
                let mut out = Cursor::new(page.to_vec());
                out.set_position(at as u64);
                if guard(|| row.write_le(&mut out).is_ok()) != Ok(true) || out.get_ref() != page {
                    rec.fail(format!("{}:sample-write", spec.name), format!("{path}: row at {at} is changed by writing it back"));
                }
            }
        }
    });
}
