//! Independent byte-level description of the PDB format (rows, pages, databases), used as the
//! oracle.  Nothing in here calls the library.

use crate::c_string::ref_encode;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum F {
    U8,
    U16,
    U32,
    C16(u16),
    C32(u32),
    Color,
    FileType,
    Vis,
    Str,
    Arr,
}

pub struct Spec {
    pub name: &'static str,
    pub ext: bool,
    pub ptype: u32,
    pub fields: &'static [(&'static str, F)],
    /// Names of the strings behind the offset array, if there is one.
    pub arr: &'static [&'static str],
}

pub const TRACK_STRINGS: [&str; 21] = [
    "isrc", "lyricist", "unknown_string2", "unknown_string3", "unknown_string4", "message", "publish_track_information",
    "autoload_hotcues", "unknown_string5", "unknown_string6", "date_added", "release_date", "mix_name", "unknown_string7",
    "analyze_path", "analyze_date", "comment", "title", "unknown_string8", "filename", "file_path",
];

use F::*;
pub static SPECS: [Spec; 17] = [
    Spec { name: "Album", ext: false, ptype: 3, arr: &["name"], fields: &[("subtype", U16), ("index_shift", U16), ("unknown2", U32), ("artist_id", U32), ("id", U32), ("unknown3", U32), ("", Arr)] },
    Spec { name: "Artist", ext: false, ptype: 2, arr: &["name"], fields: &[("subtype", U16), ("index_shift", U16), ("id", U32), ("", Arr)] },
    Spec { name: "Artwork", ext: false, ptype: 13, arr: &[], fields: &[("id", U32), ("path", Str)] },
    Spec { name: "Color", ext: false, ptype: 6, arr: &[], fields: &[("unknown1", U32), ("unknown2", U8), ("color", Color), ("unknown3", U16), ("name", Str)] },
    Spec { name: "Genre", ext: false, ptype: 1, arr: &[], fields: &[("id", U32), ("name", Str)] },
    Spec { name: "HistoryPlaylist", ext: false, ptype: 11, arr: &[], fields: &[("id", U32), ("name", Str)] },
    Spec { name: "HistoryEntry", ext: false, ptype: 12, arr: &[], fields: &[("track_id", U32), ("playlist_id", U32), ("entry_index", U32)] },
    Spec { name: "History", ext: false, ptype: 19, arr: &[], fields: &[("subtype", U16), ("index_shift", U16), ("num_tracks", U32), ("", C32(0)), ("date", Str), ("", C16(0x1e19)), ("version", Str), ("label", Str)] },
    Spec { name: "Key", ext: false, ptype: 5, arr: &[], fields: &[("id", U32), ("id2", U32), ("name", Str)] },
    Spec { name: "Label", ext: false, ptype: 4, arr: &[], fields: &[("id", U32), ("name", Str)] },
    Spec { name: "PlaylistTreeNode", ext: false, ptype: 7, arr: &[], fields: &[("parent_id", U32), ("unknown", U32), ("sort_order", U32), ("id", U32), ("node_is_folder", U32), ("name", Str)] },
    Spec { name: "PlaylistEntry", ext: false, ptype: 8, arr: &[], fields: &[("entry_index", U32), ("track_id", U32), ("playlist_id", U32)] },
    Spec { name: "ColumnEntry", ext: false, ptype: 16, arr: &[], fields: &[("id", U16), ("unknown0", U16), ("column_name", Str)] },
    Spec { name: "Menu", ext: false, ptype: 17, arr: &[], fields: &[("category_id", U16), ("content_pointer", U16), ("unknown", U8), ("visibility", Vis), ("sort_order", U16)] },
    Spec { name: "Track", ext: false, ptype: 0, arr: &TRACK_STRINGS, fields: &[
        ("subtype", U16), ("index_shift", U16), ("bitmask", U32), ("sample_rate", U32), ("composer_id", U32), ("file_size", U32), ("unknown2", U32),
        ("unknown3", U16), ("unknown4", U16), ("artwork_id", U32), ("key_id", U32), ("orig_artist_id", U32), ("label_id", U32), ("remixer_id", U32),
        ("bitrate", U32), ("track_number", U32), ("tempo", U32), ("genre_id", U32), ("album_id", U32), ("artist_id", U32), ("id", U32),
        ("disc_number", U16), ("play_count", U16), ("year", U16), ("sample_depth", U16), ("duration", U16), ("unknown5", U16),
        ("color", Color), ("rating", U8), ("file_type", FileType), ("", Arr)] },
    Spec { name: "Tag", ext: true, ptype: 3, arr: &["name", "unknown"], fields: &[("subtype", U16), ("index_shift", U16), ("unknown1", U32), ("unknown2", U32), ("parent_id", U32), ("position", U32), ("id", U32), ("raw_is_category", U32), ("", Arr)] },
    Spec { name: "TrackTag", ext: true, ptype: 4, arr: &[], fields: &[("", C32(0)), ("track_id", U32), ("tag_id", U32), ("unknown_const", U32)] },
];

pub fn spec(name: &str) -> &'static Spec {
    SPECS.iter().find(|s| s.name == name).unwrap()
}

impl F {
    pub fn size(self) -> usize {
        match self {
            U8 | Color | Vis => 1,
            U16 | C16(_) | FileType => 2,
            U32 | C32(_) => 4,
            Str | Arr => 0,
        }
    }
}

impl Spec {
    /// Size of the fixed part in front of the offset array.
    pub fn fixed(&self) -> usize {
        self.fields.iter().map(|f| f.1.size()).sum()
    }
    pub fn value_fields(&self) -> impl Iterator<Item = (usize, &'static str, F)> + '_ {
        self.fields.iter().enumerate().filter(|(_, f)| matches!(f.1, U8 | U16 | U32 | Color | FileType | Vis)).map(|(i, f)| (i, f.0, f.1))
    }
    pub fn num_strings(&self) -> usize {
        self.arr.len() + self.fields.iter().filter(|f| f.1 == Str).count()
    }
    pub fn has_subtype(&self) -> bool {
        !self.arr.is_empty()
    }
}

#[derive(Clone, Debug)]
pub struct RowVal {
    /// One value per field (ignored for strings).
    pub vals: Vec<u64>,
    /// Encoded strings, in declaration order.
    pub strs: Vec<Vec<u8>>,
    /// Where each string of the offset array lies, from the row start; None: packed in order.
    pub offs: Option<Vec<usize>>,
}

#[derive(Clone, Debug)]
pub struct RowImg {
    pub bytes: Vec<u8>,
    pub owned: Vec<bool>,
    /// Position of each field.
    pub pos: Vec<usize>,
}

impl Spec {
    pub fn wide(&self, v: &RowVal) -> bool {
        self.has_subtype() && v.vals[0] & 4 != 0
    }
    /// Start of the first string behind the offset array.
    pub fn arr_end(&self, wide: bool) -> usize {
        self.fixed() + (self.arr.len() + 1) * if wide { 2 } else { 1 }
    }
    /// Values that are all different and never byte-symmetric.
    pub fn default_vals(&self, salt: u64) -> Vec<u64> {
        self.fields
            .iter()
            .enumerate()
            .map(|(i, (name, f))| {
                let x = 0x11 + salt * 7 + i as u64;
                match f {
                    U8 => x & 0xff,
                    U16 if *name == "subtype" => 0x0640,
                    U16 => 0x0100 * (x & 0x7f) + ((x * 3) & 0xff),
                    U32 => (((x & 0x3f) << 24) | ((x * 5) & 0xff) << 16 | ((x * 11) & 0xff) << 8 | (x * 3 & 0xff)) & 0xffff_ffff,
                    C16(c) => *c as u64,
                    C32(c) => *c as u64,
                    Color => (x % 9).max(1),
                    FileType => 5,
                    Vis => 1,
                    Str | Arr => 0,
                }
            })
            .collect()
    }
    pub fn build(&self, v: &RowVal) -> RowImg {
        let mut bytes: Vec<u8> = vec![];
        let mut pos = vec![];
        let mut si = 0;
        let mut img_gaps: Vec<(usize, usize)> = vec![];
        for (i, (_, f)) in self.fields.iter().enumerate() {
            pos.push(bytes.len());
            match f {
                Str => {
                    bytes.extend_from_slice(&v.strs[si]);
                    si += 1;
                }
                Arr => {
                    let wide = self.wide(v);
                    let strs = &v.strs[si..si + self.arr.len()];
                    let offs = v.offs.clone().unwrap_or_else(|| {
                        let mut at = self.arr_end(wide);
                        strs.iter()
                            .map(|s| {
                                let o = at;
                                at += s.len();
                                o
                            })
                            .collect()
                    });
                    if wide {
                        bytes.extend_from_slice(&3u16.to_le_bytes());
                        for o in &offs {
                            bytes.extend_from_slice(&(*o as u16).to_le_bytes());
                        }
                    } else {
                        bytes.push(3);
                        for o in &offs {
                            bytes.push(*o as u8);
                        }
                    }
                    let head = bytes.len();
                    let end = offs.iter().zip(strs).map(|(o, s)| o + s.len()).max().unwrap_or(head).max(head);
                    let mut own = vec![false; end];
                    own[..head].fill(true);
                    bytes.resize(end, 0xcc);
                    for (o, s) in offs.iter().zip(strs) {
                        bytes[*o..o + s.len()].copy_from_slice(s);
                        own[*o..o + s.len()].fill(true);
                    }
                    let mut g = head;
                    while g < end {
                        if !own[g] {
                            let a = g;
                            while g < end && !own[g] {
                                g += 1;
                            }
                            img_gaps.push((a, g));
                        } else {
                            g += 1;
                        }
                    }
                }
                f => {
                    let n = f.size();
                    bytes.extend_from_slice(&v.vals[i].to_le_bytes()[..n]);
                }
            }
        }
        let mut owned = vec![true; bytes.len()];
        for (a, b) in img_gaps {
            owned[a..b].fill(false);
        }
        RowImg { bytes, owned, pos }
    }
    /// A row with the given values and plain texts.
    pub fn row(&self, set: &[(&str, u64)], texts: &[&str]) -> Vec<u8> {
        let mut vals = self.default_vals(0);
        for (n, x) in set {
            let i = self.fields.iter().position(|f| f.0 == *n).unwrap_or_else(|| panic!("{n}"));
            vals[i] = *x;
        }
        let strs = texts.iter().map(|t| ref_encode(t).unwrap()).collect();
        self.build(&RowVal { vals, strs, offs: None }).bytes
    }
}

pub fn tree_node(parent: u32, sort: u32, id: u32, folder: u32, name: &str) -> Vec<u8> {
    spec("PlaylistTreeNode").row(&[("parent_id", parent as u64), ("unknown", 0), ("sort_order", sort as u64), ("id", id as u64), ("node_is_folder", folder as u64)], &[name])
}
pub fn playlist_entry(index: u32, track: u32, playlist: u32) -> Vec<u8> {
    spec("PlaylistEntry").row(&[("entry_index", index as u64), ("track_id", track as u64), ("playlist_id", playlist as u64)], &[])
}
pub fn artist(id: u32, name: &str) -> Vec<u8> {
    spec("Artist").row(&[("subtype", 0x60), ("id", id as u64)], &[name])
}
pub fn track(id: u32, artist_id: u32, title: &str, path: &str) -> Vec<u8> {
    let mut t = [""; 21];
    t[17] = title;
    t[20] = path;
    spec("Track").row(&[("subtype", 0x24), ("id", id as u64), ("artist_id", artist_id as u64)], &t)
}

// ------------------------------------------------------------------------------------------
// Pages

#[derive(Clone, Debug)]
pub struct Grp {
    /// offs[i] belongs to presence bit i.
    pub offs: [u16; 16],
    /// How many of the offsets physically exist.
    pub n: usize,
    pub flags: u16,
    pub unknown: u16,
}

#[derive(Clone, Debug)]
pub struct DataPage {
    pub index: u32,
    pub ptype: u32,
    pub next: u32,
    pub u1: u32,
    pub u2: u32,
    pub num_rows: u16,
    pub num_valid: u16,
    pub flags: u8,
    pub free: u16,
    pub used: u16,
    pub dh: [u16; 4],
    pub groups: Vec<Grp>,
    pub rows: Vec<(u16, Vec<u8>)>,
}

pub const HEAP: usize = 0x28;

impl DataPage {
    pub fn empty(index: u32, ptype: u32, next: u32, page_size: usize) -> Self {
        DataPage {
            index,
            ptype,
            next,
            u1: 0x11,
            u2: 0,
            num_rows: 0,
            num_valid: 0,
            flags: 0x24,
            free: (page_size - HEAP).min(0xffff) as u16,
            used: 0,
            dh: [1, 0, 0, 0],
            groups: vec![],
            rows: vec![],
        }
    }
    /// Appends a row the way the format documentation describes; `present` = not deleted.
    pub fn add(&mut self, row: &[u8], present: bool) -> u16 {
        let off = self.used;
        let sz = row.len().div_ceil(4) * 4;
        self.add_at(off, row, present);
        self.used += sz as u16;
        self.free = self.free.wrapping_sub(sz as u16);
        off
    }
    pub fn add_at(&mut self, off: u16, row: &[u8], present: bool) {
        let i = self.num_rows as usize;
        if i % 16 == 0 {
            self.groups.push(Grp { offs: [0; 16], n: 0, flags: 0, unknown: 0 });
            self.free = self.free.wrapping_sub(4);
        }
        let g = self.groups.last_mut().unwrap();
        g.offs[i % 16] = off;
        g.n = i % 16 + 1;
        self.free = self.free.wrapping_sub(2);
        if present {
            g.flags |= 1 << (i % 16);
            self.num_valid += 1;
        } else {
            self.flags |= 0x10;
        }
        self.num_rows += 1;
        self.rows.push((off, row.to_vec()));
    }
    pub fn header(&self) -> Vec<u8> {
        let mut b = vec![];
        for x in [0, self.index, self.ptype, self.next, self.u1, self.u2] {
            b.extend_from_slice(&x.to_le_bytes());
        }
        let packed = (self.num_rows as u32 & 0x1fff) | ((self.num_valid as u32 & 0x7ff) << 13);
        b.extend_from_slice(&packed.to_le_bytes()[..3]);
        b.push(self.flags);
        b.extend_from_slice(&self.free.to_le_bytes());
        b.extend_from_slice(&self.used.to_le_bytes());
        b
    }
    /// The page image; bytes nobody owns are `filler`.
    pub fn bytes(&self, page_size: usize, filler: u8) -> Vec<u8> {
        let mut b = vec![filler; page_size];
        b[..0x20].copy_from_slice(&self.header());
        for (i, x) in self.dh.iter().enumerate() {
            b[0x20 + 2 * i..0x22 + 2 * i].copy_from_slice(&x.to_le_bytes());
        }
        for (o, r) in &self.rows {
            b[HEAP + *o as usize..HEAP + *o as usize + r.len()].copy_from_slice(r);
        }
        for (g, grp) in self.groups.iter().enumerate() {
            let end = page_size - 36 * g;
            b[end - 2..end].copy_from_slice(&grp.unknown.to_le_bytes());
            b[end - 4..end - 2].copy_from_slice(&grp.flags.to_le_bytes());
            for i in 0..grp.n {
                let p = end - 4 - 2 * (i + 1);
                b[p..p + 2].copy_from_slice(&grp.offs[i].to_le_bytes());
            }
        }
        b
    }
    /// Which bytes of the page the library must write (headers, present rows' offsets up to the
    /// highest present row of each group, present rows).
    pub fn owned(&self, page_size: usize, masks: &[(u16, Vec<bool>)]) -> Vec<bool> {
        let mut b = vec![false; page_size];
        b[..HEAP].fill(true);
        for (o, m) in masks {
            for (i, x) in m.iter().enumerate() {
                if *x {
                    b[HEAP + *o as usize + i] = true;
                }
            }
        }
        for (g, grp) in self.groups.iter().enumerate() {
            let end = page_size - 36 * g;
            b[end - 4..end].fill(true);
            let hi = 16 - grp.flags.leading_zeros() as usize;
            b[end - 4 - 2 * hi..end - 4].fill(true);
        }
        b
    }
    pub fn present(&self) -> Vec<u16> {
        let mut v = vec![];
        for g in &self.groups {
            for i in 0..16 {
                if g.flags & (1 << i) != 0 {
                    v.push(g.offs[i]);
                }
            }
        }
        v
    }
}

#[derive(Clone, Debug)]
pub struct IndexPage {
    pub index: u32,
    pub ptype: u32,
    pub next: u32,
    pub u1: u32,
    pub u2: u32,
    pub packed: u32,
    pub flags: u8,
    pub free: u16,
    pub used: u16,
    pub ua: u16,
    pub ub: u16,
    pub next_offset: u16,
    pub r_index: u32,
    pub r_next: u32,
    pub first_empty: u16,
    pub entries: Vec<u32>,
    /// Overrides the number of entries in the header.
    pub num_entries: Option<u16>,
}

impl IndexPage {
    pub fn new(index: u32, ptype: u32, next: u32, entries: Vec<u32>) -> Self {
        IndexPage {
            index,
            ptype,
            next,
            u1: 7,
            u2: 0,
            packed: 0,
            flags: 0x64,
            free: 0,
            used: 0,
            ua: 0x1fff,
            ub: 0x1fff,
            next_offset: entries.len() as u16,
            r_index: index,
            r_next: next,
            first_empty: 0x1fff,
            entries,
            num_entries: None,
        }
    }
    pub fn capacity(page_size: usize) -> usize {
        (page_size - 0x20 - 28 - 20) / 4
    }
    pub fn bytes(&self, page_size: usize) -> Vec<u8> {
        let mut b = vec![];
        for x in [0, self.index, self.ptype, self.next, self.u1, self.u2] {
            b.extend_from_slice(&x.to_le_bytes());
        }
        b.extend_from_slice(&self.packed.to_le_bytes()[..3]);
        b.push(self.flags);
        b.extend_from_slice(&self.free.to_le_bytes());
        b.extend_from_slice(&self.used.to_le_bytes());
        for x in [self.ua, self.ub, 0x03ec, self.next_offset] {
            b.extend_from_slice(&x.to_le_bytes());
        }
        for x in [self.r_index, self.r_next, 0x03ff_ffff, 0] {
            b.extend_from_slice(&x.to_le_bytes());
        }
        b.extend_from_slice(&self.num_entries.unwrap_or(self.entries.len() as u16).to_le_bytes());
        b.extend_from_slice(&self.first_empty.to_le_bytes());
        for e in &self.entries {
            b.extend_from_slice(&e.to_le_bytes());
        }
        for _ in self.entries.len()..Self::capacity(page_size) {
            b.extend_from_slice(&0x1fff_fff8u32.to_le_bytes());
        }
        b.extend_from_slice(&[0; 20]);
        b.resize(page_size, 0);
        b
    }
}

#[derive(Clone, Debug)]
pub enum Pg {
    Data(DataPage),
    Index(IndexPage),
    Raw(Vec<u8>),
}

#[derive(Clone, Debug)]
pub struct Db {
    pub page_size: usize,
    pub next_unused: u32,
    pub unknown: u32,
    pub sequence: u32,
    /// (type, empty_candidate, first, last)
    pub tables: Vec<(u32, u32, u32, u32)>,
    pub pages: Vec<Pg>,
    pub filler: u8,
}

impl Db {
    pub fn new(page_size: usize) -> Self {
        Db { page_size, next_unused: 1, unknown: 5, sequence: 34, tables: vec![], pages: vec![], filler: 0 }
    }
    /// Adds a table made of an index page followed by the given row lists, one data page each.
    pub fn table(&mut self, ptype: u32, pages: &[Vec<(Vec<u8>, bool)>]) {
        let first = self.pages.len() as u32 + 1;
        let last = first + pages.len() as u32;
        self.tables.push((ptype, 99, first, last));
        let entries = (1..=pages.len() as u32).map(|i| (first + i) << 3).collect();
        self.pages.push(Pg::Index(IndexPage::new(first, ptype, first + 1, entries)));
        for (i, rows) in pages.iter().enumerate() {
            let idx = first + 1 + i as u32;
            let mut p = DataPage::empty(idx, ptype, idx + 1, self.page_size);
            for (r, present) in rows {
                p.add(r, *present);
            }
            self.pages.push(Pg::Data(p));
        }
        self.next_unused = self.pages.len() as u32 + 1;
    }
    pub fn header(&self) -> Vec<u8> {
        let mut b = vec![];
        for x in [0, self.page_size as u32, self.tables.len() as u32, self.next_unused, self.unknown, self.sequence, 0] {
            b.extend_from_slice(&x.to_le_bytes());
        }
        for t in &self.tables {
            for x in [t.0, t.1, t.2, t.3] {
                b.extend_from_slice(&x.to_le_bytes());
            }
        }
        b
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut b = self.header();
        b.resize(self.page_size, 0);
        for p in &self.pages {
            b.extend_from_slice(&match p {
                Pg::Data(p) => p.bytes(self.page_size, self.filler),
                Pg::Index(p) => p.bytes(self.page_size),
                Pg::Raw(v) => v.clone(),
            });
        }
        b
    }
}

pub fn present(rows: Vec<Vec<u8>>) -> Vec<(Vec<u8>, bool)> {
    rows.into_iter().map(|r| (r, true)).collect()
}
