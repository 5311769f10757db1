//! C10/C11: analysis files against an independent reference parser of the documented layout.

use crate::engine::*;
use binrw::{BinRead, BinWrite};
use rekordcrate::anlz::*;
use rekordcrate::util::ColorIndex;
use std::io::{Cursor, Read, Result as IoResult, Seek, SeekFrom, Write};

// ------------------------------------------------------------------------------------------
// Reference layout

/// A documented value: where it comes from, and the value.
pub type Tok = (&'static str, u64);

#[derive(Debug, Clone, PartialEq)]
pub enum Class {
    /// Every documented constraint holds: must be accepted with exactly these values.
    Valid,
    /// A declared size or count contradicts the contents: must be refused.
    Invalid(&'static str),
    /// Not covered by the documentation: may be refused, but never changed.
    Lenient(&'static str),
}

pub struct Ref {
    pub toks: Vec<Tok>,
    pub class: Class,
    /// Bytes that belong to the file.
    pub used: usize,
    /// An extended cue whose comment consists of a lone terminator.
    pub lone_nul: bool,
}

struct P<'a> {
    b: &'a [u8],
    toks: Vec<Tok>,
    lenient: Option<&'static str>,
    lone_nul: bool,
}

type R<T> = Result<T, &'static str>;

pub const KEY: [u8; 19] = [0xcb, 0xe1, 0xee, 0xfa, 0xe5, 0xee, 0xad, 0xee, 0xe9, 0xd2, 0xe9, 0xeb, 0xe1, 0xe9, 0xf3, 0xe8, 0xe9, 0xf4, 0xe1];

/// The key byte for position `i` of a structure with `n` phrases.
pub fn key(i: usize, n: u16) -> u8 {
    ((KEY[i % 19] as u32 + n as u32) % 256) as u8
}

impl<'a> P<'a> {
    fn u8(&self, i: usize) -> R<u64> {
        self.b.get(i).map(|x| *x as u64).ok_or("truncated")
    }
    fn u16(&self, i: usize) -> R<u64> {
        Ok(self.u8(i)? << 8 | self.u8(i + 1)?)
    }
    fn u32(&self, i: usize) -> R<u64> {
        Ok(self.u16(i)? << 16 | self.u16(i + 2)?)
    }
    fn t(&mut self, name: &'static str, v: u64) {
        self.toks.push((name, v));
    }
    fn soft(&mut self, why: &'static str) {
        self.lenient.get_or_insert(why);
    }
    /// Header of a section or entry at `i`: kind, header size, total size.
    fn header(&mut self, i: usize) -> R<([u8; 4], usize, usize)> {
        self.u32(i)?;
        let kind: [u8; 4] = self.b[i..i + 4].try_into().unwrap();
        let h = self.u32(i + 4)?;
        let t = self.u32(i + 8)?;
        self.t("kind", u32::from_be_bytes(kind) as u64);
        self.t("size", h);
        self.t("total", t);
        Ok((kind, h as usize, t as usize))
    }
    fn file(&mut self) -> R<usize> {
        let (kind, hs, total) = self.header(0)?;
        if &kind != b"PMAI" {
            return Err("not an analysis file");
        }
        if hs < 12 || total < hs {
            return Err("file header sizes");
        }
        if total > self.b.len() {
            return Err("truncated");
        }
        self.b = &self.b[..total];
        for i in 12..hs {
            let x = self.u8(i)?;
            self.t("header_data", x);
        }
        let mut pos = hs;
        while pos < total {
            pos += self.section(pos)?;
        }
        Ok(total)
    }
    fn section(&mut self, at: usize) -> R<usize> {
        let all = self.b;
        let r = self.section_inner(at);
        self.b = all;
        r
    }
    fn section_inner(&mut self, at: usize) -> R<usize> {
        let (kind, hs, total) = self.header(at)?;
        if hs < 12 || total < hs {
            return Err("section header sizes");
        }
        if total > self.b.len() - at {
            return Err("section exceeds the file");
        }
        self.b = &self.b[at..at + total];
        let content = total - hs;
        // where the contents end
        let end = match &kind {
            b"PQTZ" => {
                if hs != 24 {
                    self.soft("beat grid header size");
                }
                let n = self.u32(20)? as usize;
                if 24 + 8 * n != total {
                    return Err("beat count");
                }
                for i in 0..n {
                    let o = 24 + 8 * i;
                    let v = (self.u16(o)?, self.u16(o + 2)?, self.u32(o + 4)?);
                    self.t("beat.number", v.0);
                    self.t("beat.tempo", v.1);
                    self.t("beat.time", v.2);
                }
                24 + 8 * n
            }
            b"PCOB" => {
                if hs != 24 {
                    self.soft("cue list header size");
                }
                let ty = self.u32(12)?;
                if ty > 1 {
                    self.soft("cue list type");
                }
                self.t("list_type", ty);
                let n = self.u16(18)? as usize;
                if 24 + 56 * n != total {
                    return Err("cue count");
                }
                for i in 0..n {
                    self.cue(24 + 56 * i)?;
                }
                24 + 56 * n
            }
            b"PCO2" => {
                if hs != 20 {
                    self.soft("extended cue list header size");
                }
                let ty = self.u32(12)?;
                if ty > 1 {
                    self.soft("cue list type");
                }
                self.t("list_type", ty);
                let n = self.u16(16)? as usize;
                if self.u16(18)? != 0 {
                    self.soft("extended cue list padding");
                }
                let mut o = 20;
                for _ in 0..n {
                    o += self.extended_cue(o)?;
                }
                o
            }
            b"PPTH" => {
                let len = self.u32(12)? as usize;
                if len != content || 16 + len != total {
                    return Err("path length");
                }
                if len % 2 != 0 || len == 0 {
                    self.soft("odd path length");
                } else {
                    let n = len / 2;
                    let units: Vec<u64> = (0..n).map(|i| self.u16(16 + 2 * i)).collect::<R<_>>()?;
                    if units[n - 1] != 0 || units[..n - 1].contains(&0) {
                        self.soft("path terminator");
                    }
                    self.t("path.len", n as u64 - 1);
                    for u in &units[..n - 1] {
                        self.t("path", *u);
                    }
                }
                16 + len
            }
            b"PVBR" => {
                if hs != 16 {
                    self.soft("VBR header size");
                }
                16 + content
            }
            b"PWAV" | b"PWV2" => {
                let len = self.u32(12)? as usize;
                if len != content || 20 + len != total {
                    return Err("preview length");
                }
                for i in 0..len {
                    let x = self.u8(20 + i)?;
                    if &kind == b"PWAV" {
                        self.t("height", x & 31);
                        self.t("whiteness", x >> 5);
                    } else {
                        self.t("height", x & 15);
                    }
                }
                20 + len
            }
            b"PWV3" | b"PWV4" | b"PWV5" | b"PWV6" | b"PWV7" => {
                let (es, h) = match kind[3] {
                    b'3' => (1, 24),
                    b'4' => (6, 24),
                    b'5' => (2, 24),
                    b'6' => (3, 20),
                    _ => (3, 24),
                };
                if self.u32(12)? != es {
                    return Err("entry size");
                }
                let n = self.u32(16)?;
                if n * es != content as u64 || h as u64 + n * es != total as u64 {
                    return Err("entry count");
                }
                if matches!(kind[3], b'3' | b'7') && self.u32(20)? != 0x0096_0000 {
                    self.soft("detail constant");
                }
                for i in 0..n as usize {
                    let o = h + i * es as usize;
                    match kind[3] {
                        b'3' => {
                            let x = self.u8(o)?;
                            self.t("height", x & 31);
                            self.t("whiteness", x >> 5);
                        }
                        b'4' => {
                            for (k, name) in ["bottom_half", "bottom_third", "mid_third", "top_third"].iter().enumerate() {
                                let x = self.u8(o + 2 + k)?;
                                self.t(name, x);
                            }
                        }
                        b'5' => {
                            let x = self.u16(o)?;
                            self.t("red", x >> 13);
                            self.t("green", x >> 10 & 7);
                            self.t("blue", x >> 7 & 7);
                            self.t("height", x >> 2 & 31);
                        }
                        _ => {
                            for (k, name) in ["mid_third", "top_third", "bottom_third"].iter().enumerate() {
                                let x = self.u8(o + k)?;
                                self.t(name, x);
                            }
                        }
                    }
                }
                h + n as usize * es as usize
            }
            b"PSSI" => {
                if self.u32(12)? != 24 {
                    return Err("phrase size");
                }
                let n = self.u16(16)?;
                if 24 * n != content as u64 || 32 + 24 * n != total as u64 {
                    return Err("phrase count");
                }
                let mut d = self.b[18..].to_vec();
                let is = |d: &[u8]| d[0] == 0 && (1..=3).contains(&d[1]);
                let dec: Vec<u8> = d.iter().enumerate().map(|(i, x)| x ^ key(i, n as u16)).collect();
                if is(&dec) {
                    d = dec;
                } else if !is(&d) {
                    self.soft("mood");
                }
                let g = |i: usize| (d[i] as u64) << 8 | d[i + 1] as u64;
                if d[12] > 8 {
                    self.soft("bank");
                }
                self.t("mood", g(0));
                self.t("end_beat", g(8));
                self.t("bank", d[12] as u64);
                for i in 0..n as usize {
                    let p = &d[14 + 24 * i..];
                    let g = |i: usize| (p[i] as u64) << 8 | p[i + 1] as u64;
                    for (name, v) in [
                        ("index", g(0)),
                        ("beat", g(2)),
                        ("kind", g(4)),
                        ("k1", p[7] as u64),
                        ("k2", p[9] as u64),
                        ("b", p[11] as u64),
                        ("beat2", g(12)),
                        ("beat3", g(14)),
                        ("beat4", g(16)),
                        ("k3", p[19] as u64),
                        ("fill", p[21] as u64),
                        ("beat_fill", g(22)),
                    ] {
                        self.t(name, v);
                    }
                }
                32 + 24 * n as usize
            }
            b"PMAI" | b"PCPT" | b"PCP2" => {
                self.soft("kind that is no section");
                total
            }
            _ => total,
        };
        if end != total {
            return Err("section end");
        }
        Ok(total)
    }
    fn cue(&mut self, o: usize) -> R<()> {
        let (kind, hs, total) = self.header(o)?;
        if &kind != b"PCPT" || hs != 28 || total != 56 {
            self.soft("cue header");
        }
        for (name, at, w) in [("hot_cue", 12, 4), ("status", 16, 4), ("order_first", 24, 2), ("order_last", 26, 2), ("cue_type", 28, 1), ("time", 32, 4), ("loop_time", 36, 4)] {
            let v = match w {
                1 => self.u8(o + at)?,
                2 => self.u16(o + at)?,
                _ => self.u32(o + at)?,
            };
            if name == "cue_type" && !(1..=2).contains(&v) {
                self.soft("cue type");
            }
            self.t(name, v);
        }
        Ok(())
    }
    fn extended_cue(&mut self, o: usize) -> R<usize> {
        let (kind, hs, total) = self.header(o)?;
        if &kind != b"PCP2" || hs != 16 {
            self.soft("extended cue header");
        }
        for (name, at, w) in [("hot_cue", 12, 4), ("cue_type", 16, 1), ("time", 20, 4), ("loop_time", 24, 4), ("color", 28, 1), ("num", 36, 2), ("den", 38, 2)] {
            let v = match w {
                1 => self.u8(o + at)?,
                2 => self.u16(o + at)?,
                _ => self.u32(o + at)?,
            };
            if name == "cue_type" && !(1..=2).contains(&v) {
                self.soft("cue type");
            }
            if name == "color" && v > 8 {
                self.soft("color");
            }
            self.t(name, v);
        }
        let len = self.u32(o + 40)? as usize;
        if o + 68 + len > self.b.len() {
            return Err("comment length");
        }
        let n = len / 2;
        let units: Vec<u16> = (0..n).map(|i| self.u16(o + 44 + 2 * i).map(|x| x as u16)).collect::<R<_>>()?;
        if len % 2 != 0 || (n > 0 && units[n - 1] != 0) {
            self.soft("comment terminator");
        } else if n == 1 {
            self.lone_nul = true;
            self.soft("lone terminator as comment");
        }
        if n > 0 && String::from_utf16(&units[..n - 1]).is_err() {
            self.soft("comment encoding");
        }
        let text = &units[..n.saturating_sub(1)];
        self.t("comment.len", text.len() as u64);
        for u in text {
            self.t("comment", *u as u64);
        }
        let p = o + 44 + len;
        for k in 0..4 {
            let v = self.u8(p + k)?;
            self.t(["color_index", "red", "green", "blue"][k], v);
        }
        if total < 68 + len {
            self.soft("short extended cue");
        }
        let end = total.max(68 + len);
        for i in 68 + len..end {
            let v = self.u8(o + i)?;
            self.t("trailing", v);
        }
        Ok(end)
    }
}

pub fn reference(b: &[u8]) -> Ref {
    let mut p = P { b, toks: vec![], lenient: None, lone_nul: false };
    let r = p.file();
    let class = match (r, p.lenient) {
        (_, Some(why)) => Class::Lenient(why),
        (Err(why), None) => Class::Invalid(why),
        (Ok(_), None) => Class::Valid,
    };
    Ref { toks: p.toks, class, used: r.unwrap_or(0), lone_nul: p.lone_nul }
}

// ------------------------------------------------------------------------------------------
// What the library shows

fn kind_num(k: &ContentKind) -> u64 {
    let b: [u8; 4] = match k {
        ContentKind::File => *b"PMAI",
        ContentKind::BeatGrid => *b"PQTZ",
        ContentKind::CueList => *b"PCOB",
        ContentKind::ExtendedCueList => *b"PCO2",
        ContentKind::ExtendedCue => *b"PCP2",
        ContentKind::Cue => *b"PCPT",
        ContentKind::Path => *b"PPTH",
        ContentKind::VBR => *b"PVBR",
        ContentKind::WaveformPreview => *b"PWAV",
        ContentKind::TinyWaveformPreview => *b"PWV2",
        ContentKind::WaveformDetail => *b"PWV3",
        ContentKind::WaveformColorPreview => *b"PWV4",
        ContentKind::WaveformColorDetail => *b"PWV5",
        ContentKind::Waveform3BandPreview => *b"PWV6",
        ContentKind::Waveform3BandDetail => *b"PWV7",
        ContentKind::SongStructure => *b"PSSI",
        ContentKind::Unknown(b) => *b,
    };
    u32::from_be_bytes(b) as u64
}

fn header_toks(t: &mut Vec<Tok>, h: &Header) {
    t.push(("kind", kind_num(&h.kind)));
    t.push(("size", h.size as u64));
    t.push(("total", h.total_size as u64));
}

fn cue_type(c: &CueType) -> u64 {
    match c {
        CueType::Point => 1,
        CueType::Loop => 2,
    }
}

fn list_type(c: &CueListType) -> u64 {
    match c {
        CueListType::MemoryCues => 0,
        CueListType::HotCues => 1,
    }
}

fn color(c: &ColorIndex) -> u64 {
    match c {
        ColorIndex::None => 0,
        ColorIndex::Pink => 1,
        ColorIndex::Red => 2,
        ColorIndex::Orange => 3,
        ColorIndex::Yellow => 4,
        ColorIndex::Green => 5,
        ColorIndex::Aqua => 6,
        ColorIndex::Blue => 7,
        ColorIndex::Purple => 8,
    }
}

const STRUCTURE_FIELDS: &[&str] = &["mood", "end_beat", "bank", "index", "beat", "kind", "k1", "k2", "b", "beat2", "beat3", "beat4", "k3", "fill", "beat_fill"];

/// The song structure data is not accessible except through its Debug rendering: collects
/// `name: value` pairs of the documented names in order of the binary layout.
fn structure_toks(t: &mut Vec<Tok>, text: &str) {
    let b = text.as_bytes();
    let word = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
    let mut i = 0;
    while i < b.len() {
        if !word(b[i]) {
            i += 1;
            continue;
        }
        let s = i;
        while i < b.len() && word(b[i]) {
            i += 1;
        }
        if i + 1 < b.len() && b[i] == b':' && b[i + 1] == b' ' {
            let name = &text[s..i];
            if let Some(name) = STRUCTURE_FIELDS.iter().find(|x| **x == name) {
                let v0 = i + 2;
                let mut e = v0;
                while e < b.len() && word(b[e]) {
                    e += 1;
                }
                let v = &text[v0..e];
                let num = match (*name, v) {
                    ("mood", "High") => 1,
                    ("mood", "Mid") => 2,
                    ("mood", "Low") => 3,
                    ("bank", x) => ["Default", "Cool", "Natural", "Hot", "Subtle", "Warm", "Vivid", "Club1", "Club2"].iter().position(|y| *y == x).map(|x| x as u64).unwrap_or(999),
                    (_, x) => x.parse().unwrap_or(999_999),
                };
                t.push((name, num));
            }
        }
    }
}

pub fn observe(a: &ANLZ) -> Vec<Tok> {
    let mut t = vec![];
    header_toks(&mut t, &a.header);
    for x in &a.header_data {
        t.push(("header_data", *x as u64));
    }
    for s in &a.sections {
        header_toks(&mut t, &s.header);
        match &s.content {
            Content::BeatGrid(g) => {
                for b in &g.beats {
                    t.push(("beat.number", b.beat_number as u64));
                    t.push(("beat.tempo", b.tempo as u64));
                    t.push(("beat.time", b.time as u64));
                }
            }
            Content::CueList(l) => {
                t.push(("list_type", list_type(&l.list_type)));
                for c in &l.cues {
                    header_toks(&mut t, &c.header);
                    t.push(("hot_cue", c.hot_cue as u64));
                    t.push(("status", c.status as u64));
                    t.push(("order_first", c.order_first as u64));
                    t.push(("order_last", c.order_last as u64));
                    t.push(("cue_type", cue_type(&c.cue_type)));
                    t.push(("time", c.time as u64));
                    t.push(("loop_time", c.loop_time as u64));
                }
            }
            Content::ExtendedCueList(l) => {
                t.push(("list_type", list_type(&l.list_type)));
                for c in &l.cues {
                    header_toks(&mut t, &c.header);
                    t.push(("hot_cue", c.hot_cue as u64));
                    t.push(("cue_type", cue_type(&c.cue_type)));
                    t.push(("time", c.time as u64));
                    t.push(("loop_time", c.loop_time as u64));
                    t.push(("color", color(&c.color)));
                    t.push(("num", c.loop_numerator as u64));
                    t.push(("den", c.loop_denominator as u64));
                    t.push(("comment.len", c.comment.encode_utf16().count() as u64));
                    for u in c.comment.encode_utf16() {
                        t.push(("comment", u as u64));
                    }
                    t.push(("color_index", c.hot_cue_color_index as u64));
                    t.push(("red", c.hot_cue_color_rgb.0 as u64));
                    t.push(("green", c.hot_cue_color_rgb.1 as u64));
                    t.push(("blue", c.hot_cue_color_rgb.2 as u64));
                    for x in &c.trailing {
                        t.push(("trailing", *x as u64));
                    }
                }
            }
            Content::Path(p) => {
                t.push(("path.len", p.path.len() as u64));
                for u in p.path.iter() {
                    t.push(("path", *u as u64));
                }
            }
            Content::VBR(_) | Content::Unknown(_) => (),
            Content::WaveformPreview(w) => {
                for c in &w.data {
                    t.push(("height", c.height() as u64));
                    t.push(("whiteness", c.whiteness() as u64));
                }
            }
            Content::TinyWaveformPreview(w) => {
                for c in &w.data {
                    t.push(("height", c.height() as u64));
                }
            }
            Content::WaveformDetail(w) => {
                for c in &w.data {
                    t.push(("height", c.height() as u64));
                    t.push(("whiteness", c.whiteness() as u64));
                }
            }
            Content::WaveformColorPreview(w) => {
                for c in &w.data {
                    t.push(("bottom_half", c.energy_bottom_half_freq as u64));
                    t.push(("bottom_third", c.energy_bottom_third_freq as u64));
                    t.push(("mid_third", c.energy_mid_third_freq as u64));
                    t.push(("top_third", c.energy_top_third_freq as u64));
                }
            }
            Content::WaveformColorDetail(w) => {
                for c in &w.data {
                    t.push(("red", c.red() as u64));
                    t.push(("green", c.green() as u64));
                    t.push(("blue", c.blue() as u64));
                    t.push(("height", c.height() as u64));
                }
            }
            Content::Waveform3BandPreview(w) => {
                for c in &w.data {
                    t.push(("mid_third", c.energy_mid_third_freq as u64));
                    t.push(("top_third", c.energy_top_third_freq as u64));
                    t.push(("bottom_third", c.energy_bottom_third_freq as u64));
                }
            }
            Content::Waveform3BandDetail(w) => {
                for c in &w.data {
                    t.push(("mid_third", c.energy_mid_third_freq as u64));
                    t.push(("top_third", c.energy_top_third_freq as u64));
                    t.push(("bottom_third", c.energy_bottom_third_freq as u64));
                }
            }
            Content::SongStructure(s) => structure_toks(&mut t, &format!("{s:?}")),
        }
    }
    t
}

// ------------------------------------------------------------------------------------------
// Building files

pub fn be16(v: u16) -> [u8; 2] {
    v.to_be_bytes()
}
pub fn be32(v: u32) -> [u8; 4] {
    v.to_be_bytes()
}

/// A section from its header fields after the sizes, and its contents.
pub fn sec(kind: &[u8; 4], fields: &[u8], content: &[u8]) -> Vec<u8> {
    let mut b = kind.to_vec();
    b.extend(be32(12 + fields.len() as u32));
    b.extend(be32((12 + fields.len() + content.len()) as u32));
    b.extend(fields);
    b.extend(content);
    b
}

pub fn file(head: &[u8], sections: &[&[u8]]) -> Vec<u8> {
    sec(b"PMAI", head, &sections.concat())
}

/// Bytes that differ by position.
pub fn fill(n: usize, salt: usize) -> Vec<u8> {
    (0..n).map(|i| ((i * 37 + salt * 101 + i / 256 * 11 + 1) % 256) as u8).collect()
}

pub fn beat_grid(n: usize) -> Vec<u8> {
    let mut f = vec![0, 1, 2, 3, 0x00, 0x80, 0, 0];
    f.extend(be32(n as u32));
    sec(b"PQTZ", &f, &fill(8 * n, 1))
}

pub fn cue(i: usize, loop_: bool) -> Vec<u8> {
    let mut b = b"PCPT".to_vec();
    b.extend(be32(28));
    b.extend(be32(56));
    b.extend(fill(44, i + 2));
    b[28] = 1 + loop_ as u8;
    b
}

pub fn cue_list(n: usize, ty: u32) -> Vec<u8> {
    let mut f = be32(ty).to_vec();
    f.extend([0x12, 0x34]);
    f.extend(be16(n as u16));
    f.extend([0xfe, 0xdc, 0xba, 0x98]);
    sec(b"PCOB", &f, &(0..n).flat_map(|i| cue(i, i % 2 == 1)).collect::<Vec<_>>())
}

pub fn ext_cue(i: usize, comment: &[u8], trailing: usize) -> Vec<u8> {
    let mut b = b"PCP2".to_vec();
    b.extend(be32(16));
    b.extend(be32((68 + comment.len() + trailing) as u32));
    b.extend(fill(28, i + 3));
    b[16] = 1 + (i % 2) as u8;
    b[28] = (i % 9) as u8;
    b.extend(be32(comment.len() as u32));
    b.extend(comment);
    b.extend(fill(24, i + 4));
    b.extend(fill(trailing, i + 5));
    b
}

pub fn wide(s: &str) -> Vec<u8> {
    s.encode_utf16().chain([0]).flat_map(|u| u.to_be_bytes()).collect()
}

pub fn ext_cue_list(cues: &[Vec<u8>], ty: u32) -> Vec<u8> {
    let mut f = be32(ty).to_vec();
    f.extend(be16(cues.len() as u16));
    f.extend([0, 0]);
    sec(b"PCO2", &f, &cues.concat())
}

pub fn path(s: &str) -> Vec<u8> {
    let w = wide(s);
    sec(b"PPTH", &be32(w.len() as u32), &w)
}

pub fn wave(kind: &[u8; 4], n: usize) -> Vec<u8> {
    let (es, consts): (usize, Option<u32>) = match kind[3] {
        b'V' | b'2' => (1, None),
        b'3' => (1, Some(0x0096_0000)),
        b'4' => (6, Some(0x0102_0304)),
        b'5' => (2, Some(0x0096_0305)),
        b'6' => (3, None),
        _ => (3, Some(0x0096_0000)),
    };
    let mut f = vec![];
    if matches!(kind[3], b'V' | b'2') {
        f.extend(be32(n as u32));
        f.extend(be32(0x0010_0000));
    } else {
        f.extend(be32(es as u32));
        f.extend(be32(n as u32));
        if let Some(c) = consts {
            f.extend(be32(c));
        }
    }
    sec(kind, &f, &fill(es * n, kind[3] as usize))
}

/// A song structure section; `data` is everything from the mood on, in plain form.
pub fn structure_raw(n: u16, data: &[u8], encrypted: bool) -> Vec<u8> {
    let d: Vec<u8> = data.iter().enumerate().map(|(i, x)| if encrypted { x ^ key(i, n) } else { *x }).collect();
    let mut f = be32(24).to_vec();
    f.extend(be16(n));
    f.extend(&d[..14]);
    sec(b"PSSI", &f, &d[14..])
}

pub fn structure_data(n: usize, mood: u16, bank: u8, salt: usize) -> Vec<u8> {
    let mut d = be16(mood).to_vec();
    d.extend(fill(10, salt + 6));
    d.push(bank);
    d.push(0x5c);
    d.extend(fill(24 * n, salt + 7));
    d
}

pub fn structure(n: usize, mood: u16, bank: u8, encrypted: bool) -> Vec<u8> {
    structure_raw(n as u16, &structure_data(n, mood, bank, n), encrypted)
}

pub fn unknown(kind: &[u8; 4], h: usize, c: usize) -> Vec<u8> {
    sec(kind, &fill(h, 8), &fill(c, 9))
}

/// One section of every kind and shape.
pub fn alphabet() -> Vec<(&'static str, Vec<u8>)> {
    vec![
        ("PQTZ0", beat_grid(0)),
        ("PQTZ2", beat_grid(2)),
        ("PCOB0", cue_list(0, 0)),
        ("PCOB2", cue_list(2, 1)),
        ("PCO2-0", ext_cue_list(&[], 1)),
        ("PCO2-2", ext_cue_list(&[ext_cue(0, &[], 20), ext_cue(1, &wide("Ünï 🎵"), 3)], 0)),
        ("PPTH", path("/Contents/ä/x.mp3")),
        ("PPTH-empty", path("")),
        ("PVBR", sec(b"PVBR", &[1, 2, 3, 4], &fill(9, 3))),
        ("PVBR0", sec(b"PVBR", &[1, 2, 3, 4], &[])),
        ("PWAV", wave(b"PWAV", 5)),
        ("PWAV0", wave(b"PWAV", 0)),
        ("PWV2", wave(b"PWV2", 3)),
        ("PWV3", wave(b"PWV3", 4)),
        ("PWV4", wave(b"PWV4", 2)),
        ("PWV4-0", wave(b"PWV4", 0)),
        ("PWV5", wave(b"PWV5", 3)),
        ("PWV6", wave(b"PWV6", 2)),
        ("PWV7", wave(b"PWV7", 3)),
        ("PSSI", structure(2, 1, 3, false)),
        ("PSSI-enc", structure(2, 3, 7, true)),
        ("PSSI0-enc", structure(0, 2, 0, true)),
        ("PXYZ", unknown(b"PXYZ", 5, 7)),
        ("PWV8-0", unknown(b"PWV8", 0, 0)),
        ("zero kind", unknown(&[0; 4], 3, 0)),
    ]
}

// ------------------------------------------------------------------------------------------
// Comparison

fn first_diff(a: &[Tok], b: &[Tok]) -> String {
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    format!("value {i}: library {:?}, file {:?} ({} / {} values)", a.get(i), b.get(i), a.len(), b.len())
}

pub fn check(rec: &mut Rec, b: &[u8], what: &dyn Fn() -> String, debug: bool) -> bool {
    let want = reference(b);
    rec.count("evaluations", 1);
    let mut c = Cursor::new(b);
    let got = match guard(|| ANLZ::read(&mut c)) {
        Ok(x) => x,
        Err(p) => {
            rec.fail("read-panics", format!("{p}; {}; {}", what(), hex(b)));
            return false;
        }
    };
    let pos = c.position() as usize;
    match (&want.class, &got) {
        (Class::Invalid(why), Ok(_)) => {
            rec.fail(format!("accepts:{why}"), format!("contradictory file ({why}) is accepted: {}; {}", what(), hex(b)));
            return false;
        }
        (Class::Valid, Err(e)) => {
            rec.fail("refuses-valid", format!("valid file is refused: {e}; {}; {}", what(), hex(b)));
            return false;
        }
        (Class::Invalid(why), Err(_)) => {
            rec.outcome(why);
            return true;
        }
        (Class::Lenient(why), Err(_)) => {
            rec.outcome(why);
            return true;
        }
        _ => (),
    }
    let a = got.unwrap();
    let valid = want.class == Class::Valid;
    if valid {
        let t = observe(&a);
        if t != want.toks {
            rec.fail("values", format!("{}; {}; {}", first_diff(&t, &want.toks), what(), hex(b)));
            return false;
        }
        if pos != want.used {
            rec.fail("position", format!("{pos} bytes consumed instead of {}; {}; {}", want.used, what(), hex(b)));
            return false;
        }
    }
    if debug || !valid {
        if let Err(p) = guard(|| format!("{a:#?}")) {
            rec.fail("debug-panics", format!("{p}; {}; {}", what(), hex(b)));
            return false;
        }
    }
    let mut w = Cursor::new(Vec::new());
    match guard(|| a.write(&mut w)) {
        Err(p) => {
            rec.fail("write-panics", format!("{p}; {}; {}", what(), hex(b)));
            false
        }
        Ok(Err(e)) => {
            rec.fail("write-fails", format!("{e}; {}; {}", what(), hex(b)));
            false
        }
        Ok(Ok(())) => {
            let w = w.into_inner();
            let end = pos.min(b.len());
            if w != b[..end] {
                let i = w.iter().zip(b).position(|(x, y)| x != y).unwrap_or(w.len().min(end));
                if want.lone_nul {
                    rec.fail("lone-nul-comment", format!("a comment stored as a lone terminator is written back as no comment at all (byte {i}); {}; {}", what(), hex(b)));
                    return false;
                }
                rec.fail("write-back", format!("written file differs at byte {i} (lengths {} / {end}); {}; {}", w.len(), what(), hex(b)));
                return false;
            }
            rec.outcome(match &want.class {
                Class::Valid => "valid",
                Class::Lenient(_) => "accepted beyond the documentation",
                _ => "",
            });
            true
        }
    }
}

fn in_file(s: &[u8]) -> Vec<u8> {
    file(&fill(16, 0), &[&unknown(b"PABC", 2, 3), s, &beat_grid(1)])
}

pub fn c10(ctx: &mut Ctx) {
    ctx.rule = "reference parser of the documented layout: valid files yield exactly the documented values and write back byte for byte; contradictory sizes are refused; whatever else is accepted writes back unchanged".into();
    ctx.assume("the layout table in c_anlz.rs is the documented layout (validated on every ANLZ file of the sample exports)");
    let al = alphabet();
    let n = al.len() as u64;

    let samples = sample_files();
    ctx.bound(format!("{} sample files, complete", samples.len()));
    ctx.par("samples", samples.len() as u64, |i, rec| {
        let b = std::fs::read(&samples[i as usize]).unwrap();
        let r = reference(&b);
        if r.class != Class::Valid || r.used != b.len() {
            // the layout table itself would be wrong
            rec.fail("reference", format!("{:?}: {:?}", samples[i as usize], r.class));
            return;
        }
        rec.distinct(&b);
        rec.count("sample_values", r.toks.len() as u64);
        check(rec, &b, &|| samples[i as usize].display().to_string(), true);
    });

    let depth = ctx.pick(4, 5);
    ctx.bound(format!("all section sequences up to length {depth} over {n} sections"));
    for d in 0..=depth {
        ctx.par(&format!("sequences-{d}"), n.pow(d), |mut i, rec| {
            let mut parts: Vec<usize> = vec![];
            for _ in 0..d {
                parts.push((i % n) as usize);
                i /= n;
            }
            let secs: Vec<&[u8]> = parts.iter().map(|p| al[*p].1.as_slice()).collect();
            let b = file(&fill(if d == 2 { 0 } else { 16 }, 0), &secs);
            rec.count("distinct_by_construction", 1);
            if d > 1 {
                rec.sample(|| parts.iter().map(|p| al[*p].0).collect::<Vec<_>>().join(" "));
            }
            check(rec, &b, &|| parts.iter().map(|p| al[*p].0).collect::<Vec<_>>().join(" "), d < 3);
        });
    }

    // a file header of every size, and a file that does not start at the beginning of the stream
    ctx.par("file-header", 300, |i, rec| {
        let b = file(&fill(i as usize, 1), &[&beat_grid(1), &path("x")]);
        check(rec, &b, &|| format!("file header of {} bytes", 12 + i), false);
        let mut shifted = fill(i as usize, 2);
        shifted.extend(&b);
        shifted.extend(&b);
        let mut c = Cursor::new(&shifted[..]);
        c.set_position(i);
        rec.count("evaluations", 2);
        for k in 0..2 {
            match guard(|| ANLZ::read(&mut c)) {
                Ok(Ok(a)) if observe(&a) == reference(&b).toks && c.position() as usize == i as usize + (k + 1) * b.len() => (),
                x => {
                    rec.fail("embedded", format!("file {k} at offset {} of a larger stream: {:?}, position {}", i, x.map(|r| r.is_ok()), c.position()));
                    return;
                }
            }
        }
    });

    // entry counts
    let counts: Vec<usize> = {
        let mut v: Vec<usize> = (0..=ctx.pick(260, 1200)).collect();
        v.extend([2000, 4095, 4096, 4097, 32767, 32768, 65534, 65535, 65536, 65537, 131_072]);
        v
    };
    ctx.bound(format!("every entry count to {} and 11 counts to 131072 for every kind", counts.len() - 12));
    let kinds = 11u64;
    ctx.par("counts", counts.len() as u64 * kinds, |i, rec| {
        let c = counts[(i / kinds) as usize];
        let s = match i % kinds {
            0 => beat_grid(c),
            1 => cue_list(c, 0),
            2 => ext_cue_list(&(0..c).map(|k| ext_cue(k, &if k % 3 == 0 { vec![] } else { wide(&"é".repeat(k % 7 + 1)) }, k % 23)).collect::<Vec<_>>(), 1),
            3 => path(&"pä/".repeat(c)),
            4 => wave(b"PWAV", c),
            5 => wave(b"PWV2", c),
            6 => wave(b"PWV3", c),
            7 => wave(b"PWV4", c),
            8 => wave(b"PWV5", c),
            9 => wave(b"PWV6", c),
            _ => wave(b"PWV7", c),
        };
        rec.count("distinct_by_construction", 1);
        check(rec, &in_file(&s), &|| format!("kind {} with {c} entries", i % kinds), false);
    });
    ctx.bound("unknown sections: header and content sizes each to 40 (thorough 120)");
    let m = ctx.pick(41, 121);
    ctx.par("unknown", m * m, |i, rec| {
        let (h, c) = ((i % m) as usize, (i / m) as usize);
        rec.count("distinct_by_construction", 3);
        for k in [*b"PXXX", [0xff; 4], *b"pqtz"] {
            if !check(rec, &in_file(&unknown(&k, h, c)), &|| format!("unknown {k:?} header {h} content {c}"), h < 3) {
                return;
            }
        }
    });
    // long headers, contents, comments and paths, alone and together
    let sizes: Vec<usize> = {
        let mut v = vec![];
        for e in [8u32, 10, 12, 15, 16, 17, 20, 24] {
            for d in [-12i64, -3, -2, -1, 0, 1, 2, 12] {
                v.push((1i64 << e).wrapping_add(d) as usize);
            }
        }
        v
    };
    ctx.bound("header, content, comment, trailing, path and file header sizes of 8 values around each of 2^8, 2^10, 2^12, 2^15, 2^16, 2^17, 2^20 and 2^24; files of up to 70000 sections");
    ctx.par("large", sizes.len() as u64 * 8, |i, rec| {
        let z = sizes[(i / 8) as usize];
        rec.count("distinct_by_construction", 1);
        let shape = i % 8;
        let b = match shape {
            0 => in_file(&unknown(b"PXXX", z, 3)),
            1 => in_file(&unknown(b"PXXX", 3, z)),
            2 => in_file(&unknown(b"PXXX", z, z)),
            3 => in_file(&sec(b"PVBR", &[1, 2, 3, 4], &fill(z, 3))),
            4 => file(&fill(z, 1), &[&beat_grid(1), &path("x")]),
            5 => in_file(&ext_cue_list(&[ext_cue(1, &wide(&"y".repeat(z - 1)), 3), ext_cue(0, &wide("z"), 2)], 1)),
            6 => in_file(&ext_cue_list(&[ext_cue(1, &wide("é"), z), ext_cue(0, &[], 2)], 1)),
            _ => in_file(&path(&"p".repeat(z))),
        };
        check(rec, &b, &|| format!("shape {shape} of size {z}"), false);
    });
    ctx.par("many-sections", al.len() as u64 * 4, |i, rec| {
        let c = [257usize, 4097, 32769, 70000][(i % 4) as usize];
        let s = &al[(i / 4) as usize];
        rec.count("distinct_by_construction", 1);
        let secs: Vec<&[u8]> = (0..c).map(|k| if k + 1 == c { al[0].1.as_slice() } else { s.1.as_slice() }).collect();
        check(rec, &file(&fill(16, 0), &secs), &|| format!("{c} sections {}", s.0), false);
    });
    // every kind name that differs from a known one in one byte, or is one
    let known: Vec<[u8; 4]> = ["PMAI", "PQTZ", "PCOB", "PCO2", "PCP2", "PCPT", "PPTH", "PVBR", "PWAV", "PWV2", "PWV3", "PWV4", "PWV5", "PWV6", "PWV7", "PSSI"].iter().map(|s| s.as_bytes().try_into().unwrap()).collect();
    ctx.par("kind-names", known.len() as u64 * 4 * 256, |i, rec| {
        let mut k = known[(i / 1024) as usize];
        k[(i / 256 % 4) as usize] = (i % 256) as u8;
        check(rec, &in_file(&unknown(&k, 8, 11)), &|| format!("kind {k:?}"), false);
        check(rec, &in_file(&unknown(&k, 0, 0)), &|| format!("empty kind {k:?}"), false);
    });

    // all values of the packed columns
    ctx.par("columns", 256, |i, rec| {
        let lo: Vec<u8> = (0..=255).collect();
        let mut pairs = vec![];
        for j in 0..=255u8 {
            pairs.extend([i as u8, j]);
        }
        let with = |kind: &[u8; 4], content: &[u8], n: usize| {
            let mut s = wave(kind, n);
            let at = s.len() - content.len();
            s[at..].copy_from_slice(content);
            s
        };
        let triples: Vec<u8> = (0..=255u8).flat_map(|j| [i as u8, j, i as u8 ^ j]).collect();
        let six: Vec<u8> = (0..=255u8).flat_map(|j| [j, i as u8, j.wrapping_add(1), i as u8 ^ j, j, i as u8 ^ 0xff]).collect();
        for s in [
            with(b"PWAV", &lo, 256),
            with(b"PWV2", &lo, 256),
            with(b"PWV3", &lo, 256),
            with(b"PWV5", &pairs, 256),
            with(b"PWV6", &triples, 256),
            with(b"PWV7", &triples, 256),
            with(b"PWV4", &six, 256),
        ] {
            rec.count("distinct_by_construction", 256);
            if !check(rec, &in_file(&s), &|| format!("all columns starting with {i}"), false) {
                return;
            }
        }
    });

    // comments
    let (maxlen, maxtrail) = ctx.pick((120u64, 44u64), (700, 100));
    ctx.bound(format!("comments of 0..={maxlen} units in 5 alphabets x trailing sizes to {maxtrail}"));
    let comment = |len: usize, shape: u64| -> Vec<u8> {
        let s: String = match shape {
            0 => (0..len).map(|i| (b'a' + (i % 26) as u8) as char).collect(),
            1 => (0..len).map(|i| char::from_u32(0xc0 + i as u32 % 64).unwrap()).collect(),
            2 => (0..len / 2).map(|_| '🎵').chain((0..len % 2).map(|_| 'x')).collect(),
            // text that itself contains and ends with NUL characters
            3 => (0..len).map(|i| if i % 3 == 0 || i + 1 == len { '\0' } else { 'q' }).collect(),
            _ => (0..len).map(|i| if i + 3 >= len { '\0' } else { '你' }).collect(),
        };
        wide(&s)
    };
    ctx.par("comments", (maxlen + 1) * 5 * (maxtrail + 1), |i, rec| {
        let len = (i % (maxlen + 1)) as usize;
        let shape = i / (maxlen + 1) % 5;
        let tr = (i / (maxlen + 1) / 5) as usize;
        if len == 0 && shape != 0 {
            return;
        }
        let w = if len == 0 { vec![] } else { comment(len, shape) };
        let s = ext_cue_list(&[ext_cue(1, &w, tr), ext_cue(0, &wide("z"), 2)], 1);
        rec.count("distinct_by_construction", 1);
        check(rec, &in_file(&s), &|| format!("comment shape {shape} of {len} units, {tr} trailing bytes"), false);
    });
    ctx.one("lone-nul", |rec| {
        let s = ext_cue_list(&[ext_cue(1, &[0, 0], 20)], 1);
        check(rec, &in_file(&s), &|| "comment stored as a lone terminator".into(), false);
    });
    // every code unit as comment and as path
    ctx.par("units", 0x10000 / 16, |i, rec| {
        for u in (i * 16) as u16..=(i * 16 + 15) as u16 {
            let text = [0x41, u, 0xd83c, 0xdfb5, 0x42, 0];
            let w: Vec<u8> = text.iter().flat_map(|x| x.to_be_bytes()).collect();
            check(rec, &in_file(&ext_cue_list(&[ext_cue(1, &w, 1)], 1)), &|| format!("comment unit {u:#x}"), true);
            let s = sec(b"PPTH", &be32(w.len() as u32), &w);
            check(rec, &in_file(&s), &|| format!("path unit {u:#x}"), true);
        }
    });

    // every byte of a file with every value
    let bases: Vec<(String, Vec<u8>)> = al.iter().map(|(n, s)| (n.to_string(), in_file(s))).collect();
    let mut flips: Vec<(usize, usize)> = vec![];
    for (k, (_, b)) in bases.iter().enumerate() {
        for p in 0..b.len() {
            flips.push((k, p));
        }
    }
    ctx.bound(format!("every (byte, value) of {} three-section files", bases.len()));
    ctx.par("bytes", flips.len() as u64, |i, rec| {
        let (k, p) = flips[i as usize];
        let mut b = bases[k].1.clone();
        let orig = b[p];
        for v in 0..=255u8 {
            if v == orig {
                continue;
            }
            b[p] = v;
            rec.count("distinct_by_construction", 1);
            if !check(rec, &b, &|| format!("{}: byte {p} set to {v:#x}", bases[k].0), false) {
                return;
            }
        }
    });
    // pairs: two adjacent 32-bit or 16-bit numbers (size/total, count/entry size ...) together
    let vals32 = |x: u32| -> Vec<u32> { vec![0, 1, 11, 12, 13, x.wrapping_sub(24), x.wrapping_sub(8), x.wrapping_sub(2), x.wrapping_sub(1), x.wrapping_add(1), x.wrapping_add(2), x.wrapping_add(8), x.wrapping_add(12), x.wrapping_add(24), x.wrapping_mul(2), 0x7fff_ffff, 0x8000_0000, 0xffff_fff0, 0xffff_ffff, 0x5555_5556, 0x2aaa_aaab] };
    let mut spots: Vec<(usize, usize, usize)> = vec![];
    for (k, (_, b)) in bases.iter().enumerate() {
        // the second section starts behind the file header and the first
        let s0 = 28 + 17;
        let end = b.len() - 32;
        let hs = u32::from_be_bytes(b[s0 + 4..s0 + 8].try_into().unwrap()) as usize;
        let fields: Vec<usize> = [4usize, 8, s0 + 4, s0 + 8].into_iter().chain((s0 + 12..s0 + hs).step_by(2)).chain((s0 + hs..(s0 + hs + 16).min(end)).step_by(2)).filter(|p| p + 4 <= end || *p < 12).collect();
        for x in 0..fields.len() {
            for y in x..fields.len() {
                spots.push((k, fields[x], fields[y]));
            }
        }
    }
    ctx.bound(format!("{} pairs of size/count fields x 21 x 21 boundary values", spots.len()));
    ctx.par("size-fields", spots.len() as u64, |i, rec| {
        let (k, x, y) = spots[i as usize];
        let orig = &bases[k].1;
        let get = |p: usize| u32::from_be_bytes(orig[p..p + 4].try_into().unwrap());
        let mut b = orig.clone();
        for vx in vals32(get(x)) {
            for vy in vals32(get(y)) {
                b.copy_from_slice(orig);
                b[x..x + 4].copy_from_slice(&be32(vx));
                b[y..y + 4].copy_from_slice(&be32(vy));
                if !check(rec, &b, &|| format!("{}: fields at {x} and {y} set to {vx:#x} and {vy:#x}", bases[k].0), false) {
                    return;
                }
                if x == y {
                    break;
                }
            }
        }
    });
    // section sizes that move the boundary between two sections
    let pairs = n * n;
    ctx.bound("every pair of sections with total sizes shifted by -40..=40");
    ctx.par("boundaries", pairs, |i, rec| {
        let (a, b) = (&al[(i % n) as usize], &al[(i / n) as usize]);
        for d in -40i64..=40 {
            for e in [0, -d] {
                let mut x = a.1.clone();
                let mut y = b.1.clone();
                for (s, by) in [(&mut x, d), (&mut y, e)] {
                    let t = u32::from_be_bytes(s[8..12].try_into().unwrap()) as i64 + by;
                    if t < 0 {
                        return;
                    }
                    s[8..12].copy_from_slice(&be32(t as u32));
                }
                let f = file(&fill(16, 0), &[&x, &y, &beat_grid(1)]);
                if !check(rec, &f, &|| format!("{} and {} with sizes shifted by {d} and {e}", a.0, b.0), false) {
                    return;
                }
            }
        }
    });
    // truncation
    ctx.par("truncated", bases.len() as u64, |i, rec| {
        let b = &bases[i as usize].1;
        for l in 0..b.len() {
            if !check(rec, &b[..l], &|| format!("{} truncated to {l}", bases[i as usize].0), false) {
                return;
            }
        }
        for extra in 1..40 {
            let mut x = b.clone();
            x.extend(fill(extra, 4));
            if !check(rec, &x, &|| format!("{} followed by {extra} bytes", bases[i as usize].0), false) {
                return;
            }
        }
    });
    // editing parsed lists: counts follow the lists
    ctx.par("edited", 64, |i, rec| {
        let (n, keep) = ((i % 8) as usize, (i / 8) as usize);
        if keep > n {
            return;
        }
        let mk = |n: usize| file(&[], &[&beat_grid(n), &cue_list(n, 0), &ext_cue_list(&(0..n).map(|k| ext_cue(k, &wide("c"), 1)).collect::<Vec<_>>(), 0)]);
        let mut a = ANLZ::read(&mut Cursor::new(mk(n))).unwrap();
        let want = mk(keep);
        let w = ANLZ::read(&mut Cursor::new(&want)).unwrap();
        for (s, t) in a.sections.iter_mut().zip(&w.sections) {
            s.header = t.header.clone();
            match &mut s.content {
                Content::BeatGrid(g) => g.beats.truncate(keep),
                Content::CueList(l) => l.cues.truncate(keep),
                Content::ExtendedCueList(l) => l.cues.truncate(keep),
                _ => (),
            }
        }
        a.header = w.header.clone();
        let mut out = Cursor::new(vec![]);
        rec.count("evaluations", 1);
        match guard(|| a.write(&mut out)) {
            Ok(Ok(())) if *out.get_ref() == want => rec.outcome("edited"),
            x => rec.fail("edited", format!("lists of {n} entries shortened to {keep}: {x:?}, {} / {}", hex(out.get_ref()), hex(&want))),
        }
    });
}

pub fn sample_files() -> Vec<std::path::PathBuf> {
    fn walk(d: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
        let Ok(r) = std::fs::read_dir(d) else { return };
        for e in r.flatten() {
            let p = e.path();
            if p.is_dir() {
                walk(&p, out);
            } else if p.file_name().and_then(|x| x.to_str()).is_some_and(|n| n.starts_with("ANLZ")) {
                out.push(p);
            }
        }
    }
    let mut v = vec![];
    walk(std::path::Path::new("/repo/data"), &mut v);
    v.sort();
    v
}

// ------------------------------------------------------------------------------------------
// C11

/// Passes at most the given numbers of bytes per call, cyclically.
pub struct Split<T> {
    pub inner: T,
    pub sizes: Vec<usize>,
    pub at: usize,
}

impl<T> Split<T> {
    pub fn new(inner: T, sizes: &[usize]) -> Self {
        Split { inner, sizes: sizes.to_vec(), at: 0 }
    }
    fn limit(&mut self, n: usize) -> usize {
        let s = self.sizes[self.at % self.sizes.len()];
        self.at += 1;
        n.min(s)
    }
}
impl<T: Read> Read for Split<T> {
    fn read(&mut self, b: &mut [u8]) -> IoResult<usize> {
        let n = self.limit(b.len());
        self.inner.read(&mut b[..n])
    }
}
impl<T: Write> Write for Split<T> {
    fn write(&mut self, b: &[u8]) -> IoResult<usize> {
        let n = self.limit(b.len());
        self.inner.write(&b[..n])
    }
    fn flush(&mut self) -> IoResult<()> {
        self.inner.flush()
    }
}
impl<T: Seek> Seek for Split<T> {
    fn seek(&mut self, p: SeekFrom) -> IoResult<u64> {
        self.inner.seek(p)
    }
}

fn both_forms(rec: &mut Rec, n: u16, data: &[u8], what: &dyn Fn() -> String) -> bool {
    rec.count("distinct_by_construction", 2);
    for enc in [false, true] {
        let f = file(&[], &[&structure_raw(n, data, enc), &beat_grid(1)]);
        if !check(rec, &f, &|| format!("{} ({})", what(), if enc { "encrypted" } else { "plain" }), false) {
            return false;
        }
    }
    true
}

pub fn c11(ctx: &mut Ctx) {
    ctx.rule = "song structure sections built in plain and encrypted form from the documented key; decoded values equal the plain contents, write-back equals the input, for every way of splitting transfers".into();
    ctx.assume("decoded phrase data is observed through the Debug rendering (its field is private) and through write-back");
    let top = ctx.pick(2730u64, 2730);
    ctx.bound(format!("every phrase count 0..={top}"));
    ctx.par("counts", top + 1, |i, rec| {
        // large sections first would be slow to report: counts are ordered
        let d = structure_data(i as usize, 1 + (i % 3) as u16, (i % 9) as u8, i as usize);
        rec.sample(|| format!("{i} phrases"));
        both_forms(rec, i as u16, &d, &|| format!("{i} phrases"));
    });
    let big: Vec<u16> = {
        let mut v: Vec<u16> = vec![2731, 4095, 4096, 8191, 21845, 32767, 32768, 43690, 65279, 65280, 65284, 65285, 65286, 65300, 65330, 65331, 65332, 65333, 65400, 65529, 65534, 65535];
        if !ctx.quick() {
            v.extend((65280..=65535).step_by(3));
            v.extend((2731..65280).step_by(331));
        }
        v
    };
    ctx.bound(format!("{} larger counts up to 65535", big.len()));
    ctx.par("large-counts", big.len() as u64, |i, rec| {
        let n = big[i as usize];
        let d = structure_data(n as usize, 1 + n % 3, (n % 9) as u8, 1);
        both_forms(rec, n, &d, &|| format!("{n} phrases"));
    });
    ctx.bound("every mood x bank x count 0..=256");
    ctx.par("moods", 27 * 257, |i, rec| {
        let n = (i / 27) as u16;
        let d = structure_data(n as usize, 1 + (i % 3) as u16, (i / 3 % 9) as u8, 3);
        both_forms(rec, n, &d, &|| format!("mood {} bank {} with {n} phrases", 1 + i % 3, i / 3 % 9));
    });
    let ns: Vec<u16> = ctx.pick(vec![0, 1, 2, 3], vec![0, 1, 2, 3, 0x1f, 0x35, 53, 100]);
    let spots: Vec<(u16, usize)> = ns.iter().flat_map(|n| (0..14 + 24 * *n as usize).map(move |p| (*n, p))).collect();
    ctx.bound(format!("every value of every content byte for {} phrase counts", ns.len()));
    ctx.par("content", spots.len() as u64, |i, rec| {
        let (n, p) = spots[i as usize];
        let mut d = structure_data(n as usize, 2, 4, 5);
        for v in 0..=255u8 {
            d[p] = v;
            if !both_forms(rec, n, &d, &|| format!("{n} phrases, content byte {p} = {v:#x}")) {
                return;
            }
        }
    });
    // the detection: every pair of mood bytes
    let step: u64 = ctx.pick(17, 1);
    ctx.bound(format!("every raw mood value 0..65536 for every {step}th count modulo 256, and every count for the values near a valid mood"));
    ctx.par("detection", 256, |n, rec| {
        for raw in 0..=0xffffu16 {
            let (hi, lo) = ((raw >> 8) as u8, raw as u8);
            let near = (hi == 0 || hi ^ key(0, n as u16) == 0) && (lo < 6 || lo ^ key(1, n as u16) < 6);
            if n % step != 0 && !near {
                continue;
            }
            // an otherwise plain or otherwise encrypted section
            let empty = n > 40;
            for enc in [false, true] {
                let cnt = n as u16;
                let d = if empty { structure_data(cnt as usize, 1, 2, 2) } else { structure_data(cnt as usize, 1, 2, 2) };
                let mut s = structure_raw(cnt, &d, enc);
                s[18] = hi;
                s[19] = lo;
                if empty && !near {
                    // large sections: only the header part matters; a cheap reading suffices
                    rec.count("evaluations", 1);
                    let r = guard(|| Section::read_options(&mut Cursor::new(&s[..]), binrw::Endian::Big, ()));
                    if !matches!(r, Ok(Err(_))) {
                        rec.fail("detection", format!("{n} phrases, raw mood {raw:#x}: accepted although neither form has a mood"));
                        return;
                    }
                    continue;
                }
                let f = file(&[], &[&s]);
                if !check(rec, &f, &|| format!("{n} phrases, raw mood {raw:#x}, rest {}", if enc { "encrypted" } else { "plain" }), false) {
                    return;
                }
            }
        }
    });
    // transfers
    let mut plans: Vec<Vec<usize>> = (1..=40).map(|k| vec![k]).collect();
    for a in 1..=ctx.pick(6usize, 20) {
        for b in 1..=ctx.pick(6usize, 20) {
            plans.push(vec![a, b]);
            plans.push(vec![a, b, 1]);
        }
    }
    ctx.bound(format!("{} transfer patterns x phrase counts 0..=40 x both forms", plans.len()));
    ctx.par("transfers", plans.len() as u64, |i, rec| {
        let p = &plans[i as usize];
        for n in (0..=40usize).chain([300]) {
            for enc in [false, true] {
                let f = file(&fill(3, 1), &[&unknown(b"PXXX", 1, n % 5), &structure(n, 2, 5, enc), &path("x")]);
                rec.count("evaluations", 1);
                rec.count("distinct_by_construction", 1);
                let mut s = Split::new(Cursor::new(&f[..]), p);
                let want = reference(&f).toks;
                let a = match guard(|| ANLZ::read(&mut s)) {
                    Ok(Ok(a)) => a,
                    x => {
                        rec.fail("split-read", format!("{n} phrases, encrypted {enc}, transfers of {p:?} bytes: {:?}", x.map(|r| r.map(|_| ()))));
                        return;
                    }
                };
                let got = observe(&a);
                if got != want {
                    rec.fail("split-read", format!("{n} phrases, encrypted {enc}, transfers of {p:?} bytes: {}", first_diff(&got, &want)));
                    return;
                }
                let mut s = Split::new(Cursor::new(Vec::new()), p);
                match guard(|| a.write(&mut s)) {
                    Ok(Ok(())) if *s.inner.get_ref() == f => rec.outcome("split"),
                    x => {
                        rec.fail("split-write", format!("{n} phrases, encrypted {enc}, transfers of {p:?} bytes: {x:?}, {} instead of {}", hex(s.inner.get_ref()), hex(&f)));
                        return;
                    }
                }
            }
        }
    });
}
