//! C17, C18: rekordbox XML documents.

use crate::engine::*;
use rekordcrate::xml::*;

/// An XML element, independent of the library.
#[derive(Clone, Debug, PartialEq)]
pub struct El {
    pub name: String,
    pub attrs: Vec<(String, String)>,
    pub kids: Vec<El>,
}

fn el(name: &str, attrs: Vec<(&str, Option<String>)>, kids: Vec<El>) -> El {
    El { name: name.into(), attrs: attrs.into_iter().filter_map(|(k, v)| v.map(|v| (k.to_string(), v))).collect(), kids }
}
fn s<T: ToString>(x: &T) -> Option<String> {
    Some(x.to_string())
}
fn o<T: ToString>(x: &Option<T>) -> Option<String> {
    x.as_ref().map(|x| x.to_string())
}

pub fn track_el(t: &Track) -> El {
    let mut kids = vec![];
    for x in &t.tempos {
        kids.push(el("TEMPO", vec![("Inizio", s(&x.inizio)), ("Bpm", s(&x.bpm)), ("Metro", s(&x.metro)), ("Battito", s(&x.battito))], vec![]));
    }
    for x in &t.position_marks {
        kids.push(el("POSITION_MARK", vec![("Name", s(&x.name)), ("Type", s(&x.mark_type)), ("Start", s(&x.start)), ("End", o(&x.end)), ("Num", s(&x.num))], vec![]));
    }
    el(
        "TRACK",
        vec![
            ("TrackID", s(&t.trackid)), ("Name", o(&t.name)), ("Artist", o(&t.artist)), ("Composer", o(&t.composer)), ("Album", o(&t.album)),
            ("Grouping", o(&t.grouping)), ("Genre", o(&t.genre)), ("Kind", o(&t.kind)), ("Size", o(&t.size)), ("TotalTime", o(&t.totaltime)),
            ("DiscNumber", o(&t.discnumber)), ("TrackNumber", o(&t.tracknumber)), ("Year", o(&t.year)), ("AverageBpm", o(&t.averagebpm)),
            ("DateModified", o(&t.datemodified)), ("DateAdded", o(&t.dateadded)), ("BitRate", o(&t.bitrate)), ("SampleRate", o(&t.samplerate)),
            ("Comments", o(&t.comments)), ("PlayCount", o(&t.playcount)), ("LastPlayed", o(&t.lastplayed)), ("Rating", o(&t.rating)),
            ("Location", s(&t.location)), ("Remixer", o(&t.remixer)), ("Tonality", o(&t.tonality)), ("Label", o(&t.label)), ("Mix", o(&t.mix)),
            ("Colour", o(&t.colour)),
        ],
        kids,
    )
}
fn node_el(n: &PlaylistGenericNode) -> El {
    match n {
        PlaylistGenericNode::Folder(f) => folder_el(f),
        PlaylistGenericNode::Playlist(p) => el(
            "NODE",
            vec![("Name", s(&p.name)), ("Type", s(&1)), ("KeyType", s(&p.keytype)), ("Entries", s(&p.tracks.len()))],
            p.tracks.iter().map(|t| el("TRACK", vec![("Key", s(&t.key))], vec![])).collect(),
        ),
    }
}
fn folder_el(f: &PlaylistFolderNode) -> El {
    el("NODE", vec![("Type", s(&0)), ("Name", s(&f.name)), ("Count", s(&f.nodes.len()))], f.nodes.iter().map(node_el).collect())
}
pub fn doc_el(d: &Document) -> El {
    el(
        "DJ_PLAYLISTS",
        vec![("Version", s(&d.version))],
        vec![
            el("PRODUCT", vec![("Name", s(&d.product.name)), ("Version", s(&d.product.version)), ("Company", s(&d.product.company))], vec![]),
            el("COLLECTION", vec![("Entries", s(&d.collection.entries))], d.collection.track.iter().map(track_el).collect()),
            el("PLAYLISTS", vec![], vec![folder_el(&d.playlists.node)]),
        ],
    )
}

// ------------------------------------------------------------------------------------------
// A small XML reader and writer

fn unescape(v: &str, normalise: bool) -> Option<String> {
    let mut out = String::new();
    let mut it = v.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            '<' => return None,
            '\n' | '\t' if normalise => out.push(' '),
            '\r' if normalise => {
                if it.peek() == Some(&'\n') {
                    it.next();
                }
                out.push(' ');
            }
            '&' => {
                let mut e = String::new();
                loop {
                    match it.next()? {
                        ';' => break,
                        c => e.push(c),
                    }
                }
                out.push(match e.as_str() {
                    "lt" => '<',
                    "gt" => '>',
                    "amp" => '&',
                    "quot" => '"',
                    "apos" => '\'',
                    e => {
                        let n = e.strip_prefix('#')?;
                        char::from_u32(match n.strip_prefix('x') {
                            Some(h) => u32::from_str_radix(h, 16).ok()?,
                            None => n.parse().ok()?,
                        })?
                    }
                });
            }
            c => out.push(c),
        }
    }
    Some(out)
}

/// Reads a document without text content.
pub fn parse_xml(text: &str) -> Option<El> {
    parse_with(text, true)
}

/// `normalise`: white space in attribute values becomes blanks, as XML demands of a reader.
pub fn parse_with(text: &str, normalise: bool) -> Option<El> {
    let mut stack: Vec<El> = vec![El { name: String::new(), attrs: vec![], kids: vec![] }];
    let mut rest = text;
    while let Some(i) = rest.find('<') {
        if !rest[..i].trim().is_empty() {
            return None;
        }
        rest = &rest[i + 1..];
        if let Some(r) = rest.strip_prefix("!--") {
            rest = &r[r.find("-->")? + 3..];
        } else if let Some(r) = rest.strip_prefix('?') {
            rest = &r[r.find("?>")? + 2..];
        } else if let Some(r) = rest.strip_prefix('/') {
            let e = stack.pop()?;
            let j = r.find('>')?;
            if r[..j].trim_end() != e.name {
                return None;
            }
            stack.last_mut()?.kids.push(e);
            rest = &r[j + 1..];
        } else {
            let j = rest.find(|c: char| c.is_whitespace() || c == '>' || c == '/')?;
            let mut e = El { name: rest[..j].into(), attrs: vec![], kids: vec![] };
            rest = &rest[j..];
            loop {
                rest = rest.trim_start();
                if let Some(r) = rest.strip_prefix("/>") {
                    stack.last_mut()?.kids.push(e);
                    rest = r;
                    break;
                }
                if let Some(r) = rest.strip_prefix('>') {
                    stack.push(e);
                    rest = r;
                    break;
                }
                let k = rest.find('=')?;
                let name = rest[..k].trim().to_string();
                rest = rest[k + 1..].trim_start();
                let q = rest.chars().next().filter(|q| *q == '"' || *q == '\'')?;
                let m = rest[1..].find(q)?;
                if e.attrs.iter().any(|a| a.0 == name) {
                    return None;
                }
                e.attrs.push((name, unescape(&rest[1..1 + m], normalise)?));
                rest = &rest[m + 2..];
            }
        }
    }
    let mut root = stack.pop()?;
    (stack.is_empty() && root.kids.len() == 1 && rest.trim().is_empty()).then(|| root.kids.pop().unwrap())
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Style {
    /// 0: named, 1: decimal, 2: hexadecimal, 3: every character as a reference
    pub entities: u8,
    pub single_quotes: bool,
    /// 0: self-closing, 1: open and close tag, 2: the same with white space in between
    pub empty: u8,
    /// 0: none, 1: indented lines, 2: tabs, CRLF and spaces around '='
    pub space: u8,
    pub declaration: u8,
    pub comments: bool,
    /// How to order attributes: 0 as is, 1 reversed, n rotate by n-1
    pub order: usize,
}

fn escape(v: &str, st: Style) -> String {
    let mut out = String::new();
    for c in v.chars() {
        let special = matches!(c, '<' | '>' | '&' | '"' | '\'' | '\n' | '\t' | '\r');
        if st.entities == 3 || special {
            match (st.entities, c) {
                (0, '<') => out.push_str("&lt;"),
                (0, '>') => out.push_str("&gt;"),
                (0, '&') => out.push_str("&amp;"),
                (0, '"') => out.push_str("&quot;"),
                (0, '\'') => out.push_str("&apos;"),
                (2, c) => out.push_str(&format!("&#x{:X};", c as u32)),
                (_, c) => out.push_str(&format!("&#{};", c as u32)),
            }
        } else {
            out.push(c);
        }
    }
    out
}

pub fn render(e: &El, st: Style, level: usize, out: &mut String) {
    let nl = |out: &mut String, level: usize| match st.space {
        1 => {
            out.push('\n');
            out.push_str(&"  ".repeat(level));
        }
        2 => out.push_str("\r\n\t \n"),
        _ => (),
    };
    if level == 0 {
        match st.declaration {
            1 => out.push_str("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n"),
            2 => out.push_str("\u{feff}<?xml version='1.0'?>"),
            _ => (),
        }
    }
    if st.comments {
        out.push_str("<!-- <NODE Name=\"x\"> & -->");
    }
    out.push('<');
    out.push_str(&e.name);
    let n = e.attrs.len();
    for i in 0..n {
        let k = match st.order {
            0 => i,
            1 => n - 1 - i,
            r => (i + r - 1) % n,
        };
        let (name, v) = &e.attrs[k];
        let q = if st.single_quotes { '\'' } else { '"' };
        let v = escape(v, st);
        match st.space {
            2 => out.push_str(&format!("\n\t {name} = {q}{v}{q} ")),
            _ => out.push_str(&format!(" {name}={q}{v}{q}")),
        }
    }
    if e.kids.is_empty() {
        match st.empty {
            0 => out.push_str("/>"),
            1 => out.push_str(&format!("></{}>", e.name)),
            _ => out.push_str(&format!(">\n </{} >", e.name)),
        }
        return;
    }
    out.push('>');
    for k in &e.kids {
        nl(out, level + 1);
        render(k, st, level + 1, out);
    }
    if st.comments {
        out.push_str("<!-- end -->");
    }
    nl(out, level);
    out.push_str(&format!("</{}>", e.name));
    if level == 0 && st.space > 0 {
        out.push('\n');
    }
}

// ------------------------------------------------------------------------------------------

fn track(id: i32) -> Track {
    Track {
        trackid: id, name: None, artist: None, composer: None, album: None, grouping: None, genre: None, kind: None, size: None, totaltime: None,
        discnumber: None, tracknumber: None, year: None, averagebpm: None, datemodified: None, dateadded: None, bitrate: None, samplerate: None,
        comments: None, playcount: None, lastplayed: None, rating: None, location: String::new(), remixer: None, tonality: None, label: None,
        mix: None, colour: None, tempos: vec![], position_marks: vec![],
    }
}
fn full_track(id: i32) -> Track {
    let t = |x: &str| Some(format!("{x} {id}"));
    Track {
        trackid: id, name: t("name"), artist: t("artist"), composer: t("composer"), album: t("album"), grouping: t("grouping"), genre: t("genre"),
        kind: t("kind"), size: Some(1000 + id as i64), totaltime: Some(2.5 + id as f64), discnumber: Some(3 + id), tracknumber: Some(40 + id),
        year: Some(500 + id), averagebpm: Some(128.25 + id as f64), datemodified: t("modified"), dateadded: t("added"), bitrate: Some(6000 + id),
        samplerate: Some(44100.5 + id as f64), comments: t("comments"), playcount: Some(70 + id), lastplayed: t("played"), rating: Some(51 * id),
        location: format!("file://localhost/{id}"), remixer: t("remixer"), tonality: t("tonality"), label: t("label"), mix: t("mix"),
        colour: t("0xFF007F"), tempos: vec![tempo(id)], position_marks: vec![mark(id)],
    }
}
fn tempo(k: i32) -> Tempo {
    Tempo { inizio: 0.025 + k as f64, bpm: 120.5 + k as f64, metro: format!("{k}/4"), battito: k }
}
fn mark(k: i32) -> PositionMark {
    PositionMark { name: format!("m{k}"), mark_type: k % 5, start: 1.5 * k as f64, end: if k % 2 == 0 { Some(7.25 + k as f64) } else { None }, num: k - 1 }
}
fn folder(name: &str, nodes: Vec<PlaylistGenericNode>) -> PlaylistFolderNode {
    PlaylistFolderNode { name: name.into(), nodes }
}
fn list(name: &str, keys: &[i32]) -> PlaylistGenericNode {
    PlaylistGenericNode::Playlist(PlaylistPlaylistNode { name: name.into(), keytype: "0".into(), tracks: keys.iter().map(|k| PlaylistTrack { key: *k }).collect() })
}
fn doc(tracks: Vec<Track>, nodes: Vec<PlaylistGenericNode>) -> Document {
    Document {
        version: "1.0.0".into(),
        product: Product { name: "rekordbox".into(), version: "5.8.6".into(), company: "Pioneer DJ".into() },
        collection: Collection { entries: tracks.len() as i32, track: tracks },
        playlists: Playlists { node: folder("ROOT", nodes) },
    }
}

/// Attributes as a sorted list; the value of an absent optional attribute may be written empty.
fn agree(got: &El, want: &El, root_node: bool, path: &str) -> Option<String> {
    let p = format!("{path}/{}", want.name);
    if got.name != want.name {
        return Some(format!("{p}: element {} instead of {}", got.name, want.name));
    }
    for (k, v) in &want.attrs {
        match got.attrs.iter().find(|a| a.0 == *k) {
            Some(a) if a.1 == *v => (),
            Some(a) if a.1.parse::<f64>().is_ok_and(|x| v.parse::<f64>().is_ok_and(|y| x == y)) => (),
            // the kind of the topmost folder is implied
            None if root_node && k == "Type" => (),
            x => return Some(format!("{p}: attribute {k} is {x:?}, expected {v:?}")),
        }
    }
    for (k, v) in &got.attrs {
        if !v.is_empty() && !want.attrs.iter().any(|a| a.0 == *k) {
            return Some(format!("{p}: unexpected attribute {k}={v:?}"));
        }
    }
    if got.kids.len() != want.kids.len() {
        return Some(format!("{p}: {} child elements instead of {}", got.kids.len(), want.kids.len()));
    }
    got.kids.iter().zip(&want.kids).find_map(|(g, w)| agree(g, w, want.name == "PLAYLISTS", &p))
}

fn diff(a: &Document, b: &Document) -> String {
    let (x, y) = (format!("{a:#?}"), format!("{b:#?}"));
    match x.lines().zip(y.lines()).find(|(p, q)| p != q) {
        Some((p, q)) => truncate(&format!("{} / {}", p.trim(), q.trim()), 300),
        None => format!("{} / {} lines", x.lines().count(), y.lines().count()),
    }
}

/// The document with white space in texts replaced as XML readers do.
fn normalised(d: &Document) -> Document {
    fn t(s: &mut String) {
        *s = s.replace("\r\n", " ").replace(['\t', '\n', '\r'], " ");
    }
    fn f(n: &mut PlaylistFolderNode) {
        t(&mut n.name);
        for k in &mut n.nodes {
            match k {
                PlaylistGenericNode::Folder(x) => f(x),
                PlaylistGenericNode::Playlist(x) => {
                    t(&mut x.name);
                    t(&mut x.keytype);
                }
            }
        }
    }
    let mut d = d.clone();
    for x in [&mut d.version, &mut d.product.name, &mut d.product.version, &mut d.product.company] {
        t(x);
    }
    for k in &mut d.collection.track {
        t(&mut k.location);
        for x in [
            &mut k.name, &mut k.artist, &mut k.composer, &mut k.album, &mut k.grouping, &mut k.genre, &mut k.kind, &mut k.datemodified,
            &mut k.dateadded, &mut k.comments, &mut k.lastplayed, &mut k.remixer, &mut k.tonality, &mut k.label, &mut k.mix, &mut k.colour,
        ] {
            x.iter_mut().for_each(t);
        }
        k.tempos.iter_mut().for_each(|x| t(&mut x.metro));
        k.position_marks.iter_mut().for_each(|x| t(&mut x.name));
    }
    f(&mut d.playlists.node);
    d
}

fn round(rec: &mut Rec, d: &Document, what: &dyn Fn() -> String) -> bool {
    rec.count("evaluations", 1);
    let text = match guard(|| quick_xml::se::to_string(d)) {
        Ok(Ok(t)) => t,
        Ok(Err(e)) => {
            rec.fail("serialize", format!("{}: {e}", what()));
            return false;
        }
        Err(p) => {
            rec.fail("panic", format!("{}: {p}", what()));
            return false;
        }
    };
    rec.distinct(text.as_bytes());
    match parse_with(&text, false) {
        None => {
            rec.fail("malformed", format!("{}: the written text is not well-formed: {}", what(), truncate(&text, 300)));
            return false;
        }
        Some(e) => {
            if let Some(x) = agree(&e, &doc_el(d), false, "") {
                rec.fail("written", format!("{}: {x}", what()));
                return false;
            }
        }
    }
    let back = match guard(|| quick_xml::de::from_str::<Document>(&text)) {
        Ok(Ok(b)) => b,
        Ok(Err(e)) => {
            rec.fail("deserialize", format!("{}: {e}; {}", what(), truncate(&text, 300)));
            return false;
        }
        Err(p) => {
            rec.fail("panic", format!("{}: {p}", what()));
            return false;
        }
    };
    let n = normalised(d);
    if back != *d && n != *d && back == n {
        rec.fail("whitespace", format!("{}: a tab, line feed or carriage return in a text is read back as a blank", what()));
        return true;
    }
    if back != *d {
        rec.fail("differs", format!("{}: original / read back: {}", what(), diff(d, &back)));
        return false;
    }
    match quick_xml::se::to_string(&back) {
        Ok(t) if t == text => {
            rec.outcome("round trip");
            true
        }
        _ => {
            rec.fail("second", format!("{}: written differently the second time", what()));
            false
        }
    }
}

/// Setters of every text field: (name, setter on (document with one full track, one tempo, ...)).
const TEXTS: usize = 29;
fn set_text(d: &mut Document, k: usize, v: &str) -> &'static str {
    let t = &mut d.collection.track[0];
    let v = v.to_string();
    macro_rules! pick {
        ($($i:literal $n:literal $e:expr;)*) => { match k { $($i => { $e; $n })* _ => panic!() } };
    }
    fn node(d: &mut Document, path: &[usize]) -> *mut PlaylistGenericNode {
        let mut f = &mut d.playlists.node;
        for p in &path[..path.len() - 1] {
            f = match &mut f.nodes[*p] {
                PlaylistGenericNode::Folder(f) => f,
                _ => panic!(),
            };
        }
        &mut f.nodes[path[path.len() - 1]]
    }
    let _ = node;
    pick! {
        0 "version" d.version = v;
        1 "product name" d.product.name = v;
        2 "product version" d.product.version = v;
        3 "company" d.product.company = v;
        4 "name" t.name = Some(v);
        5 "artist" t.artist = Some(v);
        6 "composer" t.composer = Some(v);
        7 "album" t.album = Some(v);
        8 "grouping" t.grouping = Some(v);
        9 "genre" t.genre = Some(v);
        10 "kind" t.kind = Some(v);
        11 "datemodified" t.datemodified = Some(v);
        12 "dateadded" t.dateadded = Some(v);
        13 "comments" t.comments = Some(v);
        14 "lastplayed" t.lastplayed = Some(v);
        15 "location" t.location = v;
        16 "remixer" t.remixer = Some(v);
        17 "tonality" t.tonality = Some(v);
        18 "label" t.label = Some(v);
        19 "mix" t.mix = Some(v);
        20 "colour" t.colour = Some(v);
        21 "metro" t.tempos[0].metro = v;
        22 "mark name" t.position_marks[0].name = v;
        23 "root name" d.playlists.node.name = v;
        24 "folder name" if let PlaylistGenericNode::Folder(f) = &mut d.playlists.node.nodes[0] { f.name = v };
        25 "playlist name" if let PlaylistGenericNode::Playlist(f) = &mut d.playlists.node.nodes[1] { f.name = v };
        26 "key type" if let PlaylistGenericNode::Playlist(f) = &mut d.playlists.node.nodes[1] { f.keytype = v };
        27 "empty folder name" if let PlaylistGenericNode::Folder(f) = &mut d.playlists.node.nodes[2] { f.name = v };
        28 "empty playlist name" if let PlaylistGenericNode::Playlist(f) = &mut d.playlists.node.nodes[3] { f.name = v };
    }
}
/// Setters of every number field, with the element and the attribute it is found in.
const INTS: usize = 14;
fn set_int(d: &mut Document, k: usize, v: i64) -> (&'static str, &'static str) {
    let w = v as i32;
    let t = &mut d.collection.track[0];
    macro_rules! pick {
        ($($i:literal $el:literal $n:literal $e:expr;)*) => { match k { $($i => { $e; ($el, $n) })* _ => panic!() } };
    }
    pick! {
        0 "COLLECTION" "Entries" d.collection.entries = w;
        1 "TRACK" "TrackID" t.trackid = w;
        2 "TRACK" "Size" t.size = Some(v);
        3 "TRACK" "DiscNumber" t.discnumber = Some(w);
        4 "TRACK" "TrackNumber" t.tracknumber = Some(w);
        5 "TRACK" "Year" t.year = Some(w);
        6 "TRACK" "BitRate" t.bitrate = Some(w);
        7 "TRACK" "PlayCount" t.playcount = Some(w);
        8 "TRACK" "Rating" t.rating = Some(w);
        9 "TEMPO" "Battito" t.tempos[0].battito = w;
        10 "POSITION_MARK" "Type" t.position_marks[0].mark_type = w;
        11 "POSITION_MARK" "Num" t.position_marks[0].num = w;
        12 "NODE/TRACK" "Key" if let PlaylistGenericNode::Playlist(p) = &mut d.playlists.node.nodes[1] { p.tracks[0].key = w };
        13 "NODE/TRACK" "Key" if let PlaylistGenericNode::Playlist(p) = &mut d.playlists.node.nodes[1] { p.tracks.iter_mut().for_each(|t| t.key = w) };
    }
}
const FLOATS: usize = 7;
fn set_float(d: &mut Document, k: usize, v: f64) -> (&'static str, &'static str) {
    let t = &mut d.collection.track[0];
    macro_rules! pick {
        ($($i:literal $el:literal $n:literal $e:expr;)*) => { match k { $($i => { $e; ($el, $n) })* _ => panic!() } };
    }
    pick! {
        0 "TRACK" "TotalTime" t.totaltime = Some(v);
        1 "TRACK" "AverageBpm" t.averagebpm = Some(v);
        2 "TRACK" "SampleRate" t.samplerate = Some(v);
        3 "TEMPO" "Inizio" t.tempos[0].inizio = v;
        4 "TEMPO" "Bpm" t.tempos[0].bpm = v;
        5 "POSITION_MARK" "Start" t.position_marks[0].start = v;
        6 "POSITION_MARK" "End" t.position_marks[0].end = Some(v);
    }
}
fn base_doc() -> Document {
    doc(
        vec![full_track(1)],
        vec![
            PlaylistGenericNode::Folder(folder("f", vec![list("inner", &[1])])),
            list("p", &[1, 2]),
            PlaylistGenericNode::Folder(folder("g", vec![])),
            list("q", &[]),
        ],
    )
}
/// Clears the k-th optional attribute.
const OPTS: usize = 27;
fn clear(t: &mut Track, k: usize) -> &'static str {
    macro_rules! pick { ($($i:literal $f:ident;)*) => { match k { $($i => { t.$f = None; stringify!($f) })* _ => panic!() } }; }
    pick! {
        0 name; 1 artist; 2 composer; 3 album; 4 grouping; 5 genre; 6 kind; 7 size; 8 totaltime; 9 discnumber; 10 tracknumber; 11 year;
        12 averagebpm; 13 datemodified; 14 dateadded; 15 bitrate; 16 samplerate; 17 comments; 18 playcount; 19 lastplayed; 20 rating;
        21 remixer; 22 tonality; 23 label; 24 mix; 25 colour;
        26 name;
    }
}

/// Whether XML 1.0 can represent the character at all.
fn xml_char(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\r' | ' '..='\u{d7ff}' | '\u{e000}'..='\u{fffd}' | '\u{10000}'..)
}

/// All ordered forests with n nodes, leaves being empty folders, or playlists of 0..=1 entries.
fn forests(n: usize, name: &mut u32) -> Vec<Vec<PlaylistGenericNode>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for first in 1..=n {
        // the first tree has `first` nodes
        let rest = forests(n - first, name);
        let mut firsts: Vec<PlaylistGenericNode> = forests(first - 1, name).into_iter().map(|c| PlaylistGenericNode::Folder(folder("f", c))).collect();
        if first == 1 {
            firsts.push(list("e", &[]));
            firsts.push(list("l", &[7, -1]));
        }
        for f in &firsts {
            for r in &rest {
                let mut v = vec![f.clone()];
                v.extend(r.iter().cloned());
                out.push(v);
            }
        }
    }
    out
}

pub fn c17(ctx: &mut Ctx) {
    ctx.level = "exploration";
    ctx.rule = "evaluations = document values serialized, the text compared with an independent rendering (elements, attributes, counts), deserialized, compared, serialized again; distinct = distinct texts".into();
    ctx.assume("texts consist of characters that XML 1.0 can represent; numbers are finite");
    // texts
    let alpha: Vec<&str> = vec!["", "a", " ", "\t", "\n", "\r", "\r\n", "<", ">", "&", "\"", "'", "]]>", "&amp;", "&#10;", "<!--", "é", "😀", "\u{85}", "\u{2028}", "\u{feff}", "\u{fffd}", "%20", "/", "=", "0", "-1", "true", "@"];
    ctx.bound(format!("{TEXTS} text fields x every sequence of up to {} of {} hostile pieces; every XML character alone and in the middle of a name", ctx.pick(2, 3), alpha.len()));
    let n = alpha.len() as u64;
    let ar = &alpha;
    let deep = !ctx.quick();
    ctx.par("texts", TEXTS as u64 * n, |i, rec| {
        let (k, a) = ((i % TEXTS as u64) as usize, (i / TEXTS as u64) as usize);
        for b in ar.iter() {
            for c in ar.iter().take(if deep { ar.len() } else { 1 }) {
                let v = format!("{}{b}{c}", ar[a]);
                let mut d = base_doc();
                let name = set_text(&mut d, k, &v);
                if !round(rec, &d, &|| format!("{name} = {v:?}")) && rec.full() {
                    return;
                }
            }
        }
    });
    ctx.par("characters", 0x110, |i, rec| {
        let mut tracks = vec![];
        let mut nodes = vec![];
        for c in (i as u32 * 0x1000..(i as u32 + 1) * 0x1000).filter_map(char::from_u32).filter(|c| xml_char(*c)) {
            let mut t = track(c as i32);
            t.name = Some(c.to_string());
            t.artist = Some(format!("x{c}y"));
            tracks.push(t);
            nodes.push(list(&c.to_string(), &[]));
        }
        if tracks.is_empty() {
            return;
        }
        round(rec, &doc(tracks, nodes), &|| format!("characters {:#x}..", i * 0x1000));
    });
    // optional attributes
    ctx.bound("every optional attribute alone present, alone absent, and every pair absent; every attribute with an empty text");
    ctx.par("optional", OPTS as u64 * OPTS as u64, |i, rec| {
        let (a, b) = ((i % OPTS as u64) as usize, (i / OPTS as u64) as usize);
        let mut d = base_doc();
        let x = clear(&mut d.collection.track[0], a);
        let y = clear(&mut d.collection.track[0], b);
        round(rec, &d, &|| format!("{x} and {y} absent"));
        // only these two present
        let mut d = base_doc();
        for k in 0..OPTS {
            if k != a && k != b {
                clear(&mut d.collection.track[0], k);
            }
        }
        round(rec, &d, &|| format!("only {x} and {y} present"));
        for (tempos, marks) in [(0, 0), (0, 1), (1, 0), (2, 2)] {
            let mut t = track(1);
            t.tempos = (0..tempos).map(tempo).collect();
            t.position_marks = (0..marks).map(mark).collect();
            if a == b {
                round(rec, &doc(vec![t.clone(), t, full_track(3)], vec![]), &|| format!("{tempos} tempos, {marks} marks"));
            }
        }
    });
    // numbers
    let mut ints: Vec<i64> = vec![0, 1, -1, 10, -10, 51, 255];
    for k in 0..64 {
        for x in [1i64.checked_shl(k).unwrap_or(0), (1i64.checked_shl(k).unwrap_or(0)).wrapping_sub(1), (1i64.checked_shl(k).unwrap_or(0)).wrapping_neg()] {
            ints.push(x);
        }
    }
    let mut floats: Vec<f64> = vec![0.0, -0.0, 0.1, 0.2, 0.1 + 0.2, 1.0 / 3.0, 128.0, 127.99, 174.005, 1e21, 1e-7, 123456789.123456789, f64::MAX, f64::MIN, f64::MIN_POSITIVE, f64::EPSILON, 5e-324];
    for e in (-1074..1024).step_by(7) {
        floats.push(2f64.powi(e));
        floats.push(-2f64.powi(e) * 1.1);
        floats.push(10f64.powi(e / 4));
    }
    for k in 0..2000 {
        floats.push(k as f64 / 1000.0);
        floats.push(60.0 + k as f64 / 100.0);
    }
    ctx.bound(format!("every number field with {} integers (all powers of two and neighbours) and {} floating point values", ints.len(), floats.len()));
    let (ir, fr) = (&ints, &floats);
    ctx.par("integers", ints.len() as u64, |i, rec| {
        let v = ir[i as usize];
        let w = v as i32;
        for k in 0..INTS {
            let mut d = base_doc();
            set_int(&mut d, k, v);
            if k == 10 {
                d.collection.track[0].position_marks[0].num = w.wrapping_add(1);
            }
            round(rec, &d, &|| format!("integer field {k} = {v}"));
        }
    });
    ctx.par("floats", floats.len() as u64, |i, rec| {
        let v = fr[i as usize];
        let mut d = base_doc();
        let t = &mut d.collection.track[0];
        t.totaltime = Some(v);
        t.averagebpm = Some(-v);
        t.samplerate = Some(v * 1.5).filter(|x| x.is_finite());
        t.tempos[0].inizio = v;
        t.tempos[0].bpm = -v;
        t.position_marks[0].start = v;
        t.position_marks[0].end = Some(-v);
        round(rec, &d, &|| format!("number {v:e}"));
    });
    // trees
    let max = ctx.pick(5usize, 7);
    ctx.bound(format!("every playlist tree of up to {max} nodes (folders, empty folders, playlists, empty playlists), folder chains up to 100 deep, up to 3000 tracks, tempos, marks and entries"));
    for k in 0..=max {
        let fs = forests(k, &mut 0);
        let fr = &fs;
        let chunk = 64;
        ctx.par(&format!("trees of {k}"), (fs.len() as u64).div_ceil(chunk), |c, rec| {
            for i in c * chunk..((c + 1) * chunk).min(fr.len() as u64) {
                if !round(rec, &doc(vec![], fr[i as usize].clone()), &|| format!("tree {:?}", fr[i as usize])) && rec.full() {
                    return;
                }
            }
        });
    }
    ctx.par("sizes", 100, |i, rec| {
        let mut n = list("leaf", &[1]);
        for k in 0..i {
            n = PlaylistGenericNode::Folder(folder(&format!("level {k}"), vec![n, list("side", &[])]));
        }
        round(rec, &doc(vec![], vec![n]), &|| format!("depth {i}"));
        let k = [0, 1, 2, 3, 10, 255, 256, 1000, 3000][i as usize % 9];
        let mut t = full_track(1);
        t.tempos = (0..k).map(tempo).collect();
        t.position_marks = (0..k / 2).map(mark).collect();
        let keys: Vec<i32> = (0..k).collect();
        round(rec, &doc((0..k).map(track).chain([t]).collect(), vec![list("l", &keys)]), &|| format!("{k} of each"));
    });
    let many = [32_767, 32_768, 65_535, 65_536, 70_000];
    ctx.bound(format!("{many:?} tracks, entries of one playlist, playlists of one folder, tempos and marks of one track"));
    ctx.par("many", many.len() as u64 * 5, |i, rec| {
        let k = many[i as usize / 5];
        let mut t = full_track(1);
        let d = match i % 5 {
            0 => doc((0..k).map(track).collect(), vec![]),
            1 => doc(vec![], vec![list("l", &(0..k).collect::<Vec<_>>())]),
            2 => doc(vec![], vec![PlaylistGenericNode::Folder(folder("f", (0..k).map(|j| list(&format!("l{j}"), &[])).collect()))]),
            3 => {
                t.tempos = (0..k).map(tempo).collect();
                doc(vec![t], vec![])
            }
            _ => {
                t.position_marks = (0..k).map(mark).collect();
                doc(vec![t], vec![])
            }
        };
        round(rec, &d, &|| format!("{k} of kind {}", i % 5));
    });
}

pub fn parse(rec: &mut Rec, text: &str) -> Option<std::result::Result<Document, String>> {
    rec.count("evaluations", 1);
    match guard(|| (quick_xml::de::from_str::<Document>(text), quick_xml::de::from_reader::<_, Document>(text.as_bytes()))) {
        Ok((a, b)) => {
            let (a, b) = (a.map_err(|e| e.to_string()), b.map_err(|e| e.to_string()));
            if a.is_ok() != b.is_ok() || (a.is_ok() && a != b) {
                rec.fail("reader", format!("reading from text and from a stream differ: {:?} / {:?}: {}", a.is_ok(), b.is_ok(), truncate(text, 300)));
                return None;
            }
            Some(a)
        }
        Err(p) => {
            rec.fail("panic", format!("{p}: {}", truncate(text, 300)));
            None
        }
    }
}

fn understood(rec: &mut Rec, text: &str, want: &Document, what: &dyn Fn() -> String) -> bool {
    match parse(rec, text) {
        None => false,
        Some(Ok(d)) if d == *want => {
            rec.outcome("understood");
            true
        }
        Some(Ok(d)) => {
            rec.fail("differs", format!("{}: expected / got: {}", what(), diff(want, &d)));
            false
        }
        Some(Err(e)) => {
            rec.fail("refused", format!("{}: {e}: {}", what(), truncate(text, 400)));
            false
        }
    }
}

fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in permutations(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out
}
fn permuted(e: &El, p: &[usize]) -> El {
    El { name: e.name.clone(), attrs: p.iter().map(|i| e.attrs[*i].clone()).collect(), kids: e.kids.clone() }
}
fn text_of(e: &El, st: Style) -> String {
    let mut t = String::new();
    render(e, st, 0, &mut t);
    t
}
fn at<'a>(e: &'a mut El, path: &[usize]) -> &'a mut El {
    path.iter().fold(e, |e, i| &mut e.kids[*i])
}

pub fn c18(ctx: &mut Ctx) {
    ctx.level = "exploration";
    ctx.rule = "evaluations = XML texts parsed (from text and from a stream) and compared with the document they state; distinct = distinct texts".into();
    ctx.assume("child elements of the same name are contiguous (as rekordbox writes them); unknown attributes and elements are out of scope");
    let mut rich = base_doc();
    rich.collection.track[0].tempos.push(tempo(2));
    rich.collection.track[0].position_marks.push(mark(2));
    rich.collection.track.push(track(5));
    rich.collection.track[1].location = "x".into();
    rich.collection.track[0].name = Some("A & B <\"'> é😀 \t\n|".into());
    rich.playlists.node.name = "R&B".into();
    if let PlaylistGenericNode::Playlist(p) = &mut rich.playlists.node.nodes[1] {
        p.name = "x < 'y' & \"z\"".into();
        p.keytype = "0".into();
    }
    let docs = [doc(vec![], vec![]), base_doc(), rich, doc(vec![track(1)], vec![list("", &[])]), doc(vec![full_track(1), full_track(2)], vec![PlaylistGenericNode::Folder(folder("", vec![]))])];
    let dr = &docs;
    ctx.bound("5 documents x every combination of entity style, quotes, empty-element notation, white space, XML declaration, comments and 32 attribute orders");
    ctx.par("styles", 5 * 4 * 2 * 3 * 3 * 3 * 2, |i, rec| {
        let mut x = i;
        let mut dig = |n: u64| {
            let d = x % n;
            x /= n;
            d as u8
        };
        let d = &dr[dig(5) as usize];
        let st = Style { entities: dig(4), single_quotes: dig(2) == 1, empty: dig(3), space: dig(3), declaration: dig(3), comments: dig(2) == 1, order: 0 };
        let e = doc_el(d);
        for order in 0..32 {
            let st = Style { order, ..st };
            let t = text_of(&e, st);
            rec.distinct(t.as_bytes());
            if parse_xml(t.trim_start_matches('\u{feff}')).as_ref().map(|p| agree(p, &e, false, "")) != Some(None) {
                rec.fail("oracle", format!("the reference reader does not understand {st:?}"));
                return;
            }
            if !understood(rec, &t, d, &|| format!("{st:?}")) && rec.full() {
                return;
            }
        }
        rec.sample(|| format!("{st:?}"));
    });
    // attribute orders of every kind of element
    ctx.bound("every permutation of the attributes of PRODUCT, TEMPO, POSITION_MARK, folder and playlist NODE; every exchange of two TRACK attributes; every permutation of the sections");
    let d = &docs[2];
    let targets: Vec<(Vec<usize>, usize)> = vec![(vec![0], 3), (vec![1, 0, 0], 4), (vec![1, 0, 3], 5), (vec![1, 0, 2], 4), (vec![2, 0], 3), (vec![2, 0, 0], 3), (vec![2, 0, 1], 4), (vec![2, 0, 2], 3), (vec![2, 0, 3], 4), (vec![2, 0, 0, 0], 4)];
    let tr = &targets;
    ctx.par("permutations", targets.len() as u64, |i, rec| {
        let (path, _) = &tr[i as usize];
        let mut e = doc_el(d);
        let orig = at(&mut e, path).clone();
        for p in permutations(orig.attrs.len()) {
            *at(&mut e, path) = permuted(&orig, &p);
            for empty in 0..3 {
                let t = text_of(&e, Style { empty, ..Style::default() });
                rec.distinct(t.as_bytes());
                understood(rec, &t, d, &|| format!("attributes of {} ordered {p:?}", orig.name));
            }
        }
    });
    ctx.par("track attributes", 28, |a, rec| {
        let mut e = doc_el(d);
        let orig = at(&mut e, &[1, 0]).clone();
        for b in 0..orig.attrs.len() {
            let a = a as usize;
            if a >= orig.attrs.len() {
                continue;
            }
            let mut x = orig.clone();
            x.attrs.swap(a, b);
            *at(&mut e, &[1, 0]) = x;
            let t = text_of(&e, Style::default());
            rec.distinct(t.as_bytes());
            understood(rec, &t, d, &|| format!("track attributes {a} and {b} exchanged"));
        }
        // each optional attribute removed, set to a text of its own
        if (a as usize) < orig.attrs.len() {
            let mut x = orig.clone();
            let (name, _) = x.attrs.remove(a as usize);
            *at(&mut e, &[1, 0]) = x;
            let t = text_of(&e, Style::default());
            let required = name == "TrackID" || name == "Location";
            match parse(rec, &t) {
                Some(Ok(got)) if !required => {
                    let mut w = doc_el(d);
                    at(&mut w, &[1, 0]).attrs.remove(a as usize);
                    if doc_el(&got) != w {
                        rec.fail("absent", format!("without {name}: {}", diff(d, &got)));
                    }
                }
                Some(Err(_)) if required => rec.outcome("refused"),
                r => rec.fail("absent", format!("without {name}: {r:?}")),
            }
        }
    });
    ctx.par("sections", 6, |i, rec| {
        let p = &permutations(3)[i as usize];
        for d in dr {
            let mut e = doc_el(d);
            e.kids = p.iter().map(|k| e.kids[*k].clone()).collect();
            for mark_first in [false, true] {
                if mark_first {
                    for k in e.kids.iter_mut().filter(|k| k.name == "COLLECTION") {
                        for t in &mut k.kids {
                            t.kids.sort_by(|a, b| a.name.cmp(&b.name));
                        }
                    }
                }
                let t = text_of(&e, Style::default());
                rec.distinct(t.as_bytes());
                understood(rec, &t, d, &|| format!("sections ordered {p:?}, marks first: {mark_first}"));
            }
        }
    });
    // the text and number fields one by one
    let texts: Vec<&str> = vec!["", " ", "a ", " a", "  a  b  ", "é😀", "\u{3000}", "\u{a0}x", "\t", "\n", "\r", "<>", "&amp;", "&", "\"'", "0", "-1", "007", "1.50", "true", "a/b", "@x", "$text", "\u{85}"];
    ctx.bound(format!("{TEXTS} text fields x {} texts (surrounding, only and no white space, markup, numbers, ...) x every entity and quoting style; raw line ends and tabs in texts read as blanks", texts.len()));
    let xr = &texts;
    ctx.par("text fields", TEXTS as u64, |k, rec| {
        for v in xr.iter() {
            let mut d = base_doc();
            let name = set_text(&mut d, k as usize, v);
            for i in 0..8 {
                let st = Style { entities: i % 4, single_quotes: i >= 4, ..Style::default() };
                let t = text_of(&doc_el(&d), st);
                rec.distinct(t.as_bytes());
                understood(rec, &t, &d, &|| format!("{name} = {v:?}, {st:?}"));
            }
        }
        for (raw, v) in [("a\nb", "a b"), ("a\tb", "a b"), ("\nb\n", " b "), ("a\r\nb", "a b"), ("a\rb", "a b"), ("a\n\nb", "a  b")] {
            let mut d = base_doc();
            set_text(&mut d, k as usize, "QQQ");
            let t = text_of(&doc_el(&d), Style::default()).replace("QQQ", raw);
            rec.distinct(t.as_bytes());
            let name = set_text(&mut d, k as usize, v);
            understood(rec, &t, &d, &|| format!("{name} = {raw:?} (raw)"));
        }
    });
    let ints: [(&str, i64); 8] = [("0", 0), ("1", 1), ("-1", -1), ("10", 10), ("0007", 7), ("255", 255), ("2147483647", i64::from(i32::MAX)), ("-2147483648", i64::from(i32::MIN))];
    let floats: [(&str, f64); 12] = [("0", 0.0), ("0.000", 0.0), ("3", 3.0), ("3.0", 3.0), ("120.00", 120.0), ("-1.5", -1.5), ("0.025", 0.025), ("007.50", 7.5), ("99999.999", 99999.999), ("1234567890.125", 1234567890.125), ("44100", 44100.0), ("0.1234567890123", 0.1234567890123)];
    ctx.bound("every number field x 8 spellings of integers, 12 of decimal numbers");
    ctx.par("number fields", (INTS + FLOATS) as u64, |k, rec| {
        let k = k as usize;
        let mut one = |spelling: &str, set: &dyn Fn(&mut Document) -> (&'static str, &'static str)| {
            let mut d = base_doc();
            let (elem, attr) = set(&mut d);
            let mut e = doc_el(&d);
            fn spell(e: &mut El, parent: &str, elem: &str, attr: &str, spelling: &str, all: bool, done: &mut u32) {
                if e.name == elem || format!("{parent}/{}", e.name) == elem {
                    if let Some(a) = e.attrs.iter_mut().find(|a| a.0 == attr) {
                        if *done == 0 || all {
                            a.1 = spelling.to_string();
                            *done += 1;
                        }
                    }
                }
                let name = e.name.clone();
                for k in &mut e.kids {
                    spell(k, &name, elem, attr, spelling, all, done);
                }
            }
            // keys of the playlist set above; the first playlist has another one
            let top = if elem == "NODE/TRACK" { at(&mut e, &[2, 0, 1]) } else { &mut e };
            spell(top, "", elem, attr, spelling, k == 13, &mut 0);
            let t = text_of(&e, Style::default());
            rec.distinct(t.as_bytes());
            understood(rec, &t, &d, &|| format!("{elem} {attr} = {spelling:?}"));
        };
        if k < INTS {
            for (spelling, v) in ints {
                one(spelling, &|d| set_int(d, k, v));
            }
            if k == 2 {
                one("1099511627776", &|d| set_int(d, k, 1 << 40));
            }
        } else {
            for (spelling, v) in floats {
                one(spelling, &|d| set_float(d, k - INTS, v));
            }
        }
    });
    // playlist nodes with missing, unknown and contradicting attributes
    ctx.bound("playlist nodes with every subset of the five attributes in every order, type out of 7 values, with and without children");
    let subsets: Vec<Vec<usize>> = (0..32u32).flat_map(|m| {
        let idx: Vec<usize> = (0..5).filter(|i| m >> i & 1 == 1).collect();
        permutations(idx.len()).into_iter().map(move |p| p.iter().map(|i| idx[*i]).collect::<Vec<_>>())
    }).collect();
    let sr = &subsets;
    ctx.par("node attributes", subsets.len() as u64, |i, rec| {
        let names = ["Type", "Name", "Count", "KeyType", "Entries"];
        for ty in ["0", "1", "2", "", "00", "-1", "folder"] {
            for kids in 0..3usize {
                for empty in 0..2 {
                    let attrs: Vec<(String, String)> = sr[i as usize].iter().map(|k| (names[*k].to_string(), match k { 0 => ty.to_string(), 1 => "N & n".into(), 2 | 4 => kids.to_string(), _ => "0".into() })).collect();
                    let has = |n: &str| attrs.iter().any(|a| a.0 == n);
                    let mut want = docs[1].clone();
                    let w = if !has("Type") || !has("Name") {
                        None
                    } else if ty == "0" && has("Count") {
                        Some(PlaylistGenericNode::Folder(folder("N & n", (0..kids).map(|_| list("l", &[3])).collect())))
                    } else if ty == "1" && has("Entries") && has("KeyType") {
                        Some(list("N & n", &[4, 5][..kids]))
                    } else {
                        None
                    };
                    let children: Vec<El> = if ty == "1" { (0..kids).map(|k| el("TRACK", vec![("Key", s(&(4 + k)))], vec![])).collect() } else { (0..kids).map(|_| node_el(&list("l", &[3]))).collect() };
                    let mut e = doc_el(&docs[1]);
                    at(&mut e, &[2, 0]).kids.insert(1, El { name: "NODE".into(), attrs, kids: children });
                    let t = text_of(&e, Style { empty, ..Style::default() });
                    rec.distinct(t.as_bytes());
                    match w {
                        Some(n) => {
                            want.playlists.node.nodes.insert(1, n);
                            understood(rec, &t, &want, &|| format!("node attributes {:?}", sr[i as usize]));
                        }
                        None => match parse(rec, &t) {
                            Some(Err(_)) => rec.outcome("refused"),
                            Some(Ok(d)) => rec.fail("accepted", format!("node with attributes {:?}, type {ty:?} accepted as {:?}", sr[i as usize].iter().map(|k| names[*k]).collect::<Vec<_>>(), d.playlists.node.nodes.get(1))),
                            None => (),
                        },
                    }
                }
            }
        }
    });
    // playlists keyed by location
    ctx.one("location keys", |rec| {
        let mut e = doc_el(&docs[1]);
        let n = at(&mut e, &[2, 0, 1]);
        n.attrs.iter_mut().find(|a| a.0 == "KeyType").unwrap().1 = "1".into();
        n.kids[0].attrs[0].1 = "file://localhost/C:/Music/a.mp3".into();
        n.kids[1].attrs[0].1 = "file://localhost/C:/Music/b.mp3".into();
        let t = text_of(&e, Style::default());
        match parse(rec, &t) {
            Some(Ok(_)) => rec.outcome("understood"),
            Some(Err(e)) => rec.fail("location-key", format!("playlist with KeyType=\"1\" (entries given by location): {e}")),
            None => (),
        }
    });
    // the sample document against the reference reader
    ctx.one("sample", |rec| {
        if let Ok(t) = std::fs::read_to_string("/repo/data/xml/database.xml") {
            let e = parse_xml(&t);
            match (parse(rec, &t), e) {
                (Some(Ok(d)), Some(e)) => {
                    let mut w = doc_el(&d);
                    fn tidy(e: &mut El) {
                        e.attrs.retain(|a| !a.1.is_empty());
                        for a in &mut e.attrs {
                            if let Ok(x) = a.1.parse::<f64>() {
                                a.1 = x.to_string();
                            }
                        }
                        e.attrs.sort();
                        e.kids.iter_mut().for_each(tidy);
                    }
                    let mut e = e;
                    tidy(&mut e);
                    tidy(&mut w);
                    if e != w {
                        rec.fail("sample", "the sample document is read differently by the reference reader");
                    }
                }
                r => rec.fail("sample", format!("{:?}", r.0)),
            }
        }
    });
    // nesting
    let depths = [1u64, 10, 64, 100, 200, 500, 1000, 5000, 20_000, 100_000];
    ctx.bound(format!("folders nested {depths:?} deep, complete and cut off: understood or refused, never a crash"));
    ctx.par_opts("nesting", depths.len() as u64 * 2, Opts { case_timeout: 60.0, ..Opts::default() }, |i, rec| {
        let n = depths[(i / 2) as usize];
        let e = text_of(&doc_el(&doc(vec![], vec![])), Style { empty: 1, ..Style::default() });
        let (a, b) = e.split_at(e.find("</NODE>").unwrap());
        let mut t = a.to_string();
        for _ in 0..n {
            t.push_str("<NODE Type=\"0\" Name=\"n\" Count=\"1\">");
        }
        if i % 2 == 0 {
            t.push_str(&"</NODE>".repeat(n as usize));
            t.push_str(b);
        }
        match parse(rec, &t) {
            Some(Ok(d)) if i % 2 == 0 => {
                rec.outcome("deep document understood");
                let mut k = 0;
                let mut f = &d.playlists.node;
                while let Some(PlaylistGenericNode::Folder(g)) = f.nodes.first() {
                    f = g;
                    k += 1;
                }
                if k != n {
                    rec.fail("depth", format!("{n} nested folders are read as {k}"));
                }
            }
            Some(Err(_)) if i % 2 == 1 || n > 100 => rec.outcome("deep document refused"),
            Some(r) => rec.fail("depth", format!("{n} nested folders: {:?}", r.map(|_| ()))),
            None => (),
        }
    });
}
