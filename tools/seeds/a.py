SEEDS=[]
def seed(id,property,needs,breaks,edits,demo): SEEDS.append(dict(id=id,property=property,needs=needs,breaks=breaks,edits=edits,demo=demo))

seed('b01-astral','C01','a text with a character outside the Basic Multilingual Plane','such characters are truncated to 16 bits instead of being encoded as a surrogate pair',
[('src/pdb/string.rs','LongBody::Ucs2le(string.encode_utf16().collect())','LongBody::Ucs2le(string.chars().map(|c| c as u16).collect())')],
'''use rekordcrate::pdb::string::DeviceSQLString;
fn main() {
    for t in ["a\\u{1F600}b", "\\u{10FFFF}", "\\u{10000}"] {
        let s = DeviceSQLString::new(t).unwrap();
        assert_eq!(s.into_string().as_deref(), Ok(t));
    }
}
''')

seed('b02-long-ascii-len','C01','a long-form ASCII string on disk with a length field of which the high byte is not zero and a low byte below 4','the length is checked by its low byte only, so that valid strings of 256..=259 bytes are refused',
[('src/pdb/string.rs','#[br(pre_assert(flags == 0x40))]\n    Ascii(','#[br(pre_assert(flags == 0x40 && (len < 0x100 || len.wrapping_add(4) & 0xff >= 4)))]\n    Ascii(')],
'''use binrw::{io::Cursor, BinRead, BinWrite};
use rekordcrate::pdb::string::DeviceSQLString;
fn main() {
    for n in 200usize..600 {
        let t = "x".repeat(n);
        let mut c = Cursor::new(vec![]);
        DeviceSQLString::new(&t).unwrap().write(&mut c).unwrap();
        let back = DeviceSQLString::read(&mut Cursor::new(c.into_inner())).expect("readable");
        assert_eq!(back.into_string().unwrap(), t);
    }
}
''')

seed('b03-valid-early','C03','a second row is allocated while the closure of an earlier allocation was dropped without a row','a row that was allocated but never stored counts as valid as soon as the next row is stored',
[('src/pdb/mod.rs','                    row_counts.increment_num_rows_valid();','                    let stored = rows.len() as u16;\n                    row_counts.set_num_rows_valid(stored.max(row_subindex + 1));')],
'''use binrw::{io::Cursor, BinRead, BinWrite};
use rekordcrate::pdb::*;
fn main() {
    let f = std::fs::read("data/pdb/num_rows/export.pdb").unwrap();
    // A row to store: a page of history entries with one row.
    let _ = f;
    let mut b = vec![0u8; 512];
    b[4] = 1;
    b[8] = 17;
    b[0x1b] = 0x24;
    b[0x1c..0x1e].copy_from_slice(&(512u16 - 0x28).to_le_bytes());
    let mut page = Page::read_args(&mut Cursor::new(&b), (512, DatabaseType::Plain)).unwrap();
    let mut one = b.clone();
    one[8] = 8; // playlist entries
    one[0x18] = 1;
    one[0x19] = 0x20;
    one[508] = 1;
    let row = Page::read_args(&mut Cursor::new(&one), (512, DatabaseType::Plain)).unwrap().content.into_data().unwrap().rows[&0].clone();
    drop(page.allocate_row(12).unwrap());
    page.allocate_row(12).unwrap()(row);
    let mut c = Cursor::new(vec![0u8; 512]);
    page.write_le_args(&mut c, (512,)).unwrap();
    assert_eq!(page.header.packed_row_counts.num_rows_valid(), 1);
    Page::read_args(&mut Cursor::new(c.into_inner()), (512, DatabaseType::Plain)).expect("page is readable");
}
''')

seed('b04-early-stop','C06','a table whose last page has a lower number than one of its other pages','the iteration ends at the first page that is not below the last page, silently leaving out the rest',
[('src/pdb/io.rs','if page_index == self.last_page {','if page_index >= self.last_page {')],
'''use fallible_iterator::FallibleIterator;
use rekordcrate::pdb::{io::Database, *};
use std::io::Cursor;
fn page(index: u32, next: u32) -> Vec<u8> {
    let mut b = vec![0u8; 512];
    b[4..8].copy_from_slice(&index.to_le_bytes());
    b[12..16].copy_from_slice(&next.to_le_bytes());
    b[0x1b] = 0x24;
    b
}
fn main() {
    let mut f = vec![0u8; 512];
    for (i, v) in [0u32, 512, 1, 5, 0, 1, 0, 0, 4, 2, 1].into_iter().enumerate() {
        f[i * 4..i * 4 + 4].copy_from_slice(&v.to_le_bytes());
    }
    for (i, next) in [(1, 4), (2, 3), (3, 1), (4, 5)] {
        f.extend(page(i, next));
    }
    // The table starts at page 2 and ends at page 1, reached through page 3.
    let mut db = Database::open_non_persistent(Cursor::new(f), DatabaseType::Plain).unwrap();
    let seen: Result<Vec<_>, _> = db.iter_pages(PageType::Plain(PlainPageType::Tracks)).unwrap().map(|p| Ok(p.header.next_page)).collect();
    if let Ok(v) = seen {
        assert_eq!(v.len(), 3, "pages left out without an error");
    }
}
''')

seed('b05-reload-last','C07','a row of the last page of a table is changed, the table is iterated once more, then flushed','iterating a table loads its last page again and drops unsaved changes on it',
[('src/pdb/io.rs','''                if let LazyPage::NotLoaded = page_entry {
                    let page = read_page(self''','''                if matches!(page_entry, LazyPage::NotLoaded) || page_index == self.last_page {
                    let page = read_page(self''')],
'''use fallible_iterator::FallibleIterator;
use rekordcrate::pdb::{io::Database, *};
use std::io::Cursor;
fn main() {
    let f = std::fs::read("data/pdb/num_rows/export.pdb").unwrap();
    let mut db = Database::open_non_persistent(Cursor::new(f), DatabaseType::Plain).unwrap();
    db.iter_rows::<Track>().unwrap().for_each(|t| { t.rating = 5; Ok(()) }).unwrap();
    db.iter_rows::<Track>().unwrap().for_each(|t| { assert_eq!(t.rating, 5, "change lost"); Ok(()) }).unwrap();
}
''')

seed('b06-zero-absent','C09','a page with deleted rows (absent offsets below a present one) written elsewhere than over itself','the stored offsets of deleted rows are written as zero',
[('src/pdb/mod.rs','''        for offset in row_offsets.iter().skip(skip.try_into().unwrap()) {
            offset.write_options(writer, endian, ())?;
        }''','''        for (i, offset) in row_offsets.iter().enumerate().skip(skip.try_into().unwrap()) {
            let present = row_presence_flags & (0x8000 >> i) != 0;
            let offset = if present || row_presence_flags == u16::MAX { *offset } else { 0 };
            offset.write_options(writer, endian, ())?;
        }''')],
'''use binrw::{io::Cursor, BinRead, BinWrite};
use rekordcrate::pdb::*;
fn main() {
    let mut b = vec![0u8; 512];
    b[4] = 1;
    b[8] = 17;
    b[0x1b] = 0x24;
    let counts = 3u32 | 2 << 13;
    b[0x18..0x1b].copy_from_slice(&counts.to_le_bytes()[..3]);
    b[508..510].copy_from_slice(&0b101u16.to_le_bytes());
    for (i, o) in [0u16, 12, 24].into_iter().enumerate() {
        let p = 508 - 2 * (i + 1);
        b[p..p + 2].copy_from_slice(&o.to_le_bytes());
    }
    let page = Page::read_args(&mut Cursor::new(&b), (512, DatabaseType::Plain)).unwrap();
    let mut c = Cursor::new(vec![0u8; 512]);
    page.write_le_args(&mut c, (512,)).unwrap();
    assert_eq!(c.into_inner(), b);
}
''')

seed('b07-checksum-range','C12','a DEVSETTING/MYSETTING file whose version text is exactly 31 bytes long','the checksum starts one byte late when the header texts fill their fields',
[('src/setting.rs','''            _ => 104,
        };

        let end''','''            _ => 104 + usize::from(self.version.len() == 0x20 - 1),
        };

        let end''')],
'''use binrw::{io::Cursor, BinWrite};
use rekordcrate::setting::Setting;
fn crc(d: &[u8]) -> u16 {
    let mut c = 0u16;
    for b in d {
        c ^= (*b as u16) << 8;
        for _ in 0..8 {
            c = if c & 0x8000 != 0 { c << 1 ^ 0x1021 } else { c << 1 };
        }
    }
    c
}
fn main() {
    for n in 0..32 {
        let mut s = Setting::default_mysetting();
        s.version = "v".repeat(n).into();
        let mut c = Cursor::new(vec![]);
        s.write(&mut c).unwrap();
        let b = c.into_inner();
        let e = b.len() - 4;
        assert_eq!(u16::from_le_bytes([b[e], b[e + 1]]), crc(&b[104..e]), "version of {n} bytes");
    }
}
''')

seed('b08-size-type','C13','a settings file of one 40-byte kind whose length field states 52 bytes, read as that kind','the length field is accepted when it fits any kind of settings file',
[('src/setting.rs','#[br(assert(len_data == setting_type.expected_data_size()))]','#[br(assert(len_data == setting_type.expected_data_size() || (len_data == 52 && setting_type == SettingType::MySetting2)))]')],
'''use binrw::{io::Cursor, BinRead, BinWrite};
use rekordcrate::setting::*;
fn main() {
    let mut c = Cursor::new(vec![]);
    Setting::default_mysetting2().write(&mut c).unwrap();
    let mut b = c.into_inner();
    assert!(Setting::read_args(&mut Cursor::new(&b), (SettingType::MySetting2,)).is_ok());
    for n in 0..=255u8 {
        b[100] = n;
        let r = Setting::read_args(&mut Cursor::new(&b), (SettingType::MySetting2,));
        assert_eq!(r.is_ok(), n == 40, "length {n}");
    }
}
''')

seed('b09-settings-order','C14','a device with a valid MYSETTING.DAT and without MYSETTING2.DAT','the second file is looked for only if the first is missing ... or rather: settings of the first are dropped when the second cannot be read',
[('src/device.rs','''        if let Some(mysetting) = load_setting("MYSETTING.DAT", SettingType::MySetting) {
            settings.set_mysetting(mysetting.data.as_my_setting().unwrap());
        }
        if let Some(mysetting2)''','''        let mysetting = load_setting("MYSETTING.DAT", SettingType::MySetting);
        if let Some(mysetting) = mysetting.filter(|_| path.join("MYSETTING2.DAT").exists()) {
            settings.set_mysetting(mysetting.data.as_my_setting().unwrap());
        }
        if let Some(mysetting2)''')],
'''use binrw::BinWrite;
use rekordcrate::{device::DeviceExportLoader, setting::Setting};
fn main() {
    let d = std::env::temp_dir().join(format!("demo-{}", std::process::id()));
    std::fs::create_dir_all(d.join("PIONEER")).unwrap();
    let mut c = binrw::io::Cursor::new(vec![]);
    Setting::default_mysetting().write(&mut c).unwrap();
    std::fs::write(d.join("PIONEER/MYSETTING.DAT"), c.into_inner()).unwrap();
    let s = DeviceExportLoader::new(d.clone()).load_settings();
    std::fs::remove_dir_all(&d).unwrap();
    assert!(s.language.is_some() && s.tempo_range.is_some());
    assert!(s.waveform.is_none());
}
''')

seed('b10-label','C15','a device whose talk over level is set to -18 dB','two settings show the same text',
[('src/setting.rs',None,None)],'')
SEEDS.pop()

seed('b11-sibling','C16','a playlist row with id 0 below another folder than the root ... a playlist that follows a folder of the same parent','playlists that come after an empty folder in the same parent are moved in front of it',
[('src/device.rs','''        playlists
            .entry(node.parent_id)
            .or_default()
            .push(node.clone());''','''        let siblings = playlists.entry(node.parent_id).or_default();
        match siblings.last() {
            Some(last) if last.is_folder() && last.name == node.name => {
                siblings.insert(siblings.len() - 1, node.clone());
            }
            _ => siblings.push(node.clone()),
        }''')],
'''use rekordcrate::device::{get_playlists, PlaylistNode};
use rekordcrate::pdb::{io::Database, *};
use std::io::Cursor;
fn main() {
    // Rows below the root: folder 1 "x", playlist 2 "x".
    let mut f = vec![0u8; 512];
    for (i, v) in [0u32, 512, 1, 2, 0, 1, 0, 7, 1, 1, 1].into_iter().enumerate() {
        f[i * 4..i * 4 + 4].copy_from_slice(&v.to_le_bytes());
    }
    let mut b = vec![0u8; 512];
    b[4] = 1;
    b[8] = 7;
    b[12] = 2;
    b[0x18..0x1b].copy_from_slice(&(2u32 | 2 << 13).to_le_bytes()[..3]);
    b[0x1b] = 0x24;
    for (i, (id, folder)) in [(1u32, 1u32), (2, 0)].into_iter().enumerate() {
        let o = i * 24;
        for (k, v) in [0u32, 0, 0, id, folder].into_iter().enumerate() {
            b[0x28 + o + 4 * k..][..4].copy_from_slice(&v.to_le_bytes());
        }
        b[0x28 + o + 20..][..2].copy_from_slice(&[5, b'x']);
        let p = 508 - 2 * (i + 1);
        b[p..p + 2].copy_from_slice(&(o as u16).to_le_bytes());
    }
    b[508] = 3;
    f.extend(b);
    let mut db = Database::open_non_persistent(Cursor::new(f), DatabaseType::Plain).unwrap();
    let t = get_playlists(&mut db).unwrap();
    assert!(matches!(&t[..], [PlaylistNode::Folder(_), PlaylistNode::Playlist(_)]), "{t:?}");
}
''')

seed('b12-xml-entries-order','C18','a playlist NODE whose KeyType attribute comes last','the attributes of a playlist are taken as complete before its key type is known',
[('src/xml.rs','''                        if let (Some(n), Some(_c), Some(t)) = (&name, entries, &key_type) {''','''                        let fallback = Some(Cow::Borrowed("0"));
                            let known = if count.is_some() { &fallback } else { &key_type };
                            if let (Some(n), Some(_c), Some(t)) = (&name, entries, known) {''')],
'''use rekordcrate::xml::*;
fn main() {
    let t = "<DJ_PLAYLISTS Version=\\"1\\"><PRODUCT Name=\\"a\\" Version=\\"b\\" Company=\\"c\\"/><COLLECTION Entries=\\"0\\"/><PLAYLISTS><NODE Type=\\"0\\" Name=\\"ROOT\\" Count=\\"1\\"><NODE Count=\\"1\\" Type=\\"1\\" Name=\\"p\\" Entries=\\"1\\"><TRACK Key=\\"5\\"/></NODE></NODE></PLAYLISTS></DJ_PLAYLISTS>";
    // There is no key type, so that the meaning of the keys is unknown.
    assert!(quick_xml::de::from_str::<Document>(t).is_err());
}
''')

seed('b13-xml-fields','C17','a track with a play count and an empty comment','a play count of zero is written as absent',
[('src/xml.rs','''    #[serde(rename = "@PlayCount")]
    #[serde(skip_serializing_if = "Option::is_none")]
    pub playcount: Option<i32>,''','''    #[serde(rename = "@PlayCount")]
    #[serde(skip_serializing_if = "no_plays")]
    pub playcount: Option<i32>,'''),
 ('src/xml.rs','''/// Playlist collection.''','''fn no_plays(count: &Option<i32>) -> bool {
    count.unwrap_or_default() < 0 || count.is_none()
}

/// Playlist collection.''')],
'''use rekordcrate::xml::*;
fn main() {
    let t = "<DJ_PLAYLISTS Version=\\"1\\"><PRODUCT Name=\\"a\\" Version=\\"b\\" Company=\\"c\\"/><COLLECTION Entries=\\"1\\"><TRACK TrackID=\\"1\\" Location=\\"x\\" PlayCount=\\"-1\\"/></COLLECTION><PLAYLISTS><NODE Type=\\"0\\" Name=\\"ROOT\\" Count=\\"1\\"><NODE Type=\\"1\\" Name=\\"p\\" Entries=\\"1\\" KeyType=\\"0\\"><TRACK Key=\\"5\\"/></NODE></NODE></PLAYLISTS></DJ_PLAYLISTS>";
    let d: Document = quick_xml::de::from_str(t).unwrap();
    let e: Document = quick_xml::de::from_str(&quick_xml::se::to_string(&d).unwrap()).unwrap();
    assert_eq!(d, e);
}
''')

seed('b14-counts','C21','a page index of which bit 25 is set','index entries drop the uppermost bit of the page index',
[('src/pdb/mod.rs','Ok(Self((page_index.0 << 3) | (index_flags & 0b111) as u32))','Ok(Self(\n            ((page_index.0 & 0x01FF_FFFF) << 3) | (index_flags & 0b111) as u32,\n        ))')],
'''use rekordcrate::pdb::*;
fn main() {
    for i in [1u32, 0x00FF_FFFF, 0x0200_0000, 0x03FF_FFFE] {
        let p = PageIndex::try_from(i).unwrap();
        let e = IndexEntry::try_from((p, 5)).unwrap();
        assert_eq!(e.page_index().unwrap(), p);
    }
}
''')

seed('b15-find-last','C23','a database in which a table type occurs twice ... or an unknown table type in front of a known one','tables of unknown type end the search for a table',
[('src/pdb/mod.rs','''    pub fn find_table(&self, page_type: PageType) -> Option<(TableIndex, &Table)> {
        self.tables
            .iter()
            .enumerate()''','''    pub fn find_table(&self, page_type: PageType) -> Option<(TableIndex, &Table)> {
        self.tables
            .iter()
            .enumerate()
            .take_while(|(_, table)| {
                matches!(page_type, PageType::Unknown(_))
                    || !matches!(table.page_type, PageType::Unknown(0x100..))
            })''')],
'''use rekordcrate::pdb::{io::Database, *};
use std::io::Cursor;
fn main() {
    let mut f = vec![0u8; 512];
    for (i, v) in [0u32, 512, 2, 2, 0, 1, 0, 0x1234, 1, 1, 1, 7, 1, 1, 1].into_iter().enumerate() {
        f[i * 4..i * 4 + 4].copy_from_slice(&v.to_le_bytes());
    }
    let db = Database::open_non_persistent(Cursor::new(f), DatabaseType::Plain).unwrap();
    assert!(db.get_header().find_table(PageType::Plain(PlainPageType::PlaylistTree)).is_some());
}
''')

seed('b16-menu','C05','a row whose play count and year differ ... a menu row with a visibility value above 0x7f','the sort order of hidden menus ...',
[('src/pdb/mod.rs','    Unknown(u8),\n}\n\nimpl PageHeapObject for MenuVisibility','    Unknown(#[br(map = |x: u8| x.max(2))] #[bw(map = |x: &u8| x & 0x7f)] u8),\n}\n\nimpl PageHeapObject for MenuVisibility')],
'''use binrw::{io::Cursor, BinRead, BinWrite};
use rekordcrate::pdb::*;
fn main() {
    for v in 0..=255u8 {
        let m = MenuVisibility::read(&mut Cursor::new([v])).unwrap();
        let mut c = Cursor::new(vec![]);
        m.write(&mut c).unwrap();
        assert_eq!(c.into_inner(), [v]);
    }
}
''')
