SEEDS=[]
def seed(id,property,needs,breaks,edits,demo=None,sh=None):
    d=dict(id=id,property=property,needs=needs,breaks=breaks,edits=edits)
    if demo: d['demo']=demo
    if sh: d['sh']=sh
    SEEDS.append(d)
MK='''
fn le(v: &[u32]) -> Vec<u8> { v.iter().flat_map(|x| x.to_le_bytes()).collect() }
// A database with pages of 512 bytes; tables: (type, first, last).
fn header(tables: &[(u32, u32, u32)], pages: u32) -> Vec<u8> {
    let mut f = le(&[0, 512, tables.len() as u32, pages + 1, 5, 7, 0]);
    for t in tables { f.extend(le(&[t.0, pages + 1, t.1, t.2])); }
    f.resize(512, 0); f
}
// A data page holding the given rows, one after another.
fn page(index: u32, typ: u32, next: u32, rows: &[Vec<u8>]) -> Vec<u8> {
    let n = rows.len() as u32;
    let mut p = le(&[0, index, typ, next, 1, 0]);
    p.extend(&(n | n << 13).to_le_bytes()[..3]);
    p.push(0x24);
    p.resize(40, 0);
    let mut at = 512;
    let mut off = 0usize;
    p.resize(512, 0);
    for (i, r) in rows.iter().enumerate() {
        p[40 + off..40 + off + r.len()].copy_from_slice(r);
        if i % 16 == 0 { at -= 4; let m = ((1u32 << (n as usize - i).min(16)) - 1) as u16; p[at..at + 2].copy_from_slice(&m.to_le_bytes()); }
        at -= 2;
        p[at..at + 2].copy_from_slice(&(off as u16).to_le_bytes());
        off += r.len().next_multiple_of(4);
    }
    p[28..30].copy_from_slice(&(512 - 40 - off as u16 - (512 - at as u16)).to_le_bytes());
    p[30..32].copy_from_slice(&(off as u16).to_le_bytes());
    p
}
fn s(t: &str) -> Vec<u8> { let mut v = vec![(t.len() as u8 + 1) * 2 + 1]; v.extend(t.as_bytes()); v }
fn genre(id: u32, name: &str) -> Vec<u8> { let mut v = id.to_le_bytes().to_vec(); v.extend(s(name)); v }
fn node(parent: u32, sort: u32, id: u32, folder: u32, name: &str) -> Vec<u8> { let mut v = le(&[parent, 0, sort, id, folder]); v.extend(s(name)); v }
'''
MK='#[allow(dead_code)]\nmod mk {'+MK.replace('\nfn ','\npub fn ')+'}\n#[allow(unused_imports)]\nuse mk::*;\n'
import runpy,os,re
DEMO_HOOK=re.search(r"DEMO='''(.*?)'''%TOML",open(os.path.join(os.path.dirname(__file__),'..','seed.py')).read(),re.S).group(1)%re.search(r"TOML='''(.*?)'''",open(os.path.join(os.path.dirname(__file__),'..','seed.py')).read(),re.S).group(1)
DEMO_HOOK=DEMO_HOOK.replace('export CARGO_TARGET_DIR','export RUSTFLAGS="--cfg rekordcrate_verif"\nexport CARGO_TARGET_DIR')
CLI='''#!/bin/bash
# Exit 0: the property holds. Run with cwd = the repository.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
unset CARGO_TARGET_DIR
cargo build --offline -q --bin rekordcrate || exit 3
cli=$PWD/target/debug/rekordcrate
d=$(mktemp -d) || exit 3
trap 'rm -rf -- "$d"' EXIT
'''

EXPORT='''python3 - "$d" <<'P' || exit 3
import os,struct,sys
d=sys.argv[1]+'/dev'
os.makedirs(d+'/PIONEER/rekordbox')
le=lambda *v: b''.join(struct.pack('<I',x) for x in v)
s=lambda t: bytes([(len(t)+1)*2+1])+t.encode()
def page(i,t,nxt,rows):
    n=len(rows); p=bytearray(4096); p[0:24]=le(0,i,t,nxt,1,0); p[24:27]=(n|n<<13).to_bytes(4,'little')[:3]; p[27]=0x24
    at=4096; off=0
    for k,r in enumerate(rows):
        p[40+off:40+off+len(r)]=r
        if k%16==0: at-=4; p[at:at+2]=struct.pack('<H',(1<<min(16,n-k))-1)
        at-=2; p[at:at+2]=struct.pack('<H',off); off+=(len(r)+3)//4*4
    p[28:32]=struct.pack('<HH',at-40-off,off)
    return bytes(p)
def track(i,artist,title,path):
    st=[b'\\x03']*21; st[17]=s(title); st[20]=s(path)
    b=bytearray(0x5e); b[0]=0x24; b[0x5c]=3; b[0x44:0x48]=le(artist); b[0x48:0x4c]=le(i)
    o=[]; t=b''
    for x in st: o.append(0x5e+42+len(t)); t+=x
    return bytes(b)+b''.join(struct.pack('<H',x) for x in o)+t
node=lambda parent,i,folder,name: le(parent,0,0,i,folder)+s(name)
UNKNOWN=0x99
tables=[(UNKNOWN,[]),(7,[node(0,1,0,'list')]),(8,[le(1,7,1),le(2,8,1)]),(0,[track(7,3,'one','/a.mp3'),track(8,3,'two','/b.mp3')]),(2,[bytes([0x60,0,0,0])+le(3)+bytes([3,10])+s('who')])]
f=bytearray(4096); f[0:28]=le(0,4096,len(tables),len(tables)+1,5,7,0)
for k,(t,_) in enumerate(tables): f[28+16*k:44+16*k]=le(t,99,k+1,k+1)
f=bytes(f)
for k,(t,r) in enumerate(tables): f+=page(k+1,t,99,r)
open(d+'/PIONEER/rekordbox/export.pdb','wb').write(f)
P
'''

seed('c14-no-phrases','C11','an encrypted song structure without any phrase','encrypted sections that hold no phrases are not recognised as encrypted',
[('src/anlz.rs','        Mood::read(&mut reader).is_ok()','        len_entries > 0 && Mood::read(&mut reader).is_ok()')],
'''use binrw::{io::Cursor, BinRead, BinWrite};
use rekordcrate::anlz::ANLZ;
const KEY: [u8; 19] = [0xCB, 0xE1, 0xEE, 0xFA, 0xE5, 0xEE, 0xAD, 0xEE, 0xE9, 0xD2, 0xE9, 0xEB, 0xE1, 0xE9, 0xF3, 0xE8, 0xE9, 0xF4, 0xE1];
fn main() {
    for n in 0..3u32 {
        let mut f = vec![];
        f.extend(b"PMAI");
        for v in [12u32, 12 + 32 + 24 * n] { f.extend(v.to_be_bytes()) }
        f.extend(b"PSSI");
        for v in [32u32, 32 + 24 * n, 24] { f.extend(v.to_be_bytes()) }
        f.extend((n as u16).to_be_bytes());
        let mut body = vec![0, 1, 0, 0, 0, 0, 0, 0, 0, 9, 0, 0, 1, 0];
        for _ in 0..n { body.resize(body.len() + 24, 0) }
        f.extend(body.iter().enumerate().map(|(i, b)| b ^ KEY[i % 19].wrapping_add(n as u8)));
        let a = ANLZ::read(&mut Cursor::new(&f)).expect("readable");
        let mut c = Cursor::new(vec![]);
        a.write(&mut c).unwrap();
        assert_eq!(c.into_inner(), f);
    }
}
''')

seed('c15-same-name','C16','two playlists or folders of the same name in one folder','of several nodes of the same name in one folder only the first one is kept',
[('src/device.rs','''        playlists
            .entry(node.parent_id)
            .or_default()
            .push(node.clone());
        Ok(())''','''        let siblings = playlists.entry(node.parent_id).or_default();
        if siblings.iter().all(|sibling| sibling.name != node.name) {
            siblings.push(node.clone());
        }
        Ok(())''')],
MK+'''use rekordcrate::{device::get_playlists, pdb::{io::Database, *}};
use std::io::Cursor;
fn main() {
    let mut f = header(&[(7, 1, 1)], 1);
    f.extend(page(1, 7, 2, &[node(0, 0, 1, 0, "a"), node(0, 1, 2, 0, "a"), node(0, 2, 3, 0, "b")]));
    let mut db = Database::open(Cursor::new(f), DatabaseType::Plain).unwrap();
    assert_eq!(get_playlists(&mut db).unwrap().len(), 3);
}
''')

seed('c16-offset-u32','C21','a page number and page size whose product exceeds 32 bits','the file position of a page is calculated with 32 bits',
[('src/pdb/mod.rs','        u64::from(self.0) * u64::from(page_size)','        u64::from(self.0.wrapping_mul(page_size))')],
'''use rekordcrate::pdb::PageIndex;
fn main() {
    for (p, s) in [(1u32, 4096u32), (0xfffff, 4096), (0x100000, 4096), (0x3fffffe, 65536), (0x3fffffe, u32::MAX)] {
        assert_eq!(PageIndex::try_from(p).unwrap().offset(s), u64::from(p) * u64::from(s));
    }
}
''')

seed('c17-type-16','C23','a table type number above 65535','the number of an unknown table type is cut to 16 bits',
[('src/pdb/mod.rs','    /// Unknown page type.\n    Unknown(u32),','    /// Unknown page type.\n    Unknown(#[br(map = |number: u32| number & 0xffff)] u32),')],
'''use binrw::{io::Cursor, BinRead};
use rekordcrate::pdb::*;
fn main() {
    for n in [9u32, 0x7fff, 0x10000, 0x10009, 0xffff_ffff] {
        let t = PageType::read_args(&mut Cursor::new(n.to_le_bytes()), (DatabaseType::Plain,)).unwrap();
        assert_eq!(t, PageType::Unknown(n));
    }
}
''')

seed('c18-milliseconds','C17','the start of a position mark that is no multiple of a millisecond','the start of position marks is rounded to milliseconds when it is written',
[('src/xml.rs','    #[serde(rename = "@Start")]\n','    #[serde(rename = "@Start")]\n    #[serde(serialize_with = "serialize_seconds")]\n'),
 ('src/xml.rs','/// Playlist collection.\n','/// Rekordbox writes positions in milliseconds.\nfn serialize_seconds<S: Serializer>(value: &f64, serializer: S) -> Result<S::Ok, S::Error> {\n    serializer.serialize_f64((value * 1000.0).round() / 1000.0)\n}\n\n/// Playlist collection.\n')],
'''use rekordcrate::xml::PositionMark;
fn main() {
    for start in [0.0, 0.025, 1.5, 12.3456, 1e-9] {
        let m = PositionMark { name: "x".into(), mark_type: 0, start, end: None, num: 1 };
        let t = quick_xml::se::to_string(&m).unwrap();
        assert_eq!(quick_xml::de::from_str::<PositionMark>(&t).unwrap(), m);
    }
}
''')

seed('c19-trim','C18','a folder whose name begins or ends with a space','spaces around the names of folders get lost when reading',
[('src/xml.rs','PlaylistGenericNode::Folder(PlaylistFolderNode {\n                                    name: n.to_string(),','PlaylistGenericNode::Folder(PlaylistFolderNode {\n                                    name: n.trim().to_string(),')],
'''use rekordcrate::xml::*;
fn main() {
    let t = r#"<DJ_PLAYLISTS Version="1,0,0"><PRODUCT Name="a" Version="b" Company="c"/><COLLECTION Entries="0"/><PLAYLISTS><NODE Type="0" Name="ROOT" Count="1"><NODE Name="x " Type="0" Count="0"/></NODE></PLAYLISTS></DJ_PLAYLISTS>"#;
    let d: Document = quick_xml::de::from_str(t).unwrap();
    match &d.playlists.node.nodes[0] { PlaylistGenericNode::Folder(f) => assert_eq!(f.name, "x "), _ => panic!() }
}
''')

seed('c20-zero','C20','a playlist entry at position 0','entries are taken to be counted from one, the one at position zero is not exported',
[('src/main.rs','acc.entry(playlist_id).or_default().insert(entry.0, entry.1);','let entries = acc.entry(playlist_id).or_default();\n                // Entries are counted from one.\n                if entry.0 > 0 {\n                    entries.insert(entry.0, entry.1);\n                }')],
sh=CLI+EXPORT.replace('le(1,7,1),le(2,8,1)','le(0,7,1),le(1,8,1)')+'''mkdir "$d/out"
"$cli" export-playlists "$d/dev" "$d/out" || exit 1
r=$(realpath "$d/dev")
[ "$(cat "$d/out/list.m3u")" = "$r/a.mp3
$r/b.mp3" ]
''')

seed('c21-override','C22','a settings file that bears the name of another kind and an explicit type','the type implied by the name of a settings file wins over the one given explicitly',
[('src/main.rs','using {setting_type_cli:?}!");\n            setting_type_cli\n','using {setting_type_cli:?}!");\n            setting_type_file\n')],
sh=CLI+'''cp "$(find "$PWD/data" -name MYSETTING2.DAT | head -1)" "$d/MYSETTING.DAT" || exit 3
"$cli" dump-setting --setting-type mysetting2 "$d/MYSETTING.DAT" | grep -q -i mysetting2
''')

seed('c22-31-bytes','C12','a version string of exactly 31 bytes','a version string of 31 bytes is refused',
[('src/setting.rs','assert(version.len() <= (0x20 - 1))','assert(version.len() < (0x20 - 1))')],
'''use binrw::{io::Cursor, BinWrite};
use rekordcrate::setting::Setting;
fn main() {
    for n in 0..32 {
        let mut s = Setting::default_mysetting();
        s.version = "x".repeat(n).into();
        let mut c = Cursor::new(vec![]);
        s.write_args(&mut c, (false,)).expect("fits");
    }
}
''')

seed('c23-ignored','C13','an undocumented byte at the end of the data section of DEVSETTING.DAT','the last bytes of the device settings are not read and come out as zeros',
[('src/setting.rs','    #[br(assert(unknown3 == [0x00; 18]))]\n    unknown3: [u8; 18],','    #[br(map = |_: [u8; 18]| [0; 18])]\n    unknown3: [u8; 18],')],
'''use binrw::{io::Cursor, BinRead, BinWrite};
use rekordcrate::setting::*;
fn main() {
    let mut c = Cursor::new(vec![]);
    Setting::default_devsetting().write_args(&mut c, (false,)).unwrap();
    let mut b = c.into_inner();
    let n = b.len();
    b[n - 7] = 1;
    assert!(Setting::read_args(&mut Cursor::new(b), (SettingType::DevSetting,)).is_err());
}
''')

seed('c24-second','C14','a device with a readable MYSETTING2.DAT, but no readable MYSETTING.DAT','the second settings file of the player is only read if the first one is there',
[('src/device.rs','''            settings.set_mysetting(mysetting.data.as_my_setting().unwrap());
        }
        if let Some(mysetting2) = load_setting("MYSETTING2.DAT", SettingType::MySetting2) {
            settings.set_mysetting2(mysetting2.data.as_my_setting2().unwrap());
        }''','''            settings.set_mysetting(mysetting.data.as_my_setting().unwrap());
            if let Some(mysetting2) = load_setting("MYSETTING2.DAT", SettingType::MySetting2) {
                settings.set_mysetting2(mysetting2.data.as_my_setting2().unwrap());
            }
        }''')],
sh=CLI+'''mkdir "$d/PIONEER"
cp "$(find "$PWD/data" -name MYSETTING2.DAT | head -1)" "$d/PIONEER/" || exit 3
"$cli" list-settings "$d" | grep "Vinyl Speed Adjust" | grep -v missing
''')

seed('c25-subtype','C05','a row whose subtype has bit 3 set, but not bit 2','the size of the offsets is taken from more than one bit of the subtype',
[('src/pdb/mod.rs','if self.0 & 0x04 == 0 {','if self.0 & 0x0f < 0x04 {')],
'''use binrw::{io::Cursor, BinRead};
use rekordcrate::pdb::*;
fn main() {
    for subtype in [0x60u16, 0x68, 0x70, 0x160, 0x168] {
        let mut b = subtype.to_le_bytes().to_vec();
        b.extend([0, 0, 7, 0, 0, 0, 3, 10, 9, b'a', b'b', b'c']);
        let a = Artist::read(&mut Cursor::new(b)).expect("readable");
        assert_eq!(a.offsets.name.to_string(), "abc");
    }
}
''')

seed('c26-fewer','C09','a page whose header counts more valid rows than are present','a page with fewer rows than its header says is accepted',
[('src/pdb/mod.rs','#[br(assert(rows.len() == page_header.packed_row_counts.num_rows_valid().into(),','#[br(assert(rows.len() <= usize::from(page_header.packed_row_counts.num_rows_valid()),')],
MK+'''use rekordcrate::pdb::{io::Database, *};
use std::io::Cursor;
fn main() {
    let mut f = header(&[(1, 1, 1)], 1);
    let mut p = page(1, 1, 2, &[genre(1, "a"), genre(2, "b")]);
    p[508] = 1; // the second row is not present any more
    f.extend(p);
    let mut db = Database::open(Cursor::new(f), DatabaseType::Plain).unwrap();
    assert!(db.load_page(PageIndex::try_from(1).unwrap()).is_err());
}
''')

seed('c28-index-pages','C07','a modified index page','index pages are skipped when writing, so that modifications of them are lost',
[('src/pdb/io.rs','''            LazyPage::NotLoaded => {
                // Just seek''','''            LazyPage::Loaded(Page {
                content: PageContent::Index(_),
                ..
            })
            | LazyPage::NotLoaded => {
                // Just seek''')],
MK+'''use rekordcrate::pdb::{io::Database, *};
use std::io::Cursor;
fn main() {
    let mut f = header(&[(1, 1, 1)], 1);
    let mut p = le(&[0, 1, 1, 2, 1, 0, 0x64000000, 0]);
    p.extend(le(&[0x1fff1fff, 0x000003ec, 1, 2, 0x3ffffff, 0, 0x1fff0000]));
    while p.len() < 492 { p.extend(le(&[0x1ffffff8])) }
    p.resize(512, 0);
    f.extend(p);
    let mut c = Cursor::new(f.clone());
    let mut db = Database::open(&mut c, DatabaseType::Plain).unwrap();
    db.load_page(PageIndex::try_from(1).unwrap()).unwrap().content.as_index_mut().unwrap().header.unknown_b = 3;
    db.close().unwrap();
    f[512 + 34] = 3; f[512 + 35] = 0;
    assert!(c.into_inner() == f);
}
''')

seed('c29-next-zero','C06','a page in the middle of a chain whose link to the next page is 0','a chain that leads to page 0 (the header) ends there silently',
[('src/pdb/io.rs','                if page_index == self.last_page {','                if page_index == self.last_page || page.header.next_page == PageIndex(0) {')],
MK+'''use rekordcrate::pdb::{io::Database, *};
use fallible_iterator::FallibleIterator;
use std::io::Cursor;
fn main() {
    let mut f = header(&[(1, 1, 2)], 2);
    f.extend(page(1, 1, 0, &[genre(1, "a")]));
    f.extend(page(2, 1, 3, &[genre(2, "b")]));
    let mut db = Database::open(Cursor::new(f), DatabaseType::Plain).unwrap();
    let r: Result<Vec<PageIndex>, _> = db.iter_pages(PageType::Plain(PlainPageType::Genres)).unwrap().map(|p| Ok(p.header.page_index)).collect();
    assert!(r.is_err());
}
''')
