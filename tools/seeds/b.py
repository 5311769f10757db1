SEEDS=[]
def seed(id,property,needs,breaks,edits,demo=None,sh=None):
    d=dict(id=id,property=property,needs=needs,breaks=breaks,edits=edits)
    if demo: d['demo']=demo
    if sh: d['sh']=sh
    SEEDS.append(d)
MK='''
fn le(v: &[u32]) -> Vec<u8> { v.iter().flat_map(|x| x.to_le_bytes()).collect() }
// A database with pages of 512 bytes; tables: (type, first, last).
fn header(tables: &[(u32, u32, u32)], pages: u32) -> Vec<u8> {
    let mut f = le(&[0, 512, tables.len() as u32, pages + 1, 5, 7, 0]);
    for t in tables { f.extend(le(&[t.0, pages + 1, t.1, t.2])); }
    f.resize(512, 0); f
}
// A data page holding the given rows, one after another.
fn page(index: u32, typ: u32, next: u32, rows: &[Vec<u8>]) -> Vec<u8> {
    let n = rows.len() as u32;
    let mut p = le(&[0, index, typ, next, 1, 0]);
    p.extend(&(n | n << 13).to_le_bytes()[..3]);
    p.push(0x24);
    p.resize(40, 0);
    let mut at = 512;
    let mut off = 0usize;
    p.resize(512, 0);
    for (i, r) in rows.iter().enumerate() {
        p[40 + off..40 + off + r.len()].copy_from_slice(r);
        if i % 16 == 0 { at -= 4; let m = ((1u32 << (n as usize - i).min(16)) - 1) as u16; p[at..at + 2].copy_from_slice(&m.to_le_bytes()); }
        at -= 2;
        p[at..at + 2].copy_from_slice(&(off as u16).to_le_bytes());
        off += r.len().next_multiple_of(4);
    }
    p[28..30].copy_from_slice(&(512 - 40 - off as u16 - (512 - at as u16)).to_le_bytes());
    p[30..32].copy_from_slice(&(off as u16).to_le_bytes());
    p
}
fn s(t: &str) -> Vec<u8> { let mut v = vec![(t.len() as u8 + 1) * 2 + 1]; v.extend(t.as_bytes()); v }
fn genre(id: u32, name: &str) -> Vec<u8> { let mut v = id.to_le_bytes().to_vec(); v.extend(s(name)); v }
fn node(parent: u32, sort: u32, id: u32, folder: u32, name: &str) -> Vec<u8> { let mut v = le(&[parent, 0, sort, id, folder]); v.extend(s(name)); v }
'''
MK='#[allow(dead_code)]\nmod mk {'+MK.replace('\nfn ','\npub fn ')+'}\n#[allow(unused_imports)]\nuse mk::*;\n'
import runpy,os,re
DEMO_HOOK=re.search(r"DEMO='''(.*?)'''%TOML",open(os.path.join(os.path.dirname(__file__),'..','seed.py')).read(),re.S).group(1)%re.search(r"TOML='''(.*?)'''",open(os.path.join(os.path.dirname(__file__),'..','seed.py')).read(),re.S).group(1)
DEMO_HOOK=DEMO_HOOK.replace('export CARGO_TARGET_DIR','export RUSTFLAGS="--cfg rekordcrate_verif"\nexport CARGO_TARGET_DIR')
CLI='''#!/bin/bash
# Exit 0: the property holds. Run with cwd = the repository.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
unset CARGO_TARGET_DIR
cargo build --offline -q --bin rekordcrate || exit 3
cli=$PWD/target/debug/rekordcrate
d=$(mktemp -d) || exit 3
trap 'rm -rf -- "$d"' EXIT
'''

seed('c01-padding','C02','a long-form string whose fourth byte is not zero','the padding byte of long strings is ignored when reading and written as zero, so that the bytes change',
[('src/pdb/string.rs','        #[brw(magic(0u8))] // padding\n','        #[br(temp)]\n        #[bw(calc = 0u8)]\n        _padding: u8,\n')],
'''use binrw::{io::Cursor, BinRead, BinWrite};
use rekordcrate::pdb::string::DeviceSQLString;
fn main() {
    for pad in 0..=255u8 {
        let b = [0x40, 6, 0, pad, b'a', b'b'];
        if let Ok(s) = DeviceSQLString::read(&mut Cursor::new(b)) {
            let mut c = Cursor::new(vec![]);
            s.write(&mut c).unwrap();
            assert_eq!(c.into_inner(), b);
        }
    }
}
''')

seed('c02-del','C01','a text that contains no character above U+0080, but U+0080 itself','such texts count as ASCII and are stored as UTF-8 in the ASCII encoding',
[('src/pdb/string.rs','let only_ascii = string.is_ascii();',"let only_ascii = string.chars().all(|c| c <= '\\u{80}');")],
'''use binrw::{io::Cursor, BinWrite};
use rekordcrate::pdb::string::DeviceSQLString;
fn main() {
    for c in ['\\u{7f}', '\\u{80}', '\\u{81}', '\\u{ff}'] {
        let t = format!("a{c}");
        let mut w = Cursor::new(vec![]);
        DeviceSQLString::new(&t).unwrap().write(&mut w).unwrap();
        let b = w.into_inner();
        if c == '\\u{7f}' { assert_eq!(b, [7, b'a', 0x7f]) } else { assert_eq!(b, [0x90, 8, 0, 0, b'a', 0, c as u8, 0]) }
    }
}
''')

seed('c03-last-empty','C10','an analysis file whose last section is an unknown one without any content (12 bytes)','a section that consists of nothing but its common header is lost at the end of the file',
[('src/anlz.rs','while reader.stream_position()? < final_position {','while reader.stream_position()? + 12 < final_position {')],
'''use binrw::{io::Cursor, BinRead};
use rekordcrate::anlz::ANLZ;
fn main() {
    let mut f = vec![];
    for h in [*b"PMAI", [0, 0, 0, 12], [0, 0, 0, 36], *b"ABCD", [0, 0, 0, 12], [0, 0, 0, 12], *b"EFGH", [0, 0, 0, 12], [0, 0, 0, 12]] { f.extend(h) }
    let a = ANLZ::read(&mut Cursor::new(f)).unwrap();
    assert_eq!(a.sections.len(), 2);
}
''')

seed('c05-evict','C08','a flush that fails, followed by a second one','pages are dropped from memory by a flush even if it fails, so that the retried flush succeeds without writing the modifications',
[('src/pdb/io.rs','        self.content.write_options(&mut self.io, endian, ())?;\n','        let result = self.content.write_options(&mut self.io, endian, ());\n        // Everything is on the device now, do not keep the pages in memory.\n        self.content.pages.fill(LazyPage::NotLoaded);\n        result?;\n')],
MK+'''use rekordcrate::pdb::{io::Database, *};
use std::{cell::{Cell, RefCell}, io::{self, Cursor, Read, Seek, SeekFrom, Write}, rc::Rc};
struct Dev(Rc<RefCell<Cursor<Vec<u8>>>>, Rc<Cell<bool>>);
impl Read for Dev { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { self.0.borrow_mut().read(b) } }
impl Seek for Dev { fn seek(&mut self, p: SeekFrom) -> io::Result<u64> { self.0.borrow_mut().seek(p) } }
impl Write for Dev {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { if self.1.get() { Err(io::Error::other("full")) } else { self.0.borrow_mut().write(b) } }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let mut f = header(&[(1, 1, 1)], 1);
    f.extend(page(1, 1, 2, &[genre(1, "a"), genre(2, "b")]));
    let data = Rc::new(RefCell::new(Cursor::new(f)));
    let fail = Rc::new(Cell::new(false));
    let mut db = Database::open(Dev(data.clone(), fail.clone()), DatabaseType::Plain).unwrap();
    db.load_page(PageIndex::try_from(1).unwrap()).unwrap().header.unknown1 = 99;
    fail.set(true);
    assert!(db.flush().is_err());
    fail.set(false);
    db.flush().unwrap();
    let d = data.borrow().get_ref().clone();
    assert_eq!(d[512 + 16], 99);
}
''')

seed('c06-header-only','C07','a modification of the header while no page is loaded','a flush does nothing if no page has been loaded, so that modifications of the header are lost',
[('src/pdb/io.rs','        let endian = Endian::Little;\n        self.io.seek(SeekFrom::Start(0))?;','        // Nothing can have been modified before the first page is loaded.\n        if !self.content.pages.iter().any(|p| matches!(p, LazyPage::Loaded(_))) {\n            return Ok(self.io.flush()?);\n        }\n        let endian = Endian::Little;\n        self.io.seek(SeekFrom::Start(0))?;')],
MK+'''use rekordcrate::pdb::{io::Database, *};
use std::io::Cursor;
fn main() {
    let mut f = header(&[(1, 1, 1)], 1);
    f.extend(page(1, 1, 2, &[genre(1, "a")]));
    let mut c = Cursor::new(f.clone());
    let mut db = Database::open(&mut c, DatabaseType::Plain).unwrap();
    db.get_header_mut().sequence += 1;
    db.close().unwrap();
    f[20] += 1;
    assert!(c.into_inner() == f);
}
''')

seed('c07-prealloc','C19','an analysis file that declares a huge size','room for as many sections as could fit is reserved in advance, judging by the declared size',
[('src/anlz.rs','let mut sections: Vec<Section> = vec![];','let mut sections: Vec<Section> = Vec::with_capacity(content_size as usize / 12);')],
'''use binrw::{io::Cursor, BinRead};
use rekordcrate::anlz::ANLZ;
use std::alloc::*;
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { if l.size() > 1 << 20 { std::process::exit(1) } System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static GLOBAL: A = A;
fn main() {
    for n in [12u32, 13, 100, 1 << 20, 1 << 31, u32::MAX] {
        let mut f = b"PMAI\\0\\0\\0\\x0c".to_vec();
        f.extend(n.to_be_bytes());
        let _ = ANLZ::read(&mut Cursor::new(f));
    }
}
''')

EXPORT='''python3 - "$d" <<'P' || exit 3
import os,struct,sys
d=sys.argv[1]+'/dev'
os.makedirs(d+'/PIONEER/rekordbox')
le=lambda *v: b''.join(struct.pack('<I',x) for x in v)
s=lambda t: bytes([(len(t)+1)*2+1])+t.encode()
def page(i,t,nxt,rows):
    n=len(rows); p=bytearray(4096); p[0:24]=le(0,i,t,nxt,1,0); p[24:27]=(n|n<<13).to_bytes(4,'little')[:3]; p[27]=0x24
    at=4096; off=0
    for k,r in enumerate(rows):
        p[40+off:40+off+len(r)]=r
        if k%16==0: at-=4; p[at:at+2]=struct.pack('<H',(1<<min(16,n-k))-1)
        at-=2; p[at:at+2]=struct.pack('<H',off); off+=(len(r)+3)//4*4
    p[28:32]=struct.pack('<HH',at-40-off,off)
    return bytes(p)
def track(i,artist,title,path):
    st=[b'\\x03']*21; st[17]=s(title); st[20]=s(path)
    b=bytearray(0x5e); b[0]=0x24; b[0x5c]=3; b[0x44:0x48]=le(artist); b[0x48:0x4c]=le(i)
    o=[]; t=b''
    for x in st: o.append(0x5e+42+len(t)); t+=x
    return bytes(b)+b''.join(struct.pack('<H',x) for x in o)+t
node=lambda parent,i,folder,name: le(parent,0,0,i,folder)+s(name)
UNKNOWN=0x99
tables=[(UNKNOWN,[]),(7,[node(0,1,0,'list')]),(8,[le(1,7,1),le(2,8,1)]),(0,[track(7,3,'one','/a.mp3'),track(8,3,'two','/b.mp3')]),(2,[bytes([0x60,0,0,0])+le(3)+bytes([3,10])+s('who')])]
f=bytearray(4096); f[0:28]=le(0,4096,len(tables),len(tables)+1,5,7,0)
for k,(t,_) in enumerate(tables): f[28+16*k:44+16*k]=le(t,99,k+1,k+1)
f=bytes(f)
for k,(t,r) in enumerate(tables): f+=page(k+1,t,99,r)
open(d+'/PIONEER/rekordbox/export.pdb','wb').write(f)
P
'''
seed('c08-no-truncate','C20','an output file that exists already and is longer than the new one','a playlist file of an earlier export is not truncated, its last lines stay in the new file',
[('src/main.rs','let mut file = File::create(playlist_path)?;','let mut file = File::options()\n                .write(true)\n                .create(true)\n                .truncate(false)\n                .open(playlist_path)?;')],
sh=CLI+EXPORT+'''mkdir "$d/out"
for i in 1 2 3 4 5 6 7 8 9; do echo "/some/older/entry/which/is/long/$i.mp3"; done > "$d/out/list.m3u"
"$cli" export-playlists "$d/dev" "$d/out" || exit 1
r=$(realpath "$d/dev")
[ "$(cat "$d/out/list.m3u")" = "$r/a.mp3
$r/b.mp3" ]
''')

seed('c09-unknown-ends','C22','a table of unknown type in front of other tables','the dump ends at the first table of unknown type',
[('src/main.rs','            );\n            continue;\n        }\n        if let Err(e) = dump_table','            );\n            break;\n        }\n        if let Err(e) = dump_table')],
sh=CLI+EXPORT+'''o=$("$cli" dump-pdb "$d/dev/PIONEER/rekordbox/export.pdb") || exit 1
[[ $o = *"Skipping unknown"*"DeviceSQLString(one)"*"DeviceSQLString(who)"* ]]
''')

seed('c10-align-u16','C04','a row with 8-bit offsets that are calculated and a wide string at an unaligned position','the padding in front of wide strings is only taken into account for rows with 16-bit offsets',
[('src/pdb/offset_array.rs','            if matches!(self.offsets, MaybeCalculated::Calculated) {','            if matches!(self.offsets, MaybeCalculated::Calculated)\n                && offset_size == OffsetSize::U16\n            {')],
'''use binrw::{io::Cursor, BinRead, BinWrite, Endian};
use rekordcrate::{pdb::{ext::*, *}, util::MaybeCalculated};
fn main() {
    for text in ["", "a", "ab", "abc", "abcd", "\\u{436}"] {
        for other in ["", "\\u{436}", "\\u{436}\\u{436}"] {
            let mut b = vec![0x80, 0x06];
            b.resize(0x1c, 0);
            b.extend([3, 31, 31, 3]);
            let mut t = TagOrCategory::read(&mut Cursor::new(b)).unwrap();
            t.offsets.offsets = MaybeCalculated::Calculated;
            t.offsets.inner.name = text.parse().unwrap();
            t.offsets.inner.unknown = other.parse().unwrap();
            let row = Row::Ext(ExtRow::Tag(t));
            let mut c = Cursor::new(vec![]);
            row.write_options(&mut c, Endian::Little, ()).unwrap();
            assert_eq!(usize::from(row.verif_heap_bytes_required()), c.into_inner().len());
        }
    }
}
''',sh=DEMO_HOOK)

seed('c11-offset-zero','C09','a page on which the row at offset 0 of the heap is not the first row of its group','an offset of 0 is taken for an unused slot unless it is the first of its group',
[('src/pdb/mod.rs','(self.row_presence_flags & (1 << i) != 0).then_some(*row_offset)','(self.row_presence_flags & (1 << i) != 0 && (i == 0 || *row_offset != 0))\n                    .then_some(*row_offset)')],
MK+'''use rekordcrate::pdb::{io::Database, *};
use std::io::Cursor;
fn main() {
    let mut f = header(&[(1, 1, 1)], 1);
    let mut p = page(1, 1, 2, &[genre(1, "a"), genre(2, "b"), genre(3, "c")]);
    // The first and the second row change places.
    p.swap(506, 504); p.swap(507, 505);
    f.extend(p);
    let mut db = Database::open(Cursor::new(f), DatabaseType::Plain).unwrap();
    let page = db.load_page(PageIndex::try_from(1).unwrap()).expect("readable");
    assert_eq!(page.content.as_data().unwrap().rows.len(), 3);
}
''')

seed('c13-label','C15','the language setting "Türkçe", or any of two settings','two languages are shown by the same label',
[('src/setting.rs','#[display("Dansk")]','#[display("Deutsch")]')],
'''use rekordcrate::setting::Language;
fn main() {
    assert_eq!(Language::Danish.to_string(), "Dansk");
    assert_ne!(Language::Danish.to_string(), Language::German.to_string());
}
''')
