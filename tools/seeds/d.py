SEEDS=[]
def seed(id,property,needs,breaks,edits,demo=None,sh=None):
    d=dict(id=id,property=property,needs=needs,breaks=breaks,edits=edits)
    if demo: d['demo']=demo
    if sh: d['sh']=sh
    SEEDS.append(d)
MK='''
fn le(v: &[u32]) -> Vec<u8> { v.iter().flat_map(|x| x.to_le_bytes()).collect() }
// A database with pages of 512 bytes; tables: (type, first, last).
fn header(tables: &[(u32, u32, u32)], pages: u32) -> Vec<u8> {
    let mut f = le(&[0, 512, tables.len() as u32, pages + 1, 5, 7, 0]);
    for t in tables { f.extend(le(&[t.0, pages + 1, t.1, t.2])); }
    f.resize(512, 0); f
}
// A data page holding the given rows, one after another.
fn page(index: u32, typ: u32, next: u32, rows: &[Vec<u8>]) -> Vec<u8> {
    let n = rows.len() as u32;
    let mut p = le(&[0, index, typ, next, 1, 0]);
    p.extend(&(n | n << 13).to_le_bytes()[..3]);
    p.push(0x24);
    p.resize(40, 0);
    let mut at = 512;
    let mut off = 0usize;
    p.resize(512, 0);
    for (i, r) in rows.iter().enumerate() {
        p[40 + off..40 + off + r.len()].copy_from_slice(r);
        if i % 16 == 0 { at -= 4; let m = ((1u32 << (n as usize - i).min(16)) - 1) as u16; p[at..at + 2].copy_from_slice(&m.to_le_bytes()); }
        at -= 2;
        p[at..at + 2].copy_from_slice(&(off as u16).to_le_bytes());
        off += r.len().next_multiple_of(4);
    }
    p[28..30].copy_from_slice(&(512 - 40 - off as u16 - (512 - at as u16)).to_le_bytes());
    p[30..32].copy_from_slice(&(off as u16).to_le_bytes());
    p
}
fn s(t: &str) -> Vec<u8> { let mut v = vec![(t.len() as u8 + 1) * 2 + 1]; v.extend(t.as_bytes()); v }
fn genre(id: u32, name: &str) -> Vec<u8> { let mut v = id.to_le_bytes().to_vec(); v.extend(s(name)); v }
fn node(parent: u32, sort: u32, id: u32, folder: u32, name: &str) -> Vec<u8> { let mut v = le(&[parent, 0, sort, id, folder]); v.extend(s(name)); v }
'''
MK='#[allow(dead_code)]\nmod mk {'+MK.replace('\nfn ','\npub fn ')+'}\n#[allow(unused_imports)]\nuse mk::*;\n'

seed('d01-long-header','C10','a section of unknown kind with a header of more than 65547 bytes','the header size of unknown sections is kept in 16 bits, so that the file is refused',
[('src/anlz.rs',"""    fn remaining_size(&self) -> u32 {
        self.size - 12""","""    fn remaining_size(&self) -> u32 {
        u32::from((self.size - 12) as u16)""")],
'''use binrw::{BinRead, BinWrite};
use rekordcrate::anlz::ANLZ;
use std::io::Cursor;
fn main() {
    for n in [5u32, 70_000] {
        let mut f = b"PMAI".to_vec();
        f.extend(12u32.to_be_bytes());
        f.extend((12 + 12 + n + 3).to_be_bytes());
        f.extend(b"PXYZ");
        f.extend((12 + n).to_be_bytes());
        f.extend((12 + n + 3).to_be_bytes());
        f.extend((0..n + 3).map(|i| i as u8));
        let a = ANLZ::read(&mut Cursor::new(&f)).expect("readable");
        let mut w = Cursor::new(vec![]);
        a.write(&mut w).unwrap();
        assert!(w.into_inner() == f);
    }
}
''')

seed('d02-offset-wraps','C05','a row with 8-bit string offsets whose second string would start behind byte 255','computed 8-bit offsets wrap around instead of being refused',
[('src/pdb/offset_array.rs','OffsetSize::U8 => OffsetArray::U8(offsets.try_map_polyfill(|o| o.try_into())?),','OffsetSize::U8 => OffsetArray::U8(offsets.map(|o| o as u8)),')],
'''use binrw::{BinRead, BinWrite};
use rekordcrate::pdb::{ext::TagOrCategory, string::DeviceSQLString};
use rekordcrate::util::MaybeCalculated;
use std::io::Cursor;
fn main() {
    // subtype 0x680: 8-bit offsets
    let mut b = vec![0x80, 0x06];
    b.resize(28, 0);
    b.extend([3, 31, 32, 3, 3]);
    let mut t = TagOrCategory::read(&mut Cursor::new(&b)).unwrap();
    t.offsets.offsets = MaybeCalculated::Calculated;
    t.offsets.inner.unknown = DeviceSQLString::new("abc").unwrap();
    for n in [10, 300] {
        t.offsets.inner.name = DeviceSQLString::new(&"x".repeat(n)).unwrap();
        let mut w = Cursor::new(vec![]);
        if t.write(&mut w).is_ok() {
            let r = TagOrCategory::read(&mut Cursor::new(w.into_inner())).expect("readable");
            assert_eq!(r.offsets.unknown.to_string(), "abc");
        } else {
            assert!(n > 200);
        }
    }
}
''')

seed('d03-many-entries','C09','an index page with space for more than 16383 entries','index pages hold at most 16383 entries, so that the rest of a larger page is not filled',
[('src/pdb/mod.rs',"""(entries_space / IndexEntry::BINARY_SIZE)
""","""(entries_space / IndexEntry::BINARY_SIZE)
            .min(0x3fff)
""")],
MK+'''use binrw::{BinRead, BinWrite};
use rekordcrate::pdb::*;
use std::io::Cursor;
fn main() {
    for ps in [512u32, 0x20000] {
        let mut p = le(&[0, 1, 1, 2, 1, 0, 0x64000000, 0]);
        p.extend(le(&[0x1fff1fff, 0x000003ec, 1, 2, 0x3ffffff, 0, 0x1fff0000]));
        while p.len() < ps as usize - 20 { p.extend(le(&[0x1ffffff8])) }
        p.resize(ps as usize, 0);
        let x = Page::read_args(&mut Cursor::new(&p), (ps, DatabaseType::Plain)).unwrap();
        let mut w = Cursor::new(vec![]);
        x.write_args(&mut w, (ps,)).unwrap();
        assert!(w.into_inner() == p, "page of {ps} bytes");
    }
}
''')
