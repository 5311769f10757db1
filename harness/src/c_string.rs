//! C01, C02: DeviceSQL strings against an independent reference encoder/decoder.

use crate::engine::*;
use binrw::{BinRead, BinWrite};
use rekordcrate::pdb::string::DeviceSQLString;
use std::io::Cursor;

/// Reference encoding of a text, from the format documentation.
pub fn ref_encode(s: &str) -> Option<Vec<u8>> {
    let mut out = vec![];
    if s.is_ascii() {
        if s.len() <= 126 {
            out.push((((s.len() + 1) << 1) | 1) as u8);
            out.extend_from_slice(s.as_bytes());
        } else {
            let len = s.len() + 4;
            if len > 0xffff {
                return None;
            }
            out.push(0x40);
            out.extend_from_slice(&(len as u16).to_le_bytes());
            out.push(0);
            out.extend_from_slice(s.as_bytes());
        }
    } else {
        let units: Vec<u16> = s.encode_utf16().collect();
        let len = units.len() * 2 + 4;
        if len > 0xffff {
            return None;
        }
        out.push(0x90);
        out.extend_from_slice(&(len as u16).to_le_bytes());
        out.push(0);
        for u in units {
            out.extend_from_slice(&u.to_le_bytes());
        }
    }
    Some(out)
}

pub fn ref_encode_isrc(s: &str) -> Vec<u8> {
    if s.is_empty() {
        return vec![3];
    }
    let len = (s.len() + 2 + 4) as u16;
    let mut out = vec![0x90];
    out.extend_from_slice(&len.to_le_bytes());
    out.push(0);
    out.push(3);
    out.extend_from_slice(s.as_bytes());
    out.push(0);
    out
}

pub fn encode(s: &DeviceSQLString) -> binrw::BinResult<Vec<u8>> {
    let mut c = Cursor::new(vec![]);
    s.write(&mut c)?;
    Ok(c.into_inner())
}

/// A wide text whose bytes are at the same time a 12 character ISRC record: the two encodings
/// coincide byte for byte, so no decoder can tell them apart.
fn isrc_twin(text: &str) -> bool {
    if text.is_ascii() {
        return false;
    }
    let b: Vec<u8> = text.encode_utf16().flat_map(|u| u.to_le_bytes()).collect();
    b.len() == 14 && b[0] == 3 && b[13] == 0 && b[1..13].iter().all(|x| *x != 0 && x.is_ascii())
}

fn show(text: &str) -> String {
    truncate(&format!("{text:?} ({} UTF-8 bytes, {} UTF-16 units)", text.len(), text.encode_utf16().count()), 300)
}

/// Checks one text end to end.
fn check_text(rec: &mut Rec, text: &str, trailers: &[&[u8]]) {
    let twin = isrc_twin(text);
    let expect = ref_encode(text);
    let s = match guard(|| DeviceSQLString::new(text)) {
        Err(p) => return rec.fail("new-panics", format!("creating {} panics: {p}", show(text))),
        Ok(Err(e)) => {
            if expect.is_some() && text.len() <= 32767 {
                rec.fail("rejected", format!("{} is representable but rejected: {e}", show(text)));
            }
            rec.outcome("rejected");
            return;
        }
        Ok(Ok(s)) => s,
    };
    let bytes = match guard(|| encode(&s)) {
        Err(p) => return rec.fail("write-panics", format!("{} is accepted but writing panics: {p}", show(text))),
        Ok(Err(e)) => return rec.fail("write-fails", format!("{} is accepted but writing fails: {e}", show(text))),
        Ok(Ok(b)) => b,
    };
    let Some(expect) = expect else {
        return rec.fail("accepts-unrepresentable", format!("{} does not fit the format but is accepted", show(text)));
    };
    if bytes != expect {
        return rec.fail("encoding", format!("{}: wrote {} expected {}", show(text), hex(&bytes[..bytes.len().min(64)]), hex(&expect[..expect.len().min(64)])));
    }
    rec.outcome(match bytes[0] {
        0x40 => "long-ascii",
        0x90 => "wide",
        _ => "short-ascii",
    });
    for t in trailers {
        let mut input = bytes.clone();
        input.extend_from_slice(t);
        let mut c = Cursor::new(&input);
        let r = guard(|| DeviceSQLString::read(&mut c));
        let key = |k: &str| if twin { format!("{k}:isrc-twin") } else { k.to_string() };
        match r {
            Err(p) => rec.fail(key("read-panics"), format!("{} trailer {}: reading panics: {p}", show(text), hex(t))),
            Ok(Err(e)) => rec.fail(key("read-fails"), format!("{} trailer {}: reading fails: {e}", show(text), hex(t))),
            Ok(Ok(v)) => {
                if c.position() != bytes.len() as u64 {
                    rec.fail(key("consumed"), format!("{} trailer {}: {} bytes consumed of {}", show(text), hex(t), c.position(), bytes.len()));
                }
                if v.to_string() != text {
                    rec.fail(key("display"), format!("{} trailer {}: displays as {}", show(text), hex(t), show(&v.to_string())));
                }
                if v != s {
                    rec.fail(key("not-equal"), format!("{} trailer {}: read back {v} is not equal", show(text), hex(t)));
                }
                match v.into_string() {
                    Ok(x) if x == text => (),
                    Ok(x) => rec.fail(key("text"), format!("{} trailer {}: reads back as {}", show(text), hex(t), show(&x))),
                    Err(e) => rec.fail(key("text-error"), format!("{} trailer {}: into_string: {e}", show(text), hex(t))),
                }
            }
        }
    }
    if text.parse::<DeviceSQLString>().ok().as_ref() != Some(&s) {
        rec.fail("from-str", format!("{}: parse() differs from new()", show(text)));
    }
}

const TRAILERS: [&[u8]; 4] = [b"", &[0], &[0xff; 6], &[0x41, 0x00, 0x03, 0x00, 0x42]];

fn check_isrc(rec: &mut Rec, text: &str) {
    let valid = text.is_empty() || (text.len() == 12 && text.bytes().all(|b| b.is_ascii_alphanumeric()));
    let clearly_invalid = !text.is_empty() && (text.len() != 12 || !text.is_ascii());
    match guard(|| DeviceSQLString::new_isrc(text.to_string())) {
        Err(p) => rec.fail("isrc-new-panics", format!("{text:?}: {p}")),
        Ok(Err(_)) => {
            rec.outcome("isrc-rejected");
            if valid {
                rec.fail("isrc-rejected", format!("valid ISRC {text:?} rejected"));
            }
        }
        Ok(Ok(s)) => {
            rec.outcome("isrc-accepted");
            if clearly_invalid {
                return rec.fail("isrc-accepts-invalid", format!("{text:?} accepted as ISRC"));
            }
            let b = match guard(|| encode(&s)) {
                Ok(Ok(b)) => b,
                e => return rec.fail("isrc-write", format!("{text:?}: {e:?}")),
            };
            if b != ref_encode_isrc(text) {
                return rec.fail("isrc-encoding", format!("{text:?}: {} expected {}", hex(&b), hex(&ref_encode_isrc(text))));
            }
            for t in TRAILERS {
                let mut i = b.clone();
                i.extend_from_slice(t);
                let mut c = Cursor::new(&i);
                match guard(|| DeviceSQLString::read(&mut c)) {
                    Ok(Ok(v)) => {
                        if v != s || c.position() != b.len() as u64 {
                            rec.fail("isrc-readback", format!("{text:?} trailer {}: not equal or {} of {} consumed", hex(t), c.position(), b.len()));
                        }
                        if v.to_string() != text {
                            rec.fail("isrc-display", format!("{text:?} displays {v}"));
                        }
                        match v.into_string() {
                            Ok(x) if x == text => (),
                            x => rec.fail("isrc-text", format!("{text:?} reads back as {x:?}")),
                        }
                    }
                    x => rec.fail("isrc-read", format!("{text:?}: {x:?}")),
                }
            }
        }
    }
}

pub const ALPHABET: [char; 26] = [
    'a', 'Z', '0', ' ', '~', '/', '\0', '\u{1}', '\u{3}', '\u{7f}', '\u{80}', 'é', '\u{103}', '\u{300}', '\u{303}',
    '\u{403}', '\u{4e03}', '\u{4e00}', '\u{4103}', '\u{d7ff}', '\u{e000}', '\u{feff}', '\u{ffff}', '\u{ff03}',
    '\u{1f600}', '\u{10003}',
];

pub fn c01(ctx: &mut Ctx) {
    ctx.rule = "a case is one text (or ISRC) written, compared with an independent reference encoder, and read back with different trailing bytes; every text of the enumerated set is distinct and non-trivial".into();
    ctx.assume("reference encoder in harness/src/c_string.rs states the documented format");
    ctx.bound("every Unicode scalar value alone, before and after other symbols");
    // 1. every Unicode scalar value in several positions
    let n = 0x110000u64 / 256;
    ctx.par("scalars", n, |i, rec| {
        for j in 0..256 {
            let Some(c) = char::from_u32((i * 256 + j) as u32) else { continue };
            let mut texts = vec![c.to_string(), format!("{c}a"), format!("{c}é"), format!("b{c}")];
            if c as u32 & 0xff == 3 {
                texts.push(format!("{c}{c}"));
                texts.push(format!("{c}aa"));
                texts.push(format!("{c}\u{4e4e}a"));
            }
            for t in texts {
                check_text(rec, &t, &TRAILERS[..3]);
                rec.count("evaluations", 1);
                rec.count("distinct_by_construction", 1);
            }
        }
        rec.sample(|| format!("scalar block {:#x}", i * 256));
    });
    // 2. all short texts over the alphabet, simplest first
    let depth = ctx.pick(4usize, 5);
    let k = ALPHABET.len() as u64;
    ctx.bound(format!("all texts of up to {depth} symbols over an alphabet of {k}"));
    ctx.par("short-texts", k * k + k, |i, rec| {
        // prefix of one or two symbols, then all suffixes
        let prefix: String = if i < k {
            ALPHABET[i as usize].to_string()
        } else {
            [ALPHABET[((i - k) / k) as usize], ALPHABET[((i - k) % k) as usize]].iter().collect()
        };
        let rest = if i < k { 0 } else { depth - 2 };
        let mut stack = vec![prefix];
        while let Some(p) = stack.pop() {
            check_text(rec, &p, &TRAILERS);
            rec.count("evaluations", 1);
            rec.count("distinct_by_construction", 1);
            rec.sample(|| format!("{p:?}"));
            if i >= k && p.chars().count() < 2 + rest {
                for c in ALPHABET {
                    let mut q = p.clone();
                    q.push(c);
                    stack.push(q);
                }
            }
        }
    });
    // 3. all lengths
    let mut lens: Vec<usize> = vec![];
    let near = [126usize, 127, 128, 255, 256, 510, 1024, 4096, 8192, 16381, 16384, 21845, 32765, 32767, 32768, 40000, 65531, 65535, 65536, 70000];
    for l in 0..=70010usize {
        let take = l <= 33000 || near.iter().any(|b| l.abs_diff(*b) <= 8) || (!ctx.quick() && l <= 40000);
        if take {
            lens.push(l);
        }
    }
    let quick = ctx.quick();
    let few = move |l: usize| quick && l > 700 && !near.iter().any(|b| l.abs_diff(*b) <= 8);
    ctx.bound(format!("{} lengths up to 70010 (every length up to 33000) for 8 text shapes{}", lens.len(), ctx.pick(" (2 shapes for lengths above 700 away from boundaries)", "")));
    let lens = &lens;
    ctx.par("lengths", lens.len() as u64 * 8, |i, rec| {
        let l = lens[(i / 8) as usize];
        if few(l) && ![0, 3].contains(&(i % 8)) {
            return;
        }
        let text: String = match i % 8 {
            0 => "x".repeat(l),
            1 => format!("{}é", "x".repeat(l.saturating_sub(1))),
            2 => "é".repeat(l),
            3 => "\u{4e00}".repeat(l),
            4 => "\u{1f600}".repeat(l),
            5 => format!("\u{103}{}", "y".repeat(l.saturating_sub(1))),
            6 => format!("{}\u{4e03}", "\u{4e03}".repeat(l.saturating_sub(1))),
            _ => format!("é{}", "z".repeat(l)),
        };
        check_text(rec, &text, &TRAILERS[..2]);
        rec.count("evaluations", 1);
        rec.count("distinct_by_construction", 1);
    });
    // 4. wide texts that look like an ISRC record
    let first = ['\u{103}', '\u{4e03}', '\u{4103}', '\u{8103}', '\u{3003}'];
    let follow = ['a', '\u{4141}', '\u{4e00}', '\u{401}', '\u{3030}'];
    let max = ctx.pick(7u32, 9);
    ctx.bound(format!("all wide texts of up to {max} units starting with a code unit that looks like the ISRC marker"));
    ctx.par("isrc-lookalikes", 25, |i, rec| {
        let p: String = [first[(i / 5) as usize], follow[(i % 5) as usize]].iter().collect();
        let mut stack = vec![p];
        while let Some(p) = stack.pop() {
            check_text(rec, &p, &TRAILERS[..2]);
            rec.count("evaluations", 1);
            rec.count("distinct_by_construction", 1);
            if p.chars().count() < max as usize {
                for c in follow {
                    let mut q = p.clone();
                    q.push(c);
                    stack.push(q);
                }
            }
        }
    });
    // 5. ISRC constructor
    ctx.bound("ISRC: every length 0..40, every ASCII character in every position, every pair of characters in the first two and last two positions");
    ctx.par("isrc", 12 + 41 + 128, |i, rec| {
        let base = b"GBAYE6700149";
        if i < 12 {
            for c in 0..128u8 {
                let mut t = base.to_vec();
                t[i as usize] = c;
                check_isrc(rec, std::str::from_utf8(&t).unwrap());
                rec.count("evaluations", 1);
            }
            let mut t: Vec<char> = "GBAYE6700149".chars().collect();
            t[i as usize] = 'é';
            check_isrc(rec, &t.iter().collect::<String>());
            check_isrc(rec, &t[..11].iter().collect::<String>());
        } else if i < 53 {
            check_isrc(rec, &"A1".repeat(20)[..(i - 12) as usize]);
            check_isrc(rec, &"é".repeat((i - 12) as usize));
            rec.count("evaluations", 2);
        } else {
            for c in 0..128u8 {
                let mut t = base.to_vec();
                t[0] = (i - 53) as u8;
                t[1] = c;
                check_isrc(rec, std::str::from_utf8(&t).unwrap());
                let mut t = base.to_vec();
                t[10] = (i - 53) as u8;
                t[11] = c;
                check_isrc(rec, std::str::from_utf8(&t).unwrap());
                rec.count("evaluations", 2);
            }
        }
        rec.count("distinct_by_construction", 1);
    });
}

fn check_bytes(rec: &mut Rec, input: &[u8]) {
    let mut c = Cursor::new(input);
    let v = match guard(|| DeviceSQLString::read(&mut c)) {
        Err(p) => return rec.fail(format!("read-panics:{}", place(&p)), format!("decoding {} panics: {p}", hex(input))),
        Ok(Err(_)) => {
            rec.count("rejected", 1);
            return;
        }
        Ok(Ok(v)) => v,
    };
    rec.count("decoded", 1);
    rec.count("distinct_by_construction", 1);
    let k = c.position() as usize;
    if k > input.len() {
        return rec.fail("overrun", format!("decoding {} ends at {k}", hex(input)));
    }
    match guard(|| encode(&v)) {
        Err(p) => rec.fail("write-panics", format!("{}: {p}", hex(input))),
        Ok(Err(e)) => rec.fail("write-fails", format!("{}: {e}", hex(input))),
        Ok(Ok(b)) => {
            if b != input[..k] {
                rec.fail("reencode", format!("{} consumed {k} bytes but re-encodes to {}", hex(input), hex(&b)));
            }
        }
    }
    match guard(|| (v.to_string(), format!("{v:?}"))) {
        Err(p) => rec.fail("display-panics", format!("displaying {} panics: {p}", hex(input))),
        Ok(_) => (),
    }
    match guard(|| v.clone().into_string()) {
        Err(p) => rec.fail("into-string-panics", format!("{}: {p}", hex(input))),
        Ok(r) => {
            rec.outcome(match &r {
                Ok(_) => match input[0] {
                    0x40 => "long ASCII text",
                    0x90 => "wide text",
                    _ => "short text",
                },
                Err(_) => "encoding error",
            });
            if let Ok(t) = &r {
                if t != &v.to_string() {
                    rec.fail("display-differs", format!("{}: display {} text {t}", hex(input), v));
                }
            }
        }
    }
    // The same string followed by anything else decodes to the same thing.
    for t in [&b""[..], &[0], &[0x41, 0], &[0xff, 0xff, 0xff]] {
        let mut i = input[..k].to_vec();
        i.extend_from_slice(t);
        let mut c = Cursor::new(&i);
        match guard(|| DeviceSQLString::read(&mut c)) {
            Ok(Ok(w)) if w == v && c.position() as usize == k => (),
            r => rec.fail("trailer", format!("{} followed by {} decodes differently: {r:?} consumed {}", hex(&input[..k]), hex(t), c.position())),
        }
    }
}

/// Source file and line of a panic message, for the violation key (line numbers left out).
pub fn place(p: &str) -> String {
    let at = p.rsplit(" at ").next().unwrap_or("");
    let f = at.rsplit('/').next().unwrap_or("");
    f.split(':').next().unwrap_or("").to_string()
}

pub fn c02(ctx: &mut Ctx) {
    ctx.rule = "a case is one byte sequence; non-trivial (counted) when it decodes as a string, in which case re-encoding, display, conversion and independence from trailing bytes are checked".into();
    let quick = ctx.quick();
    ctx.bound("every byte sequence of length 0..=3");
    ctx.par("all-3", 1 + 256 + 65536, |i, rec| {
        if i == 0 {
            check_bytes(rec, &[]);
            rec.count("evaluations", 1);
        } else if i < 257 {
            check_bytes(rec, &[(i - 1) as u8]);
            rec.count("evaluations", 1);
        } else {
            let a = ((i - 257) >> 8) as u8;
            let b = (i - 257) as u8;
            check_bytes(rec, &[a, b]);
            for c in 0..=255u8 {
                check_bytes(rec, &[a, b, c]);
            }
            rec.count("evaluations", 257);
        }
    });
    // long form: flags x length x padding x body
    let body_max = ctx.pick(5usize, 7);
    const SYM: [u8; 7] = [0x00, 0x03, 0x41, 0x4e, 0x80, 0xd8, 0xdc];
    ctx.bound(format!("long form: all 128 flag bytes x lengths 0..=24 and boundary lengths x padding bytes x fixed bodies; flags 0x40/0x90 x lengths 4..=13 x all bodies up to {body_max} bytes over 7 symbols"));
    ctx.par("long-header", 128, |i, rec| {
        let flags = (i * 2) as u8;
        let bodies: Vec<Vec<u8>> = vec![
            vec![],
            vec![0x41; 40],
            vec![0x03; 40],
            [vec![3], vec![0x41; 12], vec![0], vec![0x42; 10]].concat(),
            [vec![3, 0], vec![0x42; 10]].concat(),
            vec![0; 40],
            vec![0xff; 300],
            [vec![3], vec![0x80; 12], vec![0], vec![0x42; 10]].concat(),
        ];
        for len in (0..=24u16).chain([0x7f, 0x80, 0xff, 0x100, 0x104, 0x7fff, 0x8000, 0xfffe, 0xffff]) {
            for pad in [0u8, 1, 0x80, 0xff] {
                for b in &bodies {
                    let mut v = vec![flags];
                    v.extend_from_slice(&len.to_le_bytes());
                    v.push(pad);
                    v.extend_from_slice(b);
                    check_bytes(rec, &v);
                    rec.count("evaluations", 1);
                }
            }
        }
        rec.sample(|| format!("flags {flags:#x} with lengths 0..=24 and boundaries"));
    });
    ctx.par("long-bodies", 2 * 10 * 7, |i, rec| {
        let flags = if i % 2 == 0 { 0x40u8 } else { 0x90 };
        let len = 4 + (i / 2 % 10) as u16;
        let first = SYM[(i / 20) as usize];
        let mut stack = vec![vec![first]];
        while let Some(b) = stack.pop() {
            let mut v = vec![flags];
            v.extend_from_slice(&len.to_le_bytes());
            v.push(0);
            v.extend_from_slice(&b);
            check_bytes(rec, &v);
            v.extend_from_slice(&[0x20, 0x01, 0x00, 0x31]);
            check_bytes(rec, &v);
            rec.count("evaluations", 2);
            if b.len() < body_max {
                for s in SYM {
                    let mut c = b.clone();
                    c.push(s);
                    stack.push(c);
                }
            }
        }
    });
    // every length field, with as many bytes as it asks for, one less and some more
    ctx.bound(format!("every {} length field x both long encodings x 3 bodies x body one byte short, exact and longer", ctx.pick("length up to 2000, boundary and 61st", "16-bit")));
    ctx.par("length-fields", 1024, |i, rec| {
        for len in i * 64..(i + 1) * 64 {
            if quick && len > 2000 && len % 61 != 0 && !(8..=16).any(|k| (len as i64 - (1i64 << k)).abs() <= 6) {
                continue;
            }
            for flags in [0x40u8, 0x90] {
                for unit in [[0x41u8, 0x42], [0xe9, 0x00], [0x03, 0x4e]] {
                    let n = (len as usize).saturating_sub(4);
                    for n in [n.saturating_sub(1), n, n + 3] {
                        let mut v = vec![flags];
                        v.extend_from_slice(&(len as u16).to_le_bytes());
                        v.push(0);
                        v.extend((0..n).map(|k| unit[k % 2]));
                        check_bytes(rec, &v);
                        rec.count("evaluations", 1);
                    }
                }
            }
        }
    });
    // short form: every header with every content byte in first/last position
    ctx.bound("short form: all 128 headers x all values of the first and last content byte");
    ctx.par("short", 128, |i, rec| {
        let h = (i * 2 + 1) as u8;
        let n = (h >> 1).saturating_sub(1) as usize;
        for x in 0..=255u8 {
            let mut v = vec![h];
            v.extend(std::iter::repeat_n(0x61, n));
            if n > 0 {
                v[1] = x;
            }
            check_bytes(rec, &v);
            if n > 1 {
                v[1] = 0x61;
                v[n] = x;
                check_bytes(rec, &v);
                check_bytes(rec, &v[..n]);
            }
            rec.count("evaluations", 3);
        }
    });
}
