//! Chunk decoding against the format's description: what each code takes, what it yields and what it does to the directory path.
use crate::rt::*;
use crate::chunk::*;

/// what a chunk is: kind, consumed bytes, data range, key, reference range, segment, pushed directory, pops
struct Want { kind: ChunkType, used: usize, data: Option<(usize, usize)>, key: Option<u16>, long: Option<(usize, usize)>, seg: Option<u8>, push: Option<usize>, pop: bool }
fn two(a: u8, b: u8) -> usize { 128 + (a as usize & 3) * 256 + b as usize }
fn be(a: u8, b: u8) -> usize { a as usize * 256 + b as usize }
/// the sizes after the code byte are read through `len`, which keeps them small
fn want(c: u8, b: &[u8]) -> Option<Want> {
    let w = |kind, used| Want { kind, used, data: None, key: None, long: None, seg: None, push: None, pop: false };
    let simple = |from: usize, n: usize, used: usize| Some(Want { data: Some((from, n)), ..w(ChunkType::DataSimple, used) });
    let small = |c: u8| match c { 1 => 1, 2 => 2, 3 => 4, 4 => 6, _ => 8 };
    match c {
        0x00 => simple(1, 0, 2),
        0x01..=0x05 => { let n = small(c); Some(Want { data: Some((2, n)), key: Some(b[1] as u16), ..w(ChunkType::RefSimple, 2 + n) }) }
        0x06 => { let n = b[2] as usize; Some(Want { data: Some((3, n)), key: Some(b[1] as u16), ..w(ChunkType::RefSimple, 3 + n) }) }
        0x07 => { let n = be(b[2], b[3]); Some(Want { data: Some((4, n)), seg: Some(b[1]), ..w(ChunkType::DataSegment, 4 + n) }) }
        0x08 => simple(1, 2, 3),
        0x09..=0x0d => { let n = small(c - 8); Some(Want { data: Some((3, n)), key: Some(two(b[1], b[2]) as u16), ..w(ChunkType::RefSimple, 3 + n) }) }
        0x0e => if b[1] == 0xff { simple(1, 6, 7) } else { let n = b[3] as usize; Some(Want { data: Some((4, n)), key: Some(two(b[1], b[2]) as u16), ..w(ChunkType::RefSimple, 4 + n) }) },
        0x0f => if b[1] == 0x80 { let n = be(b[3], b[4]); Some(Want { data: Some((5, n)), seg: Some(b[2]), ..w(ChunkType::DataSegment, 5 + n) }) } else { None },
        0x10 => simple(1, 3, 4),
        0x11..=0x15 => { let n = 3 + small(c - 0x10); simple(1, n, 1 + n) }
        0x16 => { let n = b[4] as usize; Some(Want { long: Some((1, 3)), data: Some((5, n)), ..w(ChunkType::RefLong, 5 + n) }) }
        0x17 => { let n = be(b[4], b[5]); Some(Want { long: Some((1, 3)), data: Some((6, n)), ..w(ChunkType::RefLong, 6 + n) }) }
        0x1b if b[1] == 0 => Some(Want { data: Some((3, 4)), key: Some(b[2] as u16), ..w(ChunkType::RefSimple, 7) }),
        0x19..=0x1d => { let n = b[1] as usize; simple(2, n, 2 + n + match c { 0x19 => 1, 0x1a => 2, 0x1b => 4, 0x1c => 6, _ => 8 }) }
        0x1e => { let r = b[1] as usize; let n = b[2 + r] as usize; Some(Want { long: Some((2, r)), data: Some((3 + r, n)), ..w(ChunkType::RefLong, 3 + r + n) }) }
        0x1f => { let r = b[1] as usize; let n = be(b[2 + r], b[3 + r]); Some(Want { long: Some((2, r)), data: Some((4 + r, n)), ..w(ChunkType::RefLong, 4 + r + n) }) }
        0x20 => if b[1] == 0xfe { Some(Want { data: Some((2, 8)), push: Some(b[2] as usize), ..w(ChunkType::PathPush, 10) }) } else { Some(Want { data: Some((1, 1)), push: Some(b[1] as usize), ..w(ChunkType::PathPush, 2) }) },
        0x23 => { let n = b[1] as usize; simple(2, n, 2 + n) }
        0x28 => Some(Want { data: Some((1, 2)), push: Some(two(b[1], b[2])), ..w(ChunkType::PathPush, 3) }),
        0x30 => Some(Want { data: Some((1, 3)), push: Some((b[1] as usize & 15) * 65536 + be(b[2], b[3])), ..w(ChunkType::PathPush, 4) }),
        0x38 => { let n = b[1] as usize; Some(Want { data: Some((2, 2)), push: Some(two(b[2], b[3])), ..w(ChunkType::PathPush, 2 + n) }) }
        0x3d | 0x40 => Some(Want { pop: true, ..w(ChunkType::PathPop, 1) }),
        0x80 => Some(w(ChunkType::Noop, 1)),
        _ => None,
    }
}
fn inside(part: Option<&[u8]>, whole: &[u8], at: usize, want: Option<(usize, usize)>, m: &str) {
    match (part, want) {
        (None, None) => {}
        (Some(p), Some((from, n))) => {
            check(p.len() == n, m);
            for i in 0..n { check(p[i] == whole[at + from + i], m); }
        }
        _ => fail(m),
    }
}
/// decode the chunk with the given code byte at some place in a buffer of arbitrary bytes
fn decide(raw: u8, max: usize) {
    let at = choose(2) * 3;
    let mut buf = bytes(at);
    buf.push(raw);
    let n = 24;
    let rest = bytes(n);
    buf.extend_from_slice(&rest);
    // the two top bits of a code close the current directory as well
    let delayed = raw & 0xc0 == 0xc0;
    let code = if delayed { raw & 0x3f } else { raw };
    // bound the sizes the chunk states
    let b = buf[at..].to_vec();
    let small = |x: u8| { assume((x as usize) <= max); };
    match code {
        0x06 => small(b[2]),
        0x07 => { assume(b[2] == 0); small(b[3]) }
        0x0e if b[1] != 0xff => small(b[3]),
        0x0f if b[1] == 0x80 => { assume(b[3] == 0); small(b[4]) }
        0x16 => small(b[4]),
        0x17 => { assume(b[4] == 0); small(b[5]) }
        0x19..=0x1d | 0x23 | 0x38 => small(b[1]),
        0x1e => { small(b[1]); let r = split(b[1] as usize); small(b[2 + r]) }
        0x1f => { small(b[1]); let r = split(b[1] as usize); assume(b[2 + r] == 0); small(b[3 + r]) }
        _ => {}
    }
    judge(&buf, at, code, delayed);
}
/// the chunk at the given place is decoded as the format describes it
fn judge(buf: &Vec<u8>, at: usize, code: u8, delayed: bool) {
    let b = buf[at..].to_vec();
    let w = want(code, &b);
    let mut path: Vec<String> = vec!["7".to_string(), "130".to_string()];
    let mut off = at;
    let start = at;
    let r = get_chunk_from_code(buf, &mut off, &mut path, start);
    match (r, w) {
        (Err(_), None) => { check(path == vec!["7".to_string(), "130".to_string()], "a refused chunk changed the path"); }
        (Ok(c), Some(w)) => {
            check(c.ctype == w.kind, "a chunk is of another kind");
            check(off == at + w.used, "a chunk takes another number of bytes");
            check(c.code == code as u16, "a chunk reports another code");
            inside(c.data, buf, at, w.data, "a chunk's data are other bytes");
            inside(c.ref_data, buf, at, w.long, "a chunk's key is other bytes");
            check(c.ref_simple == w.key, "a chunk has another key");
            check(c.segment_idx == w.seg, "a chunk has another segment number");
            let mut p = vec!["7".to_string(), "130".to_string()];
            if let Some(d) = w.push { p.push(d.to_string()); }
            if w.pop { p.pop(); }
            if delayed { p.pop(); }
            check(path == p, "a chunk changes the path differently");
            check(c.path == p, "a chunk reports another path");
        }
        (Ok(_), None) => fail("a chunk with a code the format does not have was accepted"),
        (Err(_), Some(_)) => fail("a chunk of the format was refused"),
    }
    witness("end");
}
#[no_mangle]
pub extern "C" fn h_all() { let c = choose(256) as u8; decide(c, param(0)); }

/// data of any stated length, one or two bytes long, and keys of any stated length
#[no_mangle]
pub extern "C" fn h_long() {
    const CODES: [u8; 14] = [0x06, 0x07, 0x0e, 0x0f, 0x16, 0x17, 0x19, 0x1a, 0x1b, 0x1c, 0x1d, 0x23, 0x1e, 0x1f];
    let code = CODES[choose(CODES.len())];
    let delayed = flag();
    let wide = [0x07, 0x0f, 0x17, 0x1f].contains(&code);
    let n = if wide { [4usize, 127, 255, 256, 258, 515, 1500, 2050][choose(8)] } else { [4usize, 63, 64, 127, 128, 129, 200, 255][choose(8)] };
    let r = if code == 0x1e || code == 0x1f { [1usize, 5, 127, 128, 255][choose(5)] } else { 0 };
    let at = [0, 300][choose(2)];
    let mut buf = vec![0x80u8; at];
    buf.push(if delayed { code | 0xc0 } else { code });
    let len: Vec<u8> = if wide { vec![(n >> 8) as u8, n as u8] } else { vec![n as u8] };
    let any = |b: &mut Vec<u8>, k: usize| for _ in 0..k { b.push(byte()); };
    match code {
        0x06 | 0x07 => any(&mut buf, 1),
        0x0e => { let h = byte(); assume(h != 0xff); buf.push(h); any(&mut buf, 1); }
        0x0f => { buf.push(0x80); any(&mut buf, 1); }
        0x16 | 0x17 => any(&mut buf, 3),
        0x1e | 0x1f => { buf.push(r as u8); any(&mut buf, 1); for i in 1..r { buf.push(i as u8); } }
        _ => {}
    }
    buf.extend_from_slice(&len);
    any(&mut buf, 1);
    for i in 1..n - 1 { buf.push((i * 29 + i / 256) as u8); }
    any(&mut buf, 1);
    for i in 0..300 { buf.push(0x21 + (i % 7) as u8); }
    judge(&buf, at, code, delayed);
}
