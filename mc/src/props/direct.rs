use super::*;
use crate::grammar::{classify, Class};
use bytes::{Bytes, BytesMut};
use roster::application::server::frame::{Error, Frame};
use std::io::Cursor;

// ---------------------------------------------------------------- P06
pub const P06_RULE: &str = "every string of up to n protocol tokens, every short byte string, every frame tree of a bounded size with all its prefixes and single-byte mutations, a catalogue of absurd lengths and nestings; an input is non-trivial when it is not rejected at its first byte";

fn to_v(f: &Frame) -> V {
    match f {
        Frame::Simple(s) => V::Simple(s.as_bytes().to_vec()),
        Frame::Error(s) => V::Err(s.as_bytes().to_vec()),
        Frame::Integer(n) => V::Int(*n as i128),
        Frame::Bulk(b) => V::Bulk(b.to_vec()),
        Frame::Null => V::Null,
        Frame::Array(a) => V::Array(a.iter().map(to_v).collect()),
        Frame::Map(m) => V::Map(m.iter().map(|(k, v)| (to_v(k), to_v(v))).collect()),
    }
}
/// A map as the parser keeps it: of equal keys the last value counts.
fn canon(v: &V) -> V {
    match v {
        V::Array(a) => V::Array(a.iter().map(canon).collect()),
        V::Map(m) => {
            let mut o: Vec<(V, V)> = vec![];
            // keys that are maps are equal when they hold the same pairs
            let mut at: std::collections::HashMap<Vec<u8>, usize> = Default::default();
            for (k, x) in m {
                let (k, x) = (canon(k), canon(x));
                match at.entry(ident(&k)) {
                    std::collections::hash_map::Entry::Occupied(i) => o[*i.get()].1 = x,
                    std::collections::hash_map::Entry::Vacant(i) => {
                        i.insert(o.len());
                        o.push((k, x));
                    }
                }
            }
            V::Map(o)
        }
        v => v.clone(),
    }
}
/// Two values are equal if and only if these bytes are: the encoding, with the
/// pairs of maps in a fixed order.
fn ident(v: &V) -> Vec<u8> {
    let mut o = vec![];
    match v {
        V::Array(a) => {
            o.extend(format!("*{}\r\n", a.len()).bytes());
            a.iter().for_each(|x| o.extend(ident(x)));
        }
        V::Map(m) => {
            let mut p: Vec<Vec<u8>> = m.iter().map(|(k, x)| [ident(k), ident(x)].concat()).collect();
            p.sort();
            o.extend(format!("%{}\r\n", m.len()).bytes());
            p.iter().for_each(|x| o.extend(x));
        }
        v => encode(v, &mut o),
    }
    o
}
fn same(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::Array(x), V::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same(p, q)),
        (V::Map(x), V::Map(y)) => x.len() == y.len() && (x.iter().zip(y).all(|((k, v), (l, w))| same(k, l) && same(v, w)) || x.iter().all(|(k, v)| y.iter().any(|(l, w)| same(k, l) && same(v, w)))),
        (a, b) => a == b,
    }
}
/// The checker and the parser against the grammar on one input.
pub fn frame_case(b: &[u8]) -> Result<(bool, u64), Fail> {
    let cls = classify(b);
    let buf = BytesMut::from(b);
    let mut c = Cursor::new(&buf);
    let r = Frame::check(&mut c);
    let pos = c.position() as usize;
    let s = |w: &str| fail("disagrees", format!("{w}; the grammar says {cls:?}"));
    let got = match &r {
        Ok(()) => format!("check takes {pos} bytes"),
        Err(Error::Incomplete) => "check says incomplete".into(),
        Err(e) => format!("check says error ({e})"),
    };
    match (&cls, &r) {
        (Class::Complete(_, n), Ok(())) if *n == pos => {}
        (Class::Prefix, Err(Error::Incomplete)) => {}
        (Class::Open, Err(_)) => {}
        (Class::Bad, Err(Error::Other(_))) => {}
        (Class::Loose(_), _) => {}
        _ => return s(&got),
    }
    if r.is_ok() {
        for whole in [false, true] {
            if whole && b.len() == pos {
                continue;
            }
            let mut p = Cursor::new(Bytes::copy_from_slice(if whole { b } else { &b[..pos] }));
            let f = Frame::parse(&mut p);
            let at = p.position() as usize;
            match (&cls, f) {
                (Class::Complete(v, n), Ok(f)) => {
                    if at != *n {
                        return s(&format!("parse takes {at} bytes"));
                    }
                    if !same(&to_v(&f), &canon(v)) {
                        return s(&format!("parse yields {}", resp::show(&to_v(&f))));
                    }
                }
                (Class::Complete(..), Err(e)) => return s(&format!("parse fails: {e}")),
                (_, Ok(_)) if at != pos => return s(&format!("check takes {pos} bytes and parse {at}")),
                _ => {}
            }
        }
    }
    let k = match &cls {
        Class::Complete(_, n) => 1 + (*n as u64) * 8 + b[0] as u64 * 4096,
        Class::Prefix => 2,
        Class::Open => 3,
        Class::Bad => 4,
        Class::Loose(_) => 5,
    };
    Ok((!(b.is_empty() || (matches!(cls, Class::Bad) && !b"+-:$*%".contains(&b[0]))), k))
}
fn direct(name: &str, count: u64, chunk: u64, guard: u64, get: impl Fn(u64) -> Vec<u8> + Clone + 'static) -> Job {
    let g = get.clone();
    Job::Direct(Direct {
        name: name.into(),
        count,
        chunk,
        f: Box::new(move |i| frame_case(&get(i))),
        show: Box::new(move |i| resp::lossy(&g(i))),
        guard,
        secs: 15,
    })
}
fn strings(tokens: Vec<Vec<u8>>, depth: usize) -> (u64, impl Fn(u64) -> Vec<u8> + Clone) {
    let n = seq_count(tokens.len(), depth) as u64;
    (n, move |i: u64| {
        let mut o = vec![];
        for d in seq_at(i as usize, tokens.len()) {
            o.extend_from_slice(&tokens[d]);
        }
        o
    })
}
fn encode(v: &V, o: &mut Vec<u8>) {
    match v {
        V::Simple(b) | V::Err(b) => {
            o.push(if matches!(v, V::Simple(_)) { b'+' } else { b'-' });
            o.extend_from_slice(b);
            o.extend(b"\r\n");
        }
        V::Int(i) => o.extend(format!(":{i}\r\n").bytes()),
        V::Bulk(b) => o.extend(resp::bulk(b)),
        V::Null => o.extend(b"$-1\r\n"),
        V::Array(a) => {
            o.extend(format!("*{}\r\n", a.len()).bytes());
            a.iter().for_each(|x| encode(x, o));
        }
        V::Map(m) => {
            o.extend(format!("%{}\r\n", m.len()).bytes());
            m.iter().for_each(|(k, x)| {
                encode(k, o);
                encode(x, o)
            });
        }
    }
}
fn trees(leaves: &[V], level: usize) -> Vec<V> {
    let mut cur = leaves.to_vec();
    for _ in 0..level {
        let mut next = leaves.to_vec();
        next.push(V::Array(vec![]));
        next.push(V::Map(vec![]));
        for a in &cur {
            next.push(V::Array(vec![a.clone()]));
            for b in &cur {
                next.push(V::Array(vec![a.clone(), b.clone()]));
                next.push(V::Map(vec![(a.clone(), b.clone())]));
            }
        }
        cur = next;
    }
    cur
}
fn leaves() -> Vec<V> {
    let b = |s: &[u8]| s.to_vec();
    vec![
        V::Simple(b(b"")), V::Simple(b("é".as_bytes())), V::Err(b(b"E")), V::Int(0), V::Int(u64::MAX as i128), V::Null,
        V::Bulk(b(b"")), V::Bulk(b(b"\r\n")), V::Bulk(b(b"\xff$1\r\n")),
    ]
}
pub fn p06(t: Tier) -> Vec<Job> {
    let g = t.pick(80, 3000);
    let mut v = vec![];
    let tok: Vec<Vec<u8>> = [&b"+"[..], b"-", b":", b"$", b"*", b"%", b"0", b"1", b"2", b"-1", b"\r\n", b"\r", b"\n", b"a", b"ab\r\n", b"\xff", b"18446744073709551615", b"9223372036854775808"].iter().map(|b| b.to_vec()).collect();
    let (n, f) = strings(tok, t.pick(6, 7));
    v.push(direct("token-strings", n, 512, g, f));
    let (n, f) = strings(["*1\r\n", "*2\r\n", "*0\r\n", "%1\r\n", "%0\r\n", "$1\r\n", "$0\r\n", "$-1\r\n", "\r\n", "a\r\n", "+x\r\n", ":3\r\n", "$2\r\n"].iter().map(|s| s.as_bytes().to_vec()).collect(), t.pick(6, 8));
    v.push(direct("line-strings", n, 512, g, f));
    let (n, f) = strings((0..=255u8).map(|b| vec![b]).collect(), t.pick(2, 3));
    v.push(direct("short-strings", n, 4096, g, f));
    let (n, f) = strings(b"+-:$*%012\r\na".iter().map(|b| vec![*b]).collect(), t.pick(7, 8));
    v.push(direct("byte-strings", n, 4096, g, f));
    // frame trees
    let ts = std::rc::Rc::new(trees(&leaves()[..t.pick(7, 9)], 2));
    let enc = |v: &V| {
        let mut o = vec![];
        encode(v, &mut o);
        o
    };
    let t2 = ts.clone();
    let t3 = ts.clone();
    v.push(Job::Direct(Direct {
        name: "frame-trees".into(),
        count: ts.len() as u64,
        chunk: 16,
        f: Box::new(move |i| {
            let b = enc(&ts[i as usize]);
            match classify(&b) {
                Class::Complete(v, n) if v == ts[i as usize] && n == b.len() => {}
                c => return fail("oracle", format!("the reference grammar disagrees with the encoder: {c:?}")),
            }
            let mut h = 0u64;
            for j in 0..b.len() {
                h = frame_case(&b[..j])?.1 ^ h.wrapping_mul(3);
            }
            let r = frame_case(&b)?;
            frame_case(&[&b[..], b"*"].concat())?;
            frame_case(&[&b[..], b"\xff\r\n"].concat())?;
            Ok((true, r.1 ^ h))
        }),
        show: Box::new(move |i| resp::show(&t2[i as usize])),
        guard: g,
        secs: 15,
    }));
    // the server's own encoder is the inverse of its parser, too, and every
    // single-byte change of an encoded frame is judged as the grammar does
    let nt = t3.len().min(t.pick(2000, 6000));
    let step = t3.len() / nt;
    let vals: Vec<u8> = t.pick(b"\x00\r\n019-+:*$%a\xff".to_vec(), (0..=255).collect());
    let t4 = t3.clone();
    v.push(Job::Direct(Direct {
        name: "mutations".into(),
        count: nt as u64,
        chunk: 4,
        f: Box::new(move |i| {
            let b = enc(&t3[i as usize * step]);
            let mut h = 0u64;
            for j in 0..b.len() {
                for x in &vals {
                    let mut m = b.clone();
                    m[j] = *x;
                    h = frame_case(&m)?.1 ^ h.wrapping_mul(3);
                }
                let mut m = b.clone();
                m.remove(j);
                frame_case(&m)?;
                let mut m = b.clone();
                m.insert(j, b[j]);
                frame_case(&m)?;
            }
            Ok((true, h))
        }),
        show: Box::new(move |i| resp::show(&t4[i as usize * step])),
        guard: g,
        secs: 15,
    }));
    // sizes
    let top = t.pick(2000u64, 20000);
    v.push(direct("bulk-sizes", top, 16, g, |i| resp::bulk(&vec![b'v'; i as usize])));
    v.push(direct("array-sizes", top, 16, g, |i| {
        let mut o = format!("*{i}\r\n").into_bytes();
        for _ in 0..i {
            o.extend(b":1\r\n");
        }
        o
    }));
    v.push(direct("map-sizes", top.min(3000), 16, g, |i| {
        let mut o = format!("%{i}\r\n").into_bytes();
        for j in 0..i {
            o.extend(format!(":{j}\r\n+v\r\n").bytes());
        }
        o
    }));
    // large frames, whole and unfinished
    let mut big: Vec<usize> = vec![];
    for b in [4096usize, 8192, 16384, 32768, 65536, 131072, 1 << 20, 1 << 24] {
        big.extend([b - 3, b - 2, b - 1, b, b + 1, b + 2]);
    }
    big.extend([9_999, 10_000, 99_999, 100_000, 999_999, 1_000_000]);
    v.push(direct("large-frames", big.len() as u64 * 15, 1, g, move |i| {
        let (n, k) = (big[i as usize / 15], i % 15);
        let mut o = match k / 3 {
            0 => resp::bulk(&vec![b'v'; n]),
            1 => [b"+", &vec![b's'; n][..], b"\r\n"].concat(),
            2 => {
                let n = n.min((1 << 20) + 2);
                [format!("*{n}\r\n").as_bytes(), &b"$-1\r\n".repeat(n)].concat()
            }
            3 => {
                let n = n.min((1 << 20) + 2);
                let mut o = format!("%{n}\r\n").into_bytes();
                for j in 0..n {
                    o.extend(format!(":{j}\r\n$-1\r\n").bytes());
                }
                o
            }
            _ => [b"*2\r\n", &resp::bulk(&vec![b'\r'; n])[..], b":1\r\n"].concat(),
        };
        match k % 3 {
            1 => o.truncate(o.len() - 1),
            2 => o.extend(b"$"),
            _ => {}
        }
        o
    }));
    // maps with many keys of one kind: each key is a small frame with a number
    // in one place
    let shapes: Vec<(&str, &str)> = vec![
        (":", "\r\n"), ("+", "\r\n"), ("-", "\r\n"), ("$8\r\n", "\r\n"), ("*1\r\n:", "\r\n"), ("*2\r\n$-1\r\n:", "\r\n"), ("%1\r\n:", "\r\n:1\r\n"), ("%1\r\n:1\r\n:", "\r\n"),
        ("%1\r\n$8\r\n", "\r\n$-1\r\n"), ("%2\r\n:1\r\n:2\r\n+a\r\n+", "\r\n"), ("%2\r\n+a\r\n$8\r\n", "\r\n:1\r\n:2\r\n"), ("*1\r\n%1\r\n:", "\r\n:1\r\n"), ("*1\r\n%1\r\n:1\r\n:", "\r\n"),
        ("%1\r\n*1\r\n:", "\r\n:1\r\n"), ("%1\r\n%1\r\n:", "\r\n:1\r\n:1\r\n"), ("%1\r\n:1\r\n%1\r\n:1\r\n:", "\r\n"), ("%1\r\n$-1\r\n*1\r\n-", "\r\n"),
    ];
    // how the number varies: counting, counting with every key twice, in steps
    // that leave the low bits alone
    let nk = [1_000u64, t.pick(30_000, 100_000)];
    let ns = shapes.len() as u64;
    v.push(direct("many-keys", ns * 3 * 2, 1, g, move |i| {
        let ((pre, post), n, how) = (shapes[(i % ns) as usize], nk[(i / ns % 2) as usize], i / ns / 2);
        let mut o = format!("%{n}\r\n").into_bytes();
        for j in 0..n {
            let x = match how {
                0 => j,
                1 => j / 2,
                _ => j << 9,
            };
            o.extend(format!("{pre}{:08}{post}:{j}\r\n", x % 100_000_000).bytes());
        }
        o
    }));
    // absurd lengths and nestings, on a thread with a server thread's stack
    let c: Vec<Vec<u8>> = super::proto::catalogue().into_iter().map(|c| c.1).collect();
    let c2 = c.clone();
    v.push(Job::Direct(Direct {
        name: "catalogue".into(),
        count: c.len() as u64,
        chunk: 1,
        f: Box::new(move |i| {
            let b = c[i as usize].clone();
            std::thread::Builder::new().stack_size(2 << 20).spawn(move || frame_case(&b)).unwrap().join().unwrap()
        }),
        show: Box::new(move |i| resp::lossy(&c2[i as usize])),
        guard: g,
        secs: 15,
    }));
    // every pair of a type byte and a length around the boundaries of the number types
    let mut nums: Vec<u128> = vec![];
    for b in [0u128, 1 << 8, 1 << 16, 1 << 31, 1 << 32, 1 << 33, 1 << 62, 1 << 63, 1 << 64, 1 << 65] {
        for d in 0..7 {
            nums.push((b + d).saturating_sub(3));
        }
    }
    let tails = [&b""[..], b"a", b"ab", b"\r", b"\r\n", b"+\r\n+\r\n"];
    let mut cs: Vec<Vec<u8>> = vec![];
    for ty in b"$*%:" {
        for outer in ["", "*1\r\n", "*2\r\n+a\r\n", "%1\r\n"] {
            for n in &nums {
                for tl in tails {
                    cs.push([outer.as_bytes(), &[*ty], n.to_string().as_bytes(), b"\r\n", tl].concat());
                }
            }
        }
    }
    v.push(direct("lengths", cs.len() as u64, 8, g, move |i| cs[i as usize].clone()));
    v
}

// ---------------------------------------------------------------- P13
pub const P13_RULE: &str = "every byte string up to the bound and long strings of every length against a bitwise CRC16; every number of parts up to the bound";

/// CRC16/XMODEM bit by bit
pub fn crc_ref(b: &[u8]) -> u16 {
    let mut c = 0u16;
    for x in b {
        c ^= (*x as u16) << 8;
        for _ in 0..8 {
            c = if c & 0x8000 != 0 { c << 1 ^ 0x1021 } else { c << 1 };
        }
    }
    c
}
fn crc_case(b: &[u8]) -> Result<(bool, u64), Fail> {
    let want = crc_ref(b) % 16384;
    let got = roster::infrastructure::hash::crc_hash(b);
    if want != got {
        return fail("slot", format!("slot {got} instead of {want}"));
    }
    Ok((!b.is_empty(), want as u64 % 1024 + 1))
}
fn parts_case(n: u16) -> Result<(bool, u64), Fail> {
    use roster::domain::{dialer::Slot, storage::Storage};
    let st = Storage::new(n, Slot::from(0..16384));
    let slots = st.slots();
    if slots.len() != n as usize {
        return fail("parts", format!("{} parts instead of {n}", slots.len()));
    }
    let mut at = 0u16;
    for (i, s) in slots.iter().enumerate() {
        if s.start != at || s.end < s.start {
            return fail("parts", format!("part {i} of {n} is {}..{} and not adjacent to {at}", s.start, s.end));
        }
        at = s.end;
    }
    if at != 16384 {
        return fail("parts", format!("{n} parts end at {at}"));
    }
    let m = n as usize;
    for i in (0..m.min(300)).chain([m, m + 1, 2 * m - 1, 2 * m, 3 * m + 1, 65535]) {
        if i > 65535 {
            continue;
        }
        let (s, seg) = st.part(i as u16);
        if s.start != slots[i % m].start || s.end != slots[i % m].end {
            return fail("parts", format!("part({i}) of {n} is {}..{}", s.start, s.end));
        }
        for k in [s.start, s.end.wrapping_sub(1), s.end, 0, 16383] {
            if seg.is_in_slot(k) != (k >= s.start && k < s.end) {
                return fail("parts", format!("the segment of part {i} of {n} answers wrongly for slot {k}"));
            }
        }
    }
    Ok((true, n as u64))
}
pub fn p13(t: Tier) -> Vec<Job> {
    let g = t.pick(500, 3000);
    let mut v = vec![];
    let mk = |name: &str, count: u64, chunk: u64, get: Box<dyn Fn(u64) -> Vec<u8>>| {
        let g2 = std::rc::Rc::new(get);
        let g3 = g2.clone();
        Job::Direct(Direct { name: name.into(), count, chunk, f: Box::new(move |i| crc_case(&g2(i))), show: Box::new(move |i| resp::lossy(&g3(i))), guard: g, secs: 15 })
    };
    v.push(mk("empty", 1, 1, Box::new(|_| vec![])));
    let d = t.pick(2, 3);
    v.push(mk("short", seq_count(256, d) as u64, 4096, Box::new(move |i| seq_at(i as usize, 256).into_iter().map(|d| d as u8).collect())));
    // CRC is linear: single set bits and byte pairs in long strings of every length
    let top = t.pick(300u64, 2000);
    v.push(mk("lengths", top * 8, 16, Box::new(move |i| {
        let n = (i / 8 + 1) as usize;
        (0..n).map(|j| match i % 8 {
            0 => 0,
            1 => 0xff,
            2 => (j == 0) as u8,
            3 => (j == n - 1) as u8 * 0x80,
            4 => (j as u8).wrapping_mul(31),
            5 => b'a' + (j % 26) as u8,
            6 => ((j as u32).wrapping_mul(2654435761) >> 24) as u8,
            _ => (j == n / 2) as u8 * 0x10,
        }).collect()
    })));
    let mut long: Vec<usize> = vec![1023, 1025, 4095, 4096, 4097, 8192, 8193, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 100_000, 131_072, 131_073, (1 << 20) + 1, (1 << 24) + 1];
    if t.deep() {
        long.extend(2000..6000);
    }
    v.push(mk("long-keys", long.len() as u64 * 4, 1, Box::new(move |i| {
        let n = long[i as usize / 4];
        (0..n).map(|j| match i % 4 {
            0 => (j == n - 1) as u8,
            1 => (j == 0) as u8,
            2 => b'a' + (j % 26) as u8,
            _ => ((j as u32).wrapping_mul(2654435761) >> 24) as u8,
        }).collect()
    })));
    v.push(mk("bits", 64 * 64 * 8, 256, Box::new(|i| {
        let n = (i / 8 / 64 + 1) as usize;
        let mut b = vec![0u8; n];
        b[(i / 8 % 64) as usize % n] = 1 << (i % 8);
        b
    })));
    v.push(mk("keys", t.pick(200_000, 3_000_000), 1024, Box::new(|i| match i % 3 {
        0 => format!("key:{}", i / 3).into_bytes(),
        1 => format!("{{user{}}}.following", i / 3).into_bytes(),
        _ => (i / 3).to_string().into_bytes(),
    })));
    // the largest first: the workers finish together
    let mut ns: Vec<u16> = t.pick(vec![256, 255, 200, 192], vec![2048, 1024, 1000, 777, 513, 512, 511]);
    ns.extend((1..=t.pick(160, 400)).rev());
    let n2 = ns.clone();
    v.push(Job::Direct(Direct {
        name: "parts".into(),
        count: ns.len() as u64,
        chunk: 1,
        f: Box::new(move |i| parts_case(ns[i as usize])),
        show: Box::new(move |i| format!("{} parts", n2[i as usize])),
        guard: g,
        secs: 60,
    }));
    v
}

// ---------------------------------------------------------------- P15
pub const P15_RULE: &str = "every combination of file and environment settings from a list of valid, invalid and missing values, with unrelated variables; non-trivial when a file is read";

const FILE_BIND: &[Option<&str>] = &[None, Some("\"127.0.0.1:6379\""), Some("\"[::1]:7000\""), Some("\"bad\""), Some("\"127.0.0.1\""), Some("\"127.0.0.1:70000\""), Some("\"\""), Some("\"127.0.0.1:0\""), Some("\"[fe80::1]:65535\"")];
const FILE_MAX: &[Option<&str>] = &[None, Some("1"), Some("0"), Some("200"), Some("65535"), Some("65536"), Some("-1"), Some("\"abc\"")];
const ENV_BIND: &[Option<&str>] = &[None, Some("1.2.3.4:5"), Some("[::]:99"), Some("bad"), Some("10.0.0.1"), Some(""), Some("0.0.0.0:0"), Some("255.255.255.255:65535")];
const ENV_MAX: &[Option<&str>] = &[None, Some("0"), Some("1"), Some("7"), Some("65535"), Some("65536"), Some("-1"), Some("abc"), Some("")];
const OTHER: &[&[(&str, &str)]] = &[&[], &[("ROSTER_FOO", "1")], &[("ROSTER_BIND", "9.9.9.9:9"), ("ROSTER_ADDR", "9.9.9.9:9"), ("ROSTER_MAX", "9")], &[("BIND_ADDR", "9.9.9.9:9"), ("MAX_CONNECTION", "9")], &[("ROSTERBIND_ADDR", "9.9.9.9:9")]];
/// how the file is there: with extension, without, missing, unset, garbage
const MODE: usize = 6;

fn cfg_show(i: u64) -> String {
    let d = cfg_digits(i);
    format!("file mode {} bind_addr={:?} max_connection={:?}; ROSTER_BIND_ADDR={:?} ROSTER_MAX_CONNECTION={:?} others {:?}", d[0], FILE_BIND[d[1]], FILE_MAX[d[2]], ENV_BIND[d[3]], ENV_MAX[d[4]], OTHER[d[5]])
}
const ODD_BIND: &[&str] = &[
    "127.0.0.1:6379", "[::1]:7000", " 127.0.0.1:6379", "127.0.0.1:6379 ", "127.0.0.1: 6379", "127.0.0.1 :6379", "127.0.0.1:6379\\n", ":6379", "6379", "127.0.0.1:", "127.0.0.1",
    "localhost:6379", "localhost", "*:6379", "*", "::1:6379", "[::1]", "[::1]6379", "[127.0.0.1]:6379", "127.0.0.1:06379", "127.0.0.1:+6379", "127.0.0.1:-1", "127.0.0.1:65536",
    "127.0.0.1:4294973675", "127.0.0.1:18446744073709557995", "127.1:6379", "127.0.0.256:6379", "127.0.0.1.1:6379", "0x7f.0.0.1:6379", "2130706433:6379", "127.0.0.1:6379:1", "127.0.0.1:abc",
    "tcp://127.0.0.1:6379", "127.0.0.1:6379,127.0.0.1:6380", "127.0.0.1/8:6379", "none", "null", "default", "127.0.0.1:6379;", "'127.0.0.1:6379'", "[::ffff:127.0.0.1]:6379", "[::1%1]:7000", "0.0.0.0:6379", "[::]:6379",
];
const ODD_MAX: &[&str] = &[
    "17", " 17", "17 ", "1 7", "17.", "17,000", "17k", "0x11", "1e3", "--17", "-0", "-17", "65536", "65537", "131089", "4294967313", "18446744073709551633", "max", "unlimited", "none", "null", "inf", "nan", "17\\n",
    "00000000017", "+17", "'17'", "65535", "0",
];
/// Every value that is almost one, in the file or in the environment.
fn odd_case(i: u64) -> Result<(bool, u64), Fail> {
    let i = i as usize;
    let (b, m, at) = (i / 4 % ODD_BIND.len(), i / 4 / ODD_BIND.len(), i % 4);
    let un = |s: &str| s.replace("\\n", "\n");
    let (mut file, mut env) = (vec![], vec![]);
    if at & 1 == 0 { file.push(format!("bind_addr = \"{}\"", ODD_BIND[b])) } else { env.push(("ROSTER_BIND_ADDR", un(ODD_BIND[b]))) }
    if at & 2 == 0 { file.push(format!("max_connection = \"{}\"", ODD_MAX[m])) } else { env.push(("ROSTER_MAX_CONNECTION", un(ODD_MAX[m]))) }
    // what they take the place of
    if at & 1 != 0 { file.push("bind_addr = \"9.9.9.9:9\"".into()) }
    if at & 2 != 0 { file.push("max_connection = 999".into()) }
    let dir = std::env::temp_dir().join(format!("mc-cfg-{}", std::process::id()));
    std::fs::create_dir_all(&dir).map_err(|e| ("setup".to_string(), e.to_string()))?;
    clear_settings();
    let f = dir.join("conf.toml");
    std::fs::write(&f, file.join("\n")).map_err(|e| ("setup".to_string(), e.to_string()))?;
    std::env::set_var("CONFIG_FILE_LOCATION", &f);
    for (k, x) in &env {
        std::env::set_var(k, x);
    }
    let got = roster::infrastructure::config::Cfg::from_env();
    let _ = std::fs::remove_file(&f);
    let _ = std::fs::remove_dir(&dir);
    let want = un(ODD_BIND[b]).parse::<std::net::SocketAddr>().ok().zip(un(ODD_MAX[m]).parse::<u16>().ok());
    match (&got, want) {
        (Ok(c), Some((b, m))) if c.bind_addr == b && c.max_connection == m => {}
        (Err(_), None) => {}
        (Ok(c), w) => return fail("config", format!("read as {} limit {}, expected {w:?}", c.bind_addr, c.max_connection)),
        (Err(e), Some(w)) => return fail("config", format!("refused ({e}), expected {w:?}")),
    }
    Ok((want.is_some(), hash_b(format!("{want:?}").as_bytes())))
}
fn odd_show(i: u64) -> String {
    let i = i as usize;
    let w = |x: bool| if x { "environment" } else { "file" };
    format!("bind_addr {:?} in the {}, max_connection {:?} in the {}", ODD_BIND[i / 4 % ODD_BIND.len()], w(i & 1 != 0), ODD_MAX[i / 4 / ODD_BIND.len()], w(i & 2 != 0))
}
fn clear_settings() {
    for (k, _) in std::env::vars_os() {
        let k = k.to_string_lossy().into_owned();
        if k.to_uppercase().starts_with("ROSTER") || k == "CONFIG_FILE_LOCATION" || k == "BIND_ADDR" || k == "MAX_CONNECTION" {
            std::env::remove_var(&k);
        }
    }
}
fn cfg_digits(i: u64) -> [usize; 6] {
    let mut i = i as usize;
    let mut o = [0; 6];
    for (k, n) in [MODE, FILE_BIND.len(), FILE_MAX.len(), ENV_BIND.len(), ENV_MAX.len(), OTHER.len()].into_iter().enumerate() {
        o[k] = i % n;
        i /= n;
    }
    o
}
fn cfg_case(i: u64) -> Result<(bool, u64), Fail> {
    let d = cfg_digits(i);
    let dir = std::env::temp_dir().join(format!("mc-cfg-{}", std::process::id()));
    std::fs::create_dir_all(&dir).map_err(|e| ("setup".to_string(), e.to_string()))?;
    std::env::set_current_dir(&dir).map_err(|e| ("setup".to_string(), e.to_string()))?;
    clear_settings();
    let mut text = String::from("# settings\n");
    if let Some(b) = FILE_BIND[d[1]] {
        text.push_str(&format!("bind_addr = {b}\n"));
    }
    if let Some(m) = FILE_MAX[d[2]] {
        text.push_str(&format!("max_connection = {m}\n"));
    }
    let f = dir.join("conf.toml");
    let loc = match d[0] {
        0 => Some(f.clone()),
        1 => Some(dir.join("conf")),
        2 => Some(dir.join("missing.toml")),
        3 => None,
        4 => {
            text = "this is = = not toml [".into();
            Some(f.clone())
        }
        _ => {
            text.push_str("\n[other]\nbind_addr = \"8.8.8.8:8\"\nunknown = 3\n");
            Some(f.clone())
        }
    };
    std::fs::write(&f, &text).map_err(|e| ("setup".to_string(), e.to_string()))?;
    if let Some(l) = loc {
        std::env::set_var("CONFIG_FILE_LOCATION", l);
    }
    if let Some(x) = ENV_BIND[d[3]] {
        std::env::set_var("ROSTER_BIND_ADDR", x);
    }
    if let Some(x) = ENV_MAX[d[4]] {
        std::env::set_var("ROSTER_MAX_CONNECTION", x);
    }
    for (k, x) in OTHER[d[5]] {
        std::env::set_var(k, x);
    }
    let got = roster::infrastructure::config::Cfg::from_env();
    let _ = std::env::set_current_dir("/");
    let _ = std::fs::remove_file(&f);
    let _ = std::fs::remove_dir(&dir);
    let readable = d[0] < 2 || d[0] == 5;
    let strip = |s: &str| s.trim_matches('"').to_string();
    let bind = ENV_BIND[d[3]].map(|s| s.to_string()).or(FILE_BIND[d[1]].map(strip)).and_then(|s| s.parse::<std::net::SocketAddr>().ok());
    let max = ENV_MAX[d[4]].map(|s| s.to_string()).or(FILE_MAX[d[2]].map(strip)).and_then(|s| s.parse::<u16>().ok());
    let want = if readable { bind.zip(max) } else { None };
    match (&got, want) {
        (Ok(c), Some((b, m))) if c.bind_addr == b && c.max_connection == m => {}
        (Err(_), None) => {}
        (Ok(c), w) => return fail("config", format!("read as {} limit {}, expected {w:?}", c.bind_addr, c.max_connection)),
        (Err(e), Some(w)) => return fail("config", format!("refused ({e}), expected {w:?}")),
    }
    Ok((readable, hash_b(format!("{want:?}").as_bytes())))
}
pub fn p15(t: Tier) -> Vec<Job> {
    let n = [MODE, FILE_BIND.len(), FILE_MAX.len(), ENV_BIND.len(), ENV_MAX.len(), OTHER.len()].iter().product::<usize>() as u64;
    vec![Job::Direct(Direct { name: "settings".into(), count: n, chunk: 64, f: Box::new(cfg_case), show: Box::new(cfg_show), guard: 600, secs: 15 }),
        Job::Direct(Direct { name: "odd-values".into(), count: (ODD_BIND.len() * ODD_MAX.len() * 4) as u64, chunk: 64, f: Box::new(odd_case), show: Box::new(odd_show), guard: 600, secs: 15 }), super::binary::settings(t)]
}

const DIRECT_ENV: &[&str] = &["the function is called directly, single-threaded; inputs outside the enumerated set are not covered"];

pub fn all() -> Vec<Prop> {
    let p = |id, rule, jobs| Prop { id, level: "exploration", rule, assumptions: DIRECT_ENV, jobs, conform: (0, 0) };
    vec![
        p("P06", P06_RULE, p06 as fn(Tier) -> Vec<Job>),
        p("P13", P13_RULE, p13),
        p("P15", P15_RULE, p15),
    ]
}
