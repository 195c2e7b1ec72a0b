use super::*;

pub const P02_RULE: &str = "every sequence of SET and GET up to the depth over colliding keys on two threads, every ordered pair of awkward keys, every value and key size around the buffer boundaries, every single byte and protocol-like content; an execution is non-trivial unless cut off as a revisited state";

/// Keys that a careless table would confuse.
fn keys() -> Vec<Vec<u8>> {
    let mut k: Vec<Vec<u8>> = [
        "k", "K", "kk", "k ", " k", "k\0", "\0k", "\0", "k\r", "k\n", "k\r\n", "\r\n", "", "0", "00", "-1", "$1", "*1\r\n$1\r\nk", "{k}", "{k}a", "a{k}b", "{}k",
        "é", "e\u{301}", "É", "ß", "ss", "\u{feff}k", "k\u{200b}", "ключ", "\u{10ffff}",
        "key:1", "key:10", "key:01", "key:1 ", "aaaaaaaaaaaaaaaa", "aaaaaaaaaaaaaaab", "aaaaaaaaaaaaaaaaa",
    ]
    .iter()
    .map(|s| s.as_bytes().to_vec())
    .collect();
    k.extend(slot_twins());
    k.extend(hash_twins());
    k.push(vec![b'x'; 511]);
    k.push(vec![b'x'; 512]);
    k
}
/// keys of the same cluster hash slot
fn slot_twins() -> Vec<Vec<u8>> {
    let mut seen = std::collections::HashMap::new();
    for i in 0..100000u32 {
        let k = format!("s{i}").into_bytes();
        let h = super::direct::crc_ref(&k) % 16384;
        if let Some(o) = seen.insert(h, k.clone()) {
            return vec![o, k];
        }
    }
    vec![]
}
/// keys with the same 64-bit Fx hash (as str and as byte string)
pub fn hash_twins() -> Vec<Vec<u8>> {
    const K: u64 = 0x517cc1b727220a95;
    let w = |s: &[u8]| u64::from_le_bytes(s.try_into().unwrap());
    let mut out = vec![];
    let a = *b"twin-key";
    let b = *b"00000000";
    // hashing starts with zero, or with the length as a prefix
    for start in [0u64, 16u64.wrapping_mul(K)] {
        let h = |x: u64| (start.rotate_left(5) ^ x).wrapping_mul(K);
        let ha = h(w(&a)).rotate_left(5);
        for i in 0..100_000_000u64 {
            let mut c = *b"twin-000";
            for j in 0..3 {
                c[5 + j] = b'0' + ((i / 70u64.pow(j as u32)) % 70) as u8;
            }
            c[0] = b'A' + ((i / 343000) % 50) as u8;
            if c == a {
                continue;
            }
            let d = (h(w(&c)).rotate_left(5) ^ ha ^ w(&b)).to_le_bytes();
            if std::str::from_utf8(&d).is_ok() {
                out.push([a, b].concat());
                out.push([c, d].concat());
                break;
            }
        }
    }
    out.sort();
    out.dedup();
    out
}

fn seq_scen(i: usize, base: usize) -> Scenario {
    let ops = seq_at(i, base);
    let mut a = vec![connect(0, 0), connect(1, 1)];
    let mut n = [0u64; 2];
    let long = vec![b'L'; 300];
    for (j, o) in ops.iter().enumerate() {
        let v = format!("v{j}");
        let (c, r) = match o {
            0 => (0, set(b"k", v.as_bytes())),
            1 => (1, set(b"k", b"")),
            2 => (0, get(b"k")),
            3 => (1, get(b"k")),
            4 => (1, set(b"K", v.as_bytes())),
            5 => (0, set(b"kk", &long)),
            6 => (1, cmd(&[b"SET", b"k", v.as_bytes(), b"EX", b"100"])),
            _ => (0, set(b"", v.as_bytes())),
        };
        rt(&mut a, c, &mut n[c], r);
    }
    for (c, k) in [(0, "k"), (1, "k"), (0, "K"), (1, "kk"), (1, "")] {
        rt(&mut a, c, &mut n[c], get(k.as_bytes()));
    }
    Scenario::new(format!("sequence {ops:?}")).actor(a)
}
fn pair_scen(a: &[u8], b: &[u8]) -> Scenario {
    let mut v = vec![connect(0, 0)];
    v.push(send(0, cat(&[set(a, b"1"), get(b), set(b, b"22"), get(a), get(b), set(a, b""), get(b), get(a)])));
    v.push(wait(0, 8));
    Scenario::new(format!("keys {:?} {:?}", resp::lossy(a), resp::lossy(b))).actor(v)
}
fn pattern(n: usize, kind: usize) -> Vec<u8> {
    (0..n)
        .map(|i| match kind {
            0 => b'a' + (i % 26) as u8,
            1 => [b'\r', b'\n', b'$', b'5', 0, 0xff][(i * 7 + i / 5) % 6],
            2 => 0xff,
            3 => 0,
            _ => ((i as u32).wrapping_mul(2654435761) >> 24) as u8,
        })
        .collect()
}
fn sizes(t: Tier) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=t.pick(600, 1100)).collect();
    for m in [255usize, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536] {
        let r = t.pick(20, 50);
        v.extend(m.saturating_sub(r)..=m + r);
    }
    v.extend([100_000, 131_072, 262_143, 1_000_000]);
    if t.deep() {
        v.extend([3_000_000, 10_000_000]);
    }
    v.sort();
    v.dedup();
    v
}
fn size_scen(n: usize, kind: usize) -> Scenario {
    let v = pattern(n, kind);
    let mut a = vec![connect(0, 0), connect(1, 1)];
    let mut c = [0u64; 2];
    rt(&mut a, 0, &mut c[0], set(b"k", &v));
    rt(&mut a, 1, &mut c[1], get(b"k"));
    // later traffic must not touch what is stored
    rt(&mut a, 0, &mut c[0], set(b"other", &pattern(n, kind + 1)));
    rt(&mut a, 0, &mut c[0], get(b"k"));
    rt(&mut a, 1, &mut c[1], get(b"other"));
    let o = 64 * 1024 + 4 * n as u32;
    Scenario::new(format!("value of {n} bytes, pattern {kind}")).actor(a).outcap(o)
}
fn key_size_scen(n: usize) -> Scenario {
    let k = pattern(n, 0);
    let mut k2 = k.clone();
    k2.push(b'x');
    let mut a = vec![connect(0, 0), connect(1, 1)];
    let mut c = [0u64; 2];
    rt(&mut a, 0, &mut c[0], set(&k, b"first"));
    rt(&mut a, 1, &mut c[1], get(&k2));
    rt(&mut a, 1, &mut c[1], set(&k2, b"second"));
    rt(&mut a, 1, &mut c[1], get(&k));
    rt(&mut a, 0, &mut c[0], get(&k2));
    Scenario::new(format!("key of {n} bytes")).actor(a)
}
fn contents() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = (0..=255u8).map(|b| vec![b]).collect();
    for s in [
        "\r\n", "\n", "\r", "\r\n\r\n", "$-1\r\n", "$3\r\nabc\r\n", "*1\r\n$4\r\nPING\r\n", "+OK\r\n", "-ERR\r\n", ":1\r\n", "nil", "null", "(nil)", "\0\0\0", "a\0b", "\u{feff}", "true", "TRUE", "1", "-1", "1.5",
        // what a compact encoding of numbers or texts would change
        "0", "00", "007", "+7", "-0", "-007", "1.0", "1.50", "01.5", ".5", "5.", "1e3", "1E3", "0x10", "1_000", "1,000", "NaN", "inf", "-inf", "0000000000000000000000", "18446744073709551615", "18446744073709551616", "018446744073709551615", "9223372036854775807", "-9223372036854775808", "-9223372036854775809",
        " ", "  ", "\t", "a  b", "\\n", "\\x00", "\\", "\"q\"", "'q'", "%20", "&amp;", "{}", "[]", "{\"a\":1}", "aGVsbG8=", "deadbeef", "DEADBEEF", "MiXeD", "ÀÉ", "e\u{301}", "\u{e9}", "ﬁ", "İ", "ß",
        "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "abababababababababababababababababababababababababababababababababababababab",
    ] {
        v.push(s.as_bytes().to_vec());
        v.push([s.as_bytes(), b"tail"].concat());
        v.push([b"head", s.as_bytes()].concat());
    }
    for s in [&[0xc3u8][..], &[0x80], &[0xff, 0xfe], &[0xed, 0xa0, 0x80], &[0xf4, 0x90, 0x80, 0x80], &[0xc0, 0x80], &[0x28, 0xb5, 0x2f, 0xfd], &[0x28, 0xb5, 0x2f, 0xfd, 0x20, 0, 1, 0, 0], &[0x1f, 0x8b, 8, 0, 0, 0, 0, 0], &[0x78, 0x9c, 3, 0, 0, 0, 0, 1], &[0, 0, 0, 1], &[1, 0, 0, 0]] {
        v.push(s.to_vec());
    }
    // every number of digits, and every short number
    for n in (0..1300u32).step_by(13) {
        v.push(n.to_string().into_bytes());
        v.push(format!("{n:05}").into_bytes());
    }
    for n in 1..24 {
        v.push(vec![b'9'; n]);
        v.push([b"1".to_vec(), vec![b'0'; n]].concat());
        v.push([vec![b'0'; n], b"1".to_vec()].concat());
    }
    v
}
fn content_scen(x: &[Vec<u8>]) -> Scenario {
    let mut a = vec![connect(0, 0), connect(1, 1)];
    let mut c = [0u64; 2];
    for v in x {
        rt(&mut a, 0, &mut c[0], set(b"k", v));
        rt(&mut a, 1, &mut c[1], get(b"k"));
    }
    Scenario::new(format!("contents from {}", resp::lossy(&x[0]))).actor(a)
}

pub fn p02(t: Tier) -> Vec<Job> {
    let g = t.pick(60, 1500);
    let depth = t.pick(6, 7);
    let mut v = vec![lazy("sequences", 2, g, seq_count(8, depth), |i| seq_scen(i, 8), by_model)];
    let ks = keys();
    let n = ks.len();
    v.push(lazy("key-pairs", 1, g, n * n, move |i| pair_scen(&ks[i / n], &ks[i % n]), by_model));
    let sz = sizes(t);
    let m = sz.len();
    let kinds = t.pick(3, 5);
    v.push(lazy("value-sizes", 2, g, m * kinds, move |i| size_scen(sz[i % m], i / m), by_model));
    let sz: Vec<usize> = sizes(t).into_iter().filter(|n| *n <= 300_000).collect();
    v.push(lazy("key-sizes", 2, g, sz.len(), move |i| key_size_scen(sz[i]), by_model));
    let c: Vec<Vec<Vec<u8>>> = contents().chunks(24).map(|c| c.to_vec()).collect();
    v.push(lazy("contents", 2, g, c.len(), move |i| content_scen(&c[i]), by_model));
    // text may arrive as simple strings, too
    let mut scs = vec![];
    for (k, x) in [("k", "v"), ("", ""), ("a b", "c d"), ("é", "ü"), ("k", ":1")] {
        let req = format!("*3\r\n+SET\r\n+{k}\r\n+{x}\r\n").into_bytes();
        let rg = format!("*2\r\n+GET\r\n+{k}\r\n").into_bytes();
        let a = vec![connect(0, 0), send(0, cat(&[req.clone(), rg, get(k.as_bytes())])), wait(0, 3)];
        scs.push(Scenario::new(format!("simple strings {k:?}")).actor(a));
    }
    v.push(list("simple-strings", 1, g, scs, by_model));
    // a value takes the place of a shorter or longer one
    let oz: Vec<usize> = vec![0, 1, 2, 7, 8, 15, 16, 17, 23, 24, 31, 32, 33, 63, 64, 100, 127, 128, 255, 256, 500, 1000, 1024, 2000, 4000, 4096, 5000, 8192, 10000, 20000];
    let m = oz.len();
    v.push(lazy("overwrites", 2, g, m * m, move |i| {
        let (x, y) = (pattern(oz[i % m], 0), pattern(oz[i / m], 4));
        let mut a = vec![connect(0, 0), connect(1, 1)];
        let mut c = [0u64; 2];
        for (w, val) in [(0, &x), (0, &y), (1, &x), (0, &y)] {
            rt(&mut a, w, &mut c[w], set(b"k", val));
            rt(&mut a, 1 - w, &mut c[1 - w], get(b"k"));
        }
        a.push(send(1, cat(&[set(b"k", &x), set(b"k", &y), get(b"k"), set(b"k", &x), get(b"k")])));
        a.push(wait(1, c[1] + 5));
        rt(&mut a, 0, &mut c[0], get(b"k"));
        Scenario::new(format!("{} bytes, then {}", x.len(), y.len())).actor(a).outcap(512 * 1024)
    }, by_model));
    // what a connection stored outlives it
    let mut scs = vec![];
    for end in 0..5 {
        for n in [1usize, 10, 900, 5000] {
            for again in [false, true] {
                let x = pattern(n, 0);
                let mut a = vec![connect(0, 0), connect(1, 1), connect(2, 0)];
                let mut c = [0u64; 4];
                rt(&mut a, 0, &mut c[0], set(b"k", &x));
                rt(&mut a, 0, &mut c[0], set(&x, b"by name"));
                if again {
                    rt(&mut a, 1, &mut c[1], get(b"k"));
                    rt(&mut a, 2, &mut c[2], set(b"l", &x));
                }
                super::client::end(end, 0, &mut a);
                rt(&mut a, 1, &mut c[1], get(b"k"));
                a.push(connect(3, 0));
                rt(&mut a, 3, &mut c[3], set(b"m", &pattern(n, 4)));
                rt(&mut a, 2, &mut c[2], get(b"k"));
                rt(&mut a, 2, &mut c[2], get(&x));
                rt(&mut a, 3, &mut c[3], get(b"k"));
                scs.push(Scenario::new(format!("value of {n} bytes, end {end}, again {again}")).actor(a));
            }
        }
    }
    v.push(list("after-the-end", 2, g, scs, by_model));
    // many keys: the table grows while it is used
    let mut scs = vec![];
    for (count, two) in [(10usize, true), (64, true), (65, true), (200, false), (300, true), (t.pick(2000, 6000), true)] {
        let mut a = vec![connect(0, 0), connect(1, 1)];
        let mut c = [0u64; 2];
        let key = |i: usize| format!("key:{i}").into_bytes();
        for chunk in (0..count).collect::<Vec<_>>().chunks(50) {
            let w = if two { (chunk[0] / 50) % 2 } else { 0 };
            a.push(send(w, cat(&chunk.iter().map(|i| set(&key(*i), format!("value {i}").as_bytes())).collect::<Vec<_>>())));
            c[w] += chunk.len() as u64;
            a.push(wait(w, c[w]));
        }
        for chunk in (0..count + 10).collect::<Vec<_>>().chunks(50) {
            let w = 1 - (chunk[0] / 50) % 2;
            a.push(send(w, cat(&chunk.iter().map(|i| get(&key(*i))).collect::<Vec<_>>())));
            c[w] += chunk.len() as u64;
            a.push(wait(w, c[w]));
        }
        scs.push(Scenario::new(format!("{count} keys")).actor(a).outcap(512 * 1024));
    }
    v.push(list("many-keys", 2, g, scs, by_model));
    v
}

// ---------------------------------------------------------------- P03
pub const P03_RULE: &str = "every sequence of SETs with and without time to live and of clock steps up to the depth, read from both threads; every option spelling and value of a matrix probed half a millisecond before and after the deadline; every refused value";

const STEPS: [u64; 4] = [9 * MS + 1000, 2 * MS + 1000, 990 * MS + 1000, 600 * MS + 1000];
/// `same`: every SET stores the same value
fn ttl_seq(i: usize, base: usize, same: bool) -> Scenario {
    let ops = seq_at(i, base);
    let mut a = vec![connect(0, 0), connect(1, 1)];
    let mut n = [0u64; 2];
    for (j, o) in ops.iter().enumerate() {
        let v = if same { "v".to_string() } else { format!("v{j}") };
        let s = |opt: &[&[u8]]| {
            let mut p: Vec<&[u8]> = vec![b"SET", b"k", v.as_bytes()];
            p.extend_from_slice(opt);
            cmd(&p)
        };
        match o {
            0 => rt(&mut a, 0, &mut n[0], s(&[])),
            1 => rt(&mut a, 0, &mut n[0], s(&[b"PX", b"10"])),
            2 => rt(&mut a, 1, &mut n[1], s(&[b"EX", b"1"])),
            3 => rt(&mut a, 1, &mut n[1], s(&[b"px", b"1500"])),
            4 => rt(&mut a, 0, &mut n[0], s(&[b"EX", b"0"])),
            o => a.push(adv(STEPS[o - 5])),
        }
        // a refused request may cost the connection: read on the other one
        if *o >= 4 || j + 1 == ops.len() {
            rt(&mut a, 1, &mut n[1], get(b"k"));
        }
        if *o == 4 {
            break;
        }
    }
    a.push(connect(2, 0));
    let mut m = 0;
    rt(&mut a, 2, &mut m, get(b"k"));
    Scenario::new(format!("ttl sequence {ops:?} same {same}")).actor(a)
}
fn ttl_probe(opt: &str, n: u64, unit: u64, start: u64) -> Scenario {
    let mut a = vec![connect(0, 0), connect(1, 1)];
    if start > 0 {
        a.push(adv(start));
    }
    let mut c = [0u64; 2];
    let ns = n * unit;
    rt(&mut a, 0, &mut c[0], cmd(&[b"SET", b"k", b"v", opt.as_bytes(), n.to_string().as_bytes()]));
    rt(&mut a, 1, &mut c[1], get(b"k"));
    if ns > 2 * MS {
        a.push(adv(ns / 2));
        rt(&mut a, 0, &mut c[0], get(b"k"));
        a.push(adv(ns - ns / 2 - MS / 2));
    } else {
        a.push(adv(ns - MS / 2));
    }
    rt(&mut a, 1, &mut c[1], get(b"k"));
    rt(&mut a, 0, &mut c[0], get(b"k"));
    a.push(adv(MS));
    rt(&mut a, 0, &mut c[0], get(b"k"));
    rt(&mut a, 1, &mut c[1], get(b"k"));
    a.push(adv(SEC));
    rt(&mut a, 1, &mut c[1], get(b"k"));
    // the key can be used again
    rt(&mut a, 1, &mut c[1], set(b"k", b"again"));
    a.push(adv(ns));
    rt(&mut a, 0, &mut c[0], get(b"k"));
    Scenario::new(format!("{opt} {n} from {start}")).actor(a)
}
/// init: 0 absent, 1 stored, 2 stored with a time to live
fn ttl_refused(args: &[&[u8]], init: usize) -> Scenario {
    let mut a = vec![connect(0, 0), connect(1, 1), connect(2, 0)];
    let mut c = [0u64; 3];
    match init {
        1 => rt(&mut a, 1, &mut c[1], set(b"k", b"old")),
        2 => rt(&mut a, 1, &mut c[1], cmd(&[b"SET", b"k", b"old", b"PX", b"100"])),
        _ => {}
    }
    let mut p: Vec<&[u8]> = vec![b"SET", b"k", b"new"];
    p.extend_from_slice(args);
    a.push(send(0, cmd(&p)));
    rt(&mut a, 1, &mut c[1], get(b"k"));
    rt(&mut a, 2, &mut c[2], get(b"k"));
    a.push(adv(99 * MS));
    rt(&mut a, 2, &mut c[2], get(b"k"));
    a.push(adv(2 * MS));
    rt(&mut a, 1, &mut c[1], get(b"k"));
    Scenario::new(format!("refused {:?} init {init}", args.iter().map(|a| resp::lossy(a)).collect::<Vec<_>>())).actor(a)
}

pub fn p03(t: Tier) -> Vec<Job> {
    let g = t.pick(60, 1500);
    let depth = t.pick(6, 7);
    let mut v = vec![lazy("sequences", 2, g, seq_count(9, depth), |i| ttl_seq(i, 9, false), by_model)];
    v.push(lazy("sequences-one-value", 2, g, seq_count(9, t.pick(5, 7)), |i| ttl_seq(i, 9, true), by_model));
    let mut scs = vec![];
    // also after a long time in service
    for start in [0, 123_456_789, 5 * SEC + 999_999_999, 25 * 86400 * SEC, 4_294_967 * SEC + 294 * MS, 4_294_968 * SEC, 400 * 86400 * SEC] {
        for opt in ["EX", "ex", "Ex", "eX"] {
            for n in [1u64, 2, 3, 10, 59, 60, 100, 3600, 86400, 4_294_967, 4_294_968, 100_000_000, 300_000_000] {
                scs.push(ttl_probe(opt, n, SEC, start));
            }
        }
        for opt in ["PX", "px", "Px", "pX"] {
            for n in [1u64, 2, 3, 10, 100, 999, 1000, 1001, 1999, 2000, 65_535, 65_536, 4_294_967_295, 4_294_967_296, 4_294_967_297, 86_400_000, 300_000_000_000] {
                scs.push(ttl_probe(opt, n, MS, start));
            }
        }
    }
    v.push(list("deadlines", 2, g, scs, by_model));
    {
        v.push(lazy("deadlines-all-ms", 2, g, 2500, |i| ttl_probe("PX", 1 + i as u64, MS, (i as u64 * 7919) % SEC), by_model));
        v.push(lazy("deadlines-all-s", 2, g, 1000, |i| ttl_probe("EX", 1 + i as u64, SEC, (i as u64 * 7919) % SEC), by_model));
    }
    let mut scs = vec![];
    for init in 0..3 {
        for opt in ["EX", "PX", "px"] {
            for n in [
                "0", "-1", "abc", "", "1.5", " 1", "1 ", "0x10", "1e3", "00", "-0", "1000000000000000000", "9223372036854775807", "9223372036854775808", "18446744073709551615",
                "18446744073709551616", "99999999999999999999999", "4294967296000", "18446744073709552", "18446744074", "\u{663}",
            ] {
                scs.push(ttl_refused(&[opt.as_bytes(), n.as_bytes()], init));
            }
            scs.push(ttl_refused(&[opt.as_bytes()], init));
            scs.push(ttl_refused(&[opt.as_bytes(), b"10", b"10"], init));
            scs.push(ttl_refused(&[opt.as_bytes(), b"10", b"EX"], init));
            scs.push(ttl_refused(&[opt.as_bytes(), b"10", b"PX", b"10"], init));
            scs.push(ttl_refused(&[b"10", opt.as_bytes()], init));
            scs.push(ttl_refused(&[opt.as_bytes(), b"\xff"], init));
        }
        for o in ["FOO", "E", "EXX", "", "EX "] {
            scs.push(ttl_refused(&[o.as_bytes(), b"10"], init));
        }
    }
    v.push(list("refused", 2, g, scs, by_model));
    // several keys, each with its own deadline
    let mut scs = vec![];
    for o in 0..24usize {
        let mut perm = vec![];
        let mut pool = vec![(0, 5u64), (1, 50), (2, 500), (3, 0)];
        let mut x = o;
        for n in (1..=4).rev() {
            perm.push(pool.remove(x % n));
            x /= n;
        }
        let mut a = vec![connect(0, 0), connect(1, 1)];
        let mut c = [0u64; 2];
        for (k, ttl) in &perm {
            let key = format!("k{k}");
            let w = k % 2;
            if *ttl == 0 {
                rt(&mut a, w, &mut c[w], set(key.as_bytes(), b"v"));
            } else {
                rt(&mut a, w, &mut c[w], cmd(&[b"SET", key.as_bytes(), b"v", b"PX", ttl.to_string().as_bytes()]));
            }
        }
        for d in [4 * MS + 1000, 2 * MS, 42 * MS, 5 * MS, 440 * MS, 100 * MS] {
            a.push(adv(d));
            for k in 0..4 {
                rt(&mut a, 1 - k % 2, &mut c[1 - k % 2], get(format!("k{k}").as_bytes()));
            }
        }
        scs.push(Scenario::new(format!("independent deadlines {perm:?}")).actor(a));
    }
    v.push(list("independent", 2, g, scs, by_model));
    // many keys with one deadline, or with deadlines in a row
    let mut scs = vec![];
    for n in [2usize, 3, 10, 19, 20, 21, 40, 100, 257, t.pick(1000, 5000)] {
        for step in [0u64, 1] {
            for refresh in [false, true] {
                let key = |i: usize| format!("key{i}").into_bytes();
                let mut a = vec![connect(0, 0), connect(1, 1)];
                let mut c = [0u64; 2];
                for ch in (0..n).collect::<Vec<_>>().chunks(100) {
                    a.push(send(0, cat(&ch.iter().map(|i| cmd(&[b"SET", &key(*i), b"v", b"PX", (100 + step * *i as u64).to_string().as_bytes()])).collect::<Vec<_>>())));
                    c[0] += ch.len() as u64;
                    a.push(wait(0, c[0]));
                }
                if refresh {
                    a.push(adv(50 * MS));
                    rt(&mut a, 1, &mut c[1], set(&key(n / 2), b"w"));
                    rt(&mut a, 1, &mut c[1], cmd(&[b"SET", &key(0), b"w", b"PX", b"1000"]));
                    a.push(adv(50 * MS));
                } else {
                    a.push(adv(100 * MS));
                }
                for d in [step * n as u64 / 2 * MS + MS / 2, step * n as u64 * MS + MS, 1000 * MS] {
                    a.push(adv(d));
                    for ch in (0..n).collect::<Vec<_>>().chunks(100) {
                        a.push(send(1, cat(&ch.iter().map(|i| get(&key(*i))).collect::<Vec<_>>())));
                        c[1] += ch.len() as u64;
                        a.push(wait(1, c[1]));
                    }
                }
                scs.push(Scenario::new(format!("{n} keys, step {step}, refresh {refresh}")).actor(a).outcap(512 * 1024));
            }
        }
    }
    v.push(list("many-deadlines", 2, g, scs, by_model));
    // keys and values of every kind and size, every spelling of the number
    let mut ks: Vec<Vec<u8>> = keys();
    ks.extend([1usize, 15, 16, 17, 31, 32, 64, 255, 256, 1000, 4096, 5000, 9000].map(|n| pattern(n, 0)));
    let num = |n: u64| -> Vec<Vec<u8>> {
        let d = n.to_string();
        vec![
            format!("${}\r\n{d}\r\n", d.len()).into_bytes(),
            format!("+{d}\r\n").into_bytes(),
            format!(":{d}\r\n").into_bytes(),
        ]
    };
    let mut scs = vec![];
    for (i, k) in ks.iter().enumerate() {
        for (opt, n, ns) in [("PX", 10u64, 10 * MS), ("EX", 2, 2 * SEC)] {
            for (j, enc) in num(n).into_iter().enumerate() {
                for val in [vec![], b"v".to_vec(), k.clone(), pattern(3000, 4)] {
                    if j != i % 3 && val.len() > 1 {
                        continue;
                    }
                    let blk = |b: &[u8]| cat(&[format!("${}\r\n", b.len()).into_bytes(), b.to_vec(), b"\r\n".to_vec()]);
                    let rq = cat(&[b"*5\r\n".to_vec(), blk(b"SET"), blk(k), blk(&val), if j == 1 { format!("+{opt}\r\n").into_bytes() } else { blk(opt.as_bytes()) }, enc.clone()]);
                    let mut a = vec![connect(0, 0), connect(1, 1)];
                    let mut c = [0u64; 2];
                    rt(&mut a, 0, &mut c[0], rq);
                    a.push(adv(ns - MS / 2));
                    rt(&mut a, 1, &mut c[1], get(k));
                    a.push(adv(MS));
                    rt(&mut a, 1, &mut c[1], get(k));
                    rt(&mut a, 0, &mut c[0], set(k, &val));
                    a.push(adv(ns));
                    rt(&mut a, 1, &mut c[1], get(k));
                    scs.push(Scenario::new(format!("{opt} key of {} bytes {:?}, value of {} bytes, number spelled {j}", k.len(), resp::lossy(&k[..k.len().min(20)]), val.len())).actor(a));
                }
            }
        }
    }
    v.push(list("contents", 2, g, scs, by_model));
    v
}
