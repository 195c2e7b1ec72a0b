use super::*;

// ---------------------------------------------------------------- P04
pub const P04_RULE: &str = "request streams cut at every byte (all single cuts, all pairs of cuts for the short streams), sent byte by byte, in segments of every size, and with values far larger than the buffers cut around every buffer boundary";

/// name, stream, number of replies
fn streams() -> Vec<(&'static str, Vec<u8>)> {
    vec![
        ("ping", ping()),
        ("set-get", cat(&[set(b"k", b"hello"), get(b"k")])),
        ("pipeline", cat(&[ping(), set(b"k", b"1"), get(b"k"), cmd(&[b"PING", b"m"]), get(b"none")])),
        ("binary", cat(&[set(b"k", b"\r\n$3\r\n\0\xff"), get(b"k")])),
        ("empty", cat(&[set(b"", b""), get(b"")])),
        ("simple", b"*2\r\n+GET\r\n+k\r\n*3\r\n+set\r\n+k\r\n+v\r\n*2\r\n+GET\r\n+k\r\n".to_vec()),
        ("options", cat(&[cmd(&[b"SET", b"k", b"v", b"EX", b"100"]), get(b"k"), cmds("CLIENT GETNAME")])),
        ("integer", b"*5\r\n$3\r\nSET\r\n$1\r\nk\r\n$1\r\nv\r\n$2\r\nEX\r\n:100\r\n*2\r\n$3\r\nGET\r\n$1\r\nk\r\n".to_vec()),
    ]
}
fn nreq(b: &[u8]) -> u64 {
    requests(b).0.len() as u64
}
fn segments(name: String, b: &[u8], cuts: &[usize], two: bool) -> Scenario {
    let mut a = vec![connect(0, 0)];
    let mut p = 0;
    for c in cuts.iter().chain([&b.len()]) {
        if *c > p && *c <= b.len() {
            a.push(send(0, &b[p..*c]));
            p = *c;
        }
    }
    let n = nreq(b);
    a.push(wait(0, n));
    if two {
        a.push(connect(1, 1));
        let mut m = 0;
        rt(&mut a, 1, &mut m, get(b"k"));
    }
    Scenario::new(name).actor(a).outcap(64 * 1024 + 4 * b.len() as u32)
}
pub fn p04(t: Tier) -> Vec<Job> {
    let g = t.pick(60, 1500);
    let mut v = vec![];
    // all cuts: the environment chooses
    let mut scs = vec![];
    for (name, b) in streams() {
        for early in [0, 1] {
            let n = nreq(&b);
            let a = vec![connect(0, 0), cut(0, b.clone()), wait(0, n)];
            let k = if early == 1 { 1 } else if b.len() < t.pick(75, 200) { t.pick(2, 3) } else { t.pick(1, 2) };
            let k = if b.len() > 60 && k > 2 { 2 } else { k };
            scs.push(Scenario::new(format!("{name} cuts {k} early {early}")).actor(a).bud(B_SPLIT, k).bud(B_EARLY, early).bud(B_ORDER, early));
        }
    }
    v.push(list("cuts", 1, g, scs, by_model));
    // fixed segment sizes
    let mut scs = vec![];
    for (name, b) in streams() {
        for s in 1..=b.len().min(40) {
            let c: Vec<usize> = (1..b.len()).filter(|i| i % s == 0).collect();
            scs.push(segments(format!("{name} segments of {s}"), &b, &c, true));
        }
    }
    v.push(list("segments", 2, g, scs, by_model));
    // an unfinished request has no effect
    let mut scs = vec![];
    let st = cat(&[set(b"k", b"new"), set(b"l", b"new")]);
    for at in 0..st.len() {
        for two in [0usize, 1] {
            let mut a = vec![connect(0, 0), connect(1, two)];
            let mut m = 0;
            rt(&mut a, 1, &mut m, set(b"k", b"old"));
            rt(&mut a, 1, &mut m, set(b"l", b"old"));
            if at > 0 {
                a.push(send(0, &st[..at]));
            }
            // the finished one doesn't wait for the other
            a.push(wait(0, nreq(&st[..at])));
            rt(&mut a, 1, &mut m, get(b"k"));
            rt(&mut a, 1, &mut m, get(b"l"));
            a.push(adv(5 * SEC));
            rt(&mut a, 1, &mut m, get(b"k"));
            rt(&mut a, 1, &mut m, get(b"l"));
            a.push(send(0, &st[at..]));
            a.push(wait(0, 2));
            rt(&mut a, 1, &mut m, get(b"k"));
            rt(&mut a, 1, &mut m, get(b"l"));
            scs.push(Scenario::new(format!("unfinished at {at} threads {two}")).actor(a));
        }
    }
    v.push(list("unfinished", 2, g, scs, by_model));
    // large requests
    let sizes: Vec<usize> = t.pick(vec![500, 1024, 4000, 4096, 8191, 8192, 16384, 40000, 65536, 300_000, 1_100_000], vec![500, 1023, 1024, 1025, 4000, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32768, 65536, 100_000, 300_000, 1_100_000]);
    let mut scs = vec![];
    for n in &sizes {
        let val: Vec<u8> = (0..*n).map(|i| (i * 31 + i / 251) as u8).collect();
        let b = cat(&[ping(), set(b"k", &val), get(b"k"), cmd(&[b"PING", b"end"])]);
        for s in [b.len(), 97, 512, 1000, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 8193, 16384, 65536] {
            if b.len() / s > 450 {
                continue;
            }
            let c: Vec<usize> = (1..b.len()).filter(|i| i % s == 0).collect();
            scs.push(segments(format!("value {n} segments of {s}"), &b, &c, true));
        }
        let pl = ping().len();
        let mut at: Vec<usize> = vec![];
        for base in [0, pl, 4096, 8192, 16384, *n, b.len() - 1] {
            for d in 0..6 {
                at.push((base + d).saturating_sub(2));
            }
        }
        at.sort();
        at.dedup();
        for c in at.into_iter().filter(|c| *c > 0 && *c < b.len()) {
            scs.push(segments(format!("value {n} cut at {c}"), &b, &[c], true));
        }
    }
    v.push(list("large", 2, g, scs, by_model));
    // the end of what is read at once falls anywhere into a request
    let mut scs = vec![];
    for i in 0..60usize {
        let b = cat(&[cmd(&[b"PING", &vec![b'p'; i]]), cat(&vec![ping(); 1500])]);
        scs.push(segments(format!("pings behind {i}"), &b, &[], false));
        let b = cat(&[cmd(&[b"PING", &vec![b'p'; i]]), cat(&(0..400).map(|j| cat(&[set(b"key", format!("value {j}").as_bytes()), get(b"key")])).collect::<Vec<_>>())]);
        scs.push(segments(format!("sets and gets behind {i}"), &b, &[], false));
        scs.push(segments(format!("sets and gets behind {i} in two"), &b, &[5000 + i], false));
    }
    v.push(list("straddling", 2, g, scs, by_model));
    // it takes any time, and nobody gives up
    let mut scs = vec![];
    for (name, b) in streams() {
        for pause in [MS, SEC, 31 * SEC, 61 * SEC, 301 * SEC, 3601 * SEC, 86400 * SEC, 50 * 86400 * SEC] {
            for s in [1usize, 3, 7, b.len()] {
                let mut a = vec![connect(0, 0), connect(1, 1), adv(pause)];
                for c in b.chunks(s) {
                    a.push(send(0, c));
                    a.push(adv(pause));
                }
                let n = nreq(&b);
                a.push(wait(0, n));
                a.push(adv(pause));
                rt(&mut a, 0, &mut { n }, ping());
                rt(&mut a, 1, &mut 0, get(b"other"));
                if name != "options" && name != "integer" {
                    scs.push(Scenario::new(format!("{name} in pieces of {s} every {} ms", pause / MS)).actor(a));
                }
            }
        }
    }
    v.push(list("pauses", 2, g, scs, by_model));
    // every size of a first request, so that every fill level of the buffer
    // occurs at the start of the second
    let top = t.pick(9000, 20000);
    v.push(lazy("fill-levels", 1, g, top, |i| {
        let val = vec![b'f'; i];
        let b = cat(&[set(b"k", &val), get(b"k"), ping()]);
        let c = set(b"k", &val).len();
        segments(format!("fill {i}"), &b, &[c + 3, c + 11], false)
    }, by_model));
    v
}

// ---------------------------------------------------------------- P05
pub const P05_RULE: &str = "several connections with pipelined requests whose replies tell them apart; every overlap of client actions with server work, completion order, partial write and preemption within the budgets; every pipelining depth up to the bound";

/// the i-th request of a connection: distinct replies
fn tagged(conn: usize, i: usize, kind: usize) -> Vec<u8> {
    let k = format!("key-{conn}");
    match kind % 6 {
        0 => cmd(&[b"PING", format!("m{conn}.{i}").as_bytes()]),
        1 => set(k.as_bytes(), format!("value {conn}.{i}").as_bytes()),
        2 => get(k.as_bytes()),
        3 => cmds("CLIENT ID"),
        4 => cmd(&[format!("nocommand{conn}x{i}").as_bytes()]),
        _ => ping(),
    }
}
fn conversation(name: String, thr: &[usize], parts: &[Vec<usize>], per: usize) -> Scenario {
    // every connection: its request kinds, `per` of them in one segment
    let mut s = Scenario::new(name).order(0);
    for (c, th) in thr.iter().enumerate() {
        let mut a = vec![connect(c, *th)];
        let mut n = 0;
        for ch in parts[c].chunks(per) {
            a.push(send(c, cat(&ch.iter().enumerate().map(|(j, k)| tagged(c, n as usize + j, *k)).collect::<Vec<_>>())));
            n += ch.len() as u64;
        }
        a.push(wait(c, n));
        s = s.actor(a);
    }
    s
}
pub fn p05(t: Tier) -> Vec<Job> {
    let g = t.pick(60, 1500);
    let mut v = vec![];
    let mut scs = vec![];
    for x in 0..36 {
        let (a, b) = (x % 6, x / 6);
        for per in [1, 3] {
            let p = vec![vec![a, b, (a + b + 1) % 6], vec![b, a, 2]];
            scs.push(conversation(format!("kinds {a} {b} per {per}"), &[0, 0], &p, per).bud(B_EARLY, 2).bud(B_ORDER, t.pick(1, 2)));
        }
    }
    v.push(list("two-connections", 1, g, scs, by_model));
    let mut scs = vec![];
    for x in 0..6 {
        let p = vec![vec![x, 1], vec![1, 2], vec![(x + 1) % 6, 0]];
        scs.push(conversation(format!("three {x}"), &[0, 0, 0], &p, 1).bud(B_EARLY, t.pick(1, 2)).bud(B_ORDER, t.pick(1, 2)));
    }
    v.push(list("three-connections", 1, g, scs, by_model));
    let mut scs = vec![];
    for x in 0..36 {
        let (a, b) = (x % 6, x / 6);
        let p = vec![vec![a, b, 2], vec![b, 1, a]];
        scs.push(conversation(format!("threads {a} {b}"), &[0, 1], &p, 3).bud(B_PREEMPT, t.pick(1, 2)).bud(B_EARLY, 1));
    }
    v.push(list("two-threads", 2, g, scs, by_model));
    let mut scs = vec![];
    for x in 0..36 {
        let (a, b) = (x % 6, x / 6);
        let p = vec![vec![a, b, 2, a], vec![b, 1, a, 2]];
        scs.push(conversation(format!("short {a} {b}"), &[0, 0], &p, 4).bud(B_SHORT, t.pick(2, 3)).bud(B_EARLY, 1));
    }
    v.push(list("partial-writes", 1, g, scs, by_model));
    // a complete request followed by the beginning of another, whose rest may
    // never come
    let mut scs = vec![];
    for x in 0..36 {
        let (a, b) = (x % 6, x / 6);
        for many in [1usize, 3] {
            let first = cat(&(0..many).map(|j| tagged(0, j, a + j)).collect::<Vec<_>>());
            let second = tagged(0, many, b);
            for at in 0..second.len() {
                if many == 3 && at % 5 != 1 {
                    continue;
                }
                let n = many as u64;
                let mut s = vec![connect(0, 0), send(0, cat(&[first.clone(), second[..at].to_vec()])), wait(0, n), adv(SEC)];
                if at > 0 {
                    s.push(send(0, &second[at..]));
                    s.push(wait(0, n + 1));
                }
                scs.push(Scenario::new(format!("begun kinds {a} {b} after {many} at {at}")).actor(s).bud(B_EARLY, 1));
            }
        }
    }
    v.push(list("begun", 1, g, scs, by_model));
    // pipelining depth
    let top = t.pick(140, 600);
    v.push(lazy("depth", 1, g, top, |i| {
        let n = i + 1;
        let b = cat(&(0..n).map(|j| tagged(0, j, [0, 1, 2, 0, 5, 4][j % 6])).collect::<Vec<_>>());
        let a = vec![connect(0, 0), send(0, b), wait(0, n as u64)];
        Scenario::new(format!("depth {n}")).actor(a).outcap(256 * 1024)
    }, by_model));
    let mut scs = vec![];
    for n in [64usize, 65, 127, 128, 129, 255, 256, 257, 500, 1000, 1024, 1025, 2000, 3000, 4096, 4097, 10000, 20000, 32768, 65536, t.pick(70000, 140000)] {
        for big in [0usize, 1, 100] {
            if big == 100 && n > 10000 || big == 1 && n > 20000 {
                continue;
            }
            let b = cat(&(0..n).map(|j| cmd(&[b"PING", format!("{j}{}", "x".repeat(big)).as_bytes()])).collect::<Vec<_>>());
            let a = vec![connect(0, 0), send(0, b), wait(0, n as u64)];
            scs.push(Scenario::new(format!("deep {n} {big}")).actor(a).outcap(4 << 20).bud(B_SHORT, if n < 300 { 1 } else { 0 }));
        }
    }
    v.push(list("very-deep", 1, g, scs, by_model));
    // many connections at once
    let mut scs = vec![];
    for n in [5usize, 16, 17, 33, 64, 65, 120] {
        for rev in [false, true] {
            let mut a = vec![];
            for c in 0..n {
                a.push(connect(c, c % 2));
            }
            let order: Vec<usize> = if rev { (0..n).rev().collect() } else { (0..n).collect() };
            for r in 0..2usize {
                for c in &order {
                    a.push(send(*c, tagged(*c, r, [1, 2][r])));
                }
            }
            for c in 0..n {
                a.push(wait(c, 2));
            }
            scs.push(Scenario::new(format!("crowd {n} {rev}")).actor(a).bud(B_ORDER, if n < 10 { 1 } else { 0 }));
            // all at once before the server runs
            let mut s = Scenario::new(format!("rush {n} {rev}")).bud(B_EARLY, 0);
            let mut a = vec![];
            for c in 0..n {
                a.push(connect(c, c % 2));
            }
            for c in &order {
                a.push(send(*c, cat(&[tagged(*c, 0, 1), tagged(*c, 1, 2), tagged(*c, 2, 0)])));
            }
            for c in 0..n {
                a.push(wait(c, 3));
            }
            s = s.actor(a);
            scs.push(s);
        }
    }
    v.push(list("crowd", 2, g, scs, by_model));
    // a client that does not read must not hold up the others
    let mut scs = vec![];
    for space in [0u64, 1, 10, 1000] {
        for reqs in [1usize, 3, 50, 200, 5000, 20000] {
            for val in [1usize, 1000, 20000] {
                if reqs * val > 400_000 || reqs == 20000 && space > 0 {
                    continue;
                }
                let mut a = vec![connect(0, 0)];
                let mut n = 0;
                rt(&mut a, 0, &mut n, set(b"k", &vec![b'z'; val]));
                a.push(Act::PauseRead { conn: 0, space });
                a.push(send(0, cat(&(0..reqs).map(|i| if i % 3 == 0 { get(b"k") } else { tagged(0, i, 0) }).collect::<Vec<_>>())));
                n += reqs as u64;
                for (c, th) in [(1, 0), (2, 1)] {
                    let mut m = 0;
                    a.push(connect(c, th));
                    rt(&mut a, c, &mut m, tagged(c, 0, 1));
                    rt(&mut a, c, &mut m, tagged(c, 1, 2));
                    rt(&mut a, c, &mut m, cmds("CLIENT ID"));
                }
                a.push(Act::ResumeRead { conn: 0 });
                a.push(wait(0, n));
                rt(&mut a, 0, &mut n, ping());
                scs.push(Scenario::new(format!("stalled space {space} requests {reqs} value {val}")).actor(a).outcap(if reqs > 1000 { 4 << 20 } else { 1 << 20 }));
            }
        }
    }
    v.push(list("stalled-reader", 2, g, scs, by_model));
    v
}

// ---------------------------------------------------------------- P07
pub const P07_RULE: &str = "a catalogue of malformed and unsupported requests, every prefix and every single-byte mutation of a well-formed one, alone and before and after valid pipelined requests, with other connections on the same and on the other thread checked during and after";

pub fn catalogue() -> Vec<(String, Vec<u8>)> {
    let mut v: Vec<(String, Vec<u8>)> = vec![];
    let mut add = |b: &[u8]| v.push((resp::lossy(&b[..b.len().min(60)]), b.to_vec()));
    for s in [
        // not RESP
        "PING\r\n", "GET a\r\n", "\r\n", "\n", "\r", " ", "x", "GET / HTTP/1.1\r\nHost: x\r\n\r\n", "@1\r\n", "_\r\n", "#t\r\n", ",1.5\r\n", "(123\r\n", "!3\r\nabc\r\n", "=7\r\ntxt:abc\r\n", "~1\r\n:1\r\n", ">1\r\n:1\r\n", "|1\r\n+a\r\n+b\r\n",
        // lengths
        "*-1\r\n", "*-2\r\n", "*abc\r\n", "*\r\n", "* 1\r\n", "*1 \r\n", "*+1\r\n$4\r\nPING\r\n", "*1.0\r\n", "*1\n$4\nPING\n", "*1\r$4\rPING\r", "*0\r\n", "*0x1\r\n", "*00\r\n",
        "*1\r\n$-2\r\n", "*1\r\n$-xyz\r\n", "*1\r\n$-1x\r\n", "*1\r\n$-1\r\n", "*1\r\n$abc\r\n", "*1\r\n$\r\n", "*1\r\n$4\r\nPINGxx", "*1\r\n$4\r\nPINGPING\r\n", "*1\r\n$3\r\nPING\r\n", "*1\r\n$4\r\nPING\n\r", "*1\r\n$4\r\nPING\r\r",
        "$-xyz", "$-1\r\n", "$-abc\r\n", "$4\r\nPING\r\n", "+PING\r\n", "-PING\r\n", ":1\r\n", ":\r\n", ":abc\r\n", ":-1\r\n", ":99999999999999999999\r\n", "+\r\n", "-\r\n",
        // absurd lengths
        "*4294967295\r\n", "*4294967296\r\n", "*9223372036854775807\r\n", "*9223372036854775808\r\n", "*18446744073709551615\r\n", "*18446744073709551616\r\n", "*99999999999999999999999\r\n", "*1000000000\r\n$4\r\nPING\r\n",
        "%4294967295\r\n", "%9223372036854775807\r\n", "%9223372036854775808\r\n", "%18446744073709551615\r\n", "%1000000000\r\n+a\r\n+b\r\n",
        "*1\r\n$4294967295\r\nPING\r\n", "*1\r\n$9223372036854775807\r\n", "*1\r\n$9223372036854775808\r\nPING\r\n", "*1\r\n$18446744073709551613\r\nPING\r\n", "*1\r\n$18446744073709551614\r\nPING\r\n", "*1\r\n$18446744073709551615\r\nPING\r\n", "*1\r\n$18446744073709551616\r\nPING\r\n", "*1\r\n$99999999999999999999\r\n",
        "$18446744073709551615\r\n", "$18446744073709551614\r\nab", "$9223372036854775807\r\n", "*2\r\n*18446744073709551615\r\n", "*1\r\n*1\r\n*1000000000\r\n",
        // maps
        "%0\r\n", "%1\r\n+a\r\n+b\r\n", "%1\r\n%0\r\n+b\r\n", "%1\r\n%1\r\n+x\r\n+y\r\n+b\r\n", "%1\r\n*1\r\n:1\r\n:2\r\n", "%2\r\n+a\r\n+1\r\n+a\r\n+2\r\n", "%1\r\n+a\r\n", "%-1\r\n", "%abc\r\n", "%1\r\n$-1\r\n$-1\r\n", "%2\r\n%0\r\n+a\r\n%0\r\n+b\r\n", "%1\r\n*1\r\n%1\r\n:1\r\n:2\r\n:3\r\n",
        "*2\r\n%1\r\n+a\r\n+b\r\n+c\r\n", "*1\r\n%1\r\n%1\r\n+x\r\n+y\r\n+b\r\n", "*3\r\n$3\r\nSET\r\n%0\r\n$1\r\n2\r\n", "*3\r\n$3\r\nSET\r\n$1\r\na\r\n%1\r\n%0\r\n:1\r\n",
        // arrays as arguments
        "*1\r\n*0\r\n", "*1\r\n*1\r\n$4\r\nPING\r\n", "*2\r\n*0\r\n*0\r\n", "*2\r\n$3\r\nGET\r\n*0\r\n", "*2\r\n$3\r\nGET\r\n*1\r\n$1\r\na\r\n", "*3\r\n$3\r\nSET\r\n$1\r\na\r\n*1\r\n$1\r\n2\r\n", "*3\r\n$3\r\nSET\r\n*1\r\n$1\r\na\r\n$1\r\n2\r\n",
        // types
        "*1\r\n:1\r\n", "*1\r\n-PING\r\n", "*1\r\n+\r\n", "*1\r\n$0\r\n\r\n", "*2\r\n$3\r\nGET\r\n:1\r\n", "*2\r\n$3\r\nGET\r\n$-1\r\n", "*2\r\n$3\r\nGET\r\n-a\r\n", "*3\r\n$3\r\nSET\r\n$1\r\na\r\n$-1\r\n", "*3\r\n$3\r\nSET\r\n$-1\r\n$1\r\n2\r\n", "*3\r\n$3\r\nSET\r\n:1\r\n$1\r\n2\r\n", "*3\r\n$3\r\nSET\r\n$1\r\na\r\n-x\r\n", "*2\r\n$-1\r\n$-1\r\n",
        "*5\r\n$3\r\nSET\r\n$1\r\na\r\n$1\r\n2\r\n$-1\r\n$-1\r\n", "*5\r\n$3\r\nSET\r\n$1\r\na\r\n$1\r\n2\r\n:1\r\n:1\r\n", "*5\r\n$3\r\nSET\r\n$1\r\na\r\n$1\r\n2\r\n$2\r\nEX\r\n$-1\r\n", "*5\r\n$3\r\nSET\r\n$1\r\na\r\n$1\r\n2\r\n$2\r\nEX\r\n*0\r\n", "*5\r\n$3\r\nSET\r\n$1\r\na\r\n$1\r\n2\r\n$2\r\nEX\r\n:0\r\n",
        "*5\r\n$3\r\nSET\r\n$1\r\na\r\n$1\r\n2\r\n$2\r\nPX\r\n:18446744073709551615\r\n",
    ] {
        add(s.as_bytes());
    }
    for s in [
        // arguments
        "GET", "GET a b", "SET", "SET a", "SET a 2 EX", "SET a 2 EX 0", "SET a 2 EX abc", "SET a 2 EX -1", "SET a 2 PX 0", "SET a 2 FOO", "SET a 2 FOO 1", "SET a 2 EX 10 PX 10", "SET a 2 EX 18446744073709551615", "SET a 2 EX 18446744073709551616", "SET a 2 PX 18446744073709551616",
        "SET a 2 EX 10 EX", "PING a b", "PING a b c", "HELLO x", "HELLO 3 AUTH", "HELLO 99", "ACL", "ACL CAT", "ACL CAT x", "ACL CAT x y", "ACL LIST", "acl whoami", "CLIENT", "CLIENT foo", "CLIENT ID x", "CLIENT INFO x", "CLIENT HELP x", "CLIENT SETNAME", "CLIENT SETNAME a b", "CLIENT GETNAME x",
        "CLIENT SETINFO", "CLIENT SETINFO LIB-NAME", "CLIENT SETINFO FOO bar", "CLIENT SETINFO LIB-NAME a b", "CLIENT LIST TYPE", "CLIENT LIST TYPE foo", "CLIENT LIST TYPE normal foo", "CLIENT LIST ID", "CLIENT LIST ID abc", "CLIENT LIST ID -1", "CLIENT LIST ID 99999999999999999999", "CLIENT LIST foo", "CLIENT KILL 1", "CLIENT NO-EVICT on", "CLIENT PAUSE 100",
        "QUIT", "SHUTDOWN", "DEL a", "FLUSHALL", "CONFIG GET *", "COMMAND DOCS", "INFO", "SUBSCRIBE x", "MULTI", "EVAL x 0", "DEBUG SEGFAULT",
    ] {
        add(&cmds(s));
    }
    // bytes that are not text
    for b in [&b"\xff"[..], b"\xc3", b"\x80abc", b"\0", b"PI\0NG", b"\xed\xa0\x80"] {
        add(&cmd(&[b]));
        add(&cmd(&[b"GET", b]));
        add(&cmd(&[b"SET", b, b"2"]));
        add(&cmd(&[b"SET", b"a", b"2", b, b"1"]));
        add(&cmd(&[b"SET", b"a", b"2", b"EX", b]));
        add(&cmd(&[b"CLIENT", b]));
        add(&cmd(&[b"CLIENT", b"SETNAME", b]));
        add(&cmd(&[b"CLIENT", b"LIST", b]));
        add(&cmd(&[b"CLIENT", b"LIST", b"TYPE", b]));
        add(&cmd(&[b"CLIENT", b"SETINFO", b"LIB-NAME", b]));
        add(&cmd(&[b"ACL", b]));
        for t in ["+", "-", "*1\r\n+", "*1\r\n-", "*2\r\n+GET\r\n+", "*2\r\n$4\r\nPING\r\n+", ":", "*", "$", "%"] {
            add(&[t.as_bytes(), b, b"\r\n"].concat());
        }
    }
    for s in [&b"cmd\r\nwith\r\nbreaks"[..], b"\r\n", b"a\nb", b"+OK\r\n"] {
        add(&cmd(&[s]));
        add(&cmd(&[b"CLIENT", s]));
        add(&cmd(&[b"ACL", s]));
    }
    // many arguments, long words
    add(&cmd(&vec![&b"PING"[..]; 1000]));
    add(&cmd(&[&vec![b'x'; 5000][..]]));
    add(&cmd(&[b"CLIENT", &vec![b'y'; 9000][..]]));
    add(&vec![b'A'; 3000]);
    add(&[&b"*"[..], &vec![b'1'; 5000]].concat());
    add(&[&b"*"[..], &vec![b'0'; 5000], b"\r\n"].concat());
    add(&[&b"$"[..], &vec![b'0'; 100], b"1\r\na\r\n"].concat());
    // nesting
    for n in [5usize, 17, 100, 127, 128, 129, 500, 1000, 3000, 10_000, 30_000, 100_000, 300_000] {
        for open in ["*1\r\n", "*2\r\n:1\r\n", "%1\r\n+k\r\n", "%1\r\n"] {
            if n * open.len() > 600_000 {
                continue;
            }
            let o = open.repeat(n);
            v.push((format!("nest {n} of {} unfinished", resp::lossy(open.as_bytes())), o.clone().into_bytes()));
            let mut e = o + ":1\r\n";
            if open == "%1\r\n" {
                e.push_str(&":1\r\n".repeat(n));
            }
            v.push((format!("nest {n} of {}", resp::lossy(open.as_bytes())), e.into_bytes()));
        }
    }
    v
}
pub const ATT: usize = 4;
/// place bit 0: valid requests before in the same segment, bit 1: after it,
/// bit 2: the ones before are answered first
fn attack(name: &str, bad: &[u8], place: usize, threads: usize, early: u8) -> Scenario {
    let mut s = vec![];
    enter(&mut s, 0, 0);
    let mut n = 1;
    rt(&mut s, 0, &mut n, set(b"a", b"1"));
    rt(&mut s, 0, &mut n, set(b"own", b"1"));
    if threads > 1 {
        enter(&mut s, 1, 1);
    }
    s.push(connect(ATT, 0));
    let sl = s.len();
    let mut x = vec![after(0, sl)];
    let pre = cat(&[ping(), set(b"p", b"1"), get(b"p")]);
    let mut b = vec![];
    if place & 1 != 0 {
        b.extend(&pre);
    }
    if place & 4 != 0 {
        x.push(send(ATT, pre.clone()));
        x.push(wait(ATT, 3));
    }
    b.extend_from_slice(bad);
    if place & 2 != 0 {
        b.extend(cmd(&[b"PING", b"after"]));
        b.extend(set(b"q", b"9"));
    }
    x.push(send(ATT, b));
    let xl = x.len();
    let mut v = vec![after(0, sl)];
    // while and after it is handled
    v.push(send(0, get(b"own")));
    n += 1;
    v.push(wait(0, n));
    v.push(after(1, xl));
    rt(&mut v, 0, &mut n, get(b"a"));
    let mut c = 5;
    for t in 0..threads {
        if t == 1 {
            let mut m = 1;
            rt(&mut v, 1, &mut m, get(b"a"));
        }
        enter(&mut v, c, t);
        let mut k = 1;
        rt(&mut v, c, &mut k, get(b"a"));
        rt(&mut v, c, &mut k, set(b"fresh", b"x"));
        c += 1;
    }
    // and after the offender left
    v.push(Act::HalfClose { conn: ATT });
    rt(&mut v, 0, &mut n, get(b"a"));
    v.push(Act::WaitEof { conn: ATT });
    Scenario::new(format!("{name} place {place}")).actor(s).actor(x).actor(v).bud(B_EARLY, early).outcap(256 * 1024)
}
fn attack_oracle(o: &Obs) -> Result<u64, Fail> {
    by_model(o)
}
pub fn p07(t: Tier) -> Vec<Job> {
    let g = t.pick(80, 2000);
    let cat_ = catalogue();
    let mut v = vec![];
    let c = cat_.clone();
    let n = c.len();
    v.push(lazy("catalogue", 1, g, n * 6, move |i| attack(&c[i % n].0, &c[i % n].1, [0, 1, 2, 3, 4, 6][i / n], 1, 0), attack_oracle));
    let c = cat_.clone();
    let e = t.pick(1, 2);
    v.push(lazy("catalogue-overlap", 1, g, n, move |i| attack(&c[i].0, &c[i].1, 1, 1, e), attack_oracle));
    let c = cat_.clone();
    v.push(lazy("catalogue-two-threads", 2, g, n, move |i| attack(&c[i].0, &c[i].1, 3, 2, 0), attack_oracle));
    // the same again and again, by one connection after the other, or by one
    let c: Vec<(String, Vec<u8>)> = cat_.iter().filter(|c| c.1.len() <= 10_000).cloned().collect();
    let n = c.len();
    let (few, many) = (60, 300);
    v.push(lazy("over-and-over", 2, g, n * 3, move |i| {
        let (name, bad) = &c[i % n];
        let kind = i / n;
        // every fourth is repeated more often
        let times = if i % 4 == 0 || t.deep() { many } else { few };
        let mut a = vec![];
        let mut n = [0u64; 2];
        for k in 0..2 {
            a.push(connect(k, k));
            rt(&mut a, k, &mut n[k], set(b"own", b"1"));
        }
        let mut next = 2;
        match kind {
            0 | 1 => {
                for _ in 0..times {
                    a.push(connect(next, kind));
                    a.push(send(next, bad.clone()));
                    a.push(Act::HalfClose { conn: next });
                    a.push(Act::WaitEof { conn: next });
                    next += 1;
                }
            }
            _ => {
                a.push(connect(next, 0));
                a.push(send(next, bad.repeat(times.min(400_000 / bad.len()))));
                a.push(Act::HalfClose { conn: next });
                a.push(Act::WaitEof { conn: next });
                next += 1;
            }
        }
        for t in [kind % 2, 1 - kind % 2] {
            rt(&mut a, t, &mut n[t], get(b"own"));
            let mut m = 0;
            a.push(connect(next, t));
            rt(&mut a, next, &mut m, ping());
            rt(&mut a, next, &mut m, get(b"own"));
            next += 1;
        }
        Scenario::new(format!("{name}, {times} times {}", ["by others on one thread", "by others on the other", "by one"][kind])).actor(a).outcap(if kind == 2 { 512 * 1024 } else { 64 * 1024 })
    }, attack_oracle));
    // mutations and prefixes of valid requests
    let bases: Vec<Vec<u8>> = vec![set(b"a", b"2"), cmd(&[b"SET", b"a", b"2", b"EX", b"10"]), cmds("CLIENT SETNAME x"), b"*2\r\n+GET\r\n+a\r\n".to_vec()];
    let vals: Vec<u8> = if t.deep() { (0..=255).collect() } else { b"\x00\r\n0159-+:*$%Aa \xff".to_vec() };
    let mut cs: Vec<(String, Vec<u8>)> = vec![];
    for b in &bases {
        for i in 0..b.len() {
            for x in &vals {
                if b[i] != *x {
                    let mut m = b.clone();
                    m[i] = *x;
                    cs.push((format!("{} byte {i} = {x:#x}", resp::lossy(b)), m));
                }
            }
        }
    }
    let n = cs.len();
    v.push(lazy("mutations", 1, g, n, move |i| attack(&cs[i].0, &cs[i].1, 0, 1, 0), attack_oracle));
    let mut cs: Vec<(String, Vec<u8>)> = vec![];
    for b in &bases {
        for i in 0..b.len() {
            cs.push((format!("{} up to {i}", resp::lossy(b)), b[..i].to_vec()));
            let mut d = b.clone();
            d.remove(i);
            cs.push((format!("{} without {i}", resp::lossy(b)), d));
            let mut d = b.clone();
            d.insert(i, b[i]);
            cs.push((format!("{} twice {i}", resp::lossy(b)), d));
        }
    }
    cs.retain(|c| !c.1.is_empty());
    let n = cs.len();
    v.push(lazy("edits", 1, g, n * 2, move |i| attack(&cs[i % n].0, &cs[i % n].1, i / n, 1, 0), attack_oracle));
    v
}

// ---------------------------------------------------------------- P08
pub const P08_RULE: &str = "every kind of reply and every pair of them under every pattern of partial writes within the budget; payload sizes around every buffer boundary behind replies of other sizes; every amount of socket space for a reader that stops; protocol bytes in every field that is echoed";

/// a request for every kind of reply
pub fn kinds() -> Vec<(&'static str, Vec<u8>)> {
    vec![
        ("pong", ping()),
        ("echo", cmd(&[b"PING", b"hello\r\nworld"])),
        ("empty", cmd(&[b"PING", b""])),
        ("ok", set(b"k", b"value")),
        ("bulk", get(b"k")),
        ("nil", get(b"none")),
        ("int", cmds("CLIENT ID")),
        ("hello", cmds("HELLO")),
        ("info", cmds("CLIENT INFO")),
        ("list", cmds("CLIENT LIST")),
        ("help", cmds("CLIENT HELP")),
        ("name", cmds("CLIENT GETNAME")),
        ("error", cmds("nonsense")),
        ("suberror", cmds("CLIENT nonsense")),
        ("setname", cmds("CLIENT SETNAME me")),
        ("badname", cmd(&[b"CLIENT", b"SETNAME", b"a b"])),
        ("setinfo", cmds("CLIENT SETINFO LIB-NAME x")),
        ("acl", cmds("ACL CAT")),
        ("aclerror", cmds("ACL nonsense")),
    ]
}
pub fn p08(t: Tier) -> Vec<Job> {
    let g = t.pick(60, 1500);
    let mut v = vec![];
    let mut scs = vec![];
    for (n, r) in kinds() {
        let a = vec![connect(0, 0), send(0, r), wait(0, 1)];
        scs.push(Scenario::new(n).actor(a).bud(B_SHORT, t.pick(3, 4)));
    }
    v.push(list("kinds", 1, g, scs, by_model));
    let mut scs = vec![];
    for (n, r) in kinds() {
        for (m, q) in kinds() {
            let a = vec![connect(0, 0), send(0, cat(&[set(b"k", b"value"), r.clone(), q, r.clone()])), wait(0, 4)];
            scs.push(Scenario::new(format!("{n} {m}")).actor(a).bud(B_SHORT, t.pick(1, 2)));
        }
    }
    v.push(list("pairs", 1, g, scs, by_model));
    // sizes behind other replies
    let mut sizes: Vec<usize> = vec![0, 1, 9, 10, 99, 100, 500, 999, 1000];
    for b in [1024usize, 2048, 4096, 8192, 16384, 24576, 32768, 65536] {
        let r = t.pick(14, 60);
        sizes.extend((b - r..=b + 6).step_by(t.pick(1, 1)));
    }
    sizes.extend([9999, 10000, 99999, 100000]);
    let sz = sizes.clone();
    let m = sz.len();
    let pre = t.pick(vec![0usize, 1, 40], vec![0, 1, 2, 10, 40, 1000, 4000, 8000, 8180]);
    let np = pre.len();
    v.push(lazy("sizes", 1, g, m * np, move |i| {
        let (n, p) = (sz[i % m], pre[i / m]);
        let val: Vec<u8> = (0..n).map(|j| (j * 7 + j / 256) as u8).collect();
        let mut b = vec![];
        if p > 0 {
            b.extend(cmd(&[b"PING", &vec![b'p'; p]]));
        }
        b.extend(set(b"k", &val));
        b.extend(get(b"k"));
        b.extend(cmd(&[b"PING", b"end"]));
        let a = vec![connect(0, 0), send(0, b), wait(0, 3 + (p > 0) as u64)];
        Scenario::new(format!("size {n} behind {p}")).actor(a).outcap(64 * 1024 + 2 * n as u32).bud(B_SHORT, 1)
    }, by_model));
    // a reader that stops
    let mut scs = vec![];
    let val: Vec<u8> = (0..9000usize).map(|j| b'a' + (j % 26) as u8).collect();
    for (name, req, n) in [
        ("small", cat(&[ping(), cmd(&[b"PING", b"m"]), get(b"none"), cmds("CLIENT ID"), cmds("nonsense")]), 5u64),
        ("large", cat(&[get(b"big"), ping(), get(b"big"), cmds("CLIENT LIST")]), 4),
        ("maps", cat(&[cmds("HELLO"), cmds("CLIENT HELP"), cmds("CLIENT INFO")]), 3),
    ] {
        let sp: Vec<u64> = (0..t.pick(60, 400)).chain([100, 500, 4095, 4096, 8190, 8191, 8192, 8193, 8999, 9000, 9008, 9010, 9020, 18000]).collect();
        for space in sp {
            let mut a = vec![connect(0, 0)];
            let mut c = 0;
            rt(&mut a, 0, &mut c, set(b"big", &val));
            a.push(Act::PauseRead { conn: 0, space });
            a.push(send(0, req.clone()));
            a.push(adv(MS));
            a.push(Act::PauseRead { conn: 0, space: 3 });
            a.push(adv(MS));
            a.push(Act::ResumeRead { conn: 0 });
            a.push(wait(0, c + n));
            scs.push(Scenario::new(format!("{name} space {space}")).actor(a));
        }
    }
    // large values, taken in parts of every kind
    for n in [20_000usize, 65_500, 65_536, 70_000, 131_072, 300_000, 1_100_000] {
        let val: Vec<u8> = (0..n).map(|j| (j * 7 + j / 256) as u8).collect();
        for parts in [vec![0u64], vec![1], vec![5], vec![1000, 3], vec![4096, 4096, 4096], vec![8192, 1, 8191], vec![16384], vec![65536], vec![65535, 2], vec![n as u64 / 2, 7], vec![n as u64 - 1, 1], vec![n as u64 + 8, 1], vec![n as u64 + 9, 1, 1]] {
            let mut a = vec![connect(0, 0), connect(1, 0)];
            let mut c = 0;
            rt(&mut a, 0, &mut c, set(b"big", &val));
            for (i, space) in parts.iter().enumerate() {
                a.push(Act::PauseRead { conn: 0, space: *space });
                if i == 0 {
                    a.push(send(0, cat(&[get(b"big"), ping(), get(b"big"), cmds("HELLO")])));
                }
                a.push(adv(MS));
            }
            rt(&mut a, 1, &mut 0, ping());
            a.push(Act::ResumeRead { conn: 0 });
            a.push(wait(0, c + 4));
            scs.push(Scenario::new(format!("value of {n} in parts {parts:?}")).actor(a).outcap(4 << 20));
        }
    }
    v.push(list("slow-reader", 1, g, scs, by_model));
    // it takes its replies as slowly as it likes
    let mut scs = vec![];
    let mut reqs: Vec<(String, Vec<u8>, u64)> = kinds().into_iter().map(|(n, r)| (n.to_string(), r, 1)).collect();
    reqs.push(("large".into(), cat(&[get(b"big"), ping(), get(b"big")]), 3));
    reqs.push(("many".into(), ping().repeat(500), 500));
    for (name, req, n) in reqs {
        for pause in [SEC, 31 * SEC, 61 * SEC, 301 * SEC, 3601 * SEC, 86400 * SEC, 50 * 86400 * SEC] {
            for space in [0u64, 1, 7, 4000] {
                let mut a = vec![connect(0, 0), connect(1, 1)];
                let mut c = 0;
                rt(&mut a, 0, &mut c, set(b"big", &val));
                a.push(Act::PauseRead { conn: 0, space });
                a.push(send(0, req.clone()));
                for _ in 0..5 {
                    a.push(adv(pause));
                    a.push(Act::PauseRead { conn: 0, space });
                }
                a.push(Act::ResumeRead { conn: 0 });
                a.push(wait(0, c + n));
                a.push(adv(pause));
                rt(&mut a, 0, &mut { c + n }, ping());
                rt(&mut a, 1, &mut 0, ping());
                scs.push(Scenario::new(format!("{name}: {space} bytes every {} s", pause / SEC)).actor(a));
            }
        }
    }
    v.push(list("late-reader", 2, g, scs, by_model));
    // protocol bytes in everything that is echoed
    let mut scs = vec![];
    for w in ["\r\n", "a\r\nb", "\n", "a\nb", "\r", "a\rb", "+OK\r\n", "\r\n+OK\r\n", "\r\n$-1\r\n", "x'y", "x\0y", "\u{7f}", "\t", "\u{85}", "\u{2028}", "é", "''", "%n%s", "{}", "{0}", "id=9 addr=1", "\r\n\r\n", "-ERR x\r\n:1\r\n"] {
        let b = w.as_bytes();
        let reqs: Vec<Vec<u8>> = vec![
            cmd(&[b]),
            cmd(&[b"CLIENT", b]),
            cmd(&[b"ACL", b]),
            cmd(&[b"PING", b]),
            cat(&[set(b, b), get(b)]),
            cat(&[cmd(&[b"CLIENT", b"SETNAME", b])]),
            cat(&[cmd(&[b"CLIENT", b"SETINFO", b"LIB-NAME", b])]),
            cmd(&[b"CLIENT", b"LIST", b]),
            cmd(&[b"CLIENT", b"LIST", b"TYPE", b]),
            cmd(&[b"CLIENT", b"SETINFO", b, b"x"]),
            cmd(&[b"SET", b"k", b"v", b, b"1"]),
            cmd(&[b"SET", b"k", b"v", b"EX", b]),
            cmd(&[b"HELLO", b]),
            cmd(&[&[b"*1", b].concat(), b"x"]),
        ];
        for (i, r) in reqs.into_iter().enumerate() {
            let mut a = vec![connect(0, 0), connect(1, 0), send(0, r)];
            let mut m = 0;
            rt(&mut a, 1, &mut m, cmds("CLIENT LIST"));
            rt(&mut a, 1, &mut m, ping());
            // whatever happened to it, the connection is well-formed to the end
            a.push(send(0, cat(&[cmds("CLIENT INFO"), ping()])));
            rt(&mut a, 1, &mut m, cmds("CLIENT LIST"));
            scs.push(Scenario::new(format!("echo {i} of {:?}", w)).actor(a));
        }
    }
    v.push(list("protocol-bytes", 1, g, scs, by_model));
    // long lists and long names
    let mut scs = vec![];
    for n in [1usize, 2, 5, 20, 40, t.pick(60, 200)] {
        for l in [0usize, 1, 60, 200, 500, 4000] {
            if n * l > 60_000 {
                continue;
            }
            let mut a = vec![];
            for c in 0..n {
                a.push(connect(c, 0));
                if l > 0 {
                    let mut m = 0;
                    rt(&mut a, c, &mut m, cmd(&[b"CLIENT", b"SETNAME", &vec![b'a' + (c % 26) as u8; l]]));
                }
            }
            let k = (l > 0) as u64;
            a.push(send(0, cat(&[cmds("CLIENT LIST"), cmds("CLIENT INFO"), cmds("CLIENT GETNAME"), ping()])));
            a.push(wait(0, k + 4));
            scs.push(Scenario::new(format!("{n} names of {l}")).actor(a).outcap(256 * 1024).bud(B_SHORT, 1));
        }
    }
    v.push(list("long-lists", 1, g, scs, by_model));
    // long unknown commands: error texts around the buffer size
    let mut scs = vec![];
    for b in [1usize, 127, 128, 1024, 4096, 8192, 16384] {
        for d in 0..t.pick(40, 80) {
            let n = (b + 6).saturating_sub(d).max(1);
            let w = vec![b'w'; n];
            let a = vec![connect(0, 0), send(0, cat(&[ping(), cmd(&[&w]), cmd(&[b"CLIENT", &w]), ping()])), wait(0, 4)];
            scs.push(Scenario::new(format!("unknown of {n}")).actor(a).outcap(128 * 1024));
        }
    }
    v.push(list("long-errors", 1, g, scs, by_model));
    v
}
