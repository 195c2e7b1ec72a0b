use super::*;

pub const P20_RULE: &str = "one connection stuck in the middle of a reply or request of every kind, or with a long backlog, while others on its own and on another thread connect, ask everything on the same keys, rename, list and end in every way, at every moment within the budgets";

/// No answer waits for time to pass: the clock only moves by itself when
/// nothing else is left to do and somebody still waits.
fn prompt(o: &Obs) -> Result<(), Fail> {
    let (mut last, mut sum) = (None, 0u64);
    for e in o.log().iter().filter(|e| e.kind == L_TIME) {
        let t = (e.c as u64) << 32 | e.b as u64;
        if e.a == 999 {
            sum += t - last.unwrap_or(t);
        }
        last = Some(t);
    }
    if sum > PATIENCE {
        return fail("delayed", format!("clients waited {} ms while nothing but the clock went on", sum / 1000));
    }
    Ok(())
}
/// microseconds
const PATIENCE: u64 = 500_000;
fn oracle(o: &Obs) -> Result<u64, Fail> {
    prompt(o)?;
    by_model(o)?;
    client::listing(o)
}
/// What others do meanwhile, each step answered before the next: requests of
/// every kind, on the same key, arrivals and departures.
fn others(a: &mut Vec<Act>, thr: usize, rot: usize, base: usize) {
    let mut steps: Vec<usize> = (0..8).collect();
    steps.rotate_left(rot % 8);
    let (b, mut n) = (base, 0);
    a.push(connect(b, thr));
    for s in steps {
        match s {
            0 => rt(a, b, &mut n, get(b"k")),
            1 => rt(a, b, &mut n, set(b"k", b"other")),
            2 => rt(a, b, &mut n, cmds("CLIENT SETNAME other")),
            3 => rt(a, b, &mut n, cmds("CLIENT LIST")),
            4 => {
                // one comes and goes
                let c = base + 1;
                let mut m = 0;
                a.push(connect(c, thr));
                rt(a, c, &mut m, get(b"k"));
                rt(a, c, &mut m, cmds("CLIENT GETNAME"));
                a.push(Act::Close { conn: c });
            }
            5 => {
                let c = base + 2;
                let mut m = 0;
                a.push(connect(c, thr));
                rt(a, c, &mut m, cmds("CLIENT INFO"));
                a.push(Act::HalfClose { conn: c });
                a.push(Act::WaitEof { conn: c });
            }
            6 => {
                for (_, r) in proto::kinds() {
                    // names are set above, so that the rotation keeps its sense
                    if !r.windows(7).any(|w| w == b"SETNAME") {
                        rt(a, b, &mut n, r);
                    }
                }
            }
            _ => rt(a, b, &mut n, cmd(&[b"SET", b"k", b"timed", b"PX", b"60000"])),
        }
    }
    rt(a, b, &mut n, cmds("CLIENT LIST"));
}
/// requests whose reply is stuck: (what, request, how many of them)
fn sticky() -> Vec<(String, Vec<u8>, usize)> {
    let mut v: Vec<(String, Vec<u8>, usize)> = vec![];
    for (n, r) in proto::kinds() {
        v.push((n.into(), r, 1));
    }
    v.push(("large echo".into(), cmd(&[b"PING", &[b'e'; 30000]]), 1));
    v.push(("large error".into(), cmd(&[&[b'e'; 3000]]), 1));
    v.push(("many pings".into(), ping().repeat(300), 300));
    v.push(("many names".into(), cmds("CLIENT GETNAME").repeat(40), 40));
    v.push(("many lists".into(), cat(&[cmds("CLIENT HELP").repeat(20), cmds("CLIENT ID").repeat(20)]), 40));
    v
}
fn stuck(t: Tier) -> Vec<Scenario> {
    let mut scs = vec![];
    for (what, req, reps) in sticky() {
        for space in [0u64, 1, 3] {
            for thr in [0usize, 1] {
                for rot in 0..t.pick(4, 8) {
                    let rot = if t.deep() { rot } else { rot * 2 + thr };
                    for end in 0..3 {
                        let mut a = vec![connect(0, 0)];
                        let mut n = 0;
                        rt(&mut a, 0, &mut n, set(b"k", &[b'z'; 9000]));
                        a.push(Act::PauseRead { conn: 0, space });
                        a.push(send(0, req.clone()));
                        n += reps as u64;
                        others(&mut a, thr, rot, 1);
                        match end {
                            0 => {
                                a.push(Act::ResumeRead { conn: 0 });
                                a.push(wait(0, n));
                                rt(&mut a, 0, &mut n, ping());
                            }
                            1 => a.push(Act::Close { conn: 0 }),
                            _ => a.push(Act::Rst { conn: 0 }),
                        }
                        others(&mut a, 1 - thr, rot + 3, 4);
                        scs.push(Scenario::new(format!("{what} space {space} thread {thr} order {rot} end {end}")).actor(a).order(1).outcap(96 * 1024));
                    }
                }
            }
        }
    }
    scs
}
/// A stuck reply, the others arriving at every moment of it.
fn stuck_while(t: Tier) -> Vec<Scenario> {
    let mut scs = vec![];
    for (what, req, reps) in sticky() {
        if reps > 1 && !t.deep() {
            continue;
        }
        for thr in [0usize, 1] {
            for y in 0..5 {
                let mut a = vec![connect(0, 0)];
                let mut n = 0;
                rt(&mut a, 0, &mut n, set(b"k", &[b'z'; 9000]));
                a.push(Act::PauseRead { conn: 0, space: 2 });
                let at = a.len();
                a.push(send(0, req.clone()));
                a.push(after(1, usize::MAX));
                let last = a.len() - 1;
                a.push(Act::ResumeRead { conn: 0 });
                a.push(wait(0, n + reps as u64));
                let mut b = vec![connect(1, thr)];
                let mut m = 0;
                rt(&mut b, 1, &mut m, ping());
                b.push(after(0, at - 1));
                rt(&mut b, 1, &mut m, match y {
                    0 => get(b"none"),
                    1 => set(b"j", b"other"),
                    2 => cmds("CLIENT SETNAME other"),
                    3 => cmds("CLIENT LIST"),
                    _ => cmds("CLIENT INFO"),
                });
                a[last] = after(1, b.len() - 1);
                let s = Scenario::new(format!("{what} thread {thr} meanwhile {y}")).actor(a).actor(b).order(1).outcap(96 * 1024);
                scs.push(s.bud(B_EARLY, t.pick(1, 2)).bud(B_PREEMPT, if thr == 1 && (t.deep() || ["bulk", "list"].contains(&what.as_str())) { 1 } else { 0 }));
            }
        }
    }
    scs
}
/// Many connections stuck or idle at once.
fn many_stuck(t: Tier) -> Vec<Scenario> {
    let mut scs = vec![];
    for n in [2usize, 8, 16, 33, 64, t.pick(150, 400)] {
        for k in 0..4 {
            if k == 2 && n > 64 {
                continue;
            }
            let mut a = vec![];
            for c in 0..n {
                a.push(connect(c, c % 2));
                if k < 3 {
                    a.push(Act::PauseRead { conn: c, space: 0 });
                    a.push(send(c, match k {
                        0 => cmd(&[b"PING", &[b'e'; 20000]]),
                        1 => ping().repeat(30),
                        _ => cmds("CLIENT LIST"),
                    }));
                }
            }
            others(&mut a, 0, k, n);
            others(&mut a, 1, k + 2, n + 3);
            for c in 0..n {
                if k < 3 {
                    a.push(Act::ResumeRead { conn: c });
                    a.push(wait(c, if k == 1 { 30 } else { 1 }));
                }
            }
            scs.push(Scenario::new(format!("{n} stuck with {k}")).actor(a).order(1).outcap(64 * 1024));
        }
    }
    scs
}
/// However much is waiting to be taken by one connection.
fn long_backlogs(t: Tier) -> Vec<Scenario> {
    let mut scs = vec![];
    for n in [1000usize, 4000, 10000, 20000, 70000] {
        for k in 0..t.pick(4, 5) {
            let (req, n) = match k {
                0 => (ping(), n),
                1 => (get(b"none"), n),
                2 => (set(b"j", b"v"), n),
                3 => (cmd(&[&[b'u'; 300]]), n / 10),
                _ => (cmds("CLIENT GETNAME"), n),
            };
            for thr in 0..2 {
                let mut a = vec![connect(0, 0)];
                let mut m = 0;
                rt(&mut a, 0, &mut m, set(b"k", b"v"));
                a.push(Act::PauseRead { conn: 0, space: 0 });
                // in two parts: the first is taken up before the others come
                a.push(send(0, req.repeat(n / 2)));
                a.push(adv(5 * MS));
                a.push(send(0, req.repeat(n - n / 2)));
                others(&mut a, thr, k * 2 + thr, 1);
                a.push(Act::ResumeRead { conn: 0 });
                a.push(wait(0, m + n as u64));
                others(&mut a, 1 - thr, k + 3, 4);
                scs.push(Scenario::new(format!("{n} waiting of kind {k}, thread {thr}")).actor(a).order(1).outcap(4 * 1024 * 1024));
            }
        }
    }
    scs
}
/// A request which is never finished, of every length.
fn unfinished() -> Vec<Scenario> {
    let whole = [cmd(&[b"SET", b"k", &[b'v'; 40]]), cmds("CLIENT LIST"), cmd(&[b"GET", b"k"]), b"*1000000\r\n$4\r\nPING\r\n".repeat(1), b"$500000000\r\nabc".to_vec(), b"+simple without an end".to_vec()];
    let mut scs = vec![];
    for (i, w) in whole.iter().enumerate() {
        for at in if i == 0 { 0 } else { 1 }..w.len() {
            for thr in [0usize, 1] {
                if at % 2 == thr {
                    continue;
                }
                let mut a = vec![connect(0, 0)];
                let mut n = 0;
                rt(&mut a, 0, &mut n, set(b"k", b"mine"));
                if at > 0 {
                    a.push(send(0, &w[..at]));
                }
                others(&mut a, thr, at, 1);
                others(&mut a, 1 - thr, at + 3, 4);
                a.push(Act::Close { conn: 0 });
                scs.push(Scenario::new(format!("request {i} up to {at} thread {thr}")).actor(a).order(1));
            }
        }
    }
    scs
}

/// A connection that is in the wrong, while others ask at every moment.
fn misbehaving(t: Tier) -> Vec<Scenario> {
    let deep = b"*1\r\n".repeat(3000);
    let bad: Vec<(&str, Vec<u8>)> = vec![
        ("no protocol", b"GET / HTTP/1.1\r\n\r\n".to_vec()),
        ("bad length", b"*1\r\n$-7\r\nPING\r\n".to_vec()),
        ("bad end", b"*1\r\n$4\r\nPINGxx".to_vec()),
        ("bad number", b":12x\r\n".to_vec()),
        ("depth", deep),
        ("unknown", cmds("NOSUCH command")),
        ("no arguments", cmds("GET")),
        ("wrong option", cmds("SET k v NO 5")),
        ("bad option value", cmds("SET k v EX 0")),
        ("refused name", cmd(&[b"CLIENT", b"SETNAME", b"a b"])),
        ("subcommand", cmds("CLIENT nosuch")),
        ("not a command", b"+OK\r\n".to_vec()),
        ("number", b":5\r\n".to_vec()),
        ("empty", b"*0\r\n".to_vec()),
        ("names", cmds("CLIENT SETNAME same")),
    ];
    let mut scs = vec![];
    for (what, r) in bad {
        for after_good in [false, true] {
            for end in 0..3 {
                for thr in [0usize, 1] {
                    let mut a = vec![connect(0, 0)];
                    if after_good {
                        a.push(send(0, ping()));
                        a.push(wait(0, 1));
                    }
                    a.push(send(0, cat(&[r.clone(), ping()])));
                    a.push(match end {
                        0 => Act::HalfClose { conn: 0 },
                        1 => Act::Close { conn: 0 },
                        _ => Act::Rst { conn: 0 },
                    });
                    a.push(Act::WaitEof { conn: 0 });
                    let mut b = vec![connect(1, thr)];
                    let mut m = 0;
                    for r in [ping(), set(b"other", b"v"), cmds("CLIENT ID"), get(b"other")] {
                        rt(&mut b, 1, &mut m, r);
                    }
                    let mut s = Scenario::new(format!("{what}, end {end}, thread {thr}, after another {after_good}"));
                    s = s.actor(a).actor(b).order(1).bud(B_EARLY, t.pick(1, 2));
                    scs.push(s);
                }
            }
        }
    }
    scs
}
fn answered(o: &Obs) -> Result<u64, Fail> {
    prompt(o)?;
    by_model(o)
}

/// How many replies the busy connection may get between a request of another
/// one and its reply: a few read buffers' worth, whatever its backlog.
const BYPASS: u64 = 100;
/// Nobody waits for the backlog of others to be gone.
fn bypass(o: &Obs) -> Result<u64, Fail> {
    prompt(o)?;
    let h = by_model(o)?;
    let n = o.res.nconn as usize;
    let (mut sent, mut total) = (vec![None; n], vec![0u64; n]);
    let mut all = 0u64;
    for e in o.log() {
        match e.kind {
            L_ACT => {
                if let Act::Send { conn, .. } = &o.sc.actors[e.a as usize][e.b as usize] {
                    sent[*conn] = Some(all - total[*conn]);
                }
            }
            L_REPLY => {
                let c = e.a as usize;
                all += 1;
                total[c] += 1;
                // the watched connection sends one request at a time
                if c == WATCHED {
                    if let Some(s) = sent[c].take() {
                        let k = all - total[c] - s;
                        if k > BYPASS {
                            return fail("held-up", format!("conn {c} waits for its reply while the others get {k}"));
                        }
                    }
                }
            }
            _ => {}
        }
    }
    Ok(h)
}
/// the connection which must not wait
const WATCHED: usize = 4;

fn backlog(k: usize, i: usize) -> Vec<u8> {
    let p = |c: u8| vec![c; 390];
    match k {
        0 => cmd(&[b"PING", &p(b'p')]),
        1 => cmd(&[b"GET", &p(b'k')]),
        2 => cmd(&[b"SET", &p(b'k'), format!("{i}").as_bytes()]),
        3 => cmd(&[&p(b'u')]),
        4 => cmd(&[b"CLIENT", b"SETNAME", &p(b'n')]),
        _ => backlog(i % 5, i),
    }
}
fn busy(t: Tier) -> Vec<Scenario> {
    let n = t.pick(200, 600);
    let mut scs = vec![];
    for k in 0..6 {
        for piece in [n, 40] {
            for y in 0..4 {
                if !t.deep() && (piece < n && k != 0 && k != 5 || y == 1) {
                    continue;
                }
                let reqs: Vec<Vec<u8>> = (0..n).map(|i| backlog(k, i)).collect();
                let mut a = vec![connect(0, 0), after(1, if y == 3 { 0 } else { 2 })];
                for c in reqs.chunks(piece) {
                    a.push(send(0, cat(c)));
                }
                a.push(wait(0, n as u64));
                let mut b = vec![];
                let mut m = 0;
                if y == 3 {
                    // it only arrives then
                    b.push(adv(MS));
                    b.push(after(0, 2));
                    b.push(connect(WATCHED, 0));
                    rt(&mut b, WATCHED, &mut m, ping());
                } else {
                    b.push(connect(WATCHED, 0));
                    rt(&mut b, WATCHED, &mut m, ping());
                    rt(&mut b, WATCHED, &mut m, match y {
                        0 => ping(),
                        1 => get(b"other"),
                        _ => cmds("CLIENT LIST"),
                    });
                }
                if k == 4 && y == 2 {
                    continue;
                }
                scs.push(Scenario::new(format!("backlog kind {k} in pieces of {piece}, other {y}")).actor(a).actor(b).order(1).outcap(512 * 1024).bud(B_EARLY, 1));
            }
        }
    }
    scs
}
/// Many new connections at the same moment.
fn arrivals(t: Tier) -> Vec<Scenario> {
    let mut scs = vec![];
    for n in [t.pick(200, 400)] {
        for y in 0..2 {
            let mut a = vec![after(1, 2)];
            let first = WATCHED + 1;
            let mut v = vec![];
            for c in first..first + n {
                v.push(connect(c, 0));
                v.push(send(c, ping()));
            }
            let mut s = Scenario::new(format!("{n} arrivals, other {y}"));
            let at = a.len();
            for i in 0..v.len() - 1 {
                s.chained.push((0, at + i));
            }
            a.extend(v);
            for c in first..first + n {
                a.push(wait(c, 1));
            }
            let mut b = vec![connect(WATCHED, 0)];
            let mut m = 0;
            rt(&mut b, WATCHED, &mut m, ping());
            rt(&mut b, WATCHED, &mut m, if y == 0 { ping() } else { set(b"k", b"v") });
            scs.push(s.actor(a).actor(b).order(1).outcap(4096).bud(B_EARLY, 1));
        }
    }
    scs
}
pub fn p20(t: Tier) -> Vec<Job> {
    let g = t.pick(60, 900);
    vec![
        list("stuck", 2, g, stuck(t), oracle),
        list("stuck-while", 2, g, stuck_while(t), oracle),
        list("many-stuck", 2, g, many_stuck(t), oracle),
        list("long-backlogs", 2, g, long_backlogs(t), answered),
        list("unfinished", 2, g, unfinished(), oracle),
        list("misbehaving", 2, g, misbehaving(t), answered),
        list("busy", 1, g, busy(t), bypass),
        list("arrivals", 1, g, arrivals(t), bypass),
    ]
}
