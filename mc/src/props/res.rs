use super::*;

// ---------------------------------------------------------------- P18
pub const P18_RULE: &str = "every request and every life of a connection, alone and in every pair (thorough: triple), repeated over and over on two threads; what is in use after each block of repetitions is compared";

/// What is in use is noted after so many repetitions: anything left behind by
/// each of them shows in every interval, also inside a doubling vector.
const MARKS: [usize; 4] = [12, 24, 48, 96];

/// One thing that leaves nothing behind: a request on a standing connection, or
/// a whole connection.
#[derive(Clone)]
enum Op {
    Req(usize, Vec<u8>, u64),
    Life(usize, Vec<u8>, u64, usize),
    /// a request that is another one every time; time passes before the last
    Each(usize, fn(usize) -> Vec<Vec<u8>>),
    /// a connection on this thread that lives by a script
    Script(usize, super::client::Script),
}
fn ops() -> Vec<(String, Op)> {
    let mut v = vec![];
    for (n, r) in super::proto::kinds() {
        v.push((n.to_string(), Op::Req(0, r, 0)));
    }
    let x = vec![b'x'; 3000];
    for (n, r, ns) in [
        ("set other", set(b"k", b"other"), 0),
        ("set large", set(b"k", &x), 0),
        ("set elsewhere", set(b"l", b"1"), 0),
        ("set px", cmd(&[b"SET", b"k", b"v", b"PX", b"5"]), 0),
        ("set px, wait", cmd(&[b"SET", b"k", b"v", b"PX", b"5"]), 10 * MS),
        ("named", cmds("CLIENT SETNAME somebody"), 0),
        ("nameless", cmd(&[b"CLIENT", b"SETNAME", b""]), 0),
        ("long name", cmd(&[b"CLIENT", b"SETNAME", &x]), 0),
        ("long echo", cmd(&[b"PING", &x]), 0),
        ("pipeline", cat(&[ping(), set(b"k", b"1"), get(b"k"), ping()]), 0),
        ("unknown", cmd(&[&x, b"y"]), 0),
    ] {
        v.push((n.to_string(), Op::Req(0, r, ns)));
    }
    for (n, r) in [("get there", get(b"k")), ("set there", set(b"k", b"there")), ("list there", cmds("CLIENT LIST"))] {
        v.push((n.to_string(), Op::Req(1, r, 0)));
    }
    fn k(i: usize) -> Vec<u8> {
        format!("key{i}").into_bytes()
    }
    let each: [(&str, fn(usize) -> Vec<Vec<u8>>); 9] = [
        ("expired keys", |i| vec![cmd(&[b"SET", &k(i), b"v", b"PX", b"5"]), get(&k(i))]),
        ("expired elsewhere", |i| vec![cat(&[cmd(&[b"SET", &k(i), &vec![b'v'; 500], b"PX", b"5"]), get(&k(i))]), get(&k(i))]),
        ("missing keys", |i| vec![get(&k(i))]),
        ("echoes", |i| vec![cmd(&[b"PING", &k(i)])]),
        ("unknowns", |i| vec![cmd(&[&k(i), b"a"])]),
        ("names", |i| vec![cmd(&[b"CLIENT", b"SETNAME", &k(i)])]),
        ("refused names", |i| vec![cmd(&[b"CLIENT", b"SETNAME", &cat(&[k(i), vec![b' ']])])]),
        ("values", |i| vec![set(b"k", &k(i))]),
        ("subcommands", |i| vec![cmd(&[b"CLIENT", &k(i)])]),
    ];
    for (n, f) in each {
        v.push((n.to_string(), Op::Each(0, f)));
    }
    for end in 0..5 {
        v.push((format!("silent {end}"), Op::Life(1, vec![], 0, end)));
        v.push((format!("ping {end}"), Op::Life(0, ping(), 1, end)));
        v.push((format!("named {end}"), Op::Life(1, cat(&[cmds("CLIENT SETNAME a-name"), cmds("CLIENT INFO")]), 2, end)));
    }
    v.push(("list".into(), Op::Life(0, cmds("CLIENT LIST"), 1, 0)));
    v.push(("refused".into(), Op::Life(0, cmds("GET"), 0, 5)));
    v.push(("owed".into(), Op::Life(1, cat(&vec![ping(); 30]), 0, 1)));
    v.push(("large".into(), Op::Life(1, set(b"big", &vec![b'y'; 20000]), 1, 0)));
    v.push(("unfinished".into(), Op::Life(1, set(b"k", &vec![b'y'; 6000])[..5000].to_vec(), 0, 2)));
    v
}
fn repeat(name: String, body: &[Op]) -> Scenario {
    let mut a = vec![];
    let mut n = [0u64; 2];
    a.push(connect(0, 0));
    a.push(connect(1, 1));
    for c in 0..2 {
        rt(&mut a, c, &mut n[c], ping());
    }
    let mut next = 2;
    for i in 0..MARKS[3] {
        if MARKS.contains(&i) {
            a.push(Act::Mark);
        }
        for o in body {
            match o {
                Op::Req(c, r, ns) => {
                    n[*c] += requests(r).0.len() as u64;
                    a.push(send(*c, r.clone()));
                    a.push(wait(*c, n[*c]));
                    if *ns > 0 {
                        a.push(adv(*ns));
                    }
                }
                Op::Each(c, f) => {
                    let rs = f(i);
                    let m = rs.len();
                    for (j, r) in rs.into_iter().enumerate() {
                        if j + 1 == m && m > 1 {
                            a.push(adv(10 * MS));
                        }
                        n[*c] += requests(&r).0.len() as u64;
                        a.push(send(*c, r));
                        a.push(wait(*c, n[*c]));
                    }
                }
                Op::Script(t, f) => {
                    a.extend(f(next, *t));
                    next += 1;
                }
                Op::Life(t, r, k, end) => {
                    a.push(connect(next, *t));
                    if !r.is_empty() {
                        a.push(send(next, r.clone()));
                        if *k > 0 {
                            a.push(wait(next, *k));
                        }
                    }
                    if *end < 5 {
                        super::client::end(*end, next, &mut a);
                    } else {
                        a.push(Act::WaitEof { conn: next });
                    }
                    next += 1;
                }
            }
        }
    }
    a.push(Act::Mark);
    let mut s = Scenario::new(name).outcap(1024 * 1024);
    // actors are of limited length: one goes on where the other ended
    let mut k = 0;
    while !a.is_empty() {
        let rest = a.split_off(a.len().min(MAXSTEP - 1));
        if k > 0 {
            let before = s.actors[k - 1].len();
            a.insert(0, after(k - 1, before));
        }
        s.actors.push(a);
        a = rest;
        k += 1;
    }
    s
}
fn growth(o: &Obs) -> Result<u64, Fail> {
    let m: Vec<(u16, u32, u32)> = o.log().iter().filter(|e| e.kind == L_MARK).map(|e| (e.a, e.b, e.c)).collect();
    if std::env::var_os("MC_MARKS").is_some() {
        let l = format!("MARK {} {:?}\n", o.sc.name, m.iter().map(|x| (x.0, x.1 as i32, x.2 as i32)).collect::<Vec<_>>());
        unsafe { libc::write(2, l.as_ptr() as *const _, l.len()) };
    }
    all_done(o)?;
    let inc = |f: &dyn Fn(&(u16, u32, u32)) -> i32| m.windows(2).all(|w| f(&w[1]) > f(&w[0]));
    if let (Some(a), Some(b)) = (m.first(), m.last()) {
        if b.0 > a.0 {
            return fail("sockets-left", format!("{} sockets are open at first, {} in the end", a.0, b.0));
        }
    }
    if inc(&|x| x.1 as i32) || inc(&|x| x.2 as i32) {
        let d: Vec<String> = m.windows(2).map(|w| format!("{} blocks with {} bytes", w[1].1.wrapping_sub(w[0].1) as i32, w[1].2.wrapping_sub(w[0].2) as i32)).collect();
        return fail("memory-grows", format!("repeating it between {MARKS:?} times leaves behind {}", d.join(", then ")));
    }
    Ok(m.len() as u64)
}
/// Nothing large is left of a race once things have settled.
fn same(o: &Obs) -> Result<u64, Fail> {
    let m: Vec<(u16, u32, u32)> = o.log().iter().filter(|e| e.kind == L_MARK).map(|e| (e.a, e.b, e.c)).collect();
    all_done(o)?;
    if m[1].0 > m[0].0 {
        return fail("sockets-left", format!("{} sockets are open before, {} after", m[0].0, m[1].0));
    }
    let d = m[1].2.wrapping_sub(m[0].2) as i32;
    if d > BIG as i32 * 3 / 4 {
        return fail("memory-grows", format!("{d} bytes more are in use after the race, in {} blocks more", m[1].1.wrapping_sub(m[0].1) as i32));
    }
    Ok(d as u64)
}
const BIG: usize = 12_000;
/// Lives of connections every one of which is hit by the same failing call.
fn failing() -> Vec<Scenario> {
    let mut v = vec![];
    let open: &[i32] = &[libc::ECONNABORTED, libc::EMFILE, libc::ENOBUFS, libc::EPROTO];
    let lives: &[i32] = &[libc::ECONNRESET, libc::EPIPE, libc::ETIMEDOUT, libc::ENOMEM, libc::EIO];
    let name: &[i32] = &[libc::ENOTCONN, libc::ENOBUFS, libc::EINVAL];
    for (what, mask, errs) in [("accept", 1, open), ("recv", 4, lives), ("send", 8, lives), ("getsockname", 32, name), ("setsockopt", 64, name)] {
        for &e in errs {
            for th in 0..2 {
                for (n, r) in [("ping", ping()), ("named", cat(&[cmds("CLIENT SETNAME a-name"), cmds("CLIENT INFO")])), ("large", set(b"big", &vec![b'y'; 20000]))] {
                    let served = mask == 1 || mask == 64;
                    let k = requests(&r).0.len() as u64;
                    let life = if served { Op::Life(th, r, k, 0) } else { Op::Life(th, r, 0, 5) };
                    v.push(repeat(format!("{what} fails with {e}, thread {th}, {n}"), &[life]).ever(mask, e, 2));
                }
            }
        }
    }
    v
}
pub fn p18(t: Tier) -> Vec<Job> {
    let g = t.pick(60, 1500);
    let mut v = vec![];
    let o = ops();
    let n = o.len();
    let one = o.clone();
    v.push(lazy("one", 2, g, n, move |i| repeat(one[i].0.clone(), &[one[i].1.clone()]), growth));
    v.push(lazy("pairs", 2, g, n * n, move |i| {
        let (x, y) = (&o[i % n], &o[i / n]);
        repeat(format!("{}, {}", x.0, y.0), &[x.1.clone(), y.1.clone()])
    }, growth));
    v.push(list("failing", 2, g, failing(), growth));
    let l = super::client::lives();
    v.push(lazy("lives", 2, g, l.len() * 2, move |i| {
        let (n, f) = &l[i / 2];
        repeat(format!("{n}, thread {}", i % 2), &[Op::Script(i % 2, f.clone())])
    }, growth));
    // races, with a settled server before and after
    let mut scs = vec![];
    // what races is large, so that a single one left behind stands out
    let big = vec![b'x'; BIG];
    let name = cmd(&[b"CLIENT", b"SETNAME", &big]);
    let things: Vec<(&str, Op)> = vec![
        ("named", Op::Life(1, name.clone(), 0, 0)),
        ("named, closed", Op::Life(1, name.clone(), 0, 1)),
        ("set", Op::Req(1, set(b"k", &big), 0)),
        ("expired", Op::Req(1, get(b"e"), 0)),
    ];
    let others: Vec<(&str, Op)> = vec![
        ("life", Op::Life(0, name.clone(), 0, 0)),
        ("list", Op::Req(0, cmds("CLIENT LIST"), 0)),
        ("set", Op::Req(0, set(b"k", &big), 0)),
        ("get", Op::Req(0, get(b"k"), 0)),
        ("expired", Op::Req(0, get(b"e"), 0)),
        ("set expired", Op::Req(0, set(b"e", &big), 0)),
    ];
    for (x, p) in &things {
        for (y, q) in &others {
            scs.push(race(format!("{x} against {y}"), p, q).bud(B_PREEMPT, t.pick(1, 2)));
        }
    }
    v.push(list("races", 2, g, scs, same));
    v
}
fn race(name: String, p: &Op, q: &Op) -> Scenario {
    let mut a = vec![connect(0, 0), connect(1, 1)];
    let mut n = [0u64; 2];
    for c in 0..2 {
        rt(&mut a, c, &mut n[c], ping());
    }
    let mut next = 2;
    let mut settle = |a: &mut Vec<Act>, n: &mut [u64; 2], k: usize| {
        for i in 0..k {
            a.push(connect(next, i % 2));
            a.push(send(next, ping()));
            a.push(wait(next, 1));
            a.push(Act::Close { conn: next });
            a.push(Act::WaitEof { conn: next });
            next += 1;
            rt(a, i % 2, &mut n[i % 2], set(b"k", b"value"));
            rt(a, i % 2, &mut n[i % 2], cmd(&[b"SET", b"e", b"value", b"PX", b"5"]));
            a.push(adv(10 * MS));
            rt(a, i % 2, &mut n[i % 2], get(b"e"));
            rt(a, i % 2, &mut n[i % 2], cmds("CLIENT LIST"));
        }
    };
    settle(&mut a, &mut n, 2);
    a.push(Act::Mark);
    // a connection keeps the room its largest request needed
    a.push(connect(99, 0));
    rt(&mut a, 99, &mut 0, cmd(&[b"SET", b"e", &vec![b'e'; BIG], b"PX", b"5"]));
    a.push(Act::HalfClose { conn: 99 });
    a.push(Act::WaitEof { conn: 99 });
    a.push(adv(10 * MS));
    let (x, y) = (100, 101);
    let mut late = vec![];
    let mut j = vec![];
    for (o, c) in [(p, x), (q, y)] {
        let (Op::Life(t, ..) | Op::Req(t, ..) | Op::Each(t, ..) | Op::Script(t, ..)) = o;
        j.push(connect(c, *t));
    }
    for (o, c) in [(p, x), (q, y)] {
        match o {
            Op::Life(_, r, _, e) => {
                j.push(send(c, r.clone()));
                j.push(if *e == 0 { Act::HalfClose { conn: c } } else { Act::Close { conn: c } });
                late.push(Act::WaitEof { conn: c });
            }
            Op::Req(_, r, _) => {
                j.push(send(c, r.clone()));
                late.push(wait(c, 1));
                late.push(Act::HalfClose { conn: c });
                late.push(Act::WaitEof { conn: c });
            }
            Op::Each(..) | Op::Script(..) => unreachable!(),
        }
    }
    j.extend(late);
    let (al, jl) = (a.len(), j.len());
    j.insert(0, after(0, al));
    let mut b = vec![after(1, jl + 1)];
    settle(&mut b, &mut n, 4);
    b.push(Act::Mark);
    Scenario::new(name).actor(a).joint(j).actor(b).outcap(1024 * 1024)
}
