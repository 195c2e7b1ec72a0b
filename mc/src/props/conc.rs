use super::*;

pub const P01_RULE: &str = "every pair of short command programs over one key on two server threads, for every initial state of the key, under every interleaving within the preemption bound; an execution counts as non-trivial unless it was cut off as a revisited state";

#[derive(Clone, Debug)]
enum K {
    Set(Vec<u8>, Option<u64>),
    Get(V),
}
#[derive(Clone, Debug)]
struct Op {
    conn: usize,
    inv: u32,
    resp: u32,
    key: usize,
    kind: K,
    now: Vec<u64>,
}
/// what each key holds, and until when
type St = Vec<Option<(Vec<u8>, Option<u64>)>>;

/// The SETs and GETs with their replies and the clock values they
/// may have seen.
fn history(o: &Obs) -> Result<Vec<Op>, Fail> {
    let r = run_model(o)?;
    let mut clock: Vec<(u32, u64)> = vec![];
    for e in o.log() {
        if e.kind == L_TIME {
            clock.push((e.step, ((e.c as u64) << 32 | e.b as u64) * 1000));
        }
    }
    let mut ops = vec![];
    let mut keys: Vec<Vec<u8>> = vec![];
    for c in 0..r.exs.len() {
        let got = replies(o, c)?;
        let (rq, _) = requests(&o.sc.sent(c));
        let st = reply_steps(o, c);
        if got.len() > rq.len() {
            return fail("extra-reply", format!("conn {c}: {} replies for {} requests", got.len(), rq.len()));
        }
        for (i, (q, _)) in rq.iter().enumerate() {
            let V::Array(a) = q else { continue };
            let (Some(inv), Some(resp), Some(v)) = (r.at[c].get(i), st.get(i), got.get(i)) else {
                return fail("unanswered", format!("conn {c}: request #{i} was never answered"));
            };
            let t = |k: usize| match &a[k] {
                V::Bulk(b) => b.clone(),
                _ => vec![],
            };
            let kind = match &t(0)[..] {
                b"SET" => {
                    if *v != V::Simple(b"OK".to_vec()) {
                        return fail("wrong-reply", format!("conn {c}: SET answered {}", resp::show(v)));
                    }
                    let ttl = if a.len() > 3 { Some(std::str::from_utf8(&t(4)).unwrap().parse::<u64>().unwrap() * MS) } else { None };
                    K::Set(t(2), ttl)
                }
                b"GET" => K::Get(v.clone()),
                _ => continue,
            };
            let mut now: Vec<u64> = vec![];
            for (j, (s, n)) in clock.iter().enumerate() {
                let end = clock.get(j + 1).map_or(u32::MAX, |x| x.0);
                if *s <= *resp && end >= *inv {
                    now.push(*n);
                }
            }
            let key = keys.iter().position(|k| *k == t(1)).unwrap_or_else(|| {
                keys.push(t(1));
                keys.len() - 1
            });
            ops.push(Op { conn: c, inv: *inv, resp: *resp, key, kind, now });
        }
    }
    Ok(ops)
}
fn lin(ops: &[Op], done: u32, st: &St, seen: &mut std::collections::HashSet<(u32, St)>) -> bool {
    if done == (1 << ops.len()) - 1 {
        return true;
    }
    if !seen.insert((done, st.clone())) {
        return false;
    }
    for i in 0..ops.len() {
        if done >> i & 1 == 1 {
            continue;
        }
        // real-time order, and the order of one connection
        if (0..ops.len()).any(|j| j != i && done >> j & 1 == 0 && (ops[j].resp < ops[i].inv || (ops[j].conn == ops[i].conn && j < i))) {
            continue;
        }
        for now in &ops[i].now {
            let at = &st[ops[i].key];
            let next = match &ops[i].kind {
                K::Set(v, t) => Some((v.clone(), t.map(|t| now + t))),
                K::Get(r) => {
                    let may_live = at.as_ref().map_or(false, |s| s.1.map_or(true, |d| *now <= d));
                    let may_dead = at.as_ref().map_or(true, |s| s.1.map_or(false, |d| *now >= d));
                    let ok = match r {
                        V::Null => may_dead,
                        V::Bulk(b) => may_live && at.as_ref().unwrap().0 == *b,
                        _ => false,
                    };
                    if !ok {
                        continue;
                    }
                    at.clone()
                }
            };
            let mut all = st.clone();
            all[ops[i].key] = next;
            if lin(ops, done | 1 << i, &all, seen) {
                return true;
            }
        }
    }
    false
}
pub fn linearizable(o: &Obs) -> Result<u64, Fail> {
    let ops = history(o)?;
    all_done(o)?;
    let keys = ops.iter().map(|x| x.key + 1).max().unwrap_or(0);
    if !lin(&ops, 0, &vec![None; keys], &mut Default::default()) {
        let mut s = String::new();
        for x in &ops {
            s.push_str(&format!(
                " [{}..{}] conn {} key {} {};",
                x.inv,
                x.resp,
                x.conn,
                x.key,
                match &x.kind {
                    K::Set(v, t) => format!("SET {}{}", resp::lossy(v), t.map(|t| format!(" PX {}", t / MS)).unwrap_or_default()),
                    K::Get(v) => format!("GET -> {}", resp::show(v)),
                }
            ));
        }
        return fail("not-linearizable", format!("no sequential order explains:{s}"));
    }
    let mut h = 3u64;
    for x in &ops {
        if let K::Get(v) = &x.kind {
            h = h.wrapping_mul(131) ^ hash_v(v);
        }
    }
    Ok(h)
}

/// program symbols: 0 SET, 1 GET, 2 SET PX 10
fn prog(who: usize, ops: &[usize]) -> Vec<u8> {
    let mut b = vec![];
    for (i, o) in ops.iter().enumerate() {
        let v = vec![b'a' + (who * 3 + i) as u8; 3 + 5 * who];
        b.extend(match o {
            0 => set(b"k", &v),
            1 => get(b"k"),
            _ => cmd(&[b"SET", b"k", &v, b"PX", b"10"]),
        });
    }
    b
}
fn progs(max: usize) -> Vec<Vec<usize>> {
    (0..seq_count(3, max)).map(|i| seq_at(i, 3)).collect()
}
/// init: 0 no key, 1 a value, 2 an expired value, 3 a value about to expire
fn race(name: String, ps: &[(usize, Vec<usize>)], init: usize, tick: bool, pre: u8, early: u8) -> Scenario {
    // without overlap budget all requests arrive at the same moment
    let joint = early == 0 || tick;
    let n = ps.len();
    let mut s = vec![];
    for (i, (t, _)) in ps.iter().enumerate() {
        enter(&mut s, i, *t);
    }
    enter(&mut s, n, 0);
    let last = ps.iter().map(|p| p.0).max().unwrap_or(0);
    enter(&mut s, n + 1, last);
    let mut cnt = 1;
    match init {
        0 => {}
        1 => rt(&mut s, n, &mut cnt, set(b"k", b"init")),
        _ => rt(&mut s, n, &mut cnt, cmd(&[b"SET", b"k", b"init", b"PX", b"5"])),
    }
    if init == 2 {
        s.push(adv(20 * MS));
    }
    if init == 3 {
        s.push(adv(3 * MS));
    }
    let sl = s.len();
    let mut sc = Scenario::new(name).actor(s);
    let mut f = vec![];
    if joint {
        let mut a = vec![after(0, sl)];
        a.extend(burst(ps.iter().enumerate().map(|(i, (_, p))| send(i, prog(i, p))).collect()));
        for (i, (_, p)) in ps.iter().enumerate() {
            a.push(wait(i, 1 + p.len() as u64));
        }
        f.push(after(1, a.len()));
        sc = sc.actor(a);
    } else {
        for (i, (_, p)) in ps.iter().enumerate() {
            sc = sc.actor(vec![after(0, sl), send(i, prog(i, p)), wait(i, 1 + p.len() as u64)]);
            f.push(after(i + 1, 3));
        }
    }
    let mut m = 1;
    rt(&mut f, n, &mut cnt, get(b"k"));
    rt(&mut f, n + 1, &mut m, get(b"k"));
    sc = sc.actor(f);
    if tick {
        sc = sc.actor(vec![after(0, sl), adv(15 * MS)]);
    }
    sc.bud(B_PREEMPT, pre).bud(B_EARLY, early).order(1)
}
fn pairs(threads: [usize; 2], max: usize, inits: &[usize], tick: bool, pre: u8, early: u8, minlen: usize) -> Vec<Scenario> {
    let pr = progs(max);
    let mut v = vec![];
    for init in inits {
        for a in &pr {
            for b in &pr {
                if a.len() + b.len() < minlen || (threads[0] == threads[1] && a > b) {
                    continue;
                }
                // two readers of a live key never conflict
                if *init < 2 && !tick && a.iter().chain(b).all(|x| *x == 1) {
                    continue;
                }
                v.push(race(format!("init{init} {a:?}|{b:?} threads {threads:?}"), &[(threads[0], a.clone()), (threads[1], b.clone())], *init, tick, pre, early));
            }
        }
    }
    v
}

/// Programs over two keys: what one connection does to them in order, every
/// other one sees in that order.
fn two_keys(a: &[u8], b: &[u8], ps: &[(usize, Vec<usize>)], init: bool, pre: u8, early: u8) -> Scenario {
    let prog = |who: usize, ops: &[usize]| -> Vec<u8> {
        let mut r = vec![];
        for (i, o) in ops.iter().enumerate() {
            let k = if o / 2 == 0 { a } else { b };
            r.extend(if o % 2 == 0 { set(k, &vec![b'a' + (who * 3 + i) as u8; 3 + 5 * who]) } else { get(k) });
        }
        r
    };
    let n = ps.len();
    let mut s = vec![];
    for (i, (t, _)) in ps.iter().enumerate() {
        enter(&mut s, i, *t);
    }
    enter(&mut s, n, 0);
    let mut cnt = 1;
    if init {
        rt(&mut s, n, &mut cnt, cat(&[set(a, b"init-a"), set(b, b"init-b")]));
        cnt += 1;
        s.push(wait(n, cnt));
    }
    let sl = s.len();
    let mut sc = Scenario::new(format!("{} and {}, set before {init}: {ps:?}", resp::lossy(a), resp::lossy(b))).actor(s);
    let mut f = vec![];
    if early == 0 {
        let mut j = vec![after(0, sl)];
        j.extend(burst(ps.iter().enumerate().map(|(i, (_, p))| send(i, prog(i, p))).collect()));
        for (i, (_, p)) in ps.iter().enumerate() {
            j.push(wait(i, 1 + p.len() as u64));
        }
        f.push(after(1, j.len()));
        sc = sc.actor(j);
    } else {
        for (i, (_, p)) in ps.iter().enumerate() {
            sc = sc.actor(vec![after(0, sl), send(i, prog(i, p)), wait(i, 1 + p.len() as u64)]);
            f.push(after(i + 1, 3));
        }
    }
    f.push(send(n, cat(&[get(a), get(b)])));
    f.push(wait(n, cnt + 2));
    sc.actor(f).bud(B_PREEMPT, pre).bud(B_EARLY, early).order(1)
}
fn two_key_races(t: Tier) -> Vec<Scenario> {
    let tw = super::store::hash_twins();
    // 0 SET a, 1 GET a, 2 SET b, 3 GET b
    let mut pr: Vec<Vec<usize>> = vec![];
    for x in [0usize, 1] {
        for y in [2usize, 3] {
            pr.push(vec![x, y]);
            pr.push(vec![y, x]);
        }
    }
    if t.deep() {
        pr.extend([vec![0, 2, 0], vec![1, 3, 1], vec![2, 0, 2], vec![0, 2, 1], vec![3, 1, 3]]);
    }
    let mut v = vec![];
    let one = b"twin-key00000000".to_vec();
    let mut ks = vec![(b"k".to_vec(), b"q".to_vec())];
    // the same hash, hence the same bucket
    ks.extend(tw.into_iter().filter(|x| *x != one).map(|x| (one.clone(), x)));
    for (a, b) in ks {
        for init in [false, true] {
            for p in &pr {
                for q in &pr {
                    if p.iter().chain(q).all(|x| x % 2 == 1) || (!init && !t.deep() && p.iter().all(|x| x % 2 == 1)) {
                        continue;
                    }
                    v.push(two_keys(&a, &b, &[(0, p.clone()), (1, q.clone())], init, t.pick(1, 2), 0));
                    if t.deep() {
                        v.push(two_keys(&a, &b, &[(0, p.clone()), (1, q.clone())], init, 1, 1));
                    }
                }
            }
        }
    }
    v
}
pub fn p01(t: Tier) -> Vec<Job> {
    let g = t.pick(60, 1200);
    let mut v = vec![
        list("race-1x1", 2, g, pairs([0, 1], 1, &[0, 1, 2, 3], false, t.pick(2, 3), 0, 0), linearizable),
        list("race-2x2", 2, g, pairs([0, 1], 2, &[0, 1, 2], false, t.pick(1, 2), 0, 3), linearizable),
        list("race-staggered", 2, g, pairs([0, 1], t.pick(1, 2), &[0, 1, 2], false, t.pick(1, 2), 1, 0), linearizable),
        list("race-clock", 2, g, pairs([0, 1], t.pick(1, 2), &[0, 1, 3], true, 1, 1, 0), linearizable),
        list("race-one-thread", 1, g, pairs([0, 0], 2, &[0, 1, 2], false, 0, t.pick(1, 2), 0), linearizable),
    ];
    let three = |pre: u8, early: u8| -> Vec<Scenario> {
        let mut v = vec![];
        for init in [0, 2] {
            for x in 0..27 {
                let d = digits(x, 3, 3);
                if d.iter().filter(|k| **k != 1).count() < 1 {
                    continue;
                }
                v.push(race(format!("init{init} {d:?} three threads"), &[(0, vec![d[0]]), (1, vec![d[1]]), (2, vec![d[2]])], init, false, pre, early));
            }
        }
        v
    };
    v.push(list("race-two-keys", 2, g, two_key_races(t), linearizable));
    v.push(list("race-three-threads", 3, g, three(t.pick(1, 2), 0), linearizable));
    if t.deep() {
        v.push(list("race-three-staggered", 3, g, three(1, 1), linearizable));
        v.push(list("race-3x3", 2, g, pairs([0, 1], 3, &[0, 2], false, 1, 0, 5), linearizable));
    }
    v
}

// ---------------------------------------------------------------- P14
pub const P14_RULE: &str = "a request stream is ended by half-close, close or reset after every byte, the end overlapping the server's work at every point within the budget; bystanders on both threads are checked before and after";

const X: usize = 4;
/// Ends: 0 half-close, 1 close, 2 reset
fn end_act(kind: usize) -> Act {
    match kind {
        0 => Act::HalfClose { conn: X },
        1 => Act::Close { conn: X },
        _ => Act::Rst { conn: X },
    }
}
fn ending(name: String, stream: &[u8], at: usize, kind: usize, keys: &[&str], two: bool, early: u8, order: u8, pre: u8) -> Scenario {
    let mut s = vec![];
    enter(&mut s, 0, 0);
    if two {
        enter(&mut s, 1, 1);
    }
    s.push(connect(X, 0));
    let sl = s.len();
    let mut x = vec![after(0, sl)];
    if at > 0 {
        x.push(send(X, &stream[..at]));
    }
    x.push(end_act(kind));
    let xl = x.len();
    // bystanders while X ends
    let mut b = vec![after(0, sl), send(0, ping()), wait(0, 2)];
    b.push(after(1, xl));
    b.push(Act::WaitEof { conn: X });
    // and afterwards, on every connection and on new ones
    let mut n = 2;
    for k in keys {
        rt(&mut b, 0, &mut n, get(k.as_bytes()));
    }
    rt(&mut b, 0, &mut n, cmds("CLIENT LIST"));
    if two {
        let mut m = 1;
        for k in keys {
            rt(&mut b, 1, &mut m, get(k.as_bytes()));
        }
    }
    enter(&mut b, 2, 0);
    if two {
        enter(&mut b, 3, 1);
    }
    Scenario::new(name).actor(s).actor(x).actor(b).bud(B_EARLY, early).bud(B_ORDER, order).bud(B_PREEMPT, pre)
}
fn end_oracle(o: &Obs) -> Result<u64, Fail> {
    if o.conn(X).srv_closed == 0 {
        return fail("not-released", "the socket of the ended connection was never closed by the server");
    }
    let r = run_model(o)?;
    let graceful = o.conn(X).cl_half != 0 && o.conn(X).cl_rst == 0 && o.conn(X).cl_closed == 0;
    let mut h = 1u64;
    if graceful {
        let mut e = r.exs[X].clone();
        e.retain(|x| !matches!(x, Ex::MaybeErr));
        if !matches!(r.tail[X], Tail::Clean) {
            e.push(Ex::MaybeErr);
        }
        h ^= match_conn(o, X, &e)?;
    } else {
        // what did arrive is right, in order, and nothing else
        match_some(o, X, &r.exs[X], true)?;
    }
    // the other connections
    for c in 0..r.exs.len() {
        if c == X || o.conn(c).connected == 0 {
            continue;
        }
        let got = replies(o, c)?;
        let mut e = r.exs[c].clone();
        if !graceful {
            for (i, x) in e.iter_mut().enumerate() {
                // requests of an aborted stream may or may not have run; each as a whole
                if let (Ex::Is(V::Bulk(b)), Some(g)) = (&x, got.get(i)) {
                    if *g == V::Null || matches!(g, V::Bulk(g) if g == b || o.sc.sent(X).windows(g.len().max(1)).any(|w| w == &g[..])) {
                        *x = Ex::Is(g.clone());
                    }
                }
            }
        }
        h = h.wrapping_mul(31) ^ match_conn(o, c, &e)?;
    }
    all_done(o)?;
    Ok(h)
}
pub fn p14(t: Tier) -> Vec<Job> {
    let g = t.pick(60, 1200);
    let stream = cat(&[set(b"x", b"1"), get(b"x"), ping(), set(b"y", b"22")]);
    let big = cat(&[ping(), set(b"x", &vec![b'v'; 9000]), get(b"x"), set(b"y", b"2")]);
    let mut v = vec![];
    let mut scs = vec![];
    for kind in 0..3 {
        for at in 0..=stream.len() {
            scs.push(ending(format!("end{kind}@{at}"), &stream, at, kind, &["x", "y"], false, t.pick(1, 2), t.pick(0, 1), 0));
        }
    }
    v.push(list("every-byte", 1, g, scs, end_oracle));
    let mut scs = vec![];
    let e = stream.len();
    for kind in 0..3 {
        for at in [e, e - 1, set(b"x", b"1").len(), set(b"x", b"1").len() + 3, 0] {
            scs.push(ending(format!("end{kind}@{at}"), &stream, at, kind, &["x", "y"], false, 2, 2, 0));
        }
    }
    v.push(list("overlap", 1, g, scs, end_oracle));
    let mut scs = vec![];
    for kind in 0..3 {
        for at in [0, 1, 22, 4095, 4096, 4097, 8191, 8192, 8193, 9000, big.len() - 30, big.len() - 1, big.len()] {
            scs.push(ending(format!("big end{kind}@{at}"), &big, at, kind, &["x", "y"], false, t.pick(1, 2), 1, 0));
        }
    }
    v.push(list("large-stream", 1, g, scs, end_oracle));
    let mut scs = vec![];
    for kind in 0..3 {
        for at in [0, 5, set(b"x", b"1").len(), e] {
            scs.push(ending(format!("end{kind}@{at} two threads"), &stream, at, kind, &["x"], true, t.pick(1, 2), 0, t.pick(1, 1)));
        }
    }
    v.push(list("two-threads", 2, g, scs, end_oracle));
    // the end arrives while the reply to any kind of request is produced
    let mut scs = vec![];
    for (n, r) in super::proto::kinds() {
        for kind in 0..3 {
            for many in [1usize, 3] {
                let st = cat(&[cat(&vec![r.clone(); many]), ping()]);
                scs.push(ending(format!("{n} x{many} end{kind}"), &st, st.len(), kind, &["k"], false, t.pick(1, 2), 0, 0));
            }
        }
    }
    v.push(list("every-command", 1, g, scs, end_oracle));
    // many short-lived connections: descriptors are released and reused
    let mut scs = vec![];
    for kind in 0..3usize {
        let mut a = vec![];
        for i in 0..40usize {
            a.push(connect(i, 0));
            a.push(send(i, cat(&[set(format!("k{i}").as_bytes(), b"v"), ping()])));
            a.push(wait(i, 2));
            a.push(match kind {
                0 => Act::HalfClose { conn: i },
                1 => Act::Close { conn: i },
                _ => Act::Rst { conn: i },
            });
            a.push(Act::WaitEof { conn: i });
        }
        a.push(connect(40, 0));
        let mut n = 0;
        for i in 0..40 {
            rt(&mut a, 40, &mut n, get(format!("k{i}").as_bytes()));
        }
        scs.push(Scenario::new(format!("churn end{kind}")).actor(a));
    }
    v.push(list("churn", 1, g, scs, churn_oracle));
    // pipelined requests, slow reader, then half-close
    let mut scs = vec![];
    for n in [1usize, 2, 5, 20, 100] {
        for space in [0u64, 1, 7, 50] {
            let mut b = vec![];
            for i in 0..n {
                b.extend(set(format!("q{i}").as_bytes(), b"v"));
                b.extend(get(format!("q{i}").as_bytes()));
            }
            let a = vec![
                connect(0, 0),
                Act::PauseRead { conn: 0, space },
                send(0, b),
                Act::HalfClose { conn: 0 },
                Act::ResumeRead { conn: 0 },
                wait(0, 2 * n as u64),
                Act::WaitEof { conn: 0 },
            ];
            scs.push(Scenario::new(format!("half-close {n} space {space}")).actor(a).bud(B_EARLY, 1).bud(B_SHORT, 1));
        }
    }
    v.push(list("half-close-pipeline", 1, g, scs, by_model));
    v
}
fn churn_oracle(o: &Obs) -> Result<u64, Fail> {
    for c in 0..40 {
        if o.conn(c).connected != 0 && o.conn(c).srv_closed == 0 && (o.conn(c).cl_half | o.conn(c).cl_closed | o.conn(c).cl_rst) != 0 {
            return fail("not-released", format!("the socket of ended connection {c} was never closed by the server"));
        }
    }
    by_model(o)
}

// ---------------------------------------------------------------- P16
pub const P16_RULE: &str = "every accept, read and write of a set of client scripts fails once (quick) or twice (thorough) with each transient error; the other connections and later ones are checked";

fn fault_oracle(o: &Obs) -> Result<u64, Fail> {
    // a connection hit by a read or write fault is excused, all others not
    let r = run_model(o)?;
    let mut h = 1u64;
    let faulted: Vec<usize> = o.log().iter().filter(|e| e.kind == L_FAULT && e.b >= 4).map(|e| e.a as usize).collect();
    for c in 0..r.exs.len() {
        if o.conn(c).connected == 0 {
            continue;
        }
        // an option that could not be set, or a shortage that passes, does no
        // harm or ends the connection
        let minor = o.log().iter().all(|e| e.kind != L_FAULT || e.a as usize != c || e.b < 4 || e.b == 32 || [libc::ENOMEM, libc::ENOBUFS, libc::EINTR].contains(&(e.c as i32)));
        if faulted.contains(&c) && !(minor && o.conn(c).srv_closed == 0) {
            match_some(o, c, &r.exs[c], true)?;
            if o.conn(c).srv_closed == 0 {
                return fail("not-released", format!("the failed connection {c} was never closed by the server"));
            }
            continue;
        }
        h = h.wrapping_mul(31) ^ match_conn(o, c, &r.exs[c])?;
    }
    for i in 0..o.sc.actors.len() {
        if !o.actor_done(i) {
            let k = o.res.apos[i] as usize;
            if let Act::Wait { conn, .. } = &o.sc.actors[i][k] {
                if faulted.contains(conn) {
                    continue;
                }
            }
            return fail("unanswered", format!("client {i} waits for ever at {:?}", o.sc.actors[i][k]));
        }
    }
    Ok(h)
}
/// The service is back soon after the failures have stopped.
fn storm_oracle(o: &Obs) -> Result<u64, Fail> {
    let h = by_model(o)?;
    let now = |e: &LogEnt| e.b as u64 | (e.c as u64) << 32; // microseconds
    let times: Vec<u64> = o.log().iter().filter(|e| e.kind == L_TIME).map(now).collect();
    let took = times.last().unwrap_or(&0).saturating_sub(*times.first().unwrap_or(&0)) / 1_000_000;
    let faults = o.log().iter().filter(|e| e.kind == L_FAULT).count() as u64;
    if took > 60 + faults {
        return fail("too-late", format!("after {faults} failed accepts it took {took} s until the clients were answered"));
    }
    Ok(h)
}
pub fn p16(t: Tier) -> Vec<Job> {
    let g = t.pick(60, 1200);
    let nf = t.pick(1, 2);
    // every client has its own key and its own script, so that a fault on one
    // leaves the others fully predictable
    let mk = |name: &str, threads: usize, mask: u32, nf: u8, early: u8, conns: usize, rounds: usize| {
        let mut s = Scenario::new(name.to_string());
        for c in 0..conns {
            let mut a = vec![connect(c, c % threads)];
            let mut n = 0;
            let k = format!("k{c}");
            rt(&mut a, c, &mut n, set(k.as_bytes(), b"val"));
            for _ in 0..rounds {
                a.push(send(c, cat(&[get(k.as_bytes()), ping(), cmds("CLIENT ID")])));
                n += 3;
                a.push(wait(c, n));
            }
            s = s.actor(a);
        }
        s.faults(mask, nf).bud(B_EARLY, early).order(0)
    };
    const ANY: u32 = 15 | 16 | 32 | 64;
    let mut v = vec![];
    for threads in [1usize, 2] {
        let mut scs = vec![];
        // one mask allows every kind of fault at every point
        scs.push(mk("any fault", threads, if threads == 1 { 15 | 32 | 64 } else { 15 }, nf, 1, 3, t.pick(1, 2)));
        scs.push(mk("any fault of every kind", threads, ANY, nf, 0, 3, t.pick(1, 2)));
        scs.push(mk("faults in a row", threads, 15 | 32 | 64, nf + 1, 0, if threads == 1 { t.pick(3, 4) } else { t.pick(2, 3) }, 1));
        v.push(list(if threads == 1 { "faults-one-thread" } else { "faults-two-threads" }, threads, g, scs, fault_oracle));
    }
    // the reply to any kind of request can't be written
    let mut scs = vec![];
    for (name, r) in super::proto::kinds() {
        let mut a = vec![connect(0, 0)];
        let mut n = 0;
        rt(&mut a, 0, &mut n, set(b"k", b"value"));
        a.push(send(0, cat(&[r.clone(), r.clone()])));
        a.push(wait(0, n + 2));
        let mut b = vec![connect(1, 0)];
        let mut m = 0;
        rt(&mut b, 1, &mut m, set(b"other", b"1"));
        rt(&mut b, 1, &mut m, get(b"other"));
        let mut d = vec![after(0, 3), connect(2, 0)];
        let mut k = 0;
        rt(&mut d, 2, &mut k, set(b"third", b"3"));
        rt(&mut d, 2, &mut k, get(b"third"));
        scs.push(Scenario::new(format!("writing {name}")).actor(a).actor(b).actor(d).faults(ANY, nf).bud(B_EARLY, 0).order(0));
    }
    v.push(list("every-reply", 1, g, scs, fault_oracle));
    // writes fail while large replies are under way; accept fails repeatedly
    let mut scs = vec![];
    for mask in [4u32, 8, 12] {
        let mut a = vec![connect(0, 0)];
        let mut n = 0;
        rt(&mut a, 0, &mut n, set(b"big", &vec![b'x'; 20000]));
        a.push(send(0, cat(&[get(b"big"), get(b"big"), ping()])));
        a.push(wait(0, n + 3));
        let mut b = vec![connect(1, 0)];
        let mut m = 0;
        rt(&mut b, 1, &mut m, set(b"other", b"1"));
        rt(&mut b, 1, &mut m, get(b"other"));
        scs.push(Scenario::new(format!("large mask{mask}")).actor(a).actor(b).faults(mask, nf).bud(B_EARLY, 1).bud(B_SHORT, 1));
    }
    let mut a = vec![];
    for c in 0..6 {
        a.push(connect(c, 0));
        a.push(send(c, ping()));
        a.push(wait(c, 1));
    }
    scs.push(Scenario::new("accept storm").actor(a.clone()).faults(3, t.pick(4, 6)));
    scs.push(Scenario::new("accept storm of every kind").actor(a).faults(3 | 16, t.pick(2, 3)));
    v.push(list("faults-large", 1, g, scs, fault_oracle));
    // accepting fails for a long while
    let mut scs = vec![];
    for errno in [libc::EMFILE, libc::ENFILE, libc::ENOBUFS, libc::ENOMEM, libc::ECONNABORTED] {
        for n in [1u32, 2, 3, 5, 10, 30, 60, 100, 200, 300] {
            let a = vec![connect(0, 0), send(0, ping()), wait(0, 1), connect(1, 0), send(1, ping()), wait(1, 1), send(0, ping()), wait(0, 2)];
            scs.push(Scenario::new(format!("{n} accepts fail with errno {errno}")).actor(a).storm(n, errno));
        }
    }
    v.push(list("accept-storms", 1, g, scs, storm_oracle));
    v
}
