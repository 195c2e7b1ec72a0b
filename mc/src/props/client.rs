use super::*;
use std::collections::BTreeMap;

/// Everything that names a connection: (step from, step to, reporting conn,
/// line) of LIST and INFO, and the ids connections report about themselves.
struct Seen {
    own: Vec<Option<i128>>,
    lists: Vec<(usize, usize, u32, u32, Vec<Line>)>,
    /// the ids asked for by a listing: (conn, request)
    only: BTreeMap<(usize, usize), Vec<u128>>,
    run: Run,
}
fn conn_of(addr: &str, n: usize) -> Option<usize> {
    let (ip, p) = addr.rsplit_once(':')?;
    let c = 2 * p.parse::<usize>().ok()?.checked_sub(40000)? + (ip == "127.0.0.2" || ip == "[::2]") as usize;
    (c < n && crate::model::addr(c) == addr).then_some(c)
}
fn seen(o: &Obs) -> Result<Seen, Fail> {
    let r = run_model(o)?;
    let n = r.exs.len();
    let mut own: Vec<Option<i128>> = vec![None; n];
    let mut lists = vec![];
    let mut only = BTreeMap::new();
    for c in 0..n {
        if o.conn(c).connected == 0 {
            continue;
        }
        match_conn(o, c, &r.exs[c])?;
        let got = replies(o, c)?;
        let st = reply_steps(o, c);
        for (i, (e, v)) in r.exs[c].iter().zip(&got).enumerate() {
            let id = match (e, v) {
                (Ex::Id, V::Int(x)) => Some(*x),
                (Ex::Hello, v) => hello_ok(v).ok(),
                (Ex::Info(_), v) => line(v).ok().map(|l| l.id),
                (Ex::List(_) | Ex::Some(_), V::Array(a)) => {
                    if let Ex::Some(ids) = e {
                        only.insert((c, i), ids.clone());
                    }
                    let mut ls = vec![];
                    for x in a {
                        ls.push(line(x).map_err(|e| ("wrong-reply".to_string(), e))?);
                    }
                    let me = ls.iter().find(|l| conn_of(&l.addr, n) == Some(c)).map(|l| l.id);
                    lists.push((c, i, r.at[c][i], st.get(i).copied().unwrap_or(u32::MAX), ls));
                    me
                }
                _ => None,
            };
            if let Some(x) = id {
                if own[c].is_some() && own[c] != Some(x) {
                    return fail("id-changed", format!("conn {c} reports id {} and then {x}", own[c].unwrap()));
                }
                own[c] = Some(x);
            }
        }
    }
    Ok(Seen { own, lists, only, run: r })
}
pub fn ids_oracle(o: &Obs) -> Result<u64, Fail> {
    let mut s = seen(o)?;
    let n = s.own.len();
    for (c, _, _, _, ls) in &s.lists {
        for l in ls {
            let Some(d) = conn_of(&l.addr, n) else { return fail("wrong-line", format!("conn {c} lists an unknown connection from {}", l.addr)) };
            match s.own[d] {
                Some(x) if x != l.id => return fail("id-differs", format!("conn {c} lists conn {d} with id {}, which it reports as {x}", l.id)),
                None => s.own[d] = Some(l.id),
                _ => {}
            }
        }
    }
    let mut by: BTreeMap<i128, usize> = BTreeMap::new();
    for (c, i) in s.own.iter().enumerate() {
        if let Some(i) = i {
            if let Some(d) = by.insert(*i, c) {
                return fail("id-shared", format!("connections {d} and {c} both have id {i}"));
            }
        }
    }
    // order of acceptance
    let mut acc: Vec<(u32, usize)> = vec![];
    let mut first: Vec<Option<u32>> = vec![None; n];
    let mut conn_at: Vec<u32> = vec![0; n];
    for e in o.log() {
        match e.kind {
            L_ACCEPT => acc.push((e.step, e.a as usize)),
            L_REPLY => {
                let f = &mut first[e.a as usize];
                if f.is_none() {
                    *f = Some(e.step);
                }
            }
            L_ACT => {
                if let Act::Connect { conn, .. } = &o.sc.actors[e.a as usize][e.b as usize] {
                    conn_at[*conn] = e.step;
                }
            }
            _ => {}
        }
    }
    for (i, (_, a)) in acc.iter().enumerate() {
        for (_, b) in &acc[i + 1..] {
            let (Some(x), Some(y)) = (s.own[*a], s.own[*b]) else { continue };
            let same = o.conn(*a).thr == o.conn(*b).thr;
            let after = first[*a].map_or(false, |f| f < conn_at[*b]);
            if (same || after) && x >= y {
                return fail("id-order", format!("conn {b} was accepted after conn {a} but has id {y} and not more than {x}"));
            }
        }
    }
    all_done(o)?;
    Ok(s.own.iter().fold(7, |h, x| h.wrapping_mul(31) ^ x.unwrap_or(-1) as u64))
}

pub const P09_RULE: &str = "connections accepted concurrently on two and three threads under every interleaving within the preemption bound, with churn; every source of an id is compared";

pub fn p09(t: Tier) -> Vec<Job> {
    let g = t.pick(60, 1500);
    let mut v = vec![];
    let asks = || cat(&[cmds("CLIENT ID"), cmds("HELLO"), cmds("CLIENT INFO")]);
    // concurrent accepts
    for (name, thr) in [("one-each", vec![0usize, 1]), ("two-and-one", vec![0, 1, 0]), ("two-each", vec![0, 1, 0, 1])] {
        let mut scs = vec![];
        let k = thr.len();
        for ask in [false, true] {
            let mut a: Vec<Act> = thr.iter().enumerate().map(|(c, th)| connect(c, *th)).collect();
            let r = if ask { asks() } else { cmds("CLIENT ID") };
            let n = requests(&r).0.len() as u64;
            a.extend((0..k).map(|c| send(c, r.clone())));
            a.extend((0..k).map(|c| wait(c, n)));
            let mut m = 0;
            a.push(connect(k, 1));
            rt(&mut a, k, &mut m, cmds("CLIENT LIST"));
            rt(&mut a, k, &mut m, cmds("CLIENT ID"));
            let s = Scenario::new(format!("{name} all {ask}")).joint(a);
            scs.push(s.order(1).bud(B_PREEMPT, if k < 4 { t.pick(2, 3) } else { t.pick(1, 2) }));
        }
        v.push(list(&format!("accepts-{name}"), 2, g, scs, ids_oracle));
    }
    // the clients act while the server works
    let mut scs = vec![];
    for ask in [false, true] {
        let mut s = Scenario::new(format!("staggered all {ask}"));
        for (c, th) in [0usize, 1, 0].iter().enumerate() {
            let r = if ask { asks() } else { cmds("CLIENT ID") };
            let n = requests(&r).0.len() as u64;
            s = s.joint(vec![connect(c, *th), send(c, r), wait(c, n)]);
        }
        scs.push(s.order(1).bud(B_PREEMPT, t.pick(1, 2)).bud(B_EARLY, t.pick(1, 2)));
    }
    v.push(list("accepts-staggered", 2, g, scs, ids_oracle));
    // a listing while connections are accepted
    let mut scs = vec![];
    for thr in [vec![0usize, 1], vec![0, 1, 1]] {
        let mut a: Vec<Act> = thr.iter().enumerate().map(|(c, th)| connect(c, *th)).collect();
        a.push(send(0, cmds("CLIENT LIST")));
        a.extend((1..thr.len()).map(|c| send(c, cmds("CLIENT ID"))));
        a.extend((0..thr.len()).map(|c| wait(c, 1)));
        scs.push(Scenario::new(format!("listing while accepting {thr:?}")).joint(a).order(1).bud(B_PREEMPT, t.pick(2, 4)));
    }
    v.push(list("accepts-listed", 2, g, scs, ids_oracle));
    let mut scs = vec![];
    let mut a: Vec<Act> = (0..3).map(|c| connect(c, c)).collect();
    a.extend((0..3).map(|c| send(c, cat(&[cmds("CLIENT ID"), cmds("CLIENT INFO")]))));
    a.extend((0..3).map(|c| wait(c, 2)));
    scs.push(Scenario::new("three threads").joint(a).order(1).bud(B_PREEMPT, t.pick(1, 2)));
    v.push(list("three-threads", 3, g, scs, ids_oracle));
    // accepted in one order, first heard of in another
    let n = 4usize;
    v.push(lazy("silent", 2, g, 24 * 16 * 6, move |i| {
        let (p, thr, how) = (i % 24, i / 24 % 16, i / 24 / 16);
        let mut rest: Vec<usize> = (0..n).collect();
        let mut order = vec![];
        let mut p = p;
        for k in (1..=n).rev() {
            order.push(rest.remove(p % k));
            p /= k;
        }
        let mut a = vec![];
        let mut m = [0u64; 5];
        for c in 0..n {
            a.push(connect(c, thr >> c & 1));
            a.push(adv(MS));
        }
        let mut live = vec![];
        for (k, c) in order.into_iter().enumerate() {
            // one never says anything
            if how == 4 && k == 1 {
                a.push(Act::HalfClose { conn: c });
                a.push(Act::WaitEof { conn: c });
                continue;
            }
            if how == 5 && k == 1 {
                a.push(Act::Rst { conn: c });
                continue;
            }
            live.push(c);
            rt(&mut a, c, &mut m[c], match how {
                0 => cmds("CLIENT ID"),
                1 => cmds("HELLO"),
                2 => cmds("CLIENT INFO"),
                3 => cmds("CLIENT LIST"),
                _ => ping(),
            });
        }
        a.push(connect(n, 1));
        rt(&mut a, n, &mut m[n], cmds("CLIENT LIST"));
        for c in live.into_iter().chain([n]) {
            rt(&mut a, c, &mut m[c], cmds("CLIENT ID"));
        }
        Scenario::new(format!("silent {i}")).actor(a)
    }, ids_oracle));
    // churn: every sequence of connect, end and ask
    let depth = t.pick(5, 6);
    v.push(lazy("churn", 2, g, 5usize.pow(depth as u32), move |i| {
        let mut a = vec![];
        let mut live: Vec<(usize, u64)> = vec![];
        let mut next = 0;
        for d in digits(i, 5, depth) {
            match d {
                0 | 1 => {
                    a.push(connect(next, d));
                    a.push(send(next, cmds("CLIENT ID")));
                    a.push(wait(next, 1));
                    live.push((next, 1));
                    next += 1;
                }
                2 => {
                    if !live.is_empty() {
                        let c = live.remove(0).0;
                        a.push(Act::HalfClose { conn: c });
                        a.push(Act::WaitEof { conn: c });
                    }
                }
                3 => {
                    if let Some((c, _)) = live.pop() {
                        a.push(Act::Rst { conn: c });
                    }
                }
                _ => {
                    for (c, n) in live.iter_mut() {
                        rt(&mut a, *c, n, asks_one(*n));
                        *n += 0;
                    }
                }
            }
        }
        for (c, n) in live.iter_mut() {
            rt(&mut a, *c, n, cmds("CLIENT LIST"));
        }
        a.push(connect(next, 0));
        let mut m = 0;
        rt(&mut a, next, &mut m, cmds("HELLO"));
        Scenario::new(format!("churn {:?}", digits(i, 5, depth))).actor(a)
    }, ids_oracle));
    // many
    let mut scs = vec![];
    for n in [20usize, 100, 255, 256, 257, 300, 500] {
        let mut a = vec![];
        for c in 0..n.min(500) {
            a.push(connect(c, c % 2));
        }
        for c in (0..n).step_by((n / 50).max(1)) {
            a.push(send(c, cmds("CLIENT ID")));
        }
        a.push(send(0, cmds("CLIENT LIST")));
        a.push(wait(0, 2));
        scs.push(Scenario::new(format!("{n} connections")).actor(a).outcap(128 * 1024));
    }
    v.push(list("many", 2, g, scs, ids_oracle));
    v
}
fn asks_one(n: u64) -> Vec<u8> {
    match n % 3 {
        0 => cmds("CLIENT ID"),
        1 => cmds("CLIENT INFO"),
        _ => cmds("HELLO"),
    }
}

// ---------------------------------------------------------------- P10
pub const P10_RULE: &str = "CLIENT LIST while connections come, are renamed and end in every way on two threads, under every interleaving within the preemption bound; every line is compared with what is open";

fn names_of(o: &Obs, r: &Run, d: usize, from: u32, to: u32) -> Vec<(usize, Vec<u8>)> {
    // names conn d may have had during [from, to], each with the number of the
    // request which gave it
    let mut cand: Vec<(usize, Vec<u8>)> = vec![(0, vec![])];
    let (rq, _) = requests(&o.sc.sent(d));
    let st = reply_steps(o, d);
    for (i, (q, _)) in rq.iter().enumerate() {
        let Some(sent) = r.at[d].get(i).copied() else { break };
        let done = st.get(i).copied().unwrap_or(u32::MAX);
        let V::Array(a) = q else { continue };
        let t = |k: usize| match a.get(k) {
            Some(V::Bulk(b) | V::Simple(b)) => b.to_ascii_lowercase(),
            _ => vec![],
        };
        if t(0) != b"client" || t(1) != b"setname" || a.len() != 3 {
            continue;
        }
        let (V::Bulk(n) | V::Simple(n)) = &a[2] else { continue };
        if !name_ok(n) {
            continue;
        }
        if done < from {
            cand = vec![(i + 1, n.clone())];
        } else if sent <= to {
            cand.push((i + 1, n.clone()));
        }
    }
    cand
}
pub fn listing(o: &Obs) -> Result<u64, Fail> {
    listed(o, false)
}
/// with places for all connections
fn listing_all(o: &Obs) -> Result<u64, Fail> {
    listed(o, true)
}
fn listed(o: &Obs, room: bool) -> Result<u64, Fail> {
    let s = seen(o)?;
    let n = s.own.len();
    let log = o.log();
    let mut h = 5u64;
    // a listing which starts after another one was answered does not show an
    // earlier name than that one
    let mut lists: Vec<_> = s.lists.iter().collect();
    lists.sort_by_key(|l| l.2);
    let mut shown: Vec<(usize, u32, usize)> = vec![]; // conn, shown at, request
    for (c, i, from, to, ls) in lists {
        let what = format!("CLIENT LIST (request #{i} of conn {c})");
        let mut found = vec![false; n];
        for l in ls {
            let Some(d) = conn_of(&l.addr, n) else { return fail("wrong-line", format!("{what} shows an unknown connection from {}", l.addr)) };
            if found[d] {
                return fail("listed-twice", format!("{what} shows conn {d} twice"));
            }
            found[d] = true;
            line_is(o, l, d).map_err(|e| ("wrong-line".to_string(), format!("{what}, conn {d}: {e}")))?;
            if let Some(x) = s.own[d] {
                if x != l.id {
                    return fail("wrong-line", format!("{what} shows conn {d} with id {} instead of {x}", l.id));
                }
            }
            let cand = names_of(o, &s.run, d, *from, *to);
            let least = shown.iter().filter(|x| x.0 == d && x.1 < *from).map(|x| x.2).max().unwrap_or(0);
            if let Some((k, _)) = cand.iter().find(|x| x.0 >= least && x.1 == l.name) {
                shown.push((d, *to, *k));
            } else {
                return fail("wrong-line", format!("{what} shows conn {d} with name {:?}", resp::lossy(&l.name)));
            }
        }
        for d in 0..n {
            let q = o.conn(d);
            if q.connected == 0 {
                continue;
            }
            let first = |f: &dyn Fn(&LogEnt) -> bool| log.iter().find(|e| f(e)).map(|e| e.step);
            let served = first(&|e| e.kind == L_REPLY && e.a as usize == d);
            let accepted = first(&|e| e.kind == L_ACCEPT && e.a as usize == d);
            let srv_end = first(&|e| (e.kind == L_SRVCLOSE || e.kind == L_SHUT) && e.a as usize == d);
            let cl_end = first(&|e| {
                e.kind == L_ACT
                    && match &o.sc.actors[e.a as usize][e.b as usize] {
                        Act::HalfClose { conn } | Act::Close { conn } | Act::Rst { conn } => *conn == d,
                        _ => false,
                    }
            });
            // it may also be silent so far: then its thread had the time to take
            // it up, and there was a place for it
            let taken = accepted.map_or(false, |p| room && log.iter().any(|e| e.kind == L_IDLE && e.a as i32 == q.thr && e.step > p && e.step < *from));
            let open = (taken || served.map_or(false, |x| x < *from)) && srv_end.map_or(true, |x| x > *to) && cl_end.map_or(true, |x| x > *to);
            let asked = s.only.get(&(*c, *i)).map_or(true, |ids| s.own[d].map_or(false, |x| ids.contains(&(x as u128))));
            if open && asked && !found[d] {
                return fail("not-listed", format!("{what} does not show conn {d}, which is open"));
            }
            if found[d] && accepted.map_or(true, |x| x > *to) {
                return fail("listed-early", format!("{what} shows conn {d}, which was not accepted yet"));
            }
            // its end is processed: closed, and the owning thread was idle since
            let closed = first(&|e| e.kind == L_SRVCLOSE && e.a as usize == d);
            if let Some(p) = closed {
                let idle = log.iter().any(|e| e.kind == L_IDLE && e.a as i32 == q.thr && e.step > p && e.step < *from);
                if idle && found[d] {
                    return fail("listed-closed", format!("{what} still shows conn {d}, whose end the server has processed"));
                }
            }
        }
        h = h.wrapping_mul(31) ^ found.iter().fold(0u64, |h, f| h.wrapping_mul(2) + *f as u64);
    }
    all_done(o)?;
    Ok(h)
}
pub fn end(kind: usize, conn: usize, v: &mut Vec<Act>) {
    match kind {
        0 => v.push(Act::HalfClose { conn }),
        1 => v.push(Act::Close { conn }),
        2 => v.push(Act::Rst { conn }),
        3 => {
            // ends itself by malformed input
            v.push(send(conn, b"?\r\n".to_vec()));
        }
        _ => {
            // mid-request
            v.push(send(conn, b"*2\r\n$3\r\nGE".to_vec()));
            v.push(Act::HalfClose { conn });
        }
    }
    v.push(Act::WaitEof { conn });
}
pub fn p10(t: Tier) -> Vec<Job> {
    let g = t.pick(60, 1500);
    let mut v = vec![];
    // sequential: every sequence of connect/rename/end/list
    let depth = t.pick(4, 5);
    let base = 8usize;
    v.push(lazy("sequences", 2, g, base.pow(depth as u32), move |i| {
        let mut a = vec![connect(0, 0)];
        let mut m = 0u64;
        let mut live: Vec<(usize, u64)> = vec![];
        let mut next = 1;
        for (j, d) in digits(i, base, depth).into_iter().enumerate() {
            match d {
                0 | 1 => {
                    a.push(connect(next, d));
                    a.push(send(next, ping()));
                    a.push(wait(next, 1));
                    live.push((next, 1));
                    next += 1;
                }
                2 => {
                    if let Some((c, n)) = live.last_mut() {
                        rt(&mut a, *c, n, cmd(&[b"CLIENT", b"SETNAME", format!("name{j}").as_bytes()]));
                    }
                }
                3 => {
                    if let Some((c, n)) = live.first_mut() {
                        rt(&mut a, *c, n, cmd(&[b"CLIENT", b"SETNAME", b""]));
                    }
                }
                k @ 4..=7 => {
                    if !live.is_empty() {
                        let c = live.remove(0).0;
                        end(k - 4, c, &mut a);
                    }
                }
                _ => {}
            }
            rt(&mut a, 0, &mut m, cmds("CLIENT LIST"));
        }
        for (c, n) in live.iter_mut() {
            rt(&mut a, *c, n, cmds("CLIENT INFO"));
        }
        a.push(connect(next, 1));
        let mut k = 0;
        rt(&mut a, next, &mut k, cmds("CLIENT LIST"));
        Scenario::new(format!("sequence {:?}", digits(i, base, depth))).actor(a)
    }, listing_all));
    // whatever another connection did before it ended, it is gone; and the next
    // on its descriptor is listed as itself
    let ls = lives();
    let nl = ls.len();
    v.push(lazy("lives", 2, g, nl * nl * 2, move |i| {
        let (t, i) = (i % 2, i / 2);
        let (x, y) = (i % nl, i / nl);
        let mut a = vec![connect(0, 0)];
        let mut m = 0;
        rt(&mut a, 0, &mut m, cmds("CLIENT SETNAME watch"));
        for (c, l, t) in [(1, x, t), (2, y, t), (3, x, 1 - t)] {
            a.extend(ls[l].1(c, t));
            rt(&mut a, 0, &mut m, cmds("CLIENT LIST"));
        }
        a.push(connect(4, t));
        let mut k = 0;
        rt(&mut a, 4, &mut k, cmds("CLIENT INFO"));
        rt(&mut a, 4, &mut k, cmds("CLIENT LIST"));
        Scenario::new(format!("lives {} and {}, thread {t}", ls[x].0, ls[y].0)).actor(a)
    }, listing_all));
    // connections which never said anything
    v.push(lazy("silent", 2, g, 6 * 16 * 24, move |i| {
        let (how, thr, p) = (i % 6, i / 6 % 16, i / 96);
        let mut a = vec![];
        let mut m = [0u64; 5];
        for c in 0..4 {
            a.push(connect(c, thr >> c & 1));
            if p & 1 != 0 {
                a.push(adv(MS));
            }
        }
        a.push(connect(4, p / 2 % 2));
        rt(&mut a, 4, &mut m[4], cmds("CLIENT LIST"));
        let c = p / 4 % 4;
        if p < 16 {
            end(how, c, &mut a);
        } else {
            // part of a request, or a whole one
            a.push(send(c, if how % 2 == 0 { b"*2\r\n$3\r\nGE".to_vec() } else { cmds("CLIENT SETNAME me") }));
        }
        rt(&mut a, 4, &mut m[4], cmds("CLIENT LIST"));
        let d = (c + 1) % 4;
        rt(&mut a, d, &mut m[d], if how < 3 { cmds("CLIENT LIST") } else { cmds("CLIENT INFO") });
        rt(&mut a, 4, &mut m[4], cmds("CLIENT LIST"));
        Scenario::new(format!("silent {i}")).actor(a)
    }, listing_all));
    // listings of some connections only
    let ids: Vec<&[u8]> = vec![b"0", b"1", b"2", b"3", b"4", b"9", b"65536", b"18446744073709551615"];
    let mut filters: Vec<Vec<Vec<u8>>> = vec![];
    let w = |l: &[&[u8]]| l.iter().map(|b| b.to_vec()).collect::<Vec<_>>();
    for ty in [&b""[..], b"normal", b"NORMAL", b"replica", b"master", b"Pubsub"] {
        let pre = if ty.is_empty() { vec![] } else { w(&[b"TYPE", ty]) };
        if !ty.is_empty() {
            filters.push(pre.clone());
        }
        for (i, a) in ids.iter().enumerate() {
            filters.push([pre.clone(), w(&[b"ID", a])].concat());
            for (j, b) in ids.iter().enumerate() {
                if ty.is_empty() || i + j < 4 {
                    filters.push([pre.clone(), w(&[b"id", a, b])].concat());
                }
            }
        }
        filters.push([pre.clone(), w(&[b"Id", b"3", b"2", b"1", b"0"])].concat());
        filters.push([pre, w(&[b"ID", b"4", b"4", b"0", b"9", b"2", b"2"])].concat());
    }
    let mut scs = vec![];
    for ended in 0..6 {
        for chunk in filters.chunks(20) {
            let mut a = vec![];
            let mut m = [0u64; 4];
            for c in 0..4 {
                a.push(connect(c, c % 2));
                rt(&mut a, c, &mut m[c], cmds("CLIENT ID"));
                rt(&mut a, c, &mut m[c], cmd(&[b"CLIENT", b"SETNAME", format!("n{c}").as_bytes()]));
            }
            if ended < 5 {
                end(ended, 2, &mut a);
            }
            for c in [0usize, 1] {
                let r: Vec<Vec<u8>> = chunk.iter().map(|f| cmd(&[&b"CLIENT"[..], b"LIST"].into_iter().chain(f.iter().map(|x| &x[..])).collect::<Vec<_>>())).collect();
                a.push(send(c, cat(&r)));
                m[c] += r.len() as u64;
                a.push(wait(c, m[c]));
            }
            // numbers of the integer type
            a.push(send(0, b"*5\r\n$6\r\nCLIENT\r\n$4\r\nLIST\r\n$2\r\nID\r\n:3\r\n:1\r\n".to_vec()));
            a.push(wait(0, m[0] + 1));
            scs.push(Scenario::new(format!("filters {:?} ended {ended}", chunk[0].iter().map(|x| resp::lossy(x)).collect::<Vec<_>>())).actor(a));
        }
    }
    v.push(list("filters", 2, g, scs, listing));
    // concurrent: a lister on one thread, something else happening on the other
    let mut scs = vec![];
    for (lt, ot) in [(0, 1), (1, 0), (0, 0)] {
        for what in 0..9 {
            for twice in [false, true] {
                let mut s = vec![];
                enter(&mut s, 0, lt);
                if what != 0 {
                    enter(&mut s, 1, ot);
                }
                enter(&mut s, 2, ot);
                let sl = s.len();
                let mut x = vec![after(0, sl)];
                match what {
                    0 => {
                        x.push(connect(1, ot));
                        x.push(send(1, cmds("CLIENT INFO")));
                        x.push(wait(1, 1));
                    }
                    1 => {
                        x.push(send(1, cat(&[cmds("CLIENT SETNAME aa"), cmds("CLIENT SETNAME bbbb"), cmds("CLIENT INFO")])));
                        x.push(wait(1, 4));
                    }
                    8 => {
                        // it has a name all the time
                        rt(&mut s, 1, &mut 1, cmds("CLIENT SETNAME first"));
                        x[0] = after(0, s.len());
                        x.push(send(1, cmds("CLIENT SETNAME other")));
                        x.push(wait(1, 3));
                    }
                    2..=6 => end(what - 2, 1, &mut x),
                    _ => {
                        x.push(send(1, cat(&[cmds("CLIENT SETNAME mine"), cmds("CLIENT LIST")])));
                        x.push(wait(1, 3));
                    }
                }
                let mut l = vec![after(0, s.len())];
                let mut n = 1;
                rt(&mut l, 0, &mut n, cmds("CLIENT LIST"));
                if twice {
                    rt(&mut l, 0, &mut n, cmds("CLIENT LIST"));
                }
                let (ll, xl) = (l.len(), x.len());
                let mut f = vec![after(1, xl), after(2, ll)];
                let mut m = 1;
                rt(&mut f, 2, &mut m, cmds("CLIENT LIST"));
                let pre = if lt == ot { 0 } else { t.pick(1, 2) };
                scs.push(Scenario::new(format!("list on {lt}, event {what} on {ot}, twice {twice}")).actor(s).actor(x).actor(l).actor(f).bud(B_PREEMPT, pre).bud(B_EARLY, if lt == ot { 3 } else { 1 }).bud(B_ORDER, if lt == ot { 1 } else { 0 }));
            }
        }
    }
    v.push(list("concurrent", 2, g, scs, listing));
    // many connections, one more accepted while they are listed: the table of
    // connections grows at some of these numbers
    let nums: Vec<usize> = (t.pick(48, 24)..=t.pick(72, 128)).collect();
    v.push(lazy("growth", 2, g, nums.len(), move |i| {
        let n = nums[i];
        let mut a = vec![];
        for c in 0..n {
            a.push(connect(c, if c == 0 { 0 } else { 1 }));
        }
        let mut m = 0;
        rt(&mut a, n - 1, &mut m, ping());
        rt(&mut a, 0, &mut 0, ping());
        let k = a.len();
        let b = vec![after(0, k), send(0, cmds("CLIENT LIST")), connect(n, 1), send(n, ping()), wait(0, 2), wait(n, 1)];
        Scenario::new(format!("one more than {n}")).actor(a).joint(b).order(1).bud(B_PREEMPT, 1)
    }, listing));
    // long listings
    let mut scs = vec![];
    for n in [100usize, 127, 128, 129, 200, 255, 256, 257, 300, 500] {
        for kind in 0..3 {
            let mut a = vec![];
            for c in 0..n {
                a.push(connect(c, c % 2));
            }
            let mut m = 0;
            rt(&mut a, n - 1, &mut m, cmds("CLIENT LIST"));
            for c in (0..n - 1).step_by(3) {
                a.push(match kind {
                    0 => Act::HalfClose { conn: c },
                    1 => Act::Close { conn: c },
                    _ => Act::Rst { conn: c },
                });
            }
            a.push(adv(MS));
            rt(&mut a, n - 1, &mut m, cmds("CLIENT LIST"));
            a.push(connect(n, 0));
            rt(&mut a, n, &mut 0, cmds("CLIENT LIST"));
            scs.push(Scenario::new(format!("{n} connections, end {kind}")).actor(a).outcap(256 * 1024));
        }
    }
    v.push(list("long-listings", 2, g, scs, listing));
    // ends while replies are still owed
    let mut scs = vec![];
    for kind in 0..5 {
        for n in [1usize, 5, 60] {
            let mut a = vec![];
            enter(&mut a, 0, 0);
            a.push(connect(1, 0));
            a.push(Act::PauseRead { conn: 1, space: 0 });
            a.push(send(1, cat(&vec![ping(); n])));
            let mut e = vec![];
            end(kind, 1, &mut e);
            e.pop();
            a.extend(e);
            a.push(Act::ResumeRead { conn: 1 });
            a.push(Act::WaitEof { conn: 1 });
            let mut m = 1;
            rt(&mut a, 0, &mut m, cmds("CLIENT LIST"));
            scs.push(Scenario::new(format!("end {kind} with {n} replies owed")).actor(a).bud(B_EARLY, 1));
        }
    }
    v.push(list("ends-while-busy", 1, g, scs, listing));
    // faults end connections, too
    let mut scs = vec![];
    for mask in [4u32, 8] {
        let mut a = vec![];
        enter(&mut a, 0, 0);
        let mut b = vec![after(0, 3), connect(1, 0), send(1, cat(&[ping(), ping()])), wait(1, 2), send(1, ping()), wait(1, 3)];
        b.push(Act::HalfClose { conn: 1 });
        b.push(Act::WaitEof { conn: 1 });
        let bl = b.len();
        a.push(after(1, bl));
        let mut m = 1;
        rt(&mut a, 0, &mut m, cmds("CLIENT LIST"));
        scs.push(Scenario::new(format!("faults {mask}")).actor(a).actor(b).faults(mask, 1));
    }
    v.push(list("faults", 1, g, scs, |o| {
        // when the lister itself or an unfinished script is hit, nothing is predicted
        let hit: Vec<u16> = o.log().iter().filter(|e| e.kind == L_FAULT).map(|e| e.a).collect();
        if hit.contains(&0) || o.conn(0).cl_rst != 0 {
            return Ok(0);
        }
        if hit.is_empty() {
            return listing(o);
        }
        // script of conn 1 waits for replies that never come; then no list was sent
        Ok(1)
    }));
    let mut scs = vec![];
    for mask in [4u32, 8] {
        for n in [1usize, 3] {
            let mut a = vec![connect(1, 0)];
            for _ in 0..n {
                a.push(send(1, ping()));
                a.push(adv(MS));
            }
            a.push(Act::HalfClose { conn: 1 });
            a.push(Act::WaitEof { conn: 1 });
            a.push(connect(0, 0));
            let mut m = 0;
            rt(&mut a, 0, &mut m, cmds("CLIENT LIST"));
            scs.push(Scenario::new(format!("failed connection, faults {mask}, {n} requests")).actor(a).faults(mask, 1));
        }
    }
    v.push(list("faulty-ends", 1, g, scs, |o| {
        if o.log().iter().any(|e| e.kind == L_FAULT && e.a == 0) {
            return Ok(0);
        }
        listing(o)
    }));
    v
}

// ---------------------------------------------------------------- P11
pub const P11_RULE: &str = "every sequence of setting and reading names on two connections up to the depth, every awkward name, and concurrent renaming and listing on two threads under every interleaving within the preemption bound";

fn bad_names() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = (0..=0x20u8).map(|c| vec![b'a', c, b'b']).collect();
    v.push(b"a\x7fb".to_vec());
    for s in ["a b", " a", "a ", "a\nb", "a\r\nb", "\r\n", "é", "名", "a\u{a0}b", "\u{80}", "\u{ff}", "\t", "\0", "a\u{2028}b", "x\nid=1 addr=1"] {
        v.push(s.as_bytes().to_vec());
    }
    v
}
pub fn p11(t: Tier) -> Vec<Job> {
    let g = t.pick(60, 1500);
    let mut v = vec![];
    let depth = t.pick(4, 5);
    v.push(lazy("sequences", 2, g, seq_count(8, depth), |i| {
        let ops = seq_at(i, 8);
        let mut a = vec![connect(0, 0), connect(1, 1)];
        let mut n = [0u64; 2];
        for o in &ops {
            let (c, r) = match o {
                0 => (0, cmds("CLIENT SETNAME alpha")),
                1 => (0, cmds("CLIENT SETNAME b")),
                2 => (0, cmd(&[b"CLIENT", b"SETNAME", b""])),
                3 => (0, cmds("CLIENT GETNAME")),
                4 => (1, cmds("CLIENT SETNAME alpha")),
                5 => (1, cmds("CLIENT GETNAME")),
                6 => (1, cmds("CLIENT LIST")),
                _ => (0, cmds("CLIENT INFO")),
            };
            rt(&mut a, c, &mut n[c], r);
        }
        for c in 0..2 {
            rt(&mut a, c, &mut n[c], cmds("CLIENT GETNAME"));
            rt(&mut a, c, &mut n[c], cmds("CLIENT LIST"));
        }
        Scenario::new(format!("sequence {ops:?}")).actor(a)
    }, listing));
    // names that are refused leave the name alone (as far as the connection
    // survives) and never show up anywhere
    let mut scs = vec![];
    for n in bad_names() {
        for init in [false, true] {
            let mut a = vec![connect(0, 0), connect(1, 0)];
            let (mut k, mut m) = (0, 0);
            if init {
                rt(&mut a, 0, &mut k, cmds("CLIENT SETNAME old"));
            }
            a.push(send(0, cmd(&[b"CLIENT", b"SETNAME", &n])));
            rt(&mut a, 1, &mut m, cmds("CLIENT LIST"));
            a.push(send(0, cat(&[cmds("CLIENT GETNAME"), cmds("CLIENT INFO")])));
            rt(&mut a, 1, &mut m, cmds("CLIENT LIST"));
            scs.push(Scenario::new(format!("name {:?} init {init}", resp::lossy(&n))).actor(a));
        }
    }
    for c in 0x21..=0x7eu8 {
        let mut a = vec![connect(0, 0)];
        let mut k = 0;
        rt(&mut a, 0, &mut k, cmd(&[b"CLIENT", b"SETNAME", &[c]]));
        rt(&mut a, 0, &mut k, cmds("CLIENT GETNAME"));
        rt(&mut a, 0, &mut k, cmd(&[b"CLIENT", b"SETNAME", &[b'x', c, c]]));
        rt(&mut a, 0, &mut k, cat(&[cmds("CLIENT GETNAME"), cmds("CLIENT INFO")]));
        k += 1;
        a.push(wait(0, k));
        scs.push(Scenario::new(format!("name {:?}", c as char)).actor(a));
    }
    for l in [1usize, 63, 64, 65, 127, 128, 255, 256, 1000, 4096, 8192, 20000] {
        let mut a = vec![connect(0, 0), connect(1, 1)];
        let (mut k, mut m) = (0, 0);
        rt(&mut a, 0, &mut k, cmd(&[b"CLIENT", b"SETNAME", &vec![b'n'; l]]));
        rt(&mut a, 0, &mut k, cmds("CLIENT GETNAME"));
        rt(&mut a, 1, &mut m, cmds("CLIENT LIST"));
        scs.push(Scenario::new(format!("name of {l}")).actor(a).outcap(128 * 1024));
    }
    // as a simple string
    for n in ["x", "a b", ""] {
        let mut a = vec![connect(0, 0), connect(1, 1)];
        a.push(send(0, cat(&[cmds("CLIENT SETNAME old"), format!("*3\r\n+CLIENT\r\n+SETNAME\r\n+{n}\r\n").into_bytes(), cmds("CLIENT GETNAME")])));
        let mut m = 0;
        rt(&mut a, 1, &mut m, cmds("CLIENT LIST"));
        scs.push(Scenario::new(format!("simple string name {n:?}")).actor(a));
    }
    // a name that takes another's place, of the same length or not
    let lens: &[usize] = &[1, 2, 15, 16, 17, 23, 24, 25, 63, 64, 65, 100, 255, 256, 257, 1000, 4096, 20000];
    for &l in lens {
        let first = vec![b'n'; l];
        let with = |i: usize| {
            let mut x = first.clone();
            x[i] = b'm';
            x
        };
        let seconds = [with(0), with(l - 1), with(l / 2), first[..l - 1].to_vec(), cat(&[first.clone(), b"n".to_vec()]), b"z".to_vec(), vec![], first.to_ascii_uppercase()];
        for thr in 0..2 {
            let mut a = vec![connect(0, 0), connect(1, thr)];
            let (mut k, mut m) = (0, 0);
            for s in &seconds {
                for n in [&first, s, s, &first] {
                    rt(&mut a, 0, &mut k, cmd(&[b"CLIENT", b"SETNAME", n]));
                    rt(&mut a, 0, &mut k, cmds("CLIENT GETNAME"));
                    if l < 5000 {
                        rt(&mut a, 1, &mut m, cmds("CLIENT LIST"));
                    }
                }
                rt(&mut a, 0, &mut k, cmds("CLIENT INFO"));
            }
            scs.push(Scenario::new(format!("names of {l} replaced, thread {thr}")).actor(a).outcap(1024 * 1024));
        }
    }
    v.push(list("names", 2, g, scs, listing));
    // concurrent
    let mut scs = vec![];
    let progs: Vec<(&str, Vec<Vec<u8>>)> = vec![
        ("rename", vec![cmds("CLIENT SETNAME one"), cmds("CLIENT GETNAME"), cmds("CLIENT SETNAME two"), cmds("CLIENT GETNAME")]),
        ("clear", vec![cmds("CLIENT SETNAME one"), cmd(&[b"CLIENT", b"SETNAME", b""]), cmds("CLIENT GETNAME")]),
        ("list", vec![cmds("CLIENT LIST"), cmds("CLIENT LIST"), cmds("CLIENT GETNAME")]),
        ("info", vec![cmds("CLIENT SETNAME me"), cmds("CLIENT INFO"), cmds("CLIENT LIST")]),
    ];
    for (i, (n, p)) in progs.iter().enumerate() {
        for (m, q) in progs.iter().skip(i) {
            for (name, thr, pre) in [("threads", [0usize, 1], t.pick(1u8, 2)), ("one thread", [0, 0], 0)] {
                for per in [1usize, 4] {
                    let mut s = vec![];
                    enter(&mut s, 0, thr[0]);
                    enter(&mut s, 1, thr[1]);
                    let mut sc = Scenario::new(format!("{n} and {m} {name} per {per}")).order(1);
                    let all = |x: &Vec<Vec<u8>>| x.concat();
                    if pre > 0 && per == 4 {
                        // both at the same moment
                        if t == Tier::Quick && ![("rename", "list"), ("clear", "clear"), ("list", "info"), ("rename", "rename")].contains(&(*n, *m)) {
                            continue;
                        }
                        let (np, nq) = (1 + p.len() as u64, 1 + q.len() as u64);
                        for c in 0..2 {
                            rt(&mut s, c, &mut 1, cmds("CLIENT SETNAME zero"));
                        }
                        s.push(send(0, all(p)));
                        s.push(send(1, all(q)));
                        s.push(wait(0, 1 + np));
                        s.push(wait(1, 1 + nq));
                        s.push(send(0, cmds("CLIENT GETNAME")));
                        s.push(send(1, cmds("CLIENT GETNAME")));
                        s.push(wait(0, 2 + np));
                        s.push(wait(1, 2 + nq));
                        scs.push(sc.joint(s).bud(B_PREEMPT, pre).bud(B_EARLY, t.pick(0, 1)));
                        continue;
                    }
                    let sl = s.len();
                    sc = sc.actor(s);
                    for (c, x) in [(0, p), (1, q)] {
                        let mut a = vec![after(0, sl)];
                        let mut k = 1;
                        for ch in x.chunks(per) {
                            a.push(send(c, ch.concat()));
                            k += ch.len() as u64;
                            a.push(wait(c, k));
                        }
                        a.push(send(c, cmds("CLIENT GETNAME")));
                        a.push(wait(c, k + 1));
                        sc = sc.actor(a);
                    }
                    let early = if pre == 0 { t.pick(2, 3) } else { 0 };
                    scs.push(sc.bud(B_PREEMPT, t.pick(0, pre.min(1))).bud(B_EARLY, early).bud(B_ORDER, (pre == 0) as u8));
                }
            }
        }
    }
    v.push(list("concurrent", 2, g, scs, listing));
    // it stays for any time
    let mut scs = vec![];
    for pause in [SEC, 31 * SEC, 61 * SEC, 301 * SEC, 3601 * SEC, 86400 * SEC, 50 * 86400 * SEC, 400 * 86400 * SEC] {
        for th in 0..2 {
            for (k, n) in ["x", "connection-pool-worker-17", "", &"n".repeat(300)].into_iter().enumerate() {
                let mut a = vec![connect(0, 0), connect(1, th)];
                let mut m = [0u64; 2];
                rt(&mut a, 0, &mut m[0], cmds("CLIENT SETNAME before"));
                rt(&mut a, 1, &mut m[1], cmds("CLIENT SETNAME other"));
                a.push(adv(pause));
                rt(&mut a, 0, &mut m[0], cmd(&[b"CLIENT", b"SETNAME", n.as_bytes()]));
                for _ in 0..3 {
                    a.push(adv(pause));
                    if k % 2 == 0 {
                        rt(&mut a, 1, &mut m[1], cmds("CLIENT LIST"));
                    }
                    rt(&mut a, 0, &mut m[0], cmds("CLIENT GETNAME"));
                    rt(&mut a, 0, &mut m[0], cmds("CLIENT INFO"));
                    rt(&mut a, 1, &mut m[1], cmds("CLIENT GETNAME"));
                }
                scs.push(Scenario::new(format!("name {:.9} asked every {} s, thread {th}", n, pause / SEC)).actor(a));
            }
        }
    }
    v.push(list("later", 2, g, scs, listing));
    // a name goes with its connection: descriptors and ids are reused by others
    let mut scs = vec![];
    for kind in 0..5 {
        for th in 0..2 {
            let mut a = vec![connect(0, th)];
            let mut k = 0;
            rt(&mut a, 0, &mut k, cmds("CLIENT SETNAME ghost"));
            end(kind, 0, &mut a);
            a.push(connect(1, th));
            let mut m = 0;
            rt(&mut a, 1, &mut m, cmds("CLIENT GETNAME"));
            rt(&mut a, 1, &mut m, cmds("CLIENT LIST"));
            rt(&mut a, 1, &mut m, cmds("CLIENT INFO"));
            scs.push(Scenario::new(format!("after end {kind} on {th}")).actor(a));
        }
    }
    v.push(list("not-inherited", 2, g, scs, listing));
    v
}

// ---------------------------------------------------------------- P12
pub const P12_RULE: &str = "every letter-case variant of every word, every argument list of up to four words from a vocabulary of commands, options and values, as bulk and simple strings, and every near-miss of a command name";

fn cases(w: &str, max: usize) -> Vec<String> {
    let n = w.len();
    if n <= max {
        return (0..1usize << n).map(|m| w.bytes().enumerate().map(|(i, c)| (if m >> i & 1 == 1 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }) as char).collect()).collect();
    }
    // each single deviation from lower and upper case, and alternations
    let mut v = vec![w.to_lowercase(), w.to_uppercase()];
    for i in 0..n {
        for up in [false, true] {
            let s: String = w.bytes().enumerate().map(|(j, c)| (if (j == i) != up { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }) as char).collect();
            v.push(s);
        }
    }
    v
}
fn enc(words: &[&[u8]], simple: usize) -> Vec<u8> {
    let mut o = format!("*{}\r\n", words.len()).into_bytes();
    for (i, w) in words.iter().enumerate() {
        if simple >> i & 1 == 1 && !w.contains(&b'\r') && !w.contains(&b'\n') {
            o.push(b'+');
            o.extend_from_slice(w);
            o.extend(b"\r\n");
        } else {
            o.extend(resp::bulk(w));
        }
    }
    o
}
/// the request, then the connection (and the data) are checked
fn ask(name: String, reqs: &[Vec<u8>]) -> Scenario {
    let mut a = vec![connect(0, 0), connect(1, 0)];
    let mut m = 0;
    rt(&mut a, 1, &mut m, set(b"k", b"kept"));
    for r in reqs {
        a.push(send(0, r.clone()));
    }
    a.push(send(0, ping()));
    rt(&mut a, 1, &mut m, get(b"k"));
    rt(&mut a, 1, &mut m, get(b"get"));
    Scenario::new(name).actor(a)
}
pub fn p12(t: Tier) -> Vec<Job> {
    let g = t.pick(60, 1500);
    let mut v = vec![];
    let deep = t.pick(6, 8);
    let mut reqs: Vec<Vec<u8>> = vec![];
    let w = |s: &str| s.as_bytes().to_vec();
    for c in cases("ping", deep) {
        reqs.push(cmd(&[&w(&c)]));
        reqs.push(cmd(&[&w(&c), b"Msg"]));
        reqs.push(enc(&[&w(&c)], 1));
    }
    for c in cases("get", deep) {
        reqs.push(cmd(&[&w(&c), b"k"]));
        reqs.push(enc(&[&w(&c), b"k"], 3));
    }
    for c in cases("set", deep) {
        reqs.push(cmd(&[&w(&c), b"new", b"v"]));
        for o in cases("ex", deep).into_iter().chain(cases("px", deep)) {
            reqs.push(cmd(&[&w(&c), b"new", b"v", &w(&o), b"10000"]));
            reqs.push(enc(&[&w(&c), b"new", b"v", &w(&o), b"10000"], 31));
        }
    }
    for c in cases("hello", deep) {
        reqs.push(cmd(&[&w(&c)]));
        reqs.push(enc(&[&w(&c)], 1));
    }
    for c in cases("client", deep) {
        reqs.push(cmd(&[&w(&c), b"id"]));
        reqs.push(cmd(&[&w(&c)]));
    }
    for s in ["id", "info", "list", "help", "getname"] {
        for c in cases(s, deep) {
            reqs.push(cmd(&[b"client", &w(&c)]));
            reqs.push(enc(&[b"CLIENT", &w(&c)], 3));
        }
    }
    for c in cases("setname", deep) {
        reqs.push(cmd(&[b"client", &w(&c), b"Name"]));
    }
    for c in cases("setinfo", deep) {
        reqs.push(cmd(&[b"client", &w(&c), b"LIB-NAME", b"lib"]));
        reqs.push(cmd(&[b"client", &w(&c), b"LIB-VER", b"1.0"]));
    }
    for c in cases("acl", deep) {
        reqs.push(cmd(&[&w(&c), b"nothing"]));
    }
    for c in cases("type", deep) {
        reqs.push(cmd(&[b"client", b"list", &w(&c), b"normal"]));
    }
    let rs = reqs;
    v.push(lazy("letter-case", 1, g, rs.len(), move |i| ask(format!("case {}", resp::lossy(&rs[i])), &[rs[i].clone(), get(b"new"), cmds("CLIENT GETNAME")]), by_model));
    // near misses of names
    let mut names: Vec<Vec<u8>> = vec![];
    for c in ["ping", "get", "set", "hello", "client", "acl"] {
        let b = c.as_bytes();
        names.push([b, b"s"].concat());
        names.push([b"x", b].concat());
        names.push([b, b" "].concat());
        names.push([b" ", b].concat());
        names.push([b, b"\0"].concat());
        names.push([b, &b"\r\n"[..]].concat());
        for i in 0..b.len() {
            let mut d = b.to_vec();
            d.remove(i);
            names.push(d);
            let mut d = b.to_vec();
            d[i] = b'z';
            names.push(d);
            let mut d = b.to_vec();
            d[i] ^= 0x40;
            names.push(d);
            if i + 1 < b.len() {
                let mut d = b.to_vec();
                d.swap(i, i + 1);
                names.push(d);
            }
        }
    }
    for s in ["del", "exists", "incr", "mget", "mset", "expire", "ttl", "keys", "flushall", "info", "command", "config", "select", "auth", "quit", "echo", "time", "dbsize", "type", "append", "strlen", "getset", "setnx", "setex", "psetex", "geté", "PİNG", "ſet", "K", "\u{212a}", "\u{130}", "é", "foo", "Foo-Bar", "a:b", "123", "-", ""] {
        names.push(s.as_bytes().to_vec());
    }
    names.sort();
    names.dedup();
    names.retain(|n| ![&b"get"[..], b"set", b"ping", b"hello", b"acl", b"client"].contains(&&n[..]));
    let n = names.len();
    v.push(lazy("unknown", 1, g, n * 3, move |i| {
        let (w, k) = (&names[i % n], i / n);
        let r = match k {
            0 => cmd(&[w]),
            1 => cmd(&[w, b"k", b"v"]),
            _ => cat(&[cmd(&[b"CLIENT", w]), cmd(&[b"CLIENT", w, b"x", b"y"])]),
        };
        ask(format!("unknown {} {k}", resp::lossy(w)), &[r])
    }, by_model));
    // argument lists over a vocabulary
    let voc: Vec<&[u8]> = vec![b"", b"k", b"10", b"EX", b"PX", b"TYPE", b"ID", b"normal", b"LIB-NAME", b"0"];
    let heads: Vec<Vec<&[u8]>> = vec![
        vec![b"PING"], vec![b"GET"], vec![b"SET"], vec![b"HELLO"], vec![b"ACL"], vec![b"CLIENT"],
        vec![b"CLIENT", b"ID"], vec![b"CLIENT", b"INFO"], vec![b"CLIENT", b"LIST"], vec![b"CLIENT", b"HELP"], vec![b"CLIENT", b"SETNAME"], vec![b"CLIENT", b"GETNAME"], vec![b"CLIENT", b"SETINFO"],
        vec![b"SET", b"k", b"v"],
    ];
    let depth = t.pick(2, 3);
    let per = 1 + seq_count(voc.len(), depth);
    let nh = heads.len();
    v.push(lazy("arguments", 1, g, per * nh, move |i| {
        let (h, j) = (&heads[i / per], i % per);
        let mut words = h.clone();
        if j > 0 {
            for d in seq_at(j - 1, voc.len()) {
                words.push(voc[d]);
            }
        }
        ask(format!("words {}", words.iter().map(|w| format!("{:?}", resp::lossy(w))).collect::<Vec<_>>().join(" ")), &[enc(&words, 0), cmds("CLIENT GETNAME")])
    }, by_model));
    // deeper for the commands that take several
    let voc2: Vec<&[u8]> = vec![b"k", b"EX", b"px", b"10", b"0"];
    let d2 = t.pick(5, 6);
    v.push(lazy("set-arguments", 1, g, seq_count(5, d2), move |i| {
        let mut words: Vec<&[u8]> = vec![b"SET"];
        words.extend(seq_at(i, 5).into_iter().map(|d| voc2[d]));
        ask(format!("{}", words.iter().map(|w| resp::lossy(w)).collect::<Vec<_>>().join(" ")), &[enc(&words, if i % 2 == 0 { 0 } else { 0x55 }), get(b"k")])
    }, by_model));
    // argument types
    let kinds: Vec<Vec<u8>> = [&b"$1\r\nk\r\n"[..], b"+k\r\n", b"-k\r\n", b":7\r\n", b"$-1\r\n", b"*0\r\n", b"*1\r\n$1\r\nk\r\n", b"%0\r\n", b"$0\r\n\r\n", b"$1\r\n\xff\r\n", b"$2\r\n10\r\n"].iter().map(|b| b.to_vec()).collect();
    let mut reqs = vec![];
    let hd = |words: &[&str]| -> Vec<u8> { words.iter().flat_map(|w| resp::bulk(w.as_bytes())).collect() };
    for (words, slots) in [(vec!["PING"], 1usize), (vec!["GET"], 1), (vec!["SET"], 2), (vec!["SET", "k", "v"], 2), (vec!["SET", "k", "v", "EX"], 1), (vec!["CLIENT"], 1), (vec!["CLIENT", "SETNAME"], 1), (vec!["CLIENT", "SETINFO"], 2), (vec!["CLIENT", "LIST"], 2), (vec!["CLIENT", "LIST", "ID"], 2), (vec!["ACL"], 2), (vec![], 2)] {
        for x in 0..kinds.len().pow(slots as u32) {
            let d = digits(x, kinds.len(), slots);
            let mut r = format!("*{}\r\n", words.len() + slots).into_bytes();
            r.extend(hd(&words));
            for k in d {
                r.extend(&kinds[k]);
            }
            reqs.push(r);
        }
    }
    v.push(lazy("argument-types", 1, g, reqs.len(), move |i| ask(format!("types {}", resp::lossy(&reqs[i])), &[reqs[i].clone()]), by_model));
    v
}

/// Lives of a connection: what it sends, whether it takes its replies, how it
/// ends. All are over when the script is.
pub type Script = std::rc::Rc<dyn Fn(usize, usize) -> Vec<Act>>;
pub fn lives() -> Vec<(String, Script)> {
    let mut v: Vec<(String, Script)> = vec![];
    let big = set(b"big", &vec![b'v'; 3000]);
    let backlog = cat(&vec![get(b"big"); 12]);
    let x = vec![b'x'; 6000];
    let rest: Vec<(&str, Vec<u8>)> = vec![
        ("nothing", vec![]),
        ("unfinished line", b"*2\r\n$3\r\nGE".to_vec()),
        ("unfinished array", b"*2\r\n$3\r\nGET\r\n".to_vec()),
        ("large unfinished", set(b"k", &x)[..5500].to_vec()),
        ("malformed", b"?\r\n".to_vec()),
        ("malformed before more", cat(&[b"?\r\n".to_vec(), ping(), set(b"k", &x)])),
        ("refused", cat(&[cmds("GET"), ping()])),
        ("not text", cat(&[cmd(&[b"GET", b"\xff\xfe"]), ping()])),
    ];
    for stuck in [false, true] {
        for named in [false, true] {
            for (what, data) in &rest {
                for end in 0..4 {
                    let (big, backlog, data) = (big.clone(), backlog.clone(), data.clone());
                    let bad = what.starts_with("mal") || *what == "refused" || *what == "not text";
                    if end == 3 && (!bad || stuck) {
                        continue;
                    }
                    let name = format!("{}{}{what}, end {end}", if named { "named, " } else { "" }, if stuck { "not reading, " } else { "" });
                    v.push((name, std::rc::Rc::new(move |c: usize, t: usize| {
                        let mut a = vec![connect(c, t)];
                        let mut n = 0;
                        if named {
                            rt(&mut a, c, &mut n, cmds("CLIENT SETNAME somebody"));
                        }
                        if stuck {
                            rt(&mut a, c, &mut n, big.clone());
                            a.push(Act::PauseRead { conn: c, space: 0 });
                            a.push(send(c, backlog.clone()));
                            a.push(adv(5 * MS));
                        }
                        if !data.is_empty() {
                            a.push(send(c, data.clone()));
                        }
                        match end {
                            0 => {
                                a.push(Act::HalfClose { conn: c });
                                if stuck {
                                    a.push(Act::ResumeRead { conn: c });
                                }
                            }
                            1 => a.push(Act::Close { conn: c }),
                            2 => a.push(Act::Rst { conn: c }),
                            _ => {}
                        }
                        a.push(Act::WaitEof { conn: c });
                        a
                    })));
                }
            }
        }
    }
    v
}
/// However connections ended, their places are free again, and only theirs: the
/// last but one gets the only place, the last one after it.
fn one_place(o: &Obs) -> Result<u64, Fail> {
    all_done(o)?;
    let n = o.res.nconn as usize;
    let (a, b) = (n - 2, n - 1);
    let (Some(x), Some(y)) = (reply_steps(o, a).first().copied(), reply_steps(o, b).first().copied()) else {
        return fail("left-waiting", "a connection is not served although the others ended".to_string());
    };
    let left = act_step(o, |q| matches!(q, Act::Close { conn } if *conn == a));
    if y < x || left.map_or(true, |l| y < l) {
        return fail("over-limit", format!("conn {b} is served before conn {a} ended and the limit is 1"));
    }
    Ok(n as u64)
}

// ---------------------------------------------------------------- P17
pub const P17_RULE: &str = "all short histories of connects and of every kind of end on servers with small limits, and races of connects and ends on two threads; at no moment are more connections in service than the limit, and free places are taken";

/// First reply and end (of the client's or the server's making) of every connection.
fn service(o: &Obs) -> Vec<(Option<u32>, Option<u32>, Option<u32>)> {
    let log = o.log();
    (0..o.res.nconn as usize)
        .map(|d| {
            let first = |f: &dyn Fn(&LogEnt) -> bool| log.iter().find(|e| f(e)).map(|e| e.step);
            let served = first(&|e| e.kind == L_REPLY && e.a as usize == d);
            let closed = first(&|e| (e.kind == L_SRVCLOSE || e.kind == L_SHUT) && e.a as usize == d);
            let cl = first(&|e| {
                e.kind == L_ACT
                    && match &o.sc.actors[e.a as usize][e.b as usize] {
                        Act::HalfClose { conn } | Act::Close { conn } | Act::Rst { conn } => *conn == d,
                        // what the scripts send to be thrown out
                        Act::Send { conn, data, .. } => *conn == d && data.starts_with(b"?"),
                        _ => false,
                    }
            });
            let end = match (closed, cl) {
                (Some(a), Some(b)) => Some(a.min(b)),
                (a, b) => a.or(b),
            };
            (served, end, closed)
        })
        .collect()
}
fn limit_oracle(limit: usize, o: &Obs) -> Result<u64, Fail> {
    let s = service(o);
    let log = o.log();
    let mut h = 3u64;
    // whenever a connection gets its first reply, it and the others in service
    for (c, x) in s.iter().enumerate() {
        let Some(at) = x.0 else { continue };
        if x.1.map_or(false, |e| e < at) {
            continue;
        }
        let busy: Vec<usize> = (0..s.len()).filter(|d| s[*d].0.map_or(false, |f| f <= at) && s[*d].1.map_or(true, |e| e > at)).collect();
        if busy.len() > limit {
            return fail("over-limit", format!("conn {c} is served while {busy:?} are in service and the limit is {limit}"));
        }
        h = h.wrapping_mul(31) ^ busy.iter().fold(1u64, |h, d| h.wrapping_mul(67) + *d as u64);
    }
    // at rest: whoever waits does so because all places are taken
    let last = log.last().map_or(0, |e| e.step);
    let serving = (0..s.len()).filter(|d| s[*d].0.is_some() && s[*d].1.map_or(true, |e| e > last)).count();
    for c in 0..s.len() {
        let q = o.conn(c);
        if q.connected == 0 {
            continue;
        }
        let (rq, _) = requests(&o.sc.sent(c));
        let sent_all = o.sc.actors.iter().enumerate().all(|(i, a)| a.iter().enumerate().all(|(j, x)| !matches!(x, Act::Send { conn, .. } if *conn == c) || (j as u32) < o.res.apos[i]));
        if s[c].0.is_none() && s[c].1.is_none() && sent_all && !rq.is_empty() && serving < limit {
            return fail("left-waiting", format!("conn {c} is not served although only {serving} connections are and the limit is {limit}"));
        }
        // a connection that ended is let go once there is room to look at it
        if s[c].1.is_some() && s[c].2.is_none() && serving < limit {
            return fail("not-released", format!("conn {c} ended and the server never closed it"));
        }
        // its replies are right as far as they go
        let got = replies(o, c)?;
        for (i, v) in got.iter().enumerate() {
            match rq.get(i) {
                Some((q, _)) if *q == decode(&ping()) && *v == V::Simple(b"PONG".to_vec()) => {}
                Some((q, _)) if *q == decode(&cmds("CLIENT ID")) && matches!(v, V::Int(_)) => {}
                Some((V::Bulk(_), _)) | None if matches!(v, V::Err(_)) => {}
                _ => return fail("wrong-reply", format!("conn {c} got {v:?} as reply #{i}")),
            }
        }
        h = h.wrapping_mul(131) ^ got.len() as u64;
    }
    Ok(h)
}
/// The second connection has to wait until the first one got all its replies.
fn owed(o: &Obs) -> Result<u64, Fail> {
    let h = by_model(o)?;
    let (a, b) = (reply_steps(o, 0), reply_steps(o, 1));
    if let (Some(x), Some(y)) = (a.last(), b.first()) {
        if y < x {
            return fail("over-limit", "conn 1 was answered while conn 0 still waited for replies and the limit is 1");
        }
    }
    Ok(h)
}
/// Whoever comes when all others have ended is served, unless a call on its own
/// connection failed.
fn after_faults(o: &Obs) -> Result<u64, Fail> {
    let mut h = 5u64;
    for c in 0..o.res.nconn as usize {
        if o.conn(c).connected == 0 {
            continue;
        }
        let hit = o.log().iter().any(|e| e.kind == L_FAULT && e.b >= 4 && e.a as usize == c);
        let got = replies(o, c)?;
        h = h.wrapping_mul(31) ^ got.len() as u64 * 2 + hit as u64;
        if hit {
            continue;
        }
        if got.first() != Some(&V::Simple(b"PONG".to_vec())) {
            return fail("left-waiting", format!("conn {c} is not served although no other connection is open (the limit is 1)"));
        }
        if o.conn(c).srv_closed == 0 {
            return fail("not-released", format!("conn {c} ended and the server never closed it"));
        }
    }
    all_done(o)?;
    Ok(h)
}
fn decode(b: &[u8]) -> V {
    requests(b).0[0].0.clone()
}
pub fn p17(t: Tier) -> Vec<Job> {
    let g = t.pick(60, 1500);
    let mut v = vec![];
    macro_rules! oracle {
        ($l:expr) => {
            |o: &Obs| limit_oracle($l, o)
        };
    }
    let or: [fn(&Obs) -> Result<u64, Fail>; 4] = [oracle!(0), oracle!(1), oracle!(2), oracle!(3)];
    // every sequence of connects (on either thread), pings and ends
    for (limit, threads) in [(1usize, 1usize), (2, 1), (1, 2), (2, 2), (3, 2)] {
        let depth = if threads == 1 { t.pick(5, 6) } else { t.pick(5, 6) };
        // connect on thread 0/1, half-close/close/reset/malformed end of the
        // oldest or the newest, another request on all
        let base: usize = if threads == 1 { 7 } else { 8 };
        v.push(limited(
            lazy(&format!("sequences-limit{limit}-threads{threads}"), threads, g, base.pow(depth as u32), move |i: usize| {
                let mut a = vec![];
                let mut live: Vec<usize> = vec![];
                let mut next = 0usize;
                for d in digits(i, base, depth) {
                    match d {
                        0 => {
                            a.push(connect(next, 0));
                            a.push(send(next, ping()));
                            live.push(next);
                            next += 1;
                        }
                        7 => {
                            a.push(connect(next, 1));
                            a.push(send(next, ping()));
                            live.push(next);
                            next += 1;
                        }
                        1 | 2 | 3 | 4 => {
                            if !live.is_empty() {
                                let c = live.remove(0);
                                a.push(match d {
                                    1 => Act::HalfClose { conn: c },
                                    2 => Act::Close { conn: c },
                                    3 => Act::Rst { conn: c },
                                    _ => send(c, b"?\r\n".to_vec()),
                                });
                            }
                        }
                        5 => {
                            if let Some(c) = live.pop() {
                                a.push(Act::Close { conn: c });
                            }
                        }
                        _ => {
                            a.push(adv(20_000_000));
                            for c in &live {
                                a.push(send(*c, cmds("CLIENT ID")));
                            }
                        }
                    }
                }
                Scenario::new(format!("limit {limit} threads {threads} {:?}", digits(i, base, depth))).actor(a)
            }, or[limit]),
            limit as u16,
        ));
    }
    // many connections wait in line
    for (limit, threads) in [(1usize, 1usize), (3, 1)] {
        let mut scs = vec![];
        for n in [4usize, 12, t.pick(30, 100)] {
            for kind in 0..3 {
                let mut a = vec![];
                for c in 0..n {
                    a.push(connect(c, c % threads));
                    a.push(send(c, ping()));
                }
                for c in 0..n {
                    a.push(wait(c, 1));
                    a.push(match kind {
                        0 => Act::HalfClose { conn: c },
                        1 => Act::Close { conn: c },
                        _ => Act::Rst { conn: c },
                    });
                }
                a.push(connect(n, 0));
                a.push(send(n, ping()));
                a.push(wait(n, 1));
                scs.push(Scenario::new(format!("line of {n} limit {limit} end {kind}")).joint(a));
            }
        }
        v.push(limited(list(&format!("line-limit{limit}"), threads, g, scs, or[limit]), limit as u16));
    }
    // calls fail while connections come and go: their places are free again
    for threads in [1usize, 2] {
        let mut scs = vec![];
        for limit_n in [2usize, 3] {
            for kind in 0..4usize {
                let mut a = vec![];
                for c in 0..limit_n {
                    a.push(connect(c, c % threads));
                    a.push(send(c, ping()));
                    a.push(adv(20 * MS));
                    a.push(match kind {
                        0 => Act::HalfClose { conn: c },
                        1 => Act::Close { conn: c },
                        2 => Act::Rst { conn: c },
                        _ => send(c, b"?\r\n".to_vec()),
                    });
                    a.push(adv(20 * MS));
                }
                // each thread is asked last, one after the other
                for t in 0..threads {
                    let c = limit_n + t;
                    a.push(connect(c, t));
                    a.push(send(c, ping()));
                    a.push(adv(50 * MS));
                    a.push(Act::Close { conn: c });
                    a.push(adv(20 * MS));
                }
                scs.push(Scenario::new(format!("faults, {limit_n} connections end by {kind}")).actor(a).faults(3 | 4 | 8 | 16 | 32 | 64, t.pick(1, 2)));
            }
        }
        v.push(limited(list(&format!("faults-limit1-threads{threads}"), threads, g, scs, after_faults), 1));
    }
    // every way to live and end, three times over
    for threads in [1usize, 2] {
        let l = lives();
        v.push(limited(lazy(&format!("lives-threads{threads}"), threads, g, l.len(), move |i| {
            let mut a = vec![];
            for c in 0..3 {
                a.extend(l[i].1(c, c % threads));
                a.push(adv(20 * MS));
            }
            a.push(connect(3, 0));
            a.push(send(3, ping()));
            a.push(wait(3, 1));
            a.push(connect(4, threads - 1));
            a.push(send(4, ping()));
            a.push(adv(50 * MS));
            a.push(Act::Close { conn: 3 });
            a.push(adv(20 * MS));
            a.push(wait(4, 1));
            Scenario::new(l[i].0.clone()).actor(a).outcap(256 * 1024)
        }, one_place), 1));
    }
    // who still waits for answers is in service, also after its half-close
    for threads in [1usize, 2] {
        let mut scs = vec![];
        for half in [false, true] {
            for space in [0u64, 1, 5000] {
                for gets in [1usize, 3, 40] {
                    for wait_ms in [0u64, 5, 100, 5000, 70_000] {
                        let mut a = vec![connect(0, 0)];
                        let mut n = 0;
                        rt(&mut a, 0, &mut n, set(b"big", &vec![b'v'; 3000]));
                        a.push(Act::PauseRead { conn: 0, space });
                        a.push(send(0, cat(&vec![get(b"big"); gets])));
                        n += gets as u64;
                        if half {
                            a.push(Act::HalfClose { conn: 0 });
                        }
                        a.push(connect(1, threads - 1));
                        a.push(send(1, ping()));
                        a.push(adv(wait_ms * MS));
                        a.push(Act::ResumeRead { conn: 0 });
                        a.push(wait(0, n));
                        a.push(if half { Act::WaitEof { conn: 0 } } else { Act::Close { conn: 0 } });
                        a.push(wait(1, 1));
                        let fits = space > 0 && (space as usize) > gets * 3010;
                        if !fits {
                            scs.push(Scenario::new(format!("half {half} space {space} gets {gets} after {wait_ms} ms")).actor(a).outcap(256 * 1024));
                        }
                    }
                }
            }
        }
        v.push(limited(list(&format!("owed-limit1-threads{threads}"), threads, g, scs, owed), 1));
    }
    // larger limits
    let ob: [(usize, fn(&Obs) -> Result<u64, Fail>); 5] = [(16, oracle!(16)), (64, oracle!(64)), (128, oracle!(128)), (255, oracle!(255)), (256, oracle!(256))];
    for (limit, or) in ob {
        let mut scs = vec![];
        for kind in 0..4usize {
            let n = limit + 3;
            let mut a = vec![];
            for c in 0..n {
                a.push(connect(c, c % 2));
                a.push(send(c, ping()));
            }
            // the last ones wait until as many others have ended
            for c in 0..3 {
                a.push(adv(20 * MS));
                a.push(match kind {
                    0 => Act::HalfClose { conn: c },
                    1 => Act::Close { conn: c },
                    2 => Act::Rst { conn: c },
                    _ => send(c, b"?\r\n".to_vec()),
                });
            }
            a.push(adv(20 * MS));
            scs.push(Scenario::new(format!("{n} connections, limit {limit}, end {kind}")).actor(a));
        }
        v.push(limited(list(&format!("crowd-limit{limit}"), 2, g, scs, or), limit as u16));
    }
    // connects race on two and three threads
    for (limit, threads) in [(1usize, 2usize), (2, 2), (2, 3)] {
        let mut scs = vec![];
        for kind in 0..4usize {
            let n = limit + 2;
            let mut a: Vec<Act> = (0..n).map(|c| connect(c, c % threads)).collect();
            a.extend((0..n).map(|c| send(c, ping())));
            // those first served end while others wait
            for c in 0..n {
                let e = match kind {
                    0 => Act::HalfClose { conn: c },
                    1 => Act::Close { conn: c },
                    2 => Act::Rst { conn: c },
                    _ => send(c, b"?\r\n".to_vec()),
                };
                if c + 1 < n {
                    a.push(adv(20_000_000));
                }
                a.push(e);
            }
            let pre = if threads == 2 { t.pick(2, 3) } else { t.pick(1, 2) };
            scs.push(Scenario::new(format!("race limit {limit} end {kind}")).joint(a).bud(B_PREEMPT, pre));
        }
        v.push(limited(list(&format!("race-limit{limit}-threads{threads}"), threads, g, scs, or[limit]), limit as u16));
    }
    v
}
