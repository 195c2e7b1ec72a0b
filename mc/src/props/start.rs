use super::*;

pub const P19_RULE: &str = "the server started on every set of processors, at every kind of address, with every set of threads starting late at every point of the clients' work; every thread then serves, and all serve the same";

fn oracle(o: &Obs) -> Result<u64, Fail> {
    client::ids_oracle(o)?;
    client::listing(o)
}
/// Every thread writes and all of them read it.
fn all_serve(n: usize, all_pairs: bool) -> Scenario {
    let mut a = vec![];
    let mut m = vec![0u64; n + 1];
    for i in 0..n {
        a.push(connect(i, i));
        rt(&mut a, i, &mut m[i], cat(&[cmd(&[b"CLIENT", b"SETNAME", format!("thread-{i}").as_bytes()]), cmds("CLIENT ID")]));
        m[i] += 1;
        a.push(wait(i, m[i]));
        rt(&mut a, i, &mut m[i], set(format!("k{i}").as_bytes(), format!("v{i}").as_bytes()));
        rt(&mut a, i, &mut m[i], set(b"last", format!("by {i}").as_bytes()));
    }
    for j in 0..n {
        let of: Vec<usize> = (0..n).filter(|i| all_pairs || *i == 0 || (i + 1) % n == j || (j + 1) % n == *i).collect();
        let r: Vec<Vec<u8>> = of.iter().map(|i| get(format!("k{i}").as_bytes())).chain([get(b"last"), cmds("CLIENT LIST")]).collect();
        a.push(send(j, cat(&r)));
        m[j] += r.len() as u64;
        a.push(wait(j, m[j]));
    }
    // and once more, on every thread
    for j in (0..n).rev() {
        let mut b = n + (n - 1 - j);
        if n > 16 {
            b = n + j % 2;
            if j > 1 {
                continue;
            }
        }
        a.push(connect(b, j));
        let mut k = 0;
        rt(&mut a, b, &mut k, get(b"last"));
        rt(&mut a, b, &mut k, cmds("CLIENT LIST"));
        rt(&mut a, b, &mut k, cmds("CLIENT INFO"));
    }
    let mut s = Scenario::new(format!("{n} threads")).actor(a).outcap(64 * 1024);
    s.free_threads = false;
    s
}
fn name(c: &[usize]) -> String {
    c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}
/// Threads start while others serve already.
fn late(n: usize, held: u32, t: Tier) -> Vec<Scenario> {
    let up: Vec<usize> = (0..n).filter(|i| held >> i & 1 == 0).collect();
    let down: Vec<usize> = (0..n).filter(|i| held >> i & 1 == 1).collect();
    let mut v = vec![];
    let on_late = |c: usize, th: usize| {
        let mut a = vec![connect(c, th)];
        let mut m = 0;
        rt(&mut a, c, &mut m, get(b"early"));
        rt(&mut a, c, &mut m, set(format!("late{c}").as_bytes(), b"L"));
        rt(&mut a, c, &mut m, cmds("CLIENT ID"));
        rt(&mut a, c, &mut m, cmds("CLIENT LIST"));
        a
    };
    for work in 0..4 {
        // the one who is there first
        let mut a = vec![];
        let mut m = 0;
        a.push(connect(0, up[0]));
        rt(&mut a, 0, &mut m, set(b"early", b"E"));
        let at = a.len();
        let r = match work {
            0 => vec![cmds("CLIENT ID")],
            1 => vec![set(b"during", b"D"), get(b"during")],
            2 => vec![cmds("CLIENT LIST"), cmds("CLIENT LIST")],
            _ => vec![cmd(&[b"CLIENT", b"SETNAME", b"x"]), cmds("CLIENT INFO"), get(b"early")],
        };
        // threads start at the same moment as the requests arrive
        let mut j: Vec<Act> = down.iter().map(|th| Act::Start { thr: *th }).collect();
        j.insert(0, send(0, cat(&r)));
        let mut b = vec![after(0, at)];
        b.extend(j);
        m += r.len() as u64;
        b.push(wait(0, m));
        let bl = b.len();
        let mut k = 1;
        let mut c = vec![after(1, bl)];
        for th in down.iter().chain(&up) {
            c.extend(on_late(k, *th));
            k += 1;
        }
        for i in 1..k {
            rt(&mut c, 0, &mut m, get(format!("late{i}").as_bytes()));
        }
        rt(&mut c, 0, &mut m, cmds("CLIENT LIST"));
        v.push(Scenario::new(format!("{n} threads, {} late, meanwhile {work}", name(&down))).actor(a.clone()).joint(b).actor(c).order(1).bud(B_PREEMPT, t.pick(2, 3)));
        // they start while a client of theirs already tries to connect
        if down.len() > 1 && !t.deep() {
            continue;
        }
        let mut s = Scenario::new(format!("{n} threads, {} late and awaited, meanwhile {work}", name(&down))).actor(a);
        let mut b = vec![after(0, at)];
        b.push(send(0, cat(&r)));
        b.push(wait(0, m - k as u64));
        s = s.actor(b);
        for (i, th) in down.iter().enumerate() {
            let mut x = vec![after(0, at), Act::Start { thr: *th }];
            x.extend(on_late(i + 1, *th));
            s = s.actor(x);
        }
        let early = if down.len() > 1 || (n > 2 && !t.deep()) { 1 } else { 2 };
        v.push(s.order(1).bud(B_EARLY, early).bud(B_PREEMPT, if down.len() > 1 { 0 } else { t.pick(1, 2) }));
    }
    v
}
pub fn p19(t: Tier) -> Vec<Job> {
    let g = t.pick(60, 900);
    let mut v = vec![];
    let sizes: Vec<usize> = if t.deep() { (1..=32).collect() } else { vec![1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32] };
    let on = |cpus: Vec<usize>| Place { cpus, must_start: true, ..Place::default() };
    for n in sizes {
        v.push(placed(list(&format!("threads-{n}"), n, g, vec![all_serve(n, true)], oracle), on((0..n).collect())));
    }
    // other processors than the first ones
    let top = t.pick(4, 8);
    let mut sets: Vec<Vec<usize>> = (1u32..1 << top).map(|m| (0..top).filter(|i| m >> i & 1 == 1).collect()).collect();
    sets.retain(|s: &Vec<usize>| s.iter().enumerate().any(|(i, c)| i != *c));
    sets.extend([vec![4, 5], vec![63], vec![64], vec![1023], vec![3, 4, 5, 6, 7], vec![0, 64], vec![62, 63, 64, 65], vec![1, 3, 5, 7, 9, 11, 13, 15], vec![511, 1000], (8..16).collect(), (16..32).collect()]);
    sets.sort();
    sets.dedup();
    for s in sets {
        v.push(placed(list(&format!("cpus-{}", name(&s)), s.len(), g, vec![all_serve(s.len(), true)], oracle), on(s)));
    }
    // every kind of address
    for (net, what) in [(V4_ANY, "v4-any"), (V4_ONE, "v4-one"), (V6_ANY, "v6-any"), (V6_ONE, "v6-one")] {
        for n in [1usize, 2, 3] {
            v.push(placed(list(&format!("{what}-{n}"), n, g, vec![all_serve(n, true)], oracle), Place { net, must_start: true, ..Place::default() }));
        }
    }
    // threads which start late
    for n in [2usize, 3] {
        for held in 1..(1u32 << n) - 1 {
            v.push(placed(list(&format!("late-{n}-{held}"), n, g, late(n, held, t), oracle), Place { held, must_start: true, ..Place::default() }));
        }
    }
    v.push(binary::no_address(t));
    v.push(binary::processors_job(t));
    v
}
