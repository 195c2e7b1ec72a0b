//! The explored scenario families and their oracles, one function per property.
use crate::job::*;
use crate::model::*;
use crate::resp::{self, cmd, cmds, V};
use crate::scen::*;
use crate::sys::*;

mod binary;
mod client;
mod conc;
mod direct;
mod fair;
mod proto;
mod res;
mod start;
mod store;

pub const MS: u64 = 1_000_000;
pub const SEC: u64 = 1_000_000_000;

pub fn connect(conn: usize, thr: usize) -> Act {
    Act::Connect { conn, thr }
}
pub fn send(conn: usize, data: impl Into<Vec<u8>>) -> Act {
    Act::Send { conn, data: data.into(), cut: false, chain: false }
}
pub fn cut(conn: usize, data: impl Into<Vec<u8>>) -> Act {
    Act::Send { conn, data: data.into(), cut: true, chain: false }
}
/// several sends (and connects) that happen at the same moment
pub fn burst(mut acts: Vec<Act>) -> Vec<Act> {
    let n = acts.len();
    for (i, a) in acts.iter_mut().enumerate() {
        if let Act::Send { chain, .. } = a {
            *chain = i + 1 < n;
        }
    }
    acts
}
pub fn wait(conn: usize, n: u64) -> Act {
    Act::Wait { conn, n }
}
pub fn adv(ns: u64) -> Act {
    Act::Advance { ns }
}
pub fn after(actor: usize, step: usize) -> Act {
    Act::WaitActor { actor, step }
}
/// request, reply
pub fn rt(v: &mut Vec<Act>, conn: usize, n: &mut u64, req: Vec<u8>) {
    v.push(send(conn, req));
    *n += 1;
    v.push(wait(conn, *n));
}
pub fn cat(parts: &[Vec<u8>]) -> Vec<u8> {
    parts.concat()
}
pub fn set(k: &[u8], v: &[u8]) -> Vec<u8> {
    cmd(&[b"SET", k, v])
}
pub fn get(k: &[u8]) -> Vec<u8> {
    cmd(&[b"GET", k])
}
pub fn ping() -> Vec<u8> {
    cmds("PING")
}

pub fn list(name: &str, threads: usize, guard: u64, scs: Vec<Scenario>, oracle: fn(&Obs) -> Result<u64, Fail>) -> Job {
    let count = scs.len();
    Job::Sched(Family {
        name: name.into(),
        threads,
        count,
        guard,
        rounds: 10,
        limit: 1000,
        place: Place::default(),
        gen: Box::new(move |i| (scs[i].clone(), Box::new(oracle))),
    })
}
pub fn lazy(name: &str, threads: usize, guard: u64, count: usize, gen: impl Fn(usize) -> Scenario + 'static, oracle: fn(&Obs) -> Result<u64, Fail>) -> Job {
    Job::Sched(Family {
        name: name.into(),
        threads,
        count,
        guard,
        rounds: 10,
        limit: 1000,
        place: Place::default(),
        gen: Box::new(move |i| (gen(i), Box::new(oracle))),
    })
}
/// the same family on a server started elsewhere
pub fn placed(j: Job, place: Place) -> Job {
    match j {
        Job::Sched(mut f) => {
            f.place = place;
            Job::Sched(f)
        }
        j => j,
    }
}
/// the same family on a server with another connection limit
pub fn limited(j: Job, limit: u16) -> Job {
    match j {
        Job::Sched(mut f) => {
            f.limit = limit;
            Job::Sched(f)
        }
        j => j,
    }
}
/// Families of another property which decide a part of this one, too.
pub fn borrow(from: &str, jobs: Vec<Job>, names: &[&str]) -> Vec<Job> {
    let mut v = vec![];
    for n in names {
        assert!(jobs.iter().any(|j| j.name() == *n), "no family {n} in {from}");
    }
    for j in jobs {
        if !names.is_empty() && !names.contains(&j.name()) {
            continue;
        }
        if let Job::Sched(mut f) = j {
            f.name = format!("{from}/{}", f.name);
            v.push(Job::Sched(f));
        }
    }
    v
}
/// mixed radix digits
pub fn digits(mut i: usize, base: usize, n: usize) -> Vec<usize> {
    let mut v = vec![];
    for _ in 0..n {
        v.push(i % base);
        i /= base;
    }
    v
}
/// all sequences over `base` symbols of length 1..=depth: count and the i-th
pub fn seq_count(base: usize, depth: usize) -> usize {
    (1..=depth).map(|d| base.pow(d as u32)).sum()
}
pub fn seq_at(mut i: usize, base: usize) -> Vec<usize> {
    let mut d = 1;
    while i >= base.pow(d as u32) {
        i -= base.pow(d as u32);
        d += 1;
    }
    digits(i, base, d)
}

const ENV: &[&str] = &[
    "sequentially consistent interleavings of the server threads (weak-memory reorderings are not explored)",
    "switches happen at atomic operations on addresses shared by two threads, at futex and io_uring calls; data races on plain memory are outside",
    "the kernel is simulated (io_uring, sockets, futex, clock); its client-visible behaviour is compared with the real kernel on the counted traces",
    "within the stated budgets: client actions overlapping server work (early), thread preemptions, completion reorderings, segment cuts, short writes, injected faults",
];

// Where properties meet, each is also decided on the other's histories.
fn p01(t: Tier) -> Vec<Job> {
    let mut v = conc::p01(t);
    v.extend(borrow("P02", store::p02(Tier::Quick), &["sequences", "overwrites", "many-keys", "after-the-end"]));
    v.extend(borrow("P03", store::p03(Tier::Quick), &["sequences", "sequences-one-value", "many-deadlines"]));
    v
}
fn p02(t: Tier) -> Vec<Job> {
    let mut v = store::p02(t);
    v.extend(borrow("P04", proto::p04(Tier::Quick), &["cuts", "large", "straddling"]));
    v.extend(borrow("P08", proto::p08(Tier::Quick), &["sizes", "slow-reader", "pairs"]));
    v.push(binary::long_keys(t));
    v.push(binary::large_requests(t));
    v
}
fn p03(t: Tier) -> Vec<Job> {
    let mut v = store::p03(t);
    v.extend(borrow("P01", conc::p01(Tier::Quick), &["race-clock", "race-one-thread"]));
    v
}
fn p04(t: Tier) -> Vec<Job> {
    let mut v = proto::p04(t);
    v.extend(borrow("P02", store::p02(Tier::Quick), &["value-sizes", "key-sizes", "simple-strings"]));
    v.extend(borrow("P05", proto::p05(Tier::Quick), &["begun", "depth", "very-deep"]));
    v.extend(borrow("P14", conc::p14(Tier::Quick), &["half-close-pipeline"]));
    v.push(binary::large_requests(Tier::Quick));
    v
}
fn p05(t: Tier) -> Vec<Job> {
    let mut v = proto::p05(t);
    v.extend(borrow("P04", proto::p04(Tier::Quick), &[]));
    v.extend(borrow("P08", proto::p08(Tier::Quick), &["pairs", "sizes", "slow-reader", "long-lists"]));
    v.extend(borrow("P14", conc::p14(Tier::Quick), &["overlap", "half-close-pipeline", "every-command"]));
    v.extend(borrow("P09", client::p09(Tier::Quick), &["many"]));
    v.extend(borrow("P16", conc::p16(Tier::Quick), &["faults-large"]));
    v.extend(borrow("P20", fair::p20(Tier::Quick), &["stuck", "many-stuck", "unfinished"]));
    v
}
fn p07(t: Tier) -> Vec<Job> {
    let mut v = proto::p07(t);
    v.extend(borrow("P12", client::p12(Tier::Quick), &[]));
    v.extend(borrow("P11", client::p11(Tier::Quick), &["names"]));
    v.extend(borrow("P08", proto::p08(Tier::Quick), &["protocol-bytes", "long-errors"]));
    v.extend(borrow("P03", store::p03(Tier::Quick), &["refused"]));
    v.extend(borrow("P04", proto::p04(Tier::Quick), &["unfinished"]));
    v
}
fn p08(t: Tier) -> Vec<Job> {
    let mut v = proto::p08(t);
    v.extend(borrow("P12", client::p12(Tier::Quick), &[]));
    v.extend(borrow("P10", client::p10(Tier::Quick), &["long-listings"]));
    v.extend(borrow("P05", proto::p05(Tier::Quick), &["partial-writes", "very-deep"]));
    v.extend(borrow("P02", store::p02(Tier::Quick), &["value-sizes", "contents"]));
    v.extend(borrow("P11", client::p11(Tier::Quick), &["names"]));
    v.extend(borrow("P14", conc::p14(Tier::Quick), &["large-stream", "every-command"]));
    v.extend(borrow("P16", conc::p16(Tier::Quick), &["every-reply", "faults-large"]));
    v.push(binary::large_requests(Tier::Quick));
    v
}
fn p09(t: Tier) -> Vec<Job> {
    let mut v = client::p09(t);
    v.extend(borrow("P10", client::p10(Tier::Quick), &["sequences", "long-listings", "growth"]));
    v.push(binary::long_ids(t));
    v
}
fn p10(t: Tier) -> Vec<Job> {
    let mut v = client::p10(t);
    v.extend(borrow("P09", client::p09(Tier::Quick), &["accepts-listed", "churn", "many"]));
    v.extend(borrow("P11", client::p11(Tier::Quick), &["sequences", "names", "not-inherited", "later"]));
    v.push(binary::crowds(t));
    v
}
fn p11(t: Tier) -> Vec<Job> {
    let mut v = client::p11(t);
    v.extend(borrow("P10", client::p10(Tier::Quick), &["sequences", "long-listings", "concurrent"]));
    v
}
fn p12(t: Tier) -> Vec<Job> {
    let mut v = client::p12(t);
    v.extend(borrow("P11", client::p11(Tier::Quick), &["names", "sequences"]));
    v.extend(borrow("P08", proto::p08(Tier::Quick), &[]));
    v.extend(borrow("P03", store::p03(Tier::Quick), &["refused", "contents"]));
    v.extend(borrow("P07", proto::p07(Tier::Quick), &["catalogue", "edits"]));
    v.extend(borrow("P10", client::p10(Tier::Quick), &["filters"]));
    v
}
fn p14(t: Tier) -> Vec<Job> {
    let mut v = conc::p14(t);
    v.extend(borrow("P10", client::p10(Tier::Quick), &["ends-while-busy", "faulty-ends", "faults"]));
    v.extend(borrow("P16", conc::p16(Tier::Quick), &["every-reply", "faults-large"]));
    v.extend(borrow("P04", proto::p04(Tier::Quick), &["unfinished", "pauses"]));
    v.extend(borrow("P07", proto::p07(Tier::Quick), &["catalogue"]));
    v
}
fn p16(t: Tier) -> Vec<Job> {
    let mut v = conc::p16(t);
    v.extend(borrow("P14", conc::p14(Tier::Quick), &["every-byte", "overlap", "churn"]));
    v.extend(borrow("P10", client::p10(Tier::Quick), &["faults", "faulty-ends"]));
    v.extend(borrow("P17", client::p17(Tier::Quick), &["faults-limit1-threads1", "faults-limit1-threads2"]));
    v
}

pub fn all() -> Vec<Prop> {
    let p = |id, rule, jobs, conform| Prop { id, level: "model_checking", rule, assumptions: ENV, jobs, conform };
    let mut v = vec![
        p("P01", conc::P01_RULE, p01 as fn(Tier) -> Vec<Job>, (8, 40)),
        p("P02", store::P02_RULE, p02, (16, 60)),
        p("P03", store::P03_RULE, p03, (4, 20)),
        p("P04", proto::P04_RULE, p04, (8, 40)),
        p("P05", proto::P05_RULE, p05, (8, 40)),
        p("P07", proto::P07_RULE, p07, (16, 60)),
        p("P08", proto::P08_RULE, p08, (8, 40)),
        p("P09", client::P09_RULE, p09, (8, 30)),
        p("P10", client::P10_RULE, p10, (8, 40)),
        p("P11", client::P11_RULE, p11, (8, 40)),
        p("P12", client::P12_RULE, p12, (16, 60)),
        p("P14", conc::P14_RULE, p14, (8, 40)),
        Prop { level: "fault_enumeration", ..p("P16", conc::P16_RULE, p16, (0, 0)) },
        p("P17", client::P17_RULE, client::p17, (6, 20)),
        p("P18", res::P18_RULE, res::p18, (4, 10)),
        p("P19", start::P19_RULE, start::p19, (0, 0)),
        p("P20", fair::P20_RULE, fair::p20, (8, 30)),
    ];
    v.extend(direct::all());
    v.sort_by_key(|p| p.id);
    v
}

/// A connection that PINGs once so that it is known to be in service.
pub fn enter(v: &mut Vec<Act>, conn: usize, thr: usize) {
    v.push(connect(conn, thr));
    v.push(send(conn, ping()));
    v.push(wait(conn, 1));
}

/// When each reply of a connection arrived.
pub fn reply_steps(o: &Obs, conn: usize) -> Vec<u32> {
    o.log().iter().filter(|e| e.kind == L_REPLY && e.a as usize == conn).map(|e| e.step).collect()
}
pub fn act_step(o: &Obs, f: impl Fn(&Act) -> bool) -> Option<u32> {
    o.log().iter().find(|e| e.kind == L_ACT && f(&o.sc.actors[e.a as usize][e.b as usize])).map(|e| e.step)
}
