//! Jobs of a property check: scheduled exploration of the real server, or
//! direct exhaustive enumeration of inputs to one of its functions.
use crate::explore::{Group, Stats, Violation};
use crate::scen::*;
use crate::sys::*;
use serde_json::{json, Value};
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::SeqCst};
use std::time::Instant;

pub use crate::model::Fail;

/// Exhaustive enumeration of the cases 0..count of a function of the code.
pub struct Direct {
    pub name: String,
    pub count: u64,
    pub chunk: u64,
    /// Ok((nontrivial, outcome class))
    pub f: Box<dyn Fn(u64) -> Result<(bool, u64), Fail>>,
    pub show: Box<dyn Fn(u64) -> String>,
    pub guard: u64,
    /// a case that takes longer hangs
    pub secs: u64,
}

pub enum Job {
    Sched(Family),
    Direct(Direct),
}
impl Job {
    pub fn name(&self) -> &str {
        match self {
            Job::Sched(f) => &f.name,
            Job::Direct(d) => &d.name,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn pick<T>(self, q: T, t: T) -> T {
        if self == Tier::Quick {
            q
        } else {
            t
        }
    }
    pub fn deep(self) -> bool {
        self == Tier::Thorough
    }
}

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub jobs: fn(Tier) -> Vec<Job>,
    /// number of scenario traces replayed against the real kernel (quick, thorough)
    pub conform: (usize, usize),
}

#[derive(Clone, Debug)]
pub struct Known {
    pub prop: String,
    pub sig: String,
    pub what: String,
}
pub fn known_findings() -> Vec<Known> {
    let mut v = vec![];
    let s = std::fs::read_to_string("/verif/known-findings.txt").unwrap_or_default();
    for l in s.lines() {
        let Some(r) = l.strip_prefix("known: property=") else { continue };
        let mut it = r.splitn(3, ' ');
        let (Some(p), Some(sg), Some(w)) = (it.next(), it.next(), it.next()) else { continue };
        let Some(sg) = sg.strip_prefix("sig=") else { continue };
        v.push(Known { prop: p.into(), sig: sg.into(), what: w.into() });
    }
    v
}

#[derive(Default)]
pub struct Report {
    pub evaluations: u64,
    pub nontrivial: u64,
    pub states: u64,
    pub transitions: u64,
    pub pruned: u64,
    pub outcomes: u64,
    pub complete: bool,
    pub families: Vec<Value>,
    pub samples: Vec<Value>,
    pub known: Vec<String>,
    pub violation: Option<Value>,
    pub notes: Vec<String>,
    pub traces: u64,
    pub trace_total: u64,
}

fn stats_json(name: &str, threads: usize, count: usize, s: &Stats) -> Value {
    json!({"family": name, "threads": threads, "scenarios": count, "executions": s.execs, "pruned": s.pruned,
        "states": s.states, "transitions": s.transitions, "outcomes": s.outcomes, "max_choices": s.max_choices,
        "shared_addresses": s.shared_addrs, "rounds": s.rounds, "late_shared": s.new_left, "complete": s.complete,
        "wall_s": (s.wall * 1000.0).round() / 1000.0, "known": s.known.iter().map(|k| k.0.clone()).collect::<Vec<_>>()})
}

/// Run `f` in a forked process and get its JSON result.
pub fn in_child(f: impl FnOnce() -> Value) -> Result<Value, String> {
    let mut fds = [0i32; 2];
    unsafe { assert!(libc::pipe(fds.as_mut_ptr()) == 0) };
    let pid = fork();
    if pid == 0 {
        unsafe { libc::close(fds[0]) };
        let v = f();
        let s = v.to_string();
        let b = s.as_bytes();
        let mut p = 0;
        while p < b.len() {
            let n = unsafe { libc::write(fds[1], b[p..].as_ptr() as *const _, b.len() - p) };
            if n <= 0 {
                break;
            }
            p += n as usize;
        }
        exit_now(0);
    }
    unsafe { libc::close(fds[1]) };
    let mut out = Vec::new();
    let mut buf = vec![0u8; 65536];
    loop {
        let n = unsafe { libc::read(fds[0], buf.as_mut_ptr() as *mut _, buf.len()) };
        if n < 0 && std::io::Error::last_os_error().raw_os_error() == Some(libc::EINTR) {
            continue;
        }
        if n <= 0 {
            break;
        }
        out.extend_from_slice(&buf[..n as usize]);
    }
    unsafe { libc::close(fds[0]) };
    let (c, s) = waitpid(pid);
    serde_json::from_slice(&out).map_err(|_| format!("child ended with code {c} signal {s}"))
}

/// Explore all families with one thread count in a fresh process.
fn run_group(prop: &str, key: &(usize, u16, Place), fams: &[&Family], known: &[Known], stop_at: Option<Instant>) -> Value {
    let ks: Vec<String> = known.iter().filter(|k| k.prop == prop).map(|k| k.sig.clone()).collect();
    let mut res = vec![];
    let mut viol = Value::Null;
    let mut notes: Vec<String> = vec![];
    let mut g = match Group::init(key, ks) {
        Ok(g) => g,
        Err(e) => {
            return json!({"families": [], "violation": {"sig": "start", "msg": e, "start": true, "key": format!("{key:?}"), "family": fams[0].name, "must_start": key.2.must_start}, "notes": []});
        }
    };
    for f in fams {
        if stop_at.map_or(false, |t| Instant::now() > t) {
            notes.push(format!("{}: not run, time limit of the tier reached", f.name));
            continue;
        }
        g.set_shared(vec![]);
        let (st, vs) = g.run(f);
        res.push(stats_json(&f.name, f.threads, f.count, &st));
        if st.diverged + st.limit > 0 {
            notes.push(format!("{}: diverged {} limited {} ({})", f.name, st.diverged, st.limit, st.note));
        }
        if st.broken || st.limit * 10 > st.execs {
            notes.push(format!("NO VERDICT {}: {}", f.name, if st.broken { "a worker of the explorer died" } else { &st.note }));
        }
        for v in vs {
            let sh = g.shared().to_vec();
            let (a, tr) = g.replay(f, v.scen, &v.choices, true);
            let (b, _) = g.replay(f, v.scen, &v.choices, false);
            match (&a, &b) {
                (Err(x), Err(y)) if x.0 == y.0 => {
                    viol = viol_json(f, &v, &sh, x, &tr);
                    break;
                }
                _ => notes.push(format!("{}: a failure ({}: {}) did not replay and is not reported", f.name, v.sig, v.msg)),
            }
        }
        if !viol.is_null() {
            break;
        }
    }
    json!({"families": res, "violation": viol, "notes": notes})
}
fn viol_json(f: &Family, v: &Violation, sh: &[u64], e: &Fail, tr: &str) -> Value {
    json!({"kind": "sched", "family": f.name, "threads": f.threads, "scen": v.scen, "choices": v.choices,
        "shared": sh, "sig": e.0, "msg": e.1, "trace": tr})
}

#[repr(C)]
struct DCtl {
    next: AtomicU64,
    cur: [AtomicU64; 8],
    evals: AtomicU64,
    nontriv: AtomicU64,
    stop: AtomicU32,
    nviol: AtomicU32,
    vidx: AtomicU64,
    vsig: [u8; 64],
    vmsg: [u8; 2048],
    outcomes: [AtomicU64; 4096],
    nout: AtomicU32,
    known: [AtomicU64; 32],
}
fn put(dst: &mut [u8], s: &str) {
    let b = s.as_bytes();
    let n = b.len().min(dst.len() - 1);
    dst[..n].copy_from_slice(&b[..n]);
    dst[n] = 0;
}
fn get(b: &[u8]) -> String {
    let n = b.iter().position(|c| *c == 0).unwrap_or(b.len());
    String::from_utf8_lossy(&b[..n]).into_owned()
}

/// One case in a child of its own.
pub fn direct_one(d: &Direct, i: u64) -> Result<(), Fail> {
    let r = in_child(|| {
        unsafe {
            // processor time, so that a busy machine makes no difference; an
            // alarm for a function that waits for ever
            let t = libc::rlimit { rlim_cur: d.secs + 5, rlim_max: d.secs + 6 };
            libc::setrlimit(libc::RLIMIT_CPU, &t);
            libc::alarm(d.secs as u32 * 4);
            simk_maxalloc(1 << 30);
        }
        redirect_stderr("/dev/null");
        match (d.f)(i) {
            Ok(_) => json!({"ok": true}),
            Err(e) => json!({"ok": false, "sig": e.0, "msg": e.1}),
        }
    });
    match r {
        Ok(v) if v["ok"] == true => Ok(()),
        Ok(v) => Err((v["sig"].as_str().unwrap_or("").into(), v["msg"].as_str().unwrap_or("").into())),
        Err(e) if [libc::SIGALRM, libc::SIGXCPU, libc::SIGKILL].iter().any(|g| e.contains(&format!("signal {g}"))) => Err(("hang".into(), "does not return".into())),
        Err(e) => Err(("crash".into(), format!("the process dies: {e}"))),
    }
}

/// The processor time a process has used, in seconds.
fn cpu_of(pid: i32) -> f64 {
    unsafe {
        let mut c: libc::clockid_t = 0;
        let mut t: libc::timespec = std::mem::zeroed();
        if libc::clock_getcpuclockid(pid, &mut c) != 0 || libc::clock_gettime(c, &mut t) != 0 {
            return 0.0;
        }
        t.tv_sec as f64 + t.tv_nsec as f64 / 1e9
    }
}

/// A failure that can't be repeated stops the others; they get another chance.
fn run_direct(prop: &str, d: &Direct, known: &[Known]) -> Value {
    let r = direct_round(prop, d, known);
    if r["violation"].is_null() && r["notes"].as_array().is_some_and(|n| !n.is_empty()) {
        let mut again = direct_round(prop, d, known);
        let notes = [r["notes"].as_array().unwrap().clone(), again["notes"].as_array().unwrap().clone()].concat();
        again["notes"] = json!(notes);
        return again;
    }
    r
}
fn direct_round(prop: &str, d: &Direct, known: &[Known]) -> Value {
    let ks: Vec<&Known> = known.iter().filter(|k| k.prop == prop).collect();
    let c = unsafe { &mut *(map_shared(std::mem::size_of::<DCtl>()) as *mut DCtl) };
    let t0 = Instant::now();
    let mut pids = vec![];
    let spawn = |w: usize| {
        let p = fork();
        if p == 0 {
            unsafe { simk_maxalloc(1 << 30) };
            redirect_stderr("/dev/null");
            let (mut ev, mut nt) = (0u64, 0u64);
            'o: loop {
                if c.stop.load(SeqCst) != 0 {
                    break;
                }
                let a = c.next.fetch_add(d.chunk, SeqCst);
                if a >= d.count {
                    break;
                }
                for i in a..(a + d.chunk).min(d.count) {
                    c.cur[w].store(i + 1, SeqCst);
                    ev += 1;
                    match (d.f)(i) {
                        Ok((n, h)) => {
                            nt += n as u64;
                            let h = h.max(1);
                            let mut k = (h.wrapping_mul(0x9E3779B97F4A7C15) >> 40) as usize % 4096;
                            for _ in 0..64 {
                                let x = c.outcomes[k].load(SeqCst);
                                if x == h {
                                    break;
                                }
                                if x == 0 && c.outcomes[k].compare_exchange(0, h, SeqCst, SeqCst).is_ok() {
                                    c.nout.fetch_add(1, SeqCst);
                                    break;
                                }
                                k = (k + 1) % 4096;
                            }
                        }
                        Err(e) => {
                            if let Some(k) = ks.iter().position(|k| k.sig == e.0) {
                                c.known[k].fetch_add(1, SeqCst);
                                continue;
                            }
                            if c.nviol.fetch_add(1, SeqCst) == 0 {
                                let c = unsafe { &mut *(c as *const DCtl as *mut DCtl) };
                                c.vidx.store(i, SeqCst);
                                put(&mut c.vsig, &e.0);
                                put(&mut c.vmsg, &e.1);
                            }
                            c.stop.store(1, SeqCst);
                            break 'o;
                        }
                    }
                }
            }
            c.evals.fetch_add(ev, SeqCst);
            c.nontriv.fetch_add(nt, SeqCst);
            exit_now(0);
        }
        p
    };
    for w in 0..8 {
        pids.push((w, spawn(w), 0u64, Instant::now(), 0f64));
    }
    let mut viol: Vec<u64> = vec![];
    let mut checked = Instant::now();
    let mut timeout = false;
    while !pids.is_empty() {
        unsafe { libc::usleep(2000) };
        let look = checked.elapsed().as_millis() > 200;
        if look {
            checked = Instant::now();
        }
        let mut i = 0;
        while i < pids.len() {
            let (w, pid, last, since, cpu) = pids[i];
            let mut st = 0;
            let r = unsafe { libc::waitpid(pid, &mut st, libc::WNOHANG) };
            if r == pid {
                pids.swap_remove(i);
                if libc::WIFSIGNALED(st) || libc::WEXITSTATUS(st) != 0 {
                    let x = c.cur[w].load(SeqCst);
                    if x > 0 {
                        viol.push(x - 1);
                    }
                    c.stop.store(1, SeqCst);
                }
                continue;
            }
            let x = c.cur[w].load(SeqCst);
            if x != last {
                pids[i].2 = x;
                pids[i].3 = Instant::now();
                pids[i].4 = -1.0;
            } else if look && x > 0 {
                let used = cpu_of(pid);
                if cpu < 0.0 {
                    pids[i].4 = used;
                } else {
                    let (wall, used) = (since.elapsed().as_secs_f64(), used - cpu);
                    if used > d.secs as f64 || (wall > 2.0 * d.secs as f64 && used < wall / 200.0) {
                        unsafe { libc::kill(pid, libc::SIGKILL) };
                        waitpid(pid);
                        pids.swap_remove(i);
                        viol.push(x - 1);
                        continue;
                    }
                }
            }
            i += 1;
        }
        if t0.elapsed().as_secs() > d.guard {
            timeout = true;
            c.stop.store(1, SeqCst);
        }
    }
    if c.nviol.load(SeqCst) > 0 {
        viol.insert(0, c.vidx.load(SeqCst));
    }
    let mut notes = vec![];
    let mut vj = Value::Null;
    for i in viol {
        match (direct_one(d, i), direct_one(d, i)) {
            (Err(a), Err(b)) if a.0 == b.0 => {
                vj = json!({"kind": "direct", "family": d.name, "index": i, "sig": a.0, "msg": format!("{}: {}", (d.show)(i), a.1)});
                break;
            }
            _ => notes.push(format!("{}: a failure at case {i} did not replay and is not reported ({})", d.name, if c.vidx.load(SeqCst) == i { get(&c.vmsg) } else { "a crash or hang".into() })),
        }
    }
    let n = c.evals.load(SeqCst);
    let fam = json!({"family": d.name, "cases": d.count, "executions": n, "nontrivial": c.nontriv.load(SeqCst), "outcomes": c.nout.load(SeqCst),
        "states": n, "transitions": n, "complete": !timeout && vj.is_null() && notes.is_empty() && n == d.count, "wall_s": t0.elapsed().as_secs_f64(),
        "known": ks.iter().enumerate().filter(|(i, _)| c.known[*i].load(SeqCst) > 0).map(|(_, k)| k.sig.clone()).collect::<Vec<_>>()});
    json!({"families": [fam], "violation": vj, "notes": notes})
}

/// A server that has to come up where it is started, and twice does not.
fn start_fails(r: Result<Value, String>, key: &(usize, u16, Place), f: &Family, known: &[Known]) -> Result<Value, String> {
    let _ = known;
    let down = match &r {
        Err(_) => true,
        Ok(v) => v["violation"]["start"] == true,
    };
    if !key.2.must_start || !down {
        return r;
    }
    match start_once(key) {
        Ok(()) => r,
        Err(e) => Ok(json!({"families": [], "notes": [], "violation": {"kind": "start", "family": f.name, "start": true, "must_start": true, "sig": "not-started", "msg": format!("{}: {e}", f.name)}})),
    }
}
/// Does the server come up there?
fn start_once(key: &(usize, u16, Place)) -> Result<(), String> {
    let r = in_child(|| {
        redirect_stderr("/dev/null");
        match Group::init(key, vec![]) {
            Ok(_) => json!({"ok": true}),
            Err(e) => json!({"ok": false, "msg": e}),
        }
    });
    match r {
        Ok(v) if v["ok"] == true => Ok(()),
        Ok(v) => Err(v["msg"].as_str().unwrap_or("").into()),
        Err(e) => Err(format!("the server does not start: {e}")),
    }
}

pub fn run_prop(p: &Prop, tier: Tier, limit: Option<u64>) -> Report {
    let known = known_findings();
    let mut jobs = (p.jobs)(tier);
    // MC_FAM restricts a run to some families (for the developer)
    if let Ok(w) = std::env::var("MC_FAM") {
        jobs.retain(|j| w.split(' ').any(|w| w == j.name()));
    }
    let stop_at = limit.map(|s| Instant::now() + std::time::Duration::from_secs(s));
    let mut r = Report { complete: true, ..Default::default() };
    let mut groups: Vec<(usize, u16, Place)> = vec![];
    for j in &jobs {
        if let Job::Sched(f) = j {
            if !groups.contains(&f.key()) {
                groups.push(f.key());
            }
        }
    }
    let mut outs: Vec<Result<Value, String>> = vec![];
    for j in &jobs {
        if let Job::Direct(d) = j {
            if stop_at.map_or(false, |t| Instant::now() > t) {
                r.notes.push(format!("{}: not run, time limit of the tier reached", d.name));
                r.complete = false;
                continue;
            }
            let v = run_direct(p.id, d, &known);
            let bad = !v["violation"].is_null();
            outs.push(Ok(v));
            for k in [0, d.count / 3, d.count / 2, d.count - 1] {
                r.samples.push(json!({"family": d.name, "case": (d.show)(k)}));
            }
            if bad {
                break;
            }
        }
    }
    let bad = |o: &Vec<Result<Value, String>>| o.iter().any(|v| v.as_ref().map_or(false, |v| !v["violation"].is_null()));
    for key in groups {
        if bad(&outs) {
            break;
        }
        let fams: Vec<&Family> = jobs.iter().filter_map(|j| if let Job::Sched(f) = j { (f.key() == key).then_some(f) } else { None }).collect();
        outs.push(start_fails(in_child(|| run_group(p.id, &key, &fams, &known, stop_at)), &key, fams[0], &known));
    }
    for o in outs {
        match o {
            Err(e) => {
                r.notes.push(format!("NO VERDICT exploration process failed: {e}"));
                r.complete = false;
            }
            Ok(v) => {
                for f in v["families"].as_array().unwrap() {
                    let u = |k: &str| f[k].as_u64().unwrap_or(0);
                    r.evaluations += u("executions");
                    r.pruned += u("pruned");
                    r.states += u("states");
                    r.transitions += u("transitions");
                    r.outcomes += u("outcomes");
                    r.nontrivial += if f["cases"].is_null() { u("executions") - u("pruned") } else { u("nontrivial") };
                    r.complete &= f["complete"] == true;
                    for k in f["known"].as_array().into_iter().flatten() {
                        let k = k.as_str().unwrap().to_string();
                        if !r.known.contains(&k) {
                            r.known.push(k);
                        }
                    }
                    r.families.push(f.clone());
                }
                for n in v["notes"].as_array().unwrap() {
                    r.notes.push(n.as_str().unwrap().into());
                    r.complete = false;
                }
                if r.violation.is_none() && !v["violation"].is_null() {
                    r.violation = Some(v["violation"].clone());
                }
            }
        }
    }
    for j in &jobs {
        if let Job::Sched(f) = j {
            for k in [0, f.count / 2] {
                if r.samples.len() < 12 && f.count > 0 {
                    let (s, _) = (f.gen)(k);
                    r.samples.push(json!({"family": f.name, "scenario": scen_text(&s)}));
                }
            }
        }
    }
    if r.violation.is_none() {
        let n = tier.pick(p.conform.0, p.conform.1);
        if n > 0 {
            let (ok, total, notes) = crate::conform::run(&jobs, n);
            r.traces = ok;
            r.trace_total = total;
            r.notes.extend(notes);
        }
    }
    r
}

pub fn scen_text(s: &Scenario) -> String {
    use crate::resp::lossy;
    let mut t = format!("{}:", s.name);
    for (i, a) in s.actors.iter().enumerate() {
        t.push_str(&format!(" client {i} ["));
        for (j, x) in a.iter().enumerate() {
            if j > 12 {
                t.push_str("; ...");
                break;
            }
            if j > 0 {
                t.push_str("; ");
            }
            match x {
                Act::Send { conn, data, cut, .. } => t.push_str(&format!("send{} conn {conn} {}", if *cut { " (any cut)" } else { "" }, lossy(&data[..data.len().min(60)]))),
                x => t.push_str(&format!("{x:?}")),
            }
        }
        t.push(']');
    }
    t.push_str(&format!(" budgets preempt/early/order/split/short/fault {:?}", s.budget));
    t
}

pub fn replay_file(path: &str, props: &[Prop]) -> i32 {
    let s = std::fs::read_to_string(path).expect("replay file");
    let v: Value = serde_json::from_str(&s).expect("replay file");
    let id = v["property"].as_str().unwrap();
    let tier = if v["tier"] == "thorough" { Tier::Thorough } else { Tier::Quick };
    let p = props.iter().find(|p| p.id == id).expect("property");
    let x = &v["violation"];
    let jobs = (p.jobs)(tier);
    if x["start"] == true {
        for j in &jobs {
            if let Job::Sched(f) = j {
                if Some(&f.name[..]) == x["family"].as_str() {
                    return match start_once(&f.key()) {
                        Ok(()) => {
                            println!("the server starts");
                            0
                        }
                        Err(e) => {
                            println!("{e}");
                            1
                        }
                    };
                }
            }
        }
    }
    for j in &jobs {
        if j.name() != x["family"].as_str().unwrap() {
            continue;
        }
        match j {
            Job::Direct(d) => {
                let i = x["index"].as_u64().unwrap();
                println!("case {i}: {}", (d.show)(i));
                return match direct_one(d, i) {
                    Ok(()) => {
                        println!("holds");
                        0
                    }
                    Err(e) => {
                        println!("{}: {}", e.0, e.1);
                        1
                    }
                };
            }
            Job::Sched(f) => {
                let ch: Vec<u8> = x["choices"].as_array().unwrap().iter().map(|c| c.as_u64().unwrap() as u8).collect();
                let sh: Vec<u64> = x["shared"].as_array().unwrap().iter().map(|c| c.as_u64().unwrap()).collect();
                let mut g = Group::init(&f.key(), vec![]).expect("start");
                g.set_shared(sh);
                let (r, tr) = g.replay(f, x["scen"].as_u64().unwrap() as usize, &ch, true);
                println!("{tr}");
                return match r {
                    Ok(_) => {
                        println!("holds");
                        0
                    }
                    Err(e) => {
                        println!("{}: {}", e.0, e.1);
                        1
                    }
                };
            }
        }
    }
    println!("family not found");
    2
}
