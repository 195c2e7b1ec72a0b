//! Stateless exploration: every execution is a forked child of the initialised
//! server, driven by a choice prefix; alternatives go to a shared work stack.
use crate::scen::*;
use crate::sys::*;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::SeqCst};
use std::time::Instant;

const ENT: usize = 2048;
const QCAP: usize = 300_000;
const VIS: usize = 1 << 24;
const SHSET: usize = 1 << 13;
const OUTSZ: usize = 1 << 30;
const BLOBSZ: usize = 1 << 26;
const MAXVIOL: usize = 16;

#[repr(C)]
struct Viol {
    used: AtomicU32,
    scen: u32,
    len: u32,
    pre: [u8; MAXCHOICE],
    sig: [u8; 64],
    msg: [u8; 2048],
}

#[repr(C)]
pub struct Ctl {
    lock: AtomicU32,
    top: AtomicU32,
    active: AtomicU32,
    next: AtomicU32,
    stop: AtomicU32,
    nviol: AtomicU32,
    pub execs: AtomicU64,
    pub pruned: AtomicU64,
    pub states: AtomicU64,
    pub trans: AtomicU64,
    pub choices_max: AtomicU64,
    pub shared_ops: AtomicU64,
    pub steps: AtomicU64,
    overflow: AtomicU32,
    timeout: AtomicU32,
    /// 1: only the default execution of every scenario; 2: may stop as soon as
    /// new shared addresses are known
    probe: AtomicU32,
    refine: AtomicU32,
    diverged: AtomicU32,
    limit: AtomicU32,
    broken: AtomicU32,
    known_hits: [AtomicU64; 32],
    nnew: AtomicU32,
    newaddr: [AtomicU64; 65536],
    outcomes: [AtomicU64; 65536],
    pub noutcomes: AtomicU32,
    viol: [Viol; MAXVIOL],
}

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub execs: u64,
    pub pruned: u64,
    pub states: u64,
    pub transitions: u64,
    pub max_choices: u64,
    pub shared_ops: u64,
    pub outcomes: u64,
    pub complete: bool,
    pub rounds: u64,
    pub shared_addrs: u64,
    pub new_left: u64,
    pub known: Vec<(String, u64)>,
    pub wall: f64,
    pub diverged: u64,
    pub limit: u64,
    pub broken: bool,
    pub note: String,
}
#[derive(Clone, Debug)]
pub struct Violation {
    pub family: String,
    pub scen: usize,
    pub choices: Vec<u8>,
    pub sig: String,
    pub msg: String,
}

struct Lock<'a>(&'a AtomicU32);
impl<'a> Lock<'a> {
    fn new(l: &'a AtomicU32) -> Self {
        let mut n = 0u32;
        while l.compare_exchange(0, 1, SeqCst, SeqCst).is_err() {
            n += 1;
            if n > 100 {
                unsafe { libc::usleep(20) };
            }
        }
        Lock(l)
    }
}
impl Drop for Lock<'_> {
    fn drop(&mut self) {
        self.0.store(0, SeqCst)
    }
}

fn put(dst: &mut [u8], s: &str) {
    let b = s.as_bytes();
    let n = b.len().min(dst.len() - 1);
    dst[..n].copy_from_slice(&b[..n]);
    dst[n] = 0;
}
fn get(b: &[u8]) -> String {
    let n = b.iter().position(|c| *c == 0).unwrap_or(b.len());
    String::from_utf8_lossy(&b[..n]).into_owned()
}
fn hash_add(tab: &[AtomicU64], cnt: &AtomicU32, v: u64) {
    let v = v.max(1);
    let m = tab.len();
    let mut i = (v.wrapping_mul(0x9E3779B97F4A7C15) >> 40) as usize % m;
    for _ in 0..256 {
        let c = tab[i].load(SeqCst);
        if c == v {
            return;
        }
        if c == 0 {
            match tab[i].compare_exchange(0, v, SeqCst, SeqCst) {
                Ok(_) => {
                    cnt.fetch_add(1, SeqCst);
                    return;
                }
                Err(x) if x == v => return,
                _ => {}
            }
        }
        i = (i + 1) % m;
    }
}

/// Everything a group (one thread count, one initialised server) needs.
pub struct Group {
    ctl: *mut Ctl,
    queue: *mut u8,
    vis: *mut u8,
    shset: *mut u8,
    known: Vec<String>,
    shaddrs: Vec<u64>,
    pub nworkers: usize,
}

pub struct RunOut {
    pub status: u32,
    pub code: i32,
    pub sig: i32,
}

impl Group {
    /// Initialise the real server with `threads` simulated CPUs, its threads
    /// recorded but not started.  Must be called in a fresh process.
    pub fn init((threads, limit, place): &(usize, u16, Place), known: Vec<String>) -> Result<Group, String> {
        let (threads, limit) = (*threads, *limit);
        unsafe {
            simk_config(threads as i32, 1, 0, 42);
            let mut m = vec![0u8; 1024];
            for i in 0..threads {
                m[place.cpus.get(i).copied().unwrap_or(i)] = 1;
            }
            simk_place(m.as_ptr(), 1024, place.held);
        }
        crate::model::NET.store(place.net, SeqCst);
        start_server(["0.0.0.0", "127.0.0.1", "[::]", "[::1]"][place.net as usize], 6379, limit);
        let n = unsafe { simk_recorded() };
        if n as usize != threads {
            return Err(format!("expected {threads} server threads, the server started {n}"));
        }
        let b = unsafe { simk_boot() };
        if b != 0 {
            return Err(format!("server threads did not reach their event loop ({b})"));
        }
        let g = Group {
            ctl: map_shared(std::mem::size_of::<Ctl>()) as *mut Ctl,
            queue: map_shared(ENT * QCAP),
            vis: map_shared(VIS * 8),
            shset: map_shared(SHSET * 8),
            known,
            shaddrs: vec![],
            nworkers: 8,
        };
        Ok(g)
    }
    fn ctl(&self) -> &mut Ctl {
        unsafe { &mut *self.ctl }
    }
    fn load_shset(&mut self) {
        let t = unsafe { std::slice::from_raw_parts_mut(self.shset as *mut u64, SHSET) };
        t.fill(0);
        for &a in &self.shaddrs {
            let mut i = cmix(a, 1) as usize & (SHSET - 1);
            while t[i] != 0 {
                i = (i + 1) & (SHSET - 1);
            }
            t[i] = a;
        }
    }

    /// Run a single execution in a child.  The result is in `shm`.
    pub fn exec(&self, shm: *mut Shm, blob: &[u8], out: *mut u8, stderr: Option<&str>) -> RunOut {
        unsafe {
            (*shm).res.status = 0;
            simk_share(shm as *mut _, blob.as_ptr(), out, self.vis as *mut _, (VIS - 1) as u64, self.shset as *mut _, (SHSET - 1) as u64);
        }
        let pid = fork();
        if pid == 0 {
            if let Some(e) = stderr {
                redirect_stderr(e);
            }
            unsafe { simk_run_child(8) };
        }
        let (code, sig) = waitpid(pid);
        RunOut { status: unsafe { (*shm).res.status }, code, sig }
    }

    /// Run one execution in the worker's runner process.
    fn exec_fast(&self, shm: *mut Shm, runner: &mut i32) -> RunOut {
        unsafe {
            loop {
                (*shm).res.status = 0;
                (*shm).go = 0;
                if *runner == 0 {
                    let pid = fork();
                    if pid == 0 {
                        simk_runner(8);
                    }
                    *runner = pid;
                }
                let mut st = 0;
                match simk_request(shm as *mut _, *runner, &mut st) {
                    0 => return RunOut { status: (*shm).res.status, code: 0, sig: 0 },
                    1 if st == -1 => {
                        *runner = 0;
                        return RunOut { status: (*shm).res.status, code: 0, sig: 0 };
                    }
                    1 => {
                        *runner = 0;
                        if libc::WIFSIGNALED(st) {
                            return RunOut { status: (*shm).res.status, code: 0, sig: libc::WTERMSIG(st) };
                        }
                        // left voluntarily before taking the request
                        if libc::WEXITSTATUS(st) == 0 {
                            continue;
                        }
                        return RunOut { status: (*shm).res.status, code: libc::WEXITSTATUS(st), sig: 0 };
                    }
                    _ => {
                        *runner = 0;
                        return RunOut { status: 0, code: 0, sig: libc::SIGALRM };
                    }
                }
            }
        }
    }

    fn worker(&self, fam: &Family, deadline: Instant) {
        let ctl = self.ctl();
        if std::env::var_os("MC_STDERR").is_none() {
            redirect_stderr("/dev/null");
        }
        // MC_SCEN restricts a run to one scenario (for the developer)
        let count = std::env::var("MC_SCEN").ok().and_then(|k| k.parse::<usize>().ok()).map_or(fam.count, |k| fam.count.min(k + 1));
        let shm = map_shared(std::mem::size_of::<Shm>()) as *mut Shm;
        let out = map_shared(OUTSZ);
        let blobmem = map_shared(BLOBSZ);
        let mut runner = 0;
        unsafe { simk_share(shm as *mut _, blobmem, out, self.vis as *mut _, (VIS - 1) as u64, self.shset as *mut _, (SHSET - 1) as u64) };
        let mut cur: Option<(usize, Scenario, Oracle)> = None;
        let mut first_of_scen;
        let mut idle = 0;
        loop {
            if ctl.stop.load(SeqCst) != 0 {
                break;
            }
            let mut pre: Vec<u8> = Vec::new();
            let scen;
            {
                let _l = Lock::new(&ctl.lock);
                let top = ctl.top.load(SeqCst);
                if top > 0 {
                    let e = unsafe { std::slice::from_raw_parts(self.queue.add((top as usize - 1) * ENT), ENT) };
                    scen = u32::from_le_bytes(e[0..4].try_into().unwrap()) as usize;
                    let n = u32::from_le_bytes(e[4..8].try_into().unwrap()) as usize;
                    pre.extend_from_slice(&e[8..8 + n]);
                    ctl.top.store(top - 1, SeqCst);
                    ctl.active.fetch_add(1, SeqCst);
                    first_of_scen = false;
                } else if (ctl.next.load(SeqCst) as usize) < count && (ctl.probe.load(SeqCst) != 1 || ctl.next.load(SeqCst) < 3000) {
                    scen = ctl.next.fetch_add(1, SeqCst) as usize;
                    ctl.active.fetch_add(1, SeqCst);
                    first_of_scen = true;
                } else if ctl.active.load(SeqCst) == 0 {
                    break;
                } else {
                    drop(_l);
                    idle += 1;
                    unsafe { libc::usleep(if idle > 100 { 500 } else { 50 }) };
                    continue;
                }
            }
            idle = 0;
            if Instant::now() > deadline {
                ctl.timeout.store(1, SeqCst);
                ctl.stop.store(1, SeqCst);
                break;
            }
            if cur.as_ref().map(|c| c.0) != Some(scen) {
                let (s, o) = (fam.gen)(scen);
                let blob = s.install(unsafe { &mut (*shm).sc });
                assert!(blob.len() <= BLOBSZ);
                unsafe { std::ptr::copy_nonoverlapping(blob.as_ptr(), blobmem, blob.len()) };
                cur = Some((scen, s, o));
            }
            let (_, sc, oracle) = cur.as_ref().unwrap();
            unsafe {
                (*shm).prefix_len = pre.len() as u32;
                (&mut (*shm).prefix)[..pre.len()].copy_from_slice(&pre);
                (*shm).no_prune = 0;
                (*shm).salt = scen as u64 + 1;
            }
            let _ = first_of_scen;
            let r = self.exec_fast(shm, &mut runner);
            let res = unsafe { &(*shm).res };
            ctl.execs.fetch_add(1, SeqCst);
            ctl.states.fetch_add(res.new_states as u64 + (r.status == ST_DONE) as u64, SeqCst);
            ctl.trans.fetch_add(res.transitions as u64 + 1, SeqCst);
            ctl.steps.fetch_add(res.steps as u64, SeqCst);
            ctl.shared_ops.fetch_max(res.shared_ops as u64, SeqCst);
            ctl.choices_max.fetch_max(res.nchoice as u64, SeqCst);
            for i in 0..res.nnew as usize {
                hash_add(&ctl.newaddr, &ctl.nnew, res.newaddr[i]);
            }
            let mut fail: Option<(String, String)> = None;
            match (r.sig, r.code, r.status) {
                (0, 0, ST_PRUNED) => {
                    ctl.pruned.fetch_add(1, SeqCst);
                }
                (0, 0, ST_DONE) => {
                    let obs = Obs { sc, res, out: unsafe { std::slice::from_raw_parts(out, OUTSZ) } };
                    match check(&obs, fam, oracle) {
                        Ok(h) => hash_add(&ctl.outcomes, &ctl.noutcomes, h),
                        Err(e) => fail = Some(e),
                    }
                }
                (0, 0, ST_DIVERGED) => {
                    ctl.diverged.fetch_add(1, SeqCst);
                }
                (0, 0, ST_HANG) => fail = Some(("hang".into(), "the server does not come to rest (livelock)".into())),
                (0, 0, ST_HEAP) => fail = Some(("heap".into(), format!("memory corruption in the server: {}", get(&res.msg)))),
                (0, 0, st) => {
                    // something outside the simulated environment: no verdict
                    ctl.limit.fetch_add(1, SeqCst);
                    put(&mut ctl.viol[MAXVIOL - 1].msg, &format!("scenario {} status {st}: {}", sc.name, get(&res.msg)));
                }
                (0, c, _) => fail = Some(("exit".into(), format!("the server process exited with code {c}"))),
                (s, _, _) if s == libc::SIGXCPU || s == libc::SIGPROF || s == libc::SIGALRM || s == libc::SIGKILL => {
                    fail = Some(("hang".into(), "the server does not come to rest (livelock or endless loop)".into()))
                }
                (s, _, _) => fail = Some(("crash".into(), format!("the whole server process died (signal {s})"))),
            }
            let nch = (res.nchoice as usize).min(MAXCHOICE);
            let choices: Vec<u8> = res.choice[..nch].to_vec();
            if let Some((sig, msg)) = fail {
                if let Some(k) = self.known.iter().position(|k| *k == sig) {
                    ctl.known_hits[k].fetch_add(1, SeqCst);
                } else {
                    let n = ctl.nviol.fetch_add(1, SeqCst) as usize;
                    if n < MAXVIOL - 1 {
                        let v = &mut ctl.viol[n];
                        v.scen = scen as u32;
                        v.len = choices.len() as u32;
                        v.pre[..choices.len()].copy_from_slice(&choices);
                        put(&mut v.sig, &sig);
                        put(&mut v.msg, &msg);
                        v.used.store(1, SeqCst);
                    }
                    ctl.stop.store(1, SeqCst);
                }
            }
            if ctl.probe.load(SeqCst) == 2 && ctl.nnew.load(SeqCst) > 0 && ctl.execs.load(SeqCst) > 4000 {
                ctl.refine.store(1, SeqCst);
                ctl.stop.store(1, SeqCst);
            }
            // alternatives below the prefix
            if r.status != ST_DIVERGED && ctl.probe.load(SeqCst) != 1 {
                let _l = Lock::new(&ctl.lock);
                let mut top = ctl.top.load(SeqCst) as usize;
                for i in pre.len()..nch {
                    for alt in 1..res.nopts[i] {
                        if top >= QCAP {
                            ctl.overflow.store(1, SeqCst);
                            break;
                        }
                        let e = unsafe { std::slice::from_raw_parts_mut(self.queue.add(top * ENT), ENT) };
                        e[0..4].copy_from_slice(&(scen as u32).to_le_bytes());
                        e[4..8].copy_from_slice(&(i as u32 + 1).to_le_bytes());
                        e[8..8 + i].copy_from_slice(&choices[..i]);
                        e[8 + i] = alt;
                        top += 1;
                    }
                }
                ctl.top.store(top as u32, SeqCst);
            }
            ctl.active.fetch_sub(1, SeqCst);
        }
        if runner != 0 {
            unsafe { libc::kill(runner, libc::SIGKILL) };
            waitpid(runner);
        }
    }

    fn round(&mut self, fam: &Family, deadline: Instant, probe: u32) {
        unsafe {
            libc::madvise(self.vis as *mut _, VIS * 8, libc::MADV_REMOVE);
            libc::madvise(self.queue as *mut _, ENT * QCAP, libc::MADV_REMOVE);
            std::ptr::write_bytes(self.ctl as *mut u8, 0, std::mem::size_of::<Ctl>());
        }
        self.ctl().probe.store(probe, SeqCst);
        if let Some(k) = std::env::var("MC_SCEN").ok().and_then(|k| k.parse().ok()) {
            self.ctl().next.store(k, SeqCst);
        }
        self.load_shset();
        let mut pids = vec![];
        for _ in 0..self.nworkers {
            let p = fork();
            if p == 0 {
                self.worker(fam, deadline);
                exit_now(0);
            }
            pids.push(p);
        }
        while !pids.is_empty() {
            let mut i = 0;
            while i < pids.len() {
                let mut st = 0;
                if unsafe { libc::waitpid(pids[i], &mut st, libc::WNOHANG) } != pids[i] {
                    i += 1;
                    continue;
                }
                pids.swap_remove(i);
                if st != 0 {
                    // the harness itself failed: no verdict
                    eprintln!("mc: worker ended abnormally (status {st:x})");
                    self.ctl().broken.store(1, SeqCst);
                    self.ctl().stop.store(1, SeqCst);
                    for p in pids.drain(..) {
                        unsafe { libc::kill(p, libc::SIGKILL) };
                        waitpid(p);
                    }
                }
            }
            unsafe { libc::usleep(300) };
        }
    }

    pub fn run(&mut self, fam: &Family) -> (Stats, Vec<Violation>) {
        let t0 = Instant::now();
        let deadline = t0 + std::time::Duration::from_secs(fam.guard);
        let mut rounds = 0;
        let mut probing = fam.threads > 1;
        loop {
            let probe = if probing { 1 } else if fam.threads > 1 && rounds < fam.rounds { 2 } else { 0 };
            self.round(fam, deadline, probe);
            rounds += 1;
            let ctl = self.ctl();
            if std::env::var_os("MC_ROUNDS").is_some() {
                eprintln!("round {rounds} probe {probe} at {:.2}s: {} executions, {} new addresses", t0.elapsed().as_secs_f64(), ctl.execs.load(SeqCst), ctl.nnew.load(SeqCst));
            }
            if ctl.nviol.load(SeqCst) > 0 || ctl.timeout.load(SeqCst) != 0 || ctl.broken.load(SeqCst) != 0 {
                break;
            }
            let fresh: Vec<u64> = ctl.newaddr.iter().map(|a| a.load(SeqCst)).filter(|a| *a != 0).filter(|a| !self.shaddrs.contains(a)).collect();
            if !probing && ctl.refine.load(SeqCst) == 0 && (fresh.is_empty() || rounds >= fam.rounds) {
                break;
            }
            probing = false;
            self.shaddrs.extend(fresh);
            self.shaddrs.sort();
            self.shaddrs.dedup();
            if self.shaddrs.len() > SHSET / 2 {
                break;
            }
        }
        let ctl = self.ctl();
        let mut v = vec![];
        for i in 0..MAXVIOL - 1 {
            let x = &ctl.viol[i];
            if x.used.load(SeqCst) == 1 {
                v.push(Violation {
                    family: fam.name.clone(),
                    scen: x.scen as usize,
                    choices: x.pre[..x.len as usize].to_vec(),
                    sig: get(&x.sig),
                    msg: get(&x.msg),
                });
            }
        }
        let l = |a: &AtomicU64| a.load(SeqCst);
        let st = Stats {
            execs: l(&ctl.execs),
            pruned: l(&ctl.pruned),
            states: l(&ctl.states),
            transitions: l(&ctl.trans),
            max_choices: l(&ctl.choices_max),
            shared_ops: l(&ctl.shared_ops),
            outcomes: ctl.noutcomes.load(SeqCst) as u64,
            complete: ctl.timeout.load(SeqCst) == 0
                && ctl.overflow.load(SeqCst) == 0
                && ctl.limit.load(SeqCst) == 0
                && ctl.broken.load(SeqCst) == 0
                && ctl.diverged.load(SeqCst) == 0
                && v.is_empty(),
            rounds: rounds as u64,
            shared_addrs: self.shaddrs.len() as u64,
            new_left: ctl.nnew.load(SeqCst) as u64,
            known: self.known.iter().enumerate().map(|(i, k)| (k.clone(), l(&ctl.known_hits[i]))).filter(|x| x.1 > 0).collect(),
            wall: t0.elapsed().as_secs_f64(),
            diverged: ctl.diverged.load(SeqCst) as u64,
            limit: ctl.limit.load(SeqCst) as u64,
            broken: ctl.broken.load(SeqCst) != 0,
            note: get(&ctl.viol[MAXVIOL - 1].msg),
        };
        (st, v)
    }

    /// Replay one choice sequence; returns the verdict and a readable trace.
    pub fn replay(&mut self, fam: &Family, scen: usize, choices: &[u8], verbose: bool) -> (Result<u64, (String, String)>, String) {
        self.load_shset();
        let shm = map_shared(std::mem::size_of::<Shm>()) as *mut Shm;
        let out = map_shared(OUTSZ);
        let (sc, oracle) = (fam.gen)(scen);
        let blob = sc.install(unsafe { &mut (*shm).sc });
        unsafe {
            (*shm).prefix_len = choices.len() as u32;
            (&mut (*shm).prefix)[..choices.len()].copy_from_slice(choices);
            (*shm).no_prune = 1;
            (*shm).salt = scen as u64 + 1;
        }
        let errf = format!("/tmp/mc-stderr-{}", std::process::id());
        let r = self.exec(shm, &blob, out, Some(&errf));
        let err = std::fs::read(&errf).unwrap_or_default();
        let _ = std::fs::remove_file(&errf);
        let res = unsafe { &(*shm).res };
        let obs = Obs { sc: &sc, res, out: unsafe { std::slice::from_raw_parts(out, OUTSZ) } };
        let verdict = match (r.sig, r.code, r.status) {
            (0, 0, ST_DONE) => check(&obs, fam, &oracle),
            (0, 0, ST_DIVERGED) => Ok(0),
            (0, 0, ST_HANG) => Err(("hang".into(), "the server does not come to rest (livelock)".into())),
            (0, 0, ST_HEAP) => Err(("heap".into(), format!("memory corruption in the server: {}", get(&res.msg)))),
            (0, 0, st) => {
                eprintln!("mc: no verdict, status {st}: {}", get(&res.msg));
                Ok(0)
            }
            (0, c, _) => Err(("exit".into(), format!("the server process exited with code {c}"))),
            (s, _, _) if s == libc::SIGXCPU || s == libc::SIGPROF || s == libc::SIGALRM || s == libc::SIGKILL => {
                Err(("hang".into(), "the server does not come to rest (livelock or endless loop)".into()))
            }
            (s, _, _) => Err(("crash".into(), format!("the whole server process died (signal {s})"))),
        };
        let mut tr = String::new();
        if verbose {
            tr = trace(&obs, r.status, r.sig);
            let e = String::from_utf8_lossy(&err);
            let tail: Vec<&str> = e.lines().filter(|l| !l.trim().is_empty()).collect();
            for l in tail.iter().rev().take(12).rev() {
                tr.push_str(&format!("  stderr: {l}\n"));
            }
        }
        unmap(shm as *mut u8, std::mem::size_of::<Shm>());
        unmap(out, OUTSZ);
        (verdict, tr)
    }
    /// Default execution of a scenario as a script for a real client.
    pub fn plan(&mut self, fam: &Family, scen: usize) -> Option<serde_json::Value> {
        use serde_json::json;
        self.load_shset();
        let shm = map_shared(std::mem::size_of::<Shm>()) as *mut Shm;
        let out = map_shared(OUTSZ);
        let (sc, _) = (fam.gen)(scen);
        let blob = sc.install(unsafe { &mut (*shm).sc });
        unsafe {
            (*shm).prefix_len = 0;
            (*shm).no_prune = 1;
            (*shm).salt = scen as u64 + 1;
        }
        let r = self.exec(shm, &blob, out, Some("/dev/null"));
        let res = unsafe { &(*shm).res };
        let obs = Obs { sc: &sc, res, out: unsafe { std::slice::from_raw_parts(out, OUTSZ) } };
        let mut p = None;
        if (r.sig, r.code, r.status) == (0, 0, ST_DONE) && (0..sc.actors.len()).all(|i| obs.actor_done(i)) {
            let n = res.nconn as usize;
            let mut rep = vec![0u64; n];
            let mut eof = vec![false; n];
            let mut steps = vec![];
            for e in obs.log() {
                match e.kind {
                    L_REPLY => rep[e.a as usize] += 1,
                    L_SRVCLOSE | L_SHUT => eof[e.a as usize] = true,
                    L_ACT => {
                        let b: Vec<_> = (0..n).map(|i| json!([rep[i], eof[i]])).collect();
                        steps.push(json!({"a": e.a, "b": e.b, "n": e.c, "before": b}));
                    }
                    _ => {}
                }
            }
            let end: Vec<_> = (0..n).map(|i| json!([rep[i], eof[i], obs.bytes(i)])).collect();
            p = Some(json!({"steps": steps, "end": end}));
        }
        unmap(shm as *mut u8, std::mem::size_of::<Shm>());
        unmap(out, OUTSZ);
        p
    }
    pub fn set_shared(&mut self, a: Vec<u64>) {
        self.shaddrs = a;
    }
    pub fn shared(&self) -> &[u64] {
        &self.shaddrs
    }
}

pub fn trace(obs: &Obs, status: u32, sig: i32) -> String {
    use crate::resp::lossy;
    let mut s = String::new();
    s.push_str(&format!("scenario {}\n", obs.sc.name));
    for e in obs.log() {
        let l = match e.kind {
            L_ACT => {
                let a = &obs.sc.actors[e.a as usize][e.b as usize];
                let d = match a {
                    Act::Send { conn, data, .. } => format!("send on conn {conn}: {} of {} bytes, {}", e.c, data.len(), lossy(data)),
                    a => format!("{a:?}"),
                };
                format!("client {}: {}", e.a, d)
            }
            L_ACCEPT => format!("server thread {} accepts conn {} as fd {}", e.c, e.a, e.b),
            L_RX if e.b >= 0x8000_0000 => format!("server reads conn {}: error {}", e.a, e.b & 0xffff),
            L_RX => format!("server reads conn {}: {} bytes", e.a, e.b),
            L_TX => {
                let b = obs.bytes(e.a as usize);
                let x = &b[(e.b as usize).min(b.len())..((e.b + e.c) as usize).min(b.len())];
                format!("server writes conn {}: {} bytes: {}", e.a, e.c, lossy(x))
            }
            L_SRVCLOSE => format!("server closes conn {}", e.a),
            L_SHUT => format!("server shuts down writing on conn {}", e.a),
            L_TIME => "time advances".to_string(),
            L_FAULT => format!("injected fault {} on {}", e.b, e.a),
            L_REPLY => format!("client has reply #{} on conn {}", e.b, e.a),
            L_IDLE => continue,
            L_TIME if e.a == 998 => continue,
            k => format!("event {k}"),
        };
        s.push_str(&format!("  {:4} {}\n", e.step, l));
    }
    s.push_str(&format!("  end: status {status} signal {sig} thread states {:?} actor positions {:?}\n", &obs.res.thr_state[..], &obs.res.apos[..obs.sc.actors.len()]));
    s
}

fn check(obs: &Obs, fam: &Family, oracle: &Oracle) -> Result<u64, (String, String)> {
    obs.threads_alive(fam.threads).map_err(|e| ("stuck".to_string(), e))?;
    oracle(obs)
}

fn cmix(a: u64, b: u64) -> u64 {
    let mut x = a.wrapping_mul(0x9E3779B97F4A7C15) ^ b.wrapping_add(0x7F4A7C159E3779B9).wrapping_add(a << 6).wrapping_add(a >> 2);
    x ^= x >> 32;
    x = x.wrapping_mul(0xD6E8FEB86659FD93);
    x ^= x >> 32;
    x = x.wrapping_mul(0xD6E8FEB86659FD93);
    x ^= x >> 32;
    x
}

/// The server's public entry point.
pub fn start_server(ip: &str, port: u16, limit: u16) {
    let addr: std::net::SocketAddr = format!("{ip}:{port}").parse().unwrap();
    let h = roster::ServerConfigBuilder::default()
        .bind_addr(addr)
        .connections_limit(std::sync::Arc::new(std::sync::atomic::AtomicU16::new(limit)))
        .build()
        .expect("config")
        .initialize();
    std::mem::forget(h);
}
