//! Binding of the simulated kernel to the real one: default traces of the
//! explored scenarios are replayed against the unmodified server over real
//! loopback TCP and io_uring, and the client-visible results are compared.
use crate::explore::Group;
use crate::job::*;
use crate::scen::*;
use crate::sys::*;
use serde_json::{json, Value};
use std::io::{Read, Write};
use std::net::TcpStream;
use std::time::{Duration, Instant};

fn eligible(s: &Scenario) -> bool {
    s.fault_mask == 0
        && s.storm.0 == 0
        && s.ever.0 == 0
        // requests racing on two threads have several right outcomes
        && s.chained.is_empty()
        && !s.actors.iter().flatten().any(|a| matches!(a, Act::Send { chain: true, .. }))
        && s.actors.iter().flatten().all(|a| !matches!(a, Act::Advance { .. } | Act::PauseRead { .. } | Act::ResumeRead { .. } | Act::Rst { .. } | Act::Close { .. } | Act::Start { .. }))
        && s.actors.iter().flatten().filter(|a| matches!(a, Act::Connect { .. })).count() <= 16
}

/// Ids, descriptors and addresses differ between the two kernels.
fn mask(b: &[u8]) -> Vec<u8> {
    let mut o = Vec::new();
    let mut i = 0;
    let keys: [&[u8]; 8] = [b"id=", b" addr=127.0.0.1:", b" addr=127.0.0.2:", b" laddr=127.0.0.1:", b" laddr=127.0.0.2:", b" fd=", b"+id\r\n:", b"$2\r\nid\r\n:"];
    while i < b.len() {
        if let Some(k) = keys.iter().find(|k| b[i..].starts_with(k)) {
            o.extend_from_slice(k);
            i += k.len();
            o.push(b'N');
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    sort_lists(&o)
}
/// CLIENT LIST has no order of its lines.
fn sort_lists(b: &[u8]) -> Vec<u8> {
    let mut out: Vec<u8> = vec![];
    let mut run: Vec<&[u8]> = vec![];
    for l in b.split_inclusive(|c| *c == b'\n') {
        if l.starts_with(b"+id=") {
            run.push(l);
        } else {
            run.sort();
            out.extend(run.drain(..).flatten());
            out.extend_from_slice(l);
        }
    }
    run.sort();
    out.extend(run.drain(..).flatten());
    out
}

struct Cl {
    s: Option<TcpStream>,
    got: Vec<u8>,
    eof: bool,
}
impl Cl {
    fn pump(&mut self) {
        if let Some(s) = &mut self.s {
            let mut b = [0u8; 65536];
            loop {
                match s.read(&mut b) {
                    Ok(0) => {
                        self.eof = true;
                        break;
                    }
                    Ok(n) => self.got.extend_from_slice(&b[..n]),
                    Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => break,
                    Err(_) => {
                        self.eof = true;
                        break;
                    }
                }
            }
        }
    }
    fn replies(&self) -> u64 {
        crate::resp::decode_all(&self.got).map(|x| x.0.len() as u64).unwrap_or(u64::MAX)
    }
}

fn dial((from, to): (&str, &str), port: u16) -> std::io::Result<TcpStream> {
    use std::os::fd::FromRawFd;
    let sa = |ip: &str, port: u16| {
        let ip: std::net::Ipv4Addr = ip.parse().unwrap();
        let mut a: libc::sockaddr_in = unsafe { std::mem::zeroed() };
        a.sin_family = libc::AF_INET as _;
        a.sin_port = port.to_be();
        a.sin_addr.s_addr = u32::from_ne_bytes(ip.octets());
        a
    };
    let n = std::mem::size_of::<libc::sockaddr_in>() as u32;
    unsafe {
        let fd = libc::socket(libc::AF_INET, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0);
        let s = TcpStream::from_raw_fd(fd);
        for (k, a) in [sa(from, 0), sa(to, port)].iter().enumerate() {
            let p = a as *const _ as *const libc::sockaddr;
            if (if k == 0 { libc::bind(fd, p, n) } else { libc::connect(fd, p, n) }) < 0 {
                return Err(std::io::Error::last_os_error());
            }
        }
        Ok(s)
    }
}

/// The scenario against a server of this process; log gives the order of the
/// client actions and, per action, what every connection had received before.
fn real(sc: &Scenario, plan: &Value, port: u16, limit: u16) -> Result<(), String> {
    unsafe { simk_config(2, 0, 1, 1) };
    crate::explore::start_server("0.0.0.0", port, limit);
    let mut c: Vec<Cl> = (0..64).map(|_| Cl { s: None, got: vec![], eof: false }).collect();
    let t0 = Instant::now();
    let wait = |c: &mut Vec<Cl>, exp: &Value, t0: Instant| -> Result<(), String> {
        loop {
            let mut ok = true;
            for (i, e) in exp.as_array().unwrap().iter().enumerate() {
                c[i].pump();
                let (n, eof) = (e[0].as_u64().unwrap(), e[1].as_bool().unwrap());
                ok &= c[i].replies() >= n && (!eof || c[i].eof);
            }
            if ok {
                return Ok(());
            }
            if t0.elapsed() > Duration::from_secs(10) {
                return Err("the real server does not give the replies of the trace".into());
            }
            std::thread::sleep(Duration::from_micros(300));
        }
    };
    for st in plan["steps"].as_array().unwrap() {
        wait(&mut c, &st["before"], t0)?;
        let (a, b, n) = (st["a"].as_u64().unwrap() as usize, st["b"].as_u64().unwrap() as usize, st["n"].as_u64().unwrap() as usize);
        match &sc.actors[a][b] {
            Act::Connect { conn, .. } => {
                let s = loop {
                    match dial(crate::model::ips(*conn), port) {
                        Ok(s) => break s,
                        Err(_) if t0.elapsed() < Duration::from_secs(8) => std::thread::sleep(Duration::from_millis(3)),
                        Err(e) => return Err(format!("no connection: {e}")),
                    }
                };
                s.set_nodelay(true).ok();
                s.set_nonblocking(true).ok();
                c[*conn].s = Some(s);
            }
            Act::Send { conn, data, .. } => {
                let d = &data[..n.min(data.len())];
                let mut p = 0;
                while p < d.len() {
                    match c[*conn].s.as_mut().unwrap().write(&d[p..]) {
                        Ok(k) => p += k,
                        Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => {
                            c[*conn].pump();
                            std::thread::sleep(Duration::from_micros(300))
                        }
                        Err(_) => break,
                    }
                }
            }
            Act::HalfClose { conn } => {
                let _ = c[*conn].s.as_ref().unwrap().shutdown(std::net::Shutdown::Write);
            }
            _ => {}
        }
    }
    wait(&mut c, &plan["end"], t0)?;
    std::thread::sleep(Duration::from_millis(20));
    for (i, e) in plan["end"].as_array().unwrap().iter().enumerate() {
        c[i].pump();
        let want: Vec<u8> = e[2].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
        if mask(&c[i].got) != mask(&want) {
            return Err(format!("conn {i}: real {} simulated {}", crate::resp::lossy(&c[i].got), crate::resp::lossy(&want)));
        }
        if c[i].eof != e[1].as_bool().unwrap() {
            return Err(format!("conn {i}: end of stream differs"));
        }
    }
    Ok(())
}

pub fn run(jobs: &[Job], n: usize) -> (u64, u64, Vec<String>) {
    let fams: Vec<&Family> = jobs.iter().filter_map(|j| if let Job::Sched(f) = j { Some(f) } else { None }).collect();
    if fams.is_empty() {
        return (0, 0, vec![]);
    }
    // spread over the families
    let mut picks: Vec<(usize, usize)> = vec![];
    for (i, f) in fams.iter().enumerate() {
        let m = (n / fams.len()).max(1);
        let mut k = 0;
        let mut at = 0;
        while k < m && at < f.count {
            let (s, _) = (f.gen)(at);
            if f.place == Place::default() && eligible(&s) {
                picks.push((i, at));
                k += 1;
            }
            at += (f.count / m).max(1);
        }
    }
    // simulated default traces
    let mut plans: Vec<(usize, usize, Value)> = vec![];
    let mut groups: Vec<(usize, u16, Place)> = fams.iter().map(|f| f.key()).collect();
    groups.sort();
    groups.dedup();
    for key in groups {
        let mine: Vec<(usize, usize)> = picks.iter().copied().filter(|p| fams[p.0].key() == key).collect();
        if mine.is_empty() {
            continue;
        }
        let r = in_child(|| {
            let Ok(mut g) = Group::init(&key, vec![]) else { return json!([]) };
            let mut o = vec![];
            for (i, k) in &mine {
                if let Some(p) = g.plan(fams[*i], *k) {
                    o.push(json!([i, k, p]));
                }
            }
            Value::Array(o)
        });
        if let Ok(Value::Array(a)) = r {
            for x in a {
                plans.push((x[0].as_u64().unwrap() as usize, x[1].as_u64().unwrap() as usize, x[2].clone()));
            }
        }
    }
    // real runs, eight at a time, each in a process of its own
    let mut ok = 0;
    let total = plans.len() as u64;
    let mut notes = vec![];
    let shm = map_shared(plans.len().max(1) * 512);
    let mut it = 0;
    let mut live: Vec<i32> = vec![];
    while it < plans.len() || !live.is_empty() {
        while live.len() < 4 && it < plans.len() {
            let (i, k, p) = &plans[it];
            let pid = fork();
            if pid == 0 {
                redirect_stderr("/dev/null");
                unsafe { libc::alarm(30) };
                let (sc, _) = (fams[*i].gen)(*k);
                let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
                let port = l.local_addr().unwrap().port();
                drop(l);
                let r = real(&sc, p, port, fams[*i].limit);
                let d = unsafe { std::slice::from_raw_parts_mut(shm.add(it * 512), 512) };
                match r {
                    Ok(()) => d[0] = 1,
                    Err(e) => {
                        d[0] = 2;
                        let b = e.as_bytes();
                        let n = b.len().min(500);
                        d[1..1 + n].copy_from_slice(&b[..n]);
                    }
                }
                exit_now(0);
            }
            live.push(pid);
            it += 1;
        }
        let mut st = 0;
        let r = unsafe { libc::waitpid(-1, &mut st, 0) };
        live.retain(|p| *p != r);
        if r < 0 {
            break;
        }
    }
    for (j, (i, k, _)) in plans.iter().enumerate() {
        let d = unsafe { std::slice::from_raw_parts(shm.add(j * 512), 512) };
        if d[0] == 1 {
            ok += 1;
        } else {
            let n = d.iter().skip(1).position(|c| *c == 0).unwrap_or(0);
            notes.push(format!("conformance: {}[{k}]: {}", fams[*i].name, if d[0] == 0 { "no result".into() } else { String::from_utf8_lossy(&d[1..1 + n]).into_owned() }));
        }
    }
    (ok, total, notes)
}
