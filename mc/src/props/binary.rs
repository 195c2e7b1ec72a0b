//! The server's own binary, started with a configuration, on the real kernel.
use super::*;
use std::io::{Read, Write};
use std::net::{IpAddr, SocketAddr, TcpListener, TcpStream};
use std::os::fd::{AsRawFd, FromRawFd};
use std::os::unix::process::CommandExt;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

/// Where a setting comes from; with `Both` the file has another value.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Src {
    File,
    Env,
    Both,
}
const SRCS: [Src; 3] = [Src::File, Src::Env, Src::Both];

#[derive(Clone, Debug)]
enum Case {
    /// serves exactly there, exactly so many connections
    Serves { ip: &'static str, bind: Src, max: Src, limit: u16 },
    /// ends with an error: lines of the file, variables
    Refused { file: Option<&'static str>, vars: &'static [(&'static str, &'static str)] },
    /// the address can't be listened at: not one of this host, or taken
    NoAddr { ip: &'static str, taken: bool, src: Src },
    /// so many connections, one after the other
    Connections { n: u64 },
    /// so many keys, some with a time to live
    Keys { n: u64 },
    /// something of this size stored and read, sent in pieces of that size
    Large { n: usize, piece: usize, what: usize },
    /// a machine with so many processors
    Processors { n: u64 },
    /// so many connections open at once
    Crowd { n: usize },
}

struct Server {
    child: Child,
    dir: std::path::PathBuf,
}
impl Server {
    fn start(file: Option<&str>, vars: &[(&str, &str)]) -> Result<Server, Fail> {
        let exe = std::env::current_exe().unwrap();
        let bin = exe.ancestors().nth(3).unwrap().join("bin/debug/roster");
        let dir = std::env::temp_dir().join(format!("mc-bin-{}", std::process::id()));
        let e = |e: std::io::Error| ("setup".to_string(), e.to_string());
        std::fs::create_dir_all(&dir).map_err(e)?;
        let mut c = Command::new(bin);
        for (k, _) in std::env::vars_os() {
            if k.to_string_lossy().to_uppercase().starts_with("ROSTER") {
                c.env_remove(k);
            }
        }
        c.env_remove("CONFIG_FILE_LOCATION").env("RUST_BACKTRACE", "0").current_dir(&dir);
        if let Some(t) = file {
            std::fs::write(dir.join("conf.toml"), t).map_err(e)?;
            c.env("CONFIG_FILE_LOCATION", dir.join("conf.toml"));
        }
        for (k, v) in vars {
            c.env(k, v);
        }
        c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
        unsafe {
            c.pre_exec(|| {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &core);
                let mut n: libc::rlimit = std::mem::zeroed();
                libc::getrlimit(libc::RLIMIT_NOFILE, &mut n);
                n.rlim_cur = n.rlim_max;
                libc::setrlimit(libc::RLIMIT_NOFILE, &n);
                Ok(())
            });
        }
        Ok(Server { child: c.spawn().map_err(e)?, dir })
    }
    /// Its exit status when it has ended.
    fn ended(&mut self) -> Option<bool> {
        self.child.try_wait().unwrap().map(|s| s.success())
    }
}
impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        let _ = std::fs::remove_file(self.dir.join("conf.toml"));
        let _ = std::fs::remove_dir(&self.dir);
    }
}

/// Bind without listening, so that nobody else uses the port meanwhile.
fn hold(ip: IpAddr, port: u16) -> Option<TcpStream> {
    unsafe {
        let fd = libc::socket(if ip.is_ipv4() { libc::AF_INET } else { libc::AF_INET6 }, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0);
        if fd < 0 {
            return None;
        }
        let s = TcpStream::from_raw_fd(fd);
        let r = match ip {
            IpAddr::V4(v) => {
                let mut a: libc::sockaddr_in = std::mem::zeroed();
                a.sin_family = libc::AF_INET as _;
                a.sin_port = port.to_be();
                a.sin_addr.s_addr = u32::from_ne_bytes(v.octets());
                libc::bind(s.as_raw_fd(), &a as *const _ as *const _, std::mem::size_of_val(&a) as u32)
            }
            IpAddr::V6(v) => {
                let mut a: libc::sockaddr_in6 = std::mem::zeroed();
                a.sin6_family = libc::AF_INET6 as _;
                a.sin6_port = port.to_be();
                a.sin6_addr.s6_addr = v.octets();
                libc::bind(s.as_raw_fd(), &a as *const _ as *const _, std::mem::size_of_val(&a) as u32)
            }
        };
        (r == 0).then_some(s)
    }
}
/// A port of our own, its neighbour being held.
fn ports(i: u64, ip: IpAddr) -> Option<(u16, TcpStream)> {
    for k in 0..40u64 {
        let p = (12000 + (i * 2 + k * 400) % 18000) as u16;
        let Some(h) = hold(ip, p + 1) else { continue };
        if hold(ip, p).is_some() {
            return Some((p, h));
        }
    }
    None
}
fn open(a: SocketAddr) -> Option<TcpStream> {
    let s = TcpStream::connect_timeout(&a, Duration::from_secs(5)).ok()?;
    s.set_nodelay(true).ok();
    Some(s)
}
fn answered(s: &mut TcpStream, wait: Duration) -> bool {
    let t = Instant::now();
    let mut got = vec![];
    let mut b = [0u8; 64];
    while !got.ends_with(b"\r\n") {
        let left = wait.saturating_sub(t.elapsed());
        if left.is_zero() {
            return false;
        }
        s.set_read_timeout(Some(left)).ok();
        match s.read(&mut b) {
            Ok(0) => return false,
            Ok(n) => got.extend_from_slice(&b[..n]),
            Err(_) => {}
        }
    }
    got == b"+PONG\r\n"
}
fn ping_on(s: &mut TcpStream) -> bool {
    s.write_all(&ping()).is_ok()
}

const LONG: Duration = Duration::from_secs(20);

fn run(i: u64, c: &Case) -> Result<(bool, u64), Fail> {
    match c {
        Case::Serves { ip, bind, max, limit } => {
            let ip: IpAddr = ip.parse().unwrap();
            let mut n: libc::rlimit = unsafe { std::mem::zeroed() };
            unsafe {
                libc::getrlimit(libc::RLIMIT_NOFILE, &mut n);
                n.rlim_cur = n.rlim_max;
                libc::setrlimit(libc::RLIMIT_NOFILE, &n);
            }
            if (n.rlim_max as u64) < *limit as u64 + 200 {
                return Ok((false, 1));
            }
            // not a host with such an address
            let Some((p, held)) = ports(i, ip) else { return Ok((false, 2)) };
            let (here, other) = (SocketAddr::new(ip, p).to_string(), SocketAddr::new(ip, p + 1).to_string());
            let (l, l2) = (limit.to_string(), limit.saturating_add(3).to_string());
            let mut f = String::new();
            let mut v: Vec<(&str, &str)> = vec![];
            match bind {
                Src::File => f.push_str(&format!("bind_addr = \"{here}\"\n")),
                Src::Env => v.push(("ROSTER_BIND_ADDR", &here)),
                Src::Both => {
                    f.push_str(&format!("bind_addr = \"{other}\"\n"));
                    v.push(("ROSTER_BIND_ADDR", &here));
                }
            }
            match max {
                Src::File => f.push_str(&format!("max_connection = {l}\n")),
                Src::Env => v.push(("ROSTER_MAX_CONNECTION", &l)),
                Src::Both => {
                    f.push_str(&format!("max_connection = {l2}\n"));
                    v.push(("ROSTER_MAX_CONNECTION", &l));
                }
            }
            let mut s = Server::start(Some(&f), &v)?;
            let to = match ip {
                IpAddr::V4(x) if x.is_unspecified() => "127.0.0.1".parse().unwrap(),
                IpAddr::V6(x) if x.is_unspecified() => "::1".parse().unwrap(),
                x => x,
            };
            let at = SocketAddr::new(to, p);
            let t0 = Instant::now();
            let mut first = loop {
                if let Some(x) = open(at) {
                    break x;
                }
                if let Some(ok) = s.ended() {
                    return fail("not-started", format!("the server configured for {here} ended ({})", if ok { "successfully" } else { "with an error" }));
                }
                if t0.elapsed() > LONG {
                    return fail("not-listening", format!("nothing listens at {at}, configured {here}"));
                }
                std::thread::sleep(Duration::from_millis(5));
            };
            drop(held);
            if !ip.is_unspecified() && ip.is_ipv4() {
                for x in ["127.0.0.1", "127.0.0.9"] {
                    let a = SocketAddr::new(x.parse().unwrap(), p);
                    if a != at && open(a).is_some() {
                        return fail("listens-elsewhere", format!("configured {here}, but listens at {a} too"));
                    }
                }
            }
            let mut open_now = vec![];
            if *limit == 0 {
                ping_on(&mut first);
                if answered(&mut first, Duration::from_millis(100)) {
                    return fail("over-limit", format!("limit 0, yet a connection is served"));
                }
                return Ok((true, 10));
            }
            ping_on(&mut first);
            if !answered(&mut first, LONG) {
                return fail("unanswered", "the first connection is not served".to_string());
            }
            open_now.push(first);
            while open_now.len() < *limit as usize {
                let Some(mut x) = open(at) else { return fail("no-connection", format!("connection {} of {limit} fails", open_now.len() + 1)) };
                ping_on(&mut x);
                if !answered(&mut x, LONG) {
                    return fail("unanswered", format!("connection {} is not served, the limit is {limit}", open_now.len() + 1));
                }
                open_now.push(x);
            }
            let Some(mut extra) = open(at) else { return fail("no-connection", format!("a connection beyond the limit of {limit} is not even queued")) };
            ping_on(&mut extra);
            if answered(&mut extra, Duration::from_millis(120)) {
                return fail("over-limit", format!("limit {limit}, yet connection {} is served", limit + 1));
            }
            open_now.pop();
            if !answered(&mut extra, LONG) {
                return fail("unanswered", format!("limit {limit}: after one connection ended the waiting one is not served"));
            }
            if s.ended().is_some() {
                return fail("ended", "the server ended".to_string());
            }
            Ok((true, 11))
        }
        Case::Refused { file, vars } => {
            let Some((p, held)) = ports(i, "127.0.0.1".parse().unwrap()) else { return Ok((false, 2)) };
            let at = format!("127.0.0.1:{p}");
            let f = file.map(|f| f.replace("HERE", &at));
            let vs: Vec<(&str, String)> = vars.iter().map(|(k, v)| (*k, v.replace("HERE", &at))).collect();
            let v: Vec<(&str, &str)> = vs.iter().map(|(k, v)| (*k, &v[..])).collect();
            let s = Server::start(f.as_deref(), &v)?;
            ends(s, &format!("with {f:?} and {v:?}"))?;
            drop(held);
            Ok((true, 20))
        }
        Case::Connections { n } => connections(i, *n),
        Case::Keys { n } => many_keys(i, *n),
        Case::Processors { n } => processors(i, *n),
        Case::Crowd { n } => crowd(i, *n),
        Case::Large { n, piece, what } => large(i, *n, *piece, *what),
        Case::NoAddr { ip, taken, src } => {
            let a: IpAddr = ip.parse().unwrap();
            let (p, _held, _l);
            if *taken {
                let Ok(l) = TcpListener::bind((a, 0)) else { return Ok((false, 2)) };
                p = l.local_addr().unwrap().port();
                _l = Some(l);
                _held = None;
            } else {
                let Some((q, h)) = ports(i, "127.0.0.1".parse().unwrap()) else { return Ok((false, 2)) };
                if hold(a, q).is_some() {
                    return Ok((false, 3)); // an address of this host after all
                }
                (p, _held, _l) = (q, Some(h), None);
            }
            let here = SocketAddr::new(a, p).to_string();
            let f = match src {
                Src::File => format!("bind_addr = \"{here}\"\nmax_connection = 10\n"),
                Src::Env => "max_connection = 10\n".to_string(),
                Src::Both => "bind_addr = \"127.0.0.1:1\"\nmax_connection = 10\n".to_string(),
            };
            let v: &[(&str, &str)] = if *src == Src::File { &[] } else { &[("ROSTER_BIND_ADDR", &here)] };
            let s = Server::start(Some(&f), v)?;
            ends(s, &format!("configured for {here}, where it can't listen"))?;
            Ok((true, 30))
        }
    }
}
fn up(i: u64) -> Result<Option<(Server, SocketAddr)>, Fail> {
    up_with(i, 50, &[])
}
fn up_with(i: u64, limit: u64, vars: &[(&str, &str)]) -> Result<Option<(Server, SocketAddr)>, Fail> {
    let Some((p, held)) = ports(i, "127.0.0.1".parse().unwrap()) else { return Ok(None) };
    let at: SocketAddr = format!("127.0.0.1:{p}").parse().unwrap();
    let mut s = Server::start(Some(&format!("bind_addr = \"{at}\"\nmax_connection = {limit}\n")), vars)?;
    let t0 = Instant::now();
    while open(at).is_none() {
        if s.ended().is_some() || t0.elapsed() > LONG {
            return fail("not-started", "the server does not listen".to_string());
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    drop(held);
    Ok(Some((s, at)))
}
/// Closing it leaves no trace in the system's tables.
fn abortive(s: &TcpStream) {
    let lg = libc::linger { l_onoff: 1, l_linger: 0 };
    unsafe { libc::setsockopt(s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &lg as *const _ as *const _, std::mem::size_of_val(&lg) as u32) };
}
/// One reply, the bytes behind it left in `b`.
fn reply(s: &mut TcpStream, b: &mut Vec<u8>) -> Result<V, Fail> {
    s.set_read_timeout(Some(LONG)).ok();
    let mut x = [0u8; 65536];
    loop {
        match resp::decode(b, 0) {
            Ok(Some((v, n))) => {
                b.drain(..n);
                return Ok(v);
            }
            Ok(None) => {}
            Err(e) => return fail("malformed", e),
        }
        match s.read(&mut x) {
            Ok(0) => return fail("closed", "the connection was closed".to_string()),
            Ok(n) => b.extend_from_slice(&x[..n]),
            Err(e) => return fail("unanswered", format!("no answer: {e}")),
        }
    }
}
/// Ids of connections which follow each other rise for ever.
fn connections(i: u64, n: u64) -> Result<(bool, u64), Fail> {
    let Some((mut srv, at)) = up(i)? else { return Ok((false, 2)) };
    let mut last = -1;
    for k in 0..n {
        let Some(mut s) = open(at) else {
            if srv.ended().is_some() {
                return fail("ended", format!("the server ended, {k} connections were served"));
            }
            return Ok((false, 4));
        };
        let all = k < 3 || k + 3 > n || k % 4096 == 0;
        let mut b = vec![];
        s.write_all(&if all { cat(&[cmds("CLIENT ID"), cmds("CLIENT INFO"), cmds("CLIENT LIST"), cmds("HELLO")]) } else { cmds("CLIENT ID") }).ok();
        let V::Int(id) = reply(&mut s, &mut b)? else { return fail("wrong-reply", "CLIENT ID answers no number".to_string()) };
        if id <= last {
            return fail("id-order", format!("connection {k} has id {id}, the one before had {last}"));
        }
        last = id;
        if all {
            let me = s.local_addr().unwrap().to_string();
            let l = line(&reply(&mut s, &mut b)?).map_err(|e| ("wrong-reply".to_string(), e))?;
            let V::Array(ls) = reply(&mut s, &mut b)? else { return fail("wrong-reply", "CLIENT LIST answers no array".to_string()) };
            let mine = ls.iter().filter_map(|x| line(x).ok()).find(|x| x.addr == me);
            if l.id != id || mine.map(|x| x.id) != Some(id) {
                return fail("id-differs", format!("connection {k} has id {id}, but INFO or LIST differ"));
            }
            let V::Map(m) = reply(&mut s, &mut b)? else { return fail("wrong-reply", "HELLO answers no map".to_string()) };
            if !m.iter().any(|(a, v)| *a == V::Bulk(b"id".to_vec()) && *v == V::Int(id)) {
                return fail("id-differs", format!("connection {k} has id {id}, but HELLO differs"));
            }
        }
        abortive(&s);
    }
    Ok((true, 40))
}
/// All of many are listed, and none that left.
fn crowd(i: u64, n: usize) -> Result<(bool, u64), Fail> {
    let mut l: libc::rlimit = unsafe { std::mem::zeroed() };
    unsafe {
        libc::getrlimit(libc::RLIMIT_NOFILE, &mut l);
        l.rlim_cur = l.rlim_max;
        libc::setrlimit(libc::RLIMIT_NOFILE, &l);
    }
    if (l.rlim_max as usize) < n + 300 {
        return Ok((false, 1));
    }
    let Some((mut srv, at)) = up_with(i, 65535, &[])? else { return Ok((false, 2)) };
    let mut socks: Vec<Option<TcpStream>> = vec![];
    let mut names: Vec<Vec<u8>> = vec![];
    for k in 0..n {
        let Some(mut s) = open(at) else {
            if srv.ended().is_some() {
                return fail("ended", format!("the server ended, {k} connections were open"));
            }
            return Ok((false, 4));
        };
        let name = if k % 3 == 0 { format!("conn-{k}").into_bytes() } else { vec![] };
        let mut b = vec![];
        s.write_all(&if k % 3 == 0 { cmd(&[b"CLIENT", b"SETNAME", &name]) } else { ping() }).ok();
        reply(&mut s, &mut b)?;
        socks.push(Some(s));
        names.push(name);
    }
    let mut ids: Vec<Option<i128>> = vec![None; n];
    for round in 0..5usize {
        // some leave in every way
        if round > 0 {
            for k in (1..n).filter(|k| k % 7 == round) {
                let s = socks[k].take().unwrap();
                match k / 7 % 3 {
                    0 => drop(s),
                    1 => {
                        let mut s = s;
                        s.shutdown(std::net::Shutdown::Write).ok();
                        s.set_read_timeout(Some(LONG)).ok();
                        if !matches!(s.read(&mut [0u8; 16]), Ok(0)) {
                            return fail("not-closed", format!("connection {k} is not closed by the server after its half-close"));
                        }
                    }
                    _ => abortive(&s),
                }
            }
        }
        let t0 = Instant::now();
        loop {
            let last = t0.elapsed() > LONG;
            let asker = round * 7 % n;
            let s = socks[asker].as_mut().unwrap();
            let mut b = vec![];
            s.write_all(&cmds("CLIENT LIST")).ok();
            let V::Array(ls) = reply(s, &mut b)? else { return fail("wrong-reply", "CLIENT LIST answers no array".to_string()) };
            let mut by = std::collections::BTreeMap::new();
            for x in &ls {
                let l = line(x).map_err(|e| ("wrong-reply".to_string(), e))?;
                if let Some(o) = by.insert(l.addr.clone(), l) {
                    return fail("listed-twice", format!("{} is listed twice", o.addr));
                }
            }
            let mut seen = std::collections::BTreeSet::new();
            for k in 0..n {
                let Some(s) = &socks[k] else { continue };
                let me = s.local_addr().unwrap().to_string();
                let Some(l) = by.remove(&me) else { return fail("not-listed", format!("of {n} connections the one with number {k} ({me}) is not listed, {} lines are", ls.len())) };
                if l.name != names[k] || l.laddr != at.to_string() || ids[k].map_or(false, |i| i != l.id) || !seen.insert(l.id) {
                    return fail("wrong-line", format!("the line of connection {k}: id {} addr {} laddr {} name {}", l.id, l.addr, l.laddr, resp::lossy(&l.name)));
                }
                ids[k] = Some(l.id);
            }
            if by.is_empty() {
                break;
            }
            if last {
                return fail("listed-closed", format!("{} connections that ended long ago are still listed", by.len()));
            }
            std::thread::sleep(Duration::from_millis(20));
        }
    }
    // those who stayed are served like before
    for (k, s) in socks.iter_mut().enumerate().filter(|(k, _)| k % 97 == 0) {
        let Some(s) = s else { continue };
        let mut b = vec![];
        s.write_all(&cat(&[cmds("CLIENT ID"), cmds("CLIENT GETNAME")])).ok();
        let (a, g) = (reply(s, &mut b)?, reply(s, &mut b)?);
        let name = if names[k].is_empty() { V::Null } else { V::Bulk(names[k].clone()) };
        if ids[k].map(V::Int) != Some(a) || g != name {
            return fail("wrong-reply", format!("connection {k} is told another id or name than its line has"));
        }
    }
    for s in socks.iter().flatten() {
        abortive(s);
    }
    Ok((true, 41))
}
/// Something large arrives and comes back as it is.
fn large(i: u64, n: usize, piece: usize, what: usize) -> Result<(bool, u64), Fail> {
    let Some((_srv, at)) = up(i)? else { return Ok((false, 2)) };
    let (Some(mut s), Some(mut o)) = (open(at), open(at)) else { return Ok((false, 4)) };
    let (mut b, mut ob) = (vec![], vec![]);
    // a key has to be text
    let x: Vec<u8> = (0..n).map(|i| (i.wrapping_mul(2654435761) >> 13) as u8 & 0x7f).collect();
    let mut y = x.clone();
    *y.last_mut().unwrap() ^= 1;
    let talk = |s: &mut TcpStream, b: &mut Vec<u8>, r: Vec<u8>, want: V| -> Result<(), Fail> {
        let mut w = s.try_clone().map_err(|e| ("setup".to_string(), e.to_string()))?;
        let h = std::thread::spawn(move || r.chunks(piece).all(|c| w.write_all(c).is_ok()));
        let v = reply(s, b)?;
        h.join().ok();
        if v != want {
            let v = resp::show(&v);
            return fail("wrong-reply", format!("a request with {n} bytes is answered {}", &v.chars().take(200).collect::<String>()));
        }
        Ok(())
    };
    let ok = || V::Simple(b"OK".to_vec());
    match what {
        0 => {
            talk(&mut s, &mut b, set(b"k", &x), ok())?;
            talk(&mut o, &mut ob, get(b"k"), V::Bulk(x))?;
            talk(&mut s, &mut b, set(b"k", &y), ok())?;
            talk(&mut o, &mut ob, get(b"k"), V::Bulk(y))?;
            talk(&mut s, &mut b, set(b"k", b"small"), ok())?;
            talk(&mut o, &mut ob, get(b"k"), V::Bulk(b"small".to_vec()))?;
        }
        1 => {
            talk(&mut s, &mut b, set(&x, b"one"), ok())?;
            talk(&mut s, &mut b, set(&y, b"two"), ok())?;
            talk(&mut o, &mut ob, get(&x), V::Bulk(b"one".to_vec()))?;
            talk(&mut o, &mut ob, get(&y), V::Bulk(b"two".to_vec()))?;
            talk(&mut o, &mut ob, get(&x[..n - 1]), V::Null)?;
        }
        _ => {
            talk(&mut s, &mut b, cat(&[cmd(&[b"PING", &x]), ping()]), V::Bulk(x))?;
            talk(&mut s, &mut b, vec![], V::Simple(b"PONG".to_vec()))?;
        }
    }
    Ok((true, 60))
}
/// What was stored stays, however much else is.
fn many_keys(i: u64, n: u64) -> Result<(bool, u64), Fail> {
    let Some((_srv, at)) = up(i)? else { return Ok((false, 2)) };
    let mut c = vec![];
    for _ in 0..4 {
        let Some(s) = open(at) else { return Ok((false, 4)) };
        c.push((s, vec![]));
    }
    // keys to be found at the end: as old as the server, with and without a deadline
    let first: Vec<(Vec<u8>, Vec<u8>)> = (0..50).map(|k| (format!("first:{k}").into_bytes(), format!("value {k}").into_bytes())).collect();
    for (k, v) in &first {
        let (s, b) = &mut c[0];
        s.write_all(&if k.ends_with(b"7") { cmd(&[b"SET", k, v, b"EX", b"100000"]) } else { set(k, v) }).ok();
        if reply(s, b)? != V::Simple(b"OK".to_vec()) {
            return fail("wrong-reply", "SET is not answered OK".to_string());
        }
    }
    const STEP: u64 = 2000;
    let key = |k: u64| format!("key:{k}").into_bytes();
    let val = |k: u64| format!("{}", k.wrapping_mul(2654435761) % 1000003).into_bytes();
    for write in [true, false] {
        let mut at = 0;
        while at < n {
            let to = (at + STEP).min(n);
            // written on one connection, read on another
            let w = (at / STEP) as usize % 4;
            let (s, b) = &mut c[if write { w } else { (w + 1) % 4 }];
            let r: Vec<u8> = (at..to).flat_map(|k| if write { set(&key(k), &val(k)) } else { get(&key(k)) }).collect();
            s.write_all(&r).ok();
            let want: Vec<u8> = (at..to).flat_map(|k| if write { b"+OK\r\n".to_vec() } else { resp::bulk(&val(k)) }).collect();
            s.set_read_timeout(Some(LONG)).ok();
            let mut x = vec![0u8; 1 << 16];
            while b.len() < want.len() {
                match s.read(&mut x) {
                    Ok(0) => return fail("closed", format!("the connection was closed, {at} keys done")),
                    Ok(m) => b.extend_from_slice(&x[..m]),
                    Err(e) => return fail("unanswered", format!("no answer: {e}, {at} keys done, {} of {} bytes, {} ...", b.len(), want.len(), resp::lossy(&b[..b.len().min(60)]))),
                }
                let m = b.len().min(want.len());
                if b[..m] != want[..m] {
                    return fail("wrong-reply", format!("the {}s of keys {at} to {to} of {n} are not answered as they should", if write { "SET" } else { "GET" }));
                }
            }
            if b.len() > want.len() {
                return fail("extra-reply", "more bytes than replies".to_string());
            }
            b.clear();
            at = to;
        }
        for (k, v) in &first {
            let (s, b) = &mut c[1];
            s.write_all(&get(k)).ok();
            let r = reply(s, b)?;
            if r != V::Bulk(v.clone()) {
                return fail("wrong-reply", format!("{} reads {} after {n} other keys", resp::lossy(k), resp::show(&r)));
            }
        }
    }
    Ok((true, 50))
}
/// So many processors, so many threads, and each of them serves everything.
/// What the system says about its processors is replaced for the server.
fn processors(i: u64, n: u64) -> Result<(bool, u64), Fail> {
    let conns = (3 * n + 40).min(3000);
    // a quota of processor time limits the threads, whatever their number
    let all = unsafe {
        let mut m: libc::cpu_set_t = std::mem::zeroed();
        libc::sched_getaffinity(0, std::mem::size_of_val(&m), &mut m);
        libc::CPU_COUNT(&m) as usize
    };
    if std::thread::available_parallelism().map_or(0, |k| k.get()) < all {
        return Ok((false, 5));
    }
    let mut l: libc::rlimit = unsafe { std::mem::zeroed() };
    unsafe {
        libc::getrlimit(libc::RLIMIT_NOFILE, &mut l);
        l.rlim_cur = l.rlim_max;
        libc::setrlimit(libc::RLIMIT_NOFILE, &l);
    }
    if (l.rlim_max as u64) < 8 * n + 2 * conns + 200 {
        return Ok((false, 1));
    }
    let exe = std::env::current_exe().unwrap();
    let lib = exe.ancestors().nth(3).unwrap().join("bin/cpus.so");
    let Some((mut srv, at)) = up_with(i, 65535, &[("LD_PRELOAD", lib.to_str().unwrap()), ("MC_CPUS", &n.to_string())])? else { return Ok((false, 2)) };
    let pat = format!("0100007F:{:04X}", at.port());
    // the table changes while it is read: a socket may show twice or not at all
    let listeners = || {
        let t = std::fs::read_to_string("/proc/net/tcp").unwrap_or_default();
        let mut v: Vec<&str> = t.lines().map(|l| l.split_whitespace().collect::<Vec<_>>()).filter(|f| f.len() > 9 && f[1] == pat && f[3] == "0A").map(|f| f[9]).collect();
        v.sort();
        v.dedup();
        v.len() as u64
    };
    let (t0, mut last, mut since) = (Instant::now(), 0, Instant::now());
    loop {
        let k = listeners();
        if k == n {
            break;
        }
        if k != last {
            (last, since) = (k, Instant::now());
        }
        if srv.ended().is_some() {
            return fail("ended", format!("the server ended with {n} processors"));
        }
        if since.elapsed() > LONG / 2 || t0.elapsed() > 4 * LONG {
            return fail("threads", format!("{n} processors, but {k} threads listen"));
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    let mut c = vec![];
    for _ in 0..conns {
        let Some(s) = open(at) else {
            return if srv.ended().is_some() { fail("ended", "the server ended".to_string()) } else { Ok((false, 4)) };
        };
        abortive(&s);
        c.push((s, vec![]));
    }
    // a key each, read by another one
    let key = |k: usize| format!("key:{k}").into_bytes();
    for (k, (s, _)) in c.iter_mut().enumerate() {
        s.write_all(&cat(&[set(&key(k), &key(k)), cmds("CLIENT ID")])).ok();
    }
    let mut ids = std::collections::HashMap::new();
    for (k, (s, b)) in c.iter_mut().enumerate() {
        if reply(s, b)? != V::Simple(b"OK".to_vec()) {
            return fail("wrong-reply", "SET is not answered OK".to_string());
        }
        let V::Int(id) = reply(s, b)? else { return fail("wrong-reply", "CLIENT ID answers no number".to_string()) };
        if let Some(o) = ids.insert(id, s.local_addr().unwrap().to_string()) {
            return fail("same-id", format!("{n} processors: {o} and connection {k} have id {id}"));
        }
    }
    let m = c.len();
    for k in 0..m {
        c[k].0.write_all(&cat(&[get(&key((k + m / 2) % m)), get(&key((k * 7 + 1) % m))])).ok();
    }
    for k in 0..m {
        for j in [(k + m / 2) % m, (k * 7 + 1) % m] {
            let (s, b) = &mut c[k];
            let v = reply(s, b)?;
            if v != V::Bulk(key(j)) {
                return fail("wrong-reply", format!("{n} processors: what connection {j} stored reads {} on connection {k}", resp::show(&v)));
            }
        }
    }
    for k in [0, m / 2, m - 1] {
        let (s, b) = &mut c[k];
        s.write_all(&cmds("CLIENT LIST")).ok();
        let V::Array(ls) = reply(s, b)? else { return fail("wrong-reply", "CLIENT LIST answers no array".to_string()) };
        let mut seen = 0;
        for x in &ls {
            let l = line(x).map_err(|e| ("wrong-reply".to_string(), e))?;
            match ids.get(&l.id) {
                Some(a) if *a == l.addr && l.laddr == at.to_string() => seen += 1,
                Some(a) => return fail("wrong-line", format!("{n} processors: the line of {a} says {} at {}", l.addr, l.laddr)),
                // the connection which found the server up
                None => {}
            }
        }
        if seen != m {
            return fail("missing-line", format!("{n} processors: {seen} of {m} connections are listed"));
        }
    }
    Ok((true, 70))
}
/// It ends by itself, with an error.
fn ends(mut s: Server, what: &str) -> Result<(), Fail> {
    let t0 = Instant::now();
    loop {
        match s.ended() {
            Some(false) => return Ok(()),
            Some(true) => return fail("no-error", format!("the server {what} ended without an error")),
            None if t0.elapsed() > LONG => return fail("keeps-running", format!("the server {what} keeps running")),
            None => std::thread::sleep(Duration::from_millis(3)),
        }
    }
}
fn job(name: &str, cases: Vec<Case>, guard: u64) -> Job {
    let c2 = cases.clone();
    Job::Direct(Direct {
        name: name.into(),
        count: cases.len() as u64,
        chunk: 1,
        f: Box::new(move |i| run(i, &cases[i as usize])),
        show: Box::new(move |i| format!("{:?}", c2[i as usize])),
        guard,
        secs: 120,
    })
}

pub fn settings(t: Tier) -> Job {
    let mut v = vec![];
    let mut limits = vec![0u16, 1, 2, 3, 4, 7, 8, 9, 10, 16, 50, 99, 100, 101, 127, 128, 129, 200, 201, 255, 256, 257, 500, 512, 1000, 1024, 1025];
    if t.deep() {
        limits.extend([2000, 2048, 4096, 5000, 8192]);
        limits.extend(1..130);
    }
    limits.sort();
    limits.dedup();
    for l in limits.into_iter().rev() {
        v.push(Case::Serves { ip: "127.0.0.1", bind: Src::File, max: Src::File, limit: l });
    }
    for ip in ["127.0.0.1", "127.0.0.3", "0.0.0.0", "::1", "::"] {
        for bind in SRCS {
            for max in SRCS {
                v.push(Case::Serves { ip, bind, max, limit: 2 });
            }
        }
    }
    const OK: &str = "bind_addr = \"HERE\"\nmax_connection = 5\n";
    const NOMAX: &str = "bind_addr = \"HERE\"\n";
    const NOADDR: &str = "max_connection = 5\n";
    for (file, vars) in [
        (None, &[] as &'static [(&str, &str)]),
        (None, &[("ROSTER_BIND_ADDR", "HERE"), ("ROSTER_MAX_CONNECTION", "5")]),
        (Some(""), &[]),
        (Some(NOMAX), &[]),
        (Some(NOADDR), &[]),
        (Some(OK), &[("ROSTER_MAX_CONNECTION", "65536")]),
        (Some(OK), &[("ROSTER_MAX_CONNECTION", "-1")]),
        (Some(OK), &[("ROSTER_MAX_CONNECTION", "ten")]),
        (Some(OK), &[("ROSTER_MAX_CONNECTION", "")]),
        (Some(OK), &[("ROSTER_BIND_ADDR", "127.0.0.1")]),
        (Some(OK), &[("ROSTER_BIND_ADDR", "nowhere:80")]),
        (Some(OK), &[("ROSTER_BIND_ADDR", "")]),
        (Some("bind_addr = \"HERE\"\nmax_connection = 70000\n"), &[]),
        (Some("bind_addr = \"HERE\"\nmax_connection = \"many\"\n"), &[]),
        (Some("bind_addr = \"127.0.0.1\"\nmax_connection = 5\n"), &[]),
        (Some("bind_addr = = HERE"), &[]),
        (Some(NOMAX), &[("MAX_CONNECTION", "5")]),
        (Some(NOADDR), &[("BIND_ADDR", "HERE")]),
    ] {
        v.push(Case::Refused { file, vars });
    }
    job("started-server", v, t.pick(200, 1500))
}
pub fn no_address(_t: Tier) -> Job {
    let mut v = vec![];
    for src in SRCS {
        for (ip, taken) in [("127.0.0.1", true), ("127.0.0.5", true), ("0.0.0.0", true), ("::1", true), ("8.8.8.8", false), ("192.0.2.1", false), ("255.255.255.255", false), ("2001:db8::1", false)] {
            v.push(Case::NoAddr { ip, taken, src });
        }
    }
    job("no-address", v, 200)
}
/// Machines larger than this one.
pub fn processors_job(t: Tier) -> Job {
    let mut v: Vec<u64> = vec![1024, 1023, 1000, 768, 513, 512, 511, 384, 300, 257, 256, 255, 200, 192, 160, 130, 129, 128, 127, 120, 112, 100, 99, 97, 96, 95, 80, 72];
    v.extend((1..=66).rev());
    if t.deep() {
        v.extend((67..=320).rev());
        v.extend((320..1024).step_by(17));
        v.sort_by_key(|n| std::cmp::Reverse(*n));
        v.dedup();
    }
    job("many-processors", v.into_iter().map(|n| Case::Processors { n }).collect(), t.pick(300, 2000))
}
/// Counters grow past the widths of smaller integers.
pub fn long_ids(t: Tier) -> Job {
    job("long-run-ids", vec![Case::Connections { n: t.pick(70_000, 140_000) }], 300)
}
/// More connections at once than tables and buffers start with.
pub fn crowds(t: Tier) -> Job {
    let mut v = vec![4097usize, 2049, 2000, 1025, 1000, 600];
    if t.deep() {
        v.splice(0..0, [15_000, 8_193, 8_192, 6_000, 5_000]);
    }
    job("crowds", v.into_iter().map(|n| Case::Crowd { n }).collect(), 300)
}
pub fn long_keys(t: Tier) -> Job {
    job("long-run-keys", vec![Case::Keys { n: t.pick(1_010_000, 3_000_000) }], 600)
}
/// Sizes around the widths of integers and far beyond any buffer.
pub fn large_requests(t: Tier) -> Job {
    let mut v = vec![];
    let mut sizes = vec![(1usize << 21) + 1, 5_000_000, (1 << 23) + 1, (1 << 24) - 1, 1 << 24, (1 << 24) + 1, 40_000_000];
    if t.deep() {
        sizes.extend([(1 << 25) + 1, (1 << 26) + 1, 100_000_000, (1 << 28) + 1]);
    }
    for n in sizes {
        for what in 0..3 {
            for piece in [usize::MAX, 1_000_003] {
                if what == 0 || piece == usize::MAX {
                    v.push(Case::Large { n, piece, what });
                }
            }
        }
    }
    job("large-requests", v, 300)
}
