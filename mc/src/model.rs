//! Sequential reference model of the documented command set, and the matching
//! of observed replies against it.
use crate::resp::{self, lossy, show, V};
use crate::scen::*;
use crate::sys::*;
use std::collections::BTreeMap;

pub type Fail = (String, String);
pub fn fail<T>(sig: &str, msg: impl Into<String>) -> Result<T, Fail> {
    Err((sig.to_string(), msg.into()))
}

/// What a request must be answered with.
#[derive(Clone, Debug)]
pub enum Ex {
    Is(V),
    /// an error reply, or the connection is closed without one
    Refused,
    /// error reply naming the command
    Unknown(Vec<u8>),
    Id,
    Hello,
    /// own line, with this name
    Info(Vec<u8>),
    /// list with the asking connection under this name
    List(Vec<u8>),
    /// list of the connections with these ids, or of no connection at all
    Some(Vec<u128>),
    Help,
    /// nothing, or one error reply
    MaybeErr,
    /// one well-formed reply, or refused
    Any,
    /// as Any, and nothing is predicted afterwards
    Loose,
    /// as Refused, and nothing is predicted afterwards
    Bad,
}

#[derive(Clone, Default)]
pub struct Model {
    pub db: BTreeMap<Vec<u8>, (Vec<u8>, Option<u128>)>,
    pub names: BTreeMap<usize, Option<Vec<u8>>>,
}

fn text(v: &V) -> Option<&[u8]> {
    match v {
        V::Simple(b) | V::Bulk(b) => Some(b),
        _ => None,
    }
}
fn utf8(v: &V) -> Option<&[u8]> {
    text(v).filter(|b| std::str::from_utf8(b).is_ok())
}
fn low(b: &[u8]) -> Vec<u8> {
    String::from_utf8_lossy(b).to_lowercase().into_bytes()
}
fn up(b: &[u8]) -> Vec<u8> {
    String::from_utf8_lossy(b).to_uppercase().into_bytes()
}
/// A number argument; None = not a number.
pub fn int_arg(v: &V) -> Option<u128> {
    match v {
        V::Int(i) if *i >= 0 => Some(*i as u128),
        V::Simple(b) | V::Bulk(b) => {
            if b.is_empty() || b.len() > 20 || !b.iter().all(u8::is_ascii_digit) {
                return None;
            }
            let n: u128 = std::str::from_utf8(b).unwrap().parse().unwrap();
            (n <= u64::MAX as u128).then_some(n)
        }
        _ => None,
    }
}
/// Longest time to live that every implementation must accept (10 years);
/// anything a 64-bit nanosecond clock cannot hold must be refused.
pub const TTL_MUST_NS: u128 = 10 * 366 * 86400 * 1_000_000_000;
pub const TTL_MAX_NS: u128 = (u64::MAX as u128) * 1_000_000;

/// A name that can be shown in CLIENT LIST.
pub fn name_ok(b: &[u8]) -> bool {
    b.iter().all(|c| (0x21..=0x7e).contains(c))
}

impl Model {
    fn name(&self, c: usize) -> Vec<u8> {
        self.names.get(&c).cloned().flatten().unwrap_or_default()
    }
    pub fn get(&self, k: &[u8], now: u128) -> V {
        match self.db.get(k) {
            Some((v, d)) if d.map_or(true, |d| now < d) => V::Bulk(v.clone()),
            _ => V::Null,
        }
    }
    /// Apply one request; `now` in ns.
    /// `hint`: the observed reply, where the documentation leaves a choice.
    pub fn apply(&mut self, conn: usize, req: &V, now: u128, hint: Option<&V>) -> Ex {
        let V::Array(a) = req else { return Ex::Refused };
        let Some(name) = a.first().and_then(utf8) else { return Ex::Refused };
        let name = low(name);
        let args = &a[1..];
        match &name[..] {
            b"ping" => match args {
                [] => Ex::Is(V::Simple(b"PONG".to_vec())),
                [m] => match text(m) {
                    Some(b) => Ex::Is(V::Bulk(b.to_vec())),
                    None => Ex::Refused,
                },
                _ => Ex::Refused,
            },
            b"get" => match args {
                [k] => match utf8(k) {
                    Some(k) => Ex::Is(self.get(k, now)),
                    None => Ex::Refused,
                },
                _ => Ex::Refused,
            },
            b"set" => {
                let (Some(k), Some(v)) = (args.first().and_then(utf8), args.get(1).and_then(text)) else { return Ex::Refused };
                let ttl = match &args[2..] {
                    [] => None,
                    [o, n] => {
                        let Some(o) = utf8(o) else { return Ex::Refused };
                        let unit = match &up(o)[..] {
                            b"EX" => 1_000_000_000u128,
                            b"PX" => 1_000_000,
                            _ => return Ex::Refused,
                        };
                        let Some(n) = int_arg(n) else { return Ex::Refused };
                        if n == 0 || n * unit > TTL_MAX_NS {
                            return Ex::Refused;
                        }
                        if n * unit > TTL_MUST_NS && hint != Some(&V::Simple(b"OK".to_vec())) {
                            return Ex::Refused;
                        }
                        Some(n * unit)
                    }
                    _ => return Ex::Refused,
                };
                self.db.insert(k.to_vec(), (v.to_vec(), ttl.map(|t| now + t)));
                Ex::Is(V::Simple(b"OK".to_vec()))
            }
            b"hello" => {
                if args.is_empty() {
                    Ex::Hello
                } else {
                    Ex::Any
                }
            }
            b"acl" => match args.first() {
                None => Ex::Refused,
                Some(s) => match utf8(s) {
                    None => Ex::Refused,
                    Some(s) if low(s) == b"cat" => Ex::Any,
                    Some(s) => Ex::Unknown(low(s)),
                },
            },
            b"client" => {
                let Some(s) = args.first() else { return Ex::Help };
                let Some(s) = utf8(s) else { return Ex::Refused };
                let rest = &args[1..];
                match &low(s)[..] {
                    b"help" => if rest.is_empty() { Ex::Help } else { Ex::Refused },
                    b"id" => if rest.is_empty() { Ex::Id } else { Ex::Refused },
                    b"info" => if rest.is_empty() { Ex::Info(self.name(conn)) } else { Ex::Refused },
                    b"getname" => {
                        if !rest.is_empty() {
                            return Ex::Refused;
                        }
                        Ex::Is(match self.names.get(&conn).cloned().flatten() {
                            Some(n) => V::Bulk(n),
                            None => V::Null,
                        })
                    }
                    b"setname" => match rest {
                        [n] => match utf8(n) {
                            Some(n) if name_ok(n) => {
                                self.names.insert(conn, if n.is_empty() { None } else { Some(n.to_vec()) });
                                Ex::Is(V::Simple(b"OK".to_vec()))
                            }
                            _ => Ex::Refused,
                        },
                        _ => Ex::Refused,
                    },
                    b"setinfo" => match rest {
                        [o, v] => match (text(o), text(v)) {
                            (Some(b"LIB-NAME" | b"LIB-VER"), Some(v)) if name_ok(v) => Ex::Is(V::Simple(b"OK".to_vec())),
                            (Some(_), Some(_)) => Ex::Any,
                            _ => Ex::Refused,
                        },
                        [] | [_] => Ex::Any,
                        _ => Ex::Refused,
                    },
                    b"list" => {
                        if rest.is_empty() {
                            return Ex::List(self.name(conn));
                        }
                        list_args(rest, self.name(conn))
                    }
                    _ => Ex::Unknown(low(s)),
                }
            }
            _ => Ex::Unknown(name),
        }
    }
}
fn list_args(a: &[V], name: Vec<u8>) -> Ex {
    let mut i = 0;
    let (mut none, mut types) = (false, 0);
    while i < a.len() {
        let Some(o) = utf8(&a[i]) else { return Ex::Refused };
        match &low(o)[..] {
            b"type" => {
                match a.get(i + 1) {
                    None => return Ex::Any,
                    Some(t) => match utf8(t).map(low).as_deref() {
                        Some(b"normal") => none = false,
                        Some(b"replica" | b"master" | b"pubsub") => none = true,
                        _ => return Ex::Refused,
                    },
                }
                i += 2;
                types += 1;
            }
            b"id" => {
                let ids: Vec<Option<u128>> = a[i + 1..].iter().map(int_arg).collect();
                return if ids.iter().any(|x| x.is_none()) {
                    Ex::Refused
                } else if ids.is_empty() || types > 1 {
                    Ex::Any
                } else {
                    Ex::Some(if none { vec![] } else { ids.into_iter().flatten().collect() })
                };
            }
            _ => return Ex::Refused,
        }
    }
    if types > 1 {
        Ex::Any
    } else if none {
        Ex::Some(vec![])
    } else {
        Ex::List(name)
    }
}

/// Requests in a byte stream; the flag tells that the stream goes on with
/// something that is not a request frame (malformed).
pub fn requests(b: &[u8]) -> (Vec<(V, usize)>, Tail) {
    let mut p = 0;
    let mut out = vec![];
    loop {
        if p == b.len() {
            return (out, Tail::Clean);
        }
        match crate::grammar::classify(&b[p..]) {
            crate::grammar::Class::Complete(v, n) => {
                p += n;
                out.push((v, p));
            }
            crate::grammar::Class::Prefix => return (out, Tail::Partial),
            crate::grammar::Class::Open => return (out, Tail::Open),
            crate::grammar::Class::Bad => return (out, Tail::Bad),
            crate::grammar::Class::Loose(n) => return (out, Tail::Loose(p + n)),
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Tail {
    Clean,
    /// a proper prefix of a well-formed request
    Partial,
    /// malformed, but inside an unfinished line
    Open,
    Bad,
    /// complete by shape, yet an implementation may refuse it (ends at ..)
    Loose(usize),
}

pub fn replies(obs: &Obs, conn: usize) -> Result<Vec<V>, Fail> {
    let c = obs.conn(conn);
    let b = obs.bytes(conn);
    let (v, rest) = match resp::decode_all(b) {
        Ok(x) => x,
        Err(e) => return fail("malformed-reply", format!("conn {conn}: malformed bytes from the server: {e}; stream {}", lossy(b))),
    };
    if rest != 0 && c.outlen as usize <= obs.sc.outcap as usize && c.cl_rst == 0 && c.cl_closed == 0 {
        return fail("partial-reply", format!("conn {conn}: the reply stream ends inside a reply ({rest} bytes over): {}", lossy(&b[b.len() - rest..])));
    }
    Ok(v)
}

pub fn hello_ok(v: &V) -> Result<i128, String> {
    let V::Map(m) = v else { return Err(format!("HELLO answered {}", show(v))) };
    let f = |k: &str| m.iter().find(|(a, _)| matches!(a, V::Bulk(b) | V::Simple(b) if b == k.as_bytes())).map(|x| &x.1);
    let is = |k: &str, s: &str| matches!(f(k), Some(V::Bulk(b) | V::Simple(b)) if b == s.as_bytes());
    if !is("server", "roster") || !is("version", roster::VERSION) || f("proto") != Some(&V::Int(3)) || !is("mode", "standalone") {
        return Err(format!("HELLO answered {}", show(v)));
    }
    if !matches!(f("modules"), Some(V::Array(_))) || f("role").is_none() {
        return Err(format!("HELLO answered {}", show(v)));
    }
    match f("id") {
        Some(V::Int(i)) => Ok(*i),
        _ => Err("HELLO has no id".into()),
    }
}
#[derive(Clone, Debug, Default)]
pub struct Line {
    pub id: i128,
    pub addr: String,
    pub laddr: String,
    pub fd: i64,
    pub name: Vec<u8>,
}
pub fn line(v: &V) -> Result<Line, String> {
    let (V::Simple(b) | V::Bulk(b)) = v else { return Err(format!("not a connection line: {}", show(v))) };
    let b = b.strip_suffix(b"\n").unwrap_or(b);
    let mut l = Line { id: -1, fd: -1, ..Default::default() };
    let mut seen = vec![];
    for f in b.split(|c| *c == b' ') {
        let Some(p) = f.iter().position(|c| *c == b'=') else { return Err(format!("field {:?} in connection line {:?}", lossy(f), lossy(b))) };
        let (k, v) = (lossy(&f[..p]), &f[p + 1..]);
        if seen.contains(&k) {
            return Err(format!("field {k} twice in connection line {:?}", lossy(b)));
        }
        match &k[..] {
            "id" => l.id = lossy(v).parse().map_err(|_| "bad id")?,
            "fd" => l.fd = lossy(v).parse().map_err(|_| "bad fd")?,
            "addr" => l.addr = lossy(v),
            "laddr" => l.laddr = lossy(v),
            "name" => l.name = v.to_vec(),
            _ => {}
        }
        seen.push(k);
    }
    for k in ["id", "addr", "laddr", "fd", "name"] {
        if !seen.iter().any(|s| s == k) {
            return Err(format!("no field {k} in connection line {:?}", lossy(b)));
        }
    }
    Ok(l)
}
/// The kind of address the server of this process listens on.
pub static NET: std::sync::atomic::AtomicU8 = std::sync::atomic::AtomicU8::new(V4_ANY);
/// Two connections share each source port, from different addresses, and the
/// server, which listens on all its addresses, is reached at two of them.
pub fn ips(c: usize) -> (&'static str, &'static str) {
    const IP: [&str; 2] = ["127.0.0.1", "127.0.0.2"];
    const IP6: [&str; 2] = ["[::1]", "[::2]"];
    match NET.load(std::sync::atomic::Ordering::SeqCst) {
        V4_ANY => (IP[c % 2], IP[c / 2 % 2]),
        V4_ONE => (IP[c % 2], IP[0]),
        V6_ANY => (IP6[c % 2], IP6[c / 2 % 2]),
        _ => (IP6[c % 2], IP6[0]),
    }
}
pub fn addr(c: usize) -> String {
    format!("{}:{}", ips(c).0, 40000 + c / 2)
}
pub fn laddr(c: usize) -> String {
    format!("{}:6379", ips(c).1)
}
/// Does a line describe connection `c` of this execution?
pub fn line_is(obs: &Obs, l: &Line, c: usize) -> Result<(), String> {
    let r = obs.conn(c);
    let (a, la) = (addr(c), laddr(c));
    if l.addr != a {
        return Err(format!("addr={} for the connection from {a}", l.addr));
    }
    if l.laddr != la {
        return Err(format!("laddr={} instead of {la}", l.laddr));
    }
    if l.fd != r.fd as i64 {
        return Err(format!("fd={} instead of {}", l.fd, r.fd));
    }
    Ok(())
}

/// Match the replies of one connection with the expectations.
pub fn match_conn(obs: &Obs, conn: usize, exs: &[Ex]) -> Result<u64, Fail> {
    match_some(obs, conn, exs, false)
}
/// The same for a connection which may have been `cut` off at any moment: what
/// it did receive are the replies to its first requests.
pub fn match_some(obs: &Obs, conn: usize, exs: &[Ex], cut: bool) -> Result<u64, Fail> {
    let c = obs.conn(conn);
    let client_gone = cut || c.cl_rst != 0 || c.cl_closed != 0;
    let got = replies(obs, conn)?;
    let mut h = 17u64;
    let id: std::cell::Cell<Option<i128>> = Default::default();
    let mut refused = false;
    let setid = |i: i128| -> Result<(), Fail> {
        if id.get().is_some() && id.get() != Some(i) {
            return fail("id-changed", format!("conn {conn}: id {i} after {}", id.get().unwrap()));
        }
        id.set(Some(i));
        Ok(())
    };
    let mut i = 0;
    for (k, e) in exs.iter().enumerate() {
        let closed = c.srv_closed != 0 || c.srv_shut != 0;
        if i >= got.len() {
            if client_gone {
                break;
            }
            match e {
                Ex::MaybeErr => break,
                Ex::Refused | Ex::Any | Ex::Loose | Ex::Bad if closed => break,
                _ if closed && refused => break,
                Ex::Refused | Ex::Any | Ex::Loose | Ex::Bad => return fail("unanswered", format!("conn {conn}: request #{k} is neither answered nor is its connection closed")),
                _ => return fail("unanswered", format!("conn {conn}: request #{k} was never answered (expected {e:?}{})", if closed { ", the server closed the connection" } else { "" })),
            }
        }
        let v = &got[i];
        let bad = |w: &str| fail("wrong-reply", format!("conn {conn}: request #{k} answered {}, expected {w}", show(v)));
        refused |= matches!(e, Ex::Refused | Ex::Any);
        match e {
            Ex::Loose => return Ok(h),
            Ex::MaybeErr => {
                if !matches!(v, V::Err(_)) {
                    return bad("nothing or an error");
                }
            }
            Ex::Is(x) => {
                if v != x {
                    return bad(&show(x));
                }
            }
            Ex::Refused | Ex::Bad => {
                if !matches!(v, V::Err(_)) {
                    return bad("an error");
                }
                if matches!(e, Ex::Bad) {
                    return Ok(h);
                }
            }
            Ex::Unknown(n) => match v {
                V::Err(t) => {
                    let t = low(t);
                    if name_ok(n) && !n.is_empty() && !t.windows(n.len()).any(|w| w == &n[..]) {
                        return bad("an error naming the command");
                    }
                    if !t.windows(7).any(|w| w == b"unknown") {
                        return bad("an unknown-command error");
                    }
                }
                _ => return bad("an unknown-command error"),
            },
            Ex::Id => match v {
                V::Int(n) => setid(*n)?,
                _ => return bad("an id"),
            },
            Ex::Hello => match hello_ok(v) {
                Ok(n) => setid(n)?,
                Err(e) => return fail("wrong-reply", format!("conn {conn}: request #{k}: {e}")),
            },
            Ex::Info(n) => match line(v).and_then(|l| line_is(obs, &l, conn).map(|_| l)) {
                Ok(l) => {
                    setid(l.id)?;
                    if l.name != *n {
                        return bad(&format!("name={}", lossy(n)));
                    }
                }
                Err(e) => return fail("wrong-reply", format!("conn {conn}: request #{k} (CLIENT INFO): {e}")),
            },
            Ex::List(n) => match v {
                V::Array(a) => {
                    let mut own = None;
                    for x in a {
                        match line(x) {
                            Ok(l) if line_is(obs, &l, conn).is_ok() => own = Some(l),
                            Ok(_) => {}
                            Err(e) => return fail("wrong-reply", format!("conn {conn}: request #{k} (CLIENT LIST): {e}")),
                        }
                    }
                    match own {
                        None => return bad("a list with the asking connection"),
                        Some(l) => {
                            setid(l.id)?;
                            if l.name != *n {
                                return bad(&format!("own line with name={}", lossy(n)));
                            }
                        }
                    }
                }
                _ => return bad("a list"),
            },
            Ex::Some(ids) => match v {
                V::Array(a) => {
                    for x in a {
                        match line(x) {
                            Ok(l) if !ids.iter().any(|i| *i as i128 == l.id) => return bad(&format!("only the connections {ids:?}")),
                            Ok(_) => {}
                            Err(e) => return fail("wrong-reply", format!("conn {conn}: request #{k} (CLIENT LIST): {e}")),
                        }
                    }
                    if let Some(x) = id.get() {
                        if ids.contains(&(x as u128)) && a.iter().all(|v| line(v).map_or(true, |l| l.id != x)) {
                            return bad("its own line");
                        }
                    }
                }
                _ => return bad("a list"),
            },
            Ex::Help => match v {
                V::Array(a) if a.len() > 5 && a.iter().all(|x| matches!(x, V::Simple(_) | V::Bulk(_))) && resp::show(v).contains("SETNAME") => {}
                _ => return bad("the help text"),
            },
            Ex::Any => {}
        }
        h = h.wrapping_mul(1_000_003) ^ hash_v(v);
        i += 1;
    }
    if i < got.len() {
        return fail("extra-reply", format!("conn {conn}: {} replies for {} requests; reply #{i} is {}", got.len(), exs.len(), show(&got[i])));
    }
    Ok(h)
}
pub fn hash_b(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for c in b {
        h = (h ^ *c as u64).wrapping_mul(0x100000001b3);
    }
    h
}
pub fn hash_v(v: &V) -> u64 {
    hash_b(show(v).as_bytes())
}

/// What every connection of an execution has to be answered, taking the
/// requests in the order in which the clients completed sending them.
pub struct Run {
    pub exs: Vec<Vec<Ex>>,
    pub tail: Vec<Tail>,
    pub model: Model,
    /// (conn, log step) of every complete request
    pub at: Vec<Vec<u32>>,
}
pub fn run_model(obs: &Obs) -> Result<Run, Fail> {
    let n = obs.res.nconn as usize;
    let mut m = Model::default();
    let mut buf: Vec<Vec<u8>> = vec![vec![]; n];
    let mut tail = vec![Tail::Clean; n];
    let mut exs: Vec<Vec<Ex>> = vec![vec![]; n];
    let mut at: Vec<Vec<u32>> = vec![vec![]; n];
    let mut off = std::collections::HashMap::new();
    let mut now = 0u128;
    // a connection that the server gave up executes nothing from there on
    let mut limit = vec![usize::MAX; n];
    let mut got = vec![];
    for c in 0..n {
        let r = obs.conn(c);
        got.push(replies(obs, c)?);
        if r.srv_closed != 0 || r.srv_shut != 0 {
            limit[c] = got[c].len();
        }
    }
    for e in obs.log() {
        match e.kind {
            L_TIME => now = ((e.c as u128) << 32 | e.b as u128) * 1000,
            L_ACT => {
                let Act::Send { conn, data, .. } = &obs.sc.actors[e.a as usize][e.b as usize] else { continue };
                let o: &mut usize = off.entry((e.a, e.b)).or_insert(0);
                buf[*conn].extend_from_slice(&data[*o..*o + e.c as usize]);
                *o += e.c as usize;
                if tail[*conn] == Tail::Bad || matches!(tail[*conn], Tail::Loose(_)) {
                    continue;
                }
                let (rq, t) = requests(&buf[*conn]);
                let mut used = 0;
                for (r, p) in rq {
                    used = p;
                    let k = exs[*conn].len();
                    let x = if k >= limit[*conn] && exs[*conn].iter().any(|e| matches!(e, Ex::Refused | Ex::Any)) {
                        Ex::Any
                    } else {
                        m.apply(*conn, &r, now, got[*conn].get(k))
                    };
                    exs[*conn].push(x);
                    at[*conn].push(e.step);
                }
                buf[*conn].drain(..used);
                tail[*conn] = t;
                match t {
                    Tail::Bad => exs[*conn].push(Ex::Bad),
                    Tail::Loose(_) => {
                        // taken or refused; what follows is not predicted
                        exs[*conn].push(Ex::Loose);
                    }
                    _ => {}
                }
            }
            _ => {}
        }
    }
    for c in 0..n {
        if tail[c] == Tail::Open {
            exs[c].push(Ex::MaybeErr);
        }
    }
    Ok(Run { exs, tail, model: m, at })
}
/// Every connection answered as the reference model says, every script done.
pub fn by_model(obs: &Obs) -> Result<u64, Fail> {
    let r = run_model(obs)?;
    let mut h = 1u64;
    for c in 0..r.exs.len() {
        if obs.conn(c).connected != 0 {
            h = h.wrapping_mul(31) ^ match_conn(obs, c, &r.exs[c])?;
        }
    }
    all_done(obs)?;
    Ok(h)
}
pub fn all_done(obs: &Obs) -> Result<(), Fail> {
    for i in 0..obs.sc.actors.len() {
        if !obs.actor_done(i) {
            let k = obs.res.apos[i] as usize;
            return fail("unanswered", format!("client {i} waits for ever at {:?}", obs.sc.actors[i][k]));
        }
    }
    Ok(())
}
