//! Scenario description: client scripts, environment budgets, and the oracle.
use crate::sys::*;

#[derive(Clone, Debug)]
pub enum Act {
    Connect { conn: usize, thr: usize },
    /// chain: the next action of the client follows at once
    Send { conn: usize, data: Vec<u8>, cut: bool, chain: bool },
    Wait { conn: usize, n: u64 },
    WaitEof { conn: usize },
    HalfClose { conn: usize },
    Close { conn: usize },
    Rst { conn: usize },
    Advance { ns: u64 },
    WaitActor { actor: usize, step: usize },
    PauseRead { conn: usize, space: u64 },
    ResumeRead { conn: usize },
    /// log how many sockets and how much heap are in use
    Mark,
    /// a server thread held back so far starts
    Start { thr: usize },
}

#[derive(Clone, Debug)]
pub struct Scenario {
    pub name: String,
    pub actors: Vec<Vec<Act>>,
    pub budget: [u8; NBUD],
    pub nseeds: u8,
    pub free_threads: bool,
    pub stateful: bool,
    pub fault_mask: u32,
    pub outcap: u32,
    /// so many accepts fail at first, with this errno
    pub storm: (u32, i32),
    /// these calls (a fault mask) fail with this errno for every connection
    /// from this one on, an accept only once for each
    pub ever: (u32, i32, usize),
    /// what of the past distinguishes states: 0 only what each connection and
    /// thread saw (oracles that judge every connection on its own), 1 also the
    /// order of client actions and what had been received at each, 2 the order
    /// of all events
    pub order: u8,
    /// (actor, step): the next action of that actor follows at once
    pub chained: Vec<(usize, usize)>,
}

impl Scenario {
    pub fn new(name: impl Into<String>) -> Self {
        Scenario {
            name: name.into(),
            actors: vec![],
            budget: [0; NBUD],
            nseeds: 1,
            free_threads: true,
            stateful: true,
            fault_mask: 0,
            outcap: 64 * 1024,
            storm: (0, 0),
            ever: (0, 0, 0),
            order: 2,
            chained: vec![],
        }
    }
    pub fn actor(mut self, acts: Vec<Act>) -> Self {
        self.actors.push(acts);
        self
    }
    /// An actor whose consecutive actions (waits apart) happen at the same
    /// moment, so that the server's threads all start working together.
    pub fn joint(mut self, acts: Vec<Act>) -> Self {
        let w = |a: &Act| matches!(a, Act::Wait { .. } | Act::WaitEof { .. } | Act::WaitActor { .. } | Act::Advance { .. });
        for i in 1..acts.len() {
            if !w(&acts[i - 1]) && !w(&acts[i]) {
                self.chained.push((self.actors.len(), i - 1));
            }
        }
        self.actors.push(acts);
        self
    }
    pub fn bud(mut self, k: usize, n: u8) -> Self {
        self.budget[k] = n;
        self
    }
    pub fn seeds(mut self, n: u8) -> Self {
        self.nseeds = n;
        self
    }
    pub fn ever(mut self, mask: u32, errno: i32, from: usize) -> Self {
        self.ever = (mask, errno, from);
        self
    }
    pub fn storm(mut self, n: u32, errno: i32) -> Self {
        self.storm = (n, errno);
        self
    }
    pub fn outcap(mut self, n: u32) -> Self {
        self.outcap = n;
        self
    }
    pub fn order(mut self, n: u8) -> Self {
        self.order = n;
        self
    }
    pub fn faults(mut self, mask: u32, n: u8) -> Self {
        self.fault_mask = mask;
        self.budget[B_FAULT] = n;
        self
    }
    /// All bytes sent on `conn`, in script order.
    pub fn sent(&self, conn: usize) -> Vec<u8> {
        let mut v = Vec::new();
        for a in &self.actors {
            for x in a {
                if let Act::Send { conn: c, data, .. } = x {
                    if *c == conn {
                        v.extend_from_slice(data);
                    }
                }
            }
        }
        v
    }
    /// Write into the shared structure; returns the blob.
    pub fn install(&self, c: &mut CScenario) -> Vec<u8> {
        // What a connection sends lies together, in script order: unread input is
        // one range of the blob.
        let mut blob: Vec<u8> = Vec::new();
        let mut next = std::collections::BTreeMap::new();
        for a in self.actors.iter().flatten() {
            if let Act::Send { conn, data, .. } = a {
                *next.entry(*conn).or_insert(0u32) += data.len() as u32;
            }
        }
        let mut at = 0;
        for v in next.values_mut() {
            (*v, at) = (at, at + *v);
        }
        blob.resize(at as usize, 0);
        assert!(self.actors.len() <= MAXACT, "too many actors");
        c.nactors = self.actors.len() as u32;
        for (i, a) in self.actors.iter().enumerate() {
            assert!(a.len() <= MAXSTEP, "too many steps in {}", self.name);
            c.nsteps[i] = a.len() as u32;
            for (j, x) in a.iter().enumerate() {
                let mut k = Action::default();
                match x {
                    Act::Connect { conn, thr } => {
                        k.kind = A_CONNECT;
                        k.conn = *conn as u16;
                        k.arg = *thr as u64;
                    }
                    Act::Send { conn, data, cut, chain } => {
                        k.kind = A_SEND;
                        k.conn = *conn as u16;
                        let p = next.get_mut(conn).unwrap();
                        k.off = *p;
                        *p += data.len() as u32;
                        k.len = data.len() as u32;
                        k.flags = *cut as u8 | (*chain as u8) << 1;
                        blob[k.off as usize..*p as usize].copy_from_slice(data);
                    }
                    Act::Wait { conn, n } => {
                        k.kind = A_WAIT_REPLIES;
                        k.conn = *conn as u16;
                        k.arg = *n;
                    }
                    Act::WaitEof { conn } => {
                        k.kind = A_WAIT_EOF;
                        k.conn = *conn as u16;
                    }
                    Act::HalfClose { conn } => {
                        k.kind = A_HALF_CLOSE;
                        k.conn = *conn as u16;
                    }
                    Act::Close { conn } => {
                        k.kind = A_CLOSE;
                        k.conn = *conn as u16;
                    }
                    Act::Rst { conn } => {
                        k.kind = A_RST;
                        k.conn = *conn as u16;
                    }
                    Act::Advance { ns } => {
                        k.kind = A_ADVANCE;
                        k.arg = *ns;
                    }
                    Act::WaitActor { actor, step } => {
                        k.kind = A_WAIT_ACTOR;
                        k.arg = *actor as u64;
                        k.arg2 = *step as u64;
                    }
                    Act::PauseRead { conn, space } => {
                        k.kind = A_PAUSE_READ;
                        k.conn = *conn as u16;
                        k.arg = *space;
                    }
                    Act::ResumeRead { conn } => {
                        k.kind = A_RESUME_READ;
                        k.conn = *conn as u16;
                    }
                    Act::Mark => k.kind = A_MARK,
                    Act::Start { thr } => {
                        k.kind = A_START;
                        k.arg = *thr as u64;
                    }
                }
                if self.chained.contains(&(i, j)) {
                    k.flags |= 2;
                }
                c.act[i][j] = k;
            }
        }
        c.budget = self.budget;
        c.nseeds = self.nseeds;
        c.free_threads = self.free_threads as u8;
        c.stateful = self.stateful as u8;
        c.fault_mask = self.fault_mask;
        c.outcap = self.outcap;
        c.storm = self.storm.0;
        c.storm_errno = self.storm.1 as u32;
        c.ever = self.ever.0;
        c.ever_errno = self.ever.1 as u32;
        c.ever_from = self.ever.2 as u32;
        c.order = self.order as u32;
        c.bloblen = blob.len() as u64;
        blob
    }
}

/// What one execution looked like from outside.
pub struct Obs<'a> {
    pub sc: &'a Scenario,
    pub res: &'a CResult,
    pub out: &'a [u8],
}
impl<'a> Obs<'a> {
    pub fn conn(&self, i: usize) -> &ConnRes {
        &self.res.conn[i]
    }
    /// Bytes the client of connection i received.
    pub fn bytes(&self, i: usize) -> &'a [u8] {
        let c = &self.res.conn[i];
        let cap = self.sc.outcap as usize;
        let n = (c.outlen as usize).min(cap);
        &self.out[i * cap..i * cap + n]
    }
    pub fn log(&self) -> &[LogEnt] {
        &self.res.log[..self.res.nlog as usize]
    }
    pub fn actor_done(&self, i: usize) -> bool {
        self.res.apos[i] as usize >= self.sc.actors[i].len()
    }
    pub fn threads_alive(&self, n: usize) -> Result<(), String> {
        for t in 0..n {
            let s = self.res.thr_state[t];
            if s == T_DONE {
                return Err(format!("server thread {t} terminated"));
            }
            if s == T_FUTEX {
                return Err(format!("server thread {t} is blocked on a lock forever"));
            }
        }
        Ok(())
    }
}

pub type Oracle = Box<dyn Fn(&Obs) -> Result<u64, (String, String)>>;

/// A numbered set of scenarios explored together.
pub struct Family {
    pub name: String,
    pub threads: usize,
    pub count: usize,
    pub gen: Box<dyn Fn(usize) -> (Scenario, Oracle)>,
    /// wall-clock guard, seconds
    pub guard: u64,
    /// cap on the number of refinement rounds of the shared-address set
    pub rounds: usize,
    /// connection limit the server is configured with
    pub limit: u16,
    pub place: Place,
}

/// Where the server is started.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Place {
    /// the processors it may use, none: as many as it has threads
    pub cpus: Vec<usize>,
    /// the addresses it listens on
    pub net: u8,
    /// the threads which start late, a bit each
    pub held: u32,
    /// not coming up there is what the property forbids
    pub must_start: bool,
}
pub const V4_ANY: u8 = 0;
pub const V4_ONE: u8 = 1;
pub const V6_ANY: u8 = 2;
pub const V6_ONE: u8 = 3;
impl Default for Place {
    fn default() -> Self {
        Place { cpus: vec![], net: V4_ANY, held: 0, must_start: false }
    }
}
impl Family {
    pub fn key(&self) -> (usize, u16, Place) {
        (self.threads, self.limit, self.place.clone())
    }
}
