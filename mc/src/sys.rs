//! Mirror of simk.h and the raw process/memory helpers.
#![allow(dead_code)]
use std::os::raw::{c_int, c_void};

pub const MAXTHR: usize = 32;
pub const MAXACT: usize = 16;
pub const MAXSTEP: usize = 2048;
pub const MAXCONN: usize = 512;
pub const MAXCHOICE: usize = 2000;
pub const MAXLOG: usize = 400000;
pub const NEWADDR: usize = 4096;
pub const NBUD: usize = 6;

pub const B_PREEMPT: usize = 0;
pub const B_EARLY: usize = 1;
pub const B_ORDER: usize = 2;
pub const B_SPLIT: usize = 3;
pub const B_SHORT: usize = 4;
pub const B_FAULT: usize = 5;

pub const A_CONNECT: u8 = 1;
pub const A_SEND: u8 = 2;
pub const A_WAIT_REPLIES: u8 = 3;
pub const A_WAIT_EOF: u8 = 4;
pub const A_HALF_CLOSE: u8 = 5;
pub const A_CLOSE: u8 = 6;
pub const A_RST: u8 = 7;
pub const A_ADVANCE: u8 = 8;
pub const A_WAIT_ACTOR: u8 = 9;
pub const A_PAUSE_READ: u8 = 10;
pub const A_RESUME_READ: u8 = 11;
pub const A_MARK: u8 = 12;
pub const A_START: u8 = 13;

pub const L_ACT: u8 = 1;
pub const L_ACCEPT: u8 = 2;
pub const L_RX: u8 = 3;
pub const L_TX: u8 = 4;
pub const L_SRVCLOSE: u8 = 5;
pub const L_TIME: u8 = 6;
pub const L_FAULT: u8 = 7;
pub const L_REPLY: u8 = 8;
pub const L_SHUT: u8 = 9;
pub const L_IDLE: u8 = 10;
pub const L_MARK: u8 = 11;

pub const ST_DONE: u32 = 1;
pub const ST_PRUNED: u32 = 2;
pub const ST_DIVERGED: u32 = 3;
pub const ST_LIMIT: u32 = 4;
pub const ST_HEAP: u32 = 5;
pub const ST_HANG: u32 = 6;
pub const ST_INTERNAL: u32 = 7;
pub const ST_BADOP: u32 = 8;

pub const T_RUN: u32 = 1;
pub const T_ENTER: u32 = 2;
pub const T_FUTEX: u32 = 3;
pub const T_SLEEP: u32 = 4;
pub const T_DONE: u32 = 5;
pub const T_HOLD: u32 = 7;

#[repr(C)]
#[derive(Clone, Copy, Debug, Default)]
pub struct Action {
    pub kind: u8,
    pub flags: u8,
    pub conn: u16,
    pub off: u32,
    pub len: u32,
    pub arg: u64,
    pub arg2: u64,
}

#[repr(C)]
pub struct CScenario {
    pub nactors: u32,
    pub nsteps: [u32; MAXACT],
    pub act: [[Action; MAXSTEP]; MAXACT],
    pub budget: [u8; NBUD],
    pub nseeds: u8,
    pub free_threads: u8,
    pub stateful: u8,
    pub ipv6: u8,
    pub fault_mask: u32,
    pub outcap: u32,
    pub order: u32,
    pub storm: u32,
    pub storm_errno: u32,
    pub ever: u32,
    pub ever_errno: u32,
    pub ever_from: u32,
    pub bloblen: u64,
}

#[repr(C)]
#[derive(Clone, Copy, Debug)]
pub struct LogEnt {
    pub step: u32,
    pub kind: u8,
    pub pad: u8,
    pub a: u16,
    pub b: u32,
    pub c: u32,
}

#[repr(C)]
#[derive(Clone, Copy, Debug)]
pub struct ConnRes {
    pub connected: u8,
    pub accepted: u8,
    pub srv_closed: u8,
    pub srv_shut: u8,
    pub cl_half: u8,
    pub cl_closed: u8,
    pub cl_rst: u8,
    pub badreply: u8,
    pub outlen: u32,
    pub replies: u32,
    pub rx_sent: u32,
    pub rx_taken: u32,
    pub fd: i32,
    pub thr: i32,
}

#[repr(C)]
pub struct CResult {
    pub status: u32,
    pub nchoice: u32,
    pub nlog: u32,
    pub nnew: u32,
    pub new_states: u32,
    pub transitions: u32,
    pub shared_ops: u32,
    pub steps: u32,
    pub now: u64,
    pub final_fp: u64,
    pub apos: [u32; MAXACT],
    pub thr_state: [u32; MAXTHR],
    pub nconn: u32,
    pub pend_ops: u32,
    pub open_fds: u32,
    pub log_overflow: u32,
    pub msg: [u8; 256],
    pub conn: [ConnRes; MAXCONN],
    pub choice: [u8; MAXCHOICE],
    pub nopts: [u8; MAXCHOICE],
    pub newaddr: [u64; NEWADDR],
    pub log: [LogEnt; MAXLOG],
}

#[repr(C)]
pub struct Shm {
    pub go: u32,
    pub hot_pages: u32,
    pub prefix_len: u32,
    pub no_prune: u32,
    pub salt: u64,
    pub prefix: [u8; MAXCHOICE],
    pub sc: CScenario,
    pub res: CResult,
}

extern "C" {
    pub fn simk_config(ncpu: c_int, record: c_int, realrand: c_int, seed: u64);
    pub fn simk_place(cpus: *const u8, n: c_int, held: u32);
    pub fn simk_recorded() -> c_int;
    pub fn simk_boot() -> c_int;
    pub fn simk_runner(cpu_secs: c_int) -> !;
    pub fn simk_request(shm: *mut c_void, pid: c_int, status: *mut c_int) -> c_int;
    pub fn simk_share(shm: *mut c_void, blob: *const u8, out: *mut u8, vis: *mut c_void, vmask: u64, shs: *mut c_void, smask: u64);
    pub fn simk_run_child(cpu_secs: c_int) -> !;
    pub fn simk_maxalloc(n: u64);
    pub fn simk_alloc(size: u64, align: u64, zero: c_int) -> *mut u8;
    pub fn simk_free(p: *mut u8, size: u64, align: u64);
}

pub struct Arena;
unsafe impl std::alloc::GlobalAlloc for Arena {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        simk_alloc(l.size() as u64, l.align() as u64, 0)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        simk_alloc(l.size() as u64, l.align() as u64, 1)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        simk_free(p, l.size() as u64, l.align() as u64)
    }
}

pub fn map_shared(len: usize) -> *mut u8 {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            len,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED, "mmap shared {len}");
        p as *mut u8
    }
}
pub fn unmap(p: *mut u8, len: usize) {
    unsafe { libc::munmap(p as *mut c_void, len) };
}
pub fn fork() -> i32 {
    let r = unsafe { libc::fork() };
    assert!(r >= 0, "fork failed");
    if r == 0 {
        // nothing outlives the check
        unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
    }
    r
}
/// (exit code, signal)
pub fn waitpid(pid: i32) -> (i32, i32) {
    let mut st = 0;
    loop {
        let r = unsafe { libc::waitpid(pid, &mut st, 0) };
        if r == pid {
            break;
        }
        if r < 0 && std::io::Error::last_os_error().raw_os_error() == Some(libc::EINTR) {
            continue;
        }
        assert!(r >= 0, "waitpid");
    }
    if libc::WIFSIGNALED(st) {
        (0, libc::WTERMSIG(st))
    } else {
        (libc::WEXITSTATUS(st), 0)
    }
}
pub fn exit_now(code: i32) -> ! {
    unsafe { libc::_exit(code) }
}
pub fn redirect_stderr(path: &str) {
    if path == "/dev/null" && std::env::var_os("MC_STDERR").is_some() {
        return;
    }
    unsafe {
        let p = std::ffi::CString::new(path).unwrap();
        let fd = libc::open(p.as_ptr(), libc::O_WRONLY | libc::O_CREAT | libc::O_TRUNC, 0o644);
        if fd >= 0 {
            libc::dup2(fd, 2);
            libc::close(fd);
        }
    }
}
