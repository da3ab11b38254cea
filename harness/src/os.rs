//! A model of the operating-system services ipmb uses, written so that the real ipmb code (and std)
//! links against it: simulated processes with descriptor tables, AF_UNIX SEQPACKET sockets with
//! SCM_RIGHTS, epoll, eventfd, memfd and shared mappings, futexes, threads and a virtual clock.
//! Scheduling decisions, interrupted calls and crash points are symbolic choices (bounded by budgets).
#![allow(static_mut_refs, dead_code, clippy::missing_safety_doc, non_camel_case_types)]
use crate::sx;
use std::collections::VecDeque;
use std::ffi::c_void;
use std::time::Duration;

pub type c_int = i32;
pub const EPERM: i32 = 1; pub const EINTR: i32 = 4; pub const EBADF: i32 = 9; pub const EAGAIN: i32 = 11; pub const ENOMEM: i32 = 12;
pub const EINVAL: i32 = 22; pub const EMFILE: i32 = 24; pub const EPIPE: i32 = 32; pub const ENOSYS: i32 = 38; pub const ENOTSOCK: i32 = 88;
pub const EMSGSIZE: i32 = 90; pub const EADDRINUSE: i32 = 98; pub const ECONNRESET: i32 = 104; pub const EISCONN: i32 = 106; pub const ENOTCONN: i32 = 107;
pub const ETIMEDOUT: i32 = 110; pub const ECONNREFUSED: i32 = 111; pub const EEXIST: i32 = 17; pub const ENOENT: i32 = 2; pub const EOVERFLOW: i32 = 75; pub const EACCES: i32 = 13;
const EPOLLIN: u32 = 1; const EPOLLOUT: u32 = 4; const EPOLLERR: u32 = 8; const EPOLLHUP: u32 = 0x10; const EPOLLRDHUP: u32 = 0x2000;
const MSG_PEEK: i32 = 2; const MSG_CTRUNC: i32 = 8; const MSG_TRUNC: i32 = 0x20; const MSG_DONTWAIT: i32 = 0x40; const MSG_CMSG_CLOEXEC: i32 = 0x40000000;
const SOCK_NONBLOCK: i32 = 0o4000; const SOCK_CLOEXEC: i32 = 0o2000000;

pub type DescId = usize;
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum SockState { New, Listening, Connected, NotConnected }
pub struct Pkt { pub data: Vec<u8>, pub fds: Vec<DescId>, pub from: DescId }
pub struct Sock {
    pub st: SockState, pub peer: DescId, pub peer_gone: bool, pub rd_shut: bool, pub wr_shut: bool, pub err: i32,
    pub q: VecDeque<Pkt>, pub inflight: usize, pub sndbuf: usize, pub sndtimeo: Option<Duration>, pub name: Option<Vec<u8>>, pub backlog: VecDeque<DescId>, pub backlog_max: usize, pub creator: usize,
}
pub struct EpItem { pub fd: i32, pub desc: DescId, pub events: u32, pub data: u64, pub disabled: bool }
pub enum Kind { Free, Sock(Sock), Event { count: u64, sem: bool }, Epoll { items: Vec<EpItem> }, Mem { shm: Option<u64>, size: u64, cap: u64 }, Other }
pub struct Desc { pub kind: Kind, pub refs: usize, pub nonblock: bool }
#[derive(Clone, Copy)]
pub struct FdEnt { pub desc: DescId, pub cloexec: bool, pub lib: bool }
pub struct Proc { pub fds: Vec<Option<FdEnt>>, pub alive: bool, pub max_fds: usize, pub maps: Vec<MapEnt>, pub closes: usize, pub bad_close: usize, pub bad_use: usize }
pub struct MapEnt { pub addr: usize, pub len: usize, pub desc: DescId, pub off: u64 }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Cond { None, Read(DescId), Write(DescId, usize), Epoll(DescId), Futex, Done(usize), Sleep, Idle, Accept(DescId), Backlog(DescId) }
pub struct Thr { pub proc_: usize, pub cond: Cond, pub deadline: Option<Duration>, pub sx: u64, pub start: usize, pub arg: usize, pub done: bool, pub dead: bool, pub futex: usize, pub woken: bool }
pub struct Os {
    pub procs: Vec<Proc>, pub descs: Vec<Desc>, pub thr: Vec<Thr>, pub cur: usize, pub now: Duration, pub rng: u64,
    pub delays: usize, pub eintr: usize, pub syscalls: usize, pub max_syscalls: usize, pub horizon: Duration, pub crash: Option<usize>, pub crash_skip: usize, pub crashed: usize,
    pub in_lib: bool, pub sendmsg_fail: usize, pub mmap_len_min: usize, pub permission: Option<i32>, pub events: Vec<(u8, u64, u64)>, pub rot: usize, pub rr: bool, pub accepts: usize, pub streak: (usize, usize), pub trace: bool, pub atomics: bool, pub stray: bool, pub faults: usize,
}
static mut OSP: *mut Os = std::ptr::null_mut();
#[inline(always)] pub fn os() -> &'static mut Os { unsafe { &mut *OSP } }
pub fn active() -> bool { unsafe { !OSP.is_null() } }

/// Start the simulation with one process (0) whose only thread is the calling one.
pub fn init() {
    let o = Os {
        procs: vec![], descs: vec![], thr: vec![], cur: 0, now: Duration::new(1000, 0), rng: 0x9E3779B97F4A7C15, delays: 0, eintr: 0, syscalls: 0, max_syscalls: 6000,
        horizon: Duration::from_secs(1_000_000), crash: None, crash_skip: 0, crashed: 0, in_lib: true, sendmsg_fail: 0, mmap_len_min: 0, permission: None, events: vec![], rot: 0, rr: false, accepts: 0, streak: (0, 0), trace: false, atomics: false, stray: false, faults: 0,
    };
    unsafe { OSP = Box::into_raw(Box::new(o)); }
    new_proc();
    os().thr.push(Thr { proc_: 0, cond: Cond::None, deadline: None, sx: unsafe { sx::raw::sx_self() }, start: 0, arg: 0, done: false, dead: false, futex: 0, woken: false });
}
pub fn new_proc() -> usize {
    let o = os();
    let mut p = Proc { fds: vec![], alive: true, max_fds: 1024, maps: vec![], closes: 0, bad_close: 0, bad_use: 0 };
    if o.descs.is_empty() { o.descs.push(Desc { kind: Kind::Other, refs: 1000000, nonblock: false }); }
    for _ in 0..3 { p.fds.push(Some(FdEnt { desc: 0, cloexec: false, lib: false })); }
    o.procs.push(p);
    o.procs.len() - 1
}
pub fn me() -> usize { os().thr[os().cur].proc_ }
/// Run `f` as process `p` (the calling thread acts for it).
pub fn in_proc<T>(p: usize, f: impl FnOnce() -> T) -> T {
    let t = os().cur; let old = os().thr[t].proc_;
    os().thr[t].proc_ = p; let r = f(); os().thr[t].proc_ = old; r
}
/// Run `f` as code of the application in process `p`: its descriptors are not the library's.
pub fn app<T>(p: usize, f: impl FnOnce() -> T) -> T { let was = os().in_lib; os().in_lib = false; let r = in_proc(p, f); os().in_lib = was; r }
fn errno(e: i32) -> c_int { extern "C" { fn __errno_location() -> *mut i32; } unsafe { *__errno_location() = e; } -1 }

// ---------------------------------------------------------------- descriptors
fn new_desc(kind: Kind) -> DescId { os().descs.push(Desc { kind, refs: 0, nonblock: false }); os().descs.len() - 1 }
fn install(p: usize, d: DescId, cloexec: bool) -> i32 {
    let o = os(); let pr = &mut o.procs[p];
    let mut i = 0; while i < pr.fds.len() && pr.fds[i].is_some() { i += 1; }
    if i >= pr.max_fds { return -1; }
    let lib = o.in_lib;
    if i == pr.fds.len() { pr.fds.push(None); }
    pr.fds[i] = Some(FdEnt { desc: d, cloexec, lib });
    o.descs[d].refs += 1;
    i as i32
}
pub fn desc_of(p: usize, fd: i32) -> Option<DescId> {
    let f = &os().procs[p].fds; if fd < 0 || fd as usize >= f.len() { None } else { f[fd as usize].map(|e| e.desc) }
}
fn get(fd: i32) -> Option<DescId> { let d = desc_of(me(), fd); if d.is_none() && os().in_lib { os().procs[me()].bad_use += 1; } d }
fn put(d: DescId) {
    let o = os(); o.descs[d].refs -= 1;
    if o.descs[d].refs == 0 {
        let k = std::mem::replace(&mut o.descs[d].kind, Kind::Free);
        for e in o.descs.iter_mut() { if let Kind::Epoll { items } = &mut e.kind { items.retain(|i| i.desc != d); } }
        match k {
            Kind::Sock(s) => release_sock(d, s),
            Kind::Mem { .. } => {}
            _ => {}
        }
    }
}
fn release_sock(d: DescId, mut s: Sock) {
    for c in std::mem::take(&mut s.backlog) { put_embryo(c); }
    if s.st == SockState::Connected && !s.peer_gone {
        let unread = !s.q.is_empty();
        if let Some(ps) = sock(s.peer) { ps.peer_gone = true; ps.rd_shut = true; ps.wr_shut = true; if unread { ps.err = ECONNRESET; } }
    }
    for p in std::mem::take(&mut s.q) { drop_pkt(p); }
    let _ = d;
}
fn put_embryo(c: DescId) {
    // a connection that was never accepted: the client side is reset
    if let Some(s) = sock(c) { let peer = s.peer; if !s.peer_gone { if let Some(ps) = sock(peer) { ps.err = ECONNRESET; } } }
    put(c);
}
fn drop_pkt(p: Pkt) {
    if let Some(s) = sock(p.from) { s.inflight -= truesize(p.data.len()); }
    for f in p.fds { put(f); }
}
fn truesize(n: usize) -> usize { n + 768 }
pub fn sock(d: DescId) -> Option<&'static mut Sock> { match &mut os().descs[d].kind { Kind::Sock(s) => Some(s), _ => None } }
fn close_fd(p: usize, fd: i32) -> bool {
    let pr = &mut os().procs[p];
    if fd < 0 || fd as usize >= pr.fds.len() { return false; }
    match pr.fds[fd as usize].take() { Some(e) => { pr.closes += 1; put(e.desc); true } None => false }
}
pub fn open_fds(p: usize) -> usize { os().procs[p].fds.iter().filter(|f| f.is_some()).count() }
pub fn fds_without_cloexec(p: usize) -> usize { os().procs[p].fds.iter().skip(3).filter(|f| matches!(f, Some(e) if !e.cloexec && e.lib)).count() }

/// The process dies now: all its descriptors are closed and its threads never run again.
pub fn kill(p: usize) {
    os().procs[p].alive = false;
    for t in os().thr.iter_mut() { if t.proc_ == p && t.start != 0 { t.dead = true; } }
    for fd in 0..os().procs[p].fds.len() { close_fd(p, fd as i32); }
}

// ---------------------------------------------------------------- scheduling
fn readable(s: &Sock) -> bool { !s.q.is_empty() || s.rd_shut || s.err != 0 }
fn poll_mask(d: DescId) -> u32 {
    match &os().descs[d].kind {
        Kind::Sock(s) => {
            if s.st == SockState::Listening { return if s.backlog.is_empty() { 0 } else { EPOLLIN }; }
            let mut m = 0;
            if s.err != 0 { m |= EPOLLERR; }
            if s.rd_shut { m |= EPOLLIN | EPOLLRDHUP; }
            if s.rd_shut && s.wr_shut { m |= EPOLLHUP; }
            if !s.q.is_empty() { m |= EPOLLIN; }
            if s.st == SockState::New { m |= EPOLLHUP; }
            if s.inflight * 4 <= s.sndbuf { m |= EPOLLOUT; }
            m
        }
        Kind::Event { count, .. } => (if *count > 0 { EPOLLIN } else { 0 }) | EPOLLOUT,
        Kind::Epoll { .. } => if ep_ready(d) { EPOLLIN } else { 0 },
        _ => EPOLLIN | EPOLLOUT,
    }
}
fn ep_ready(d: DescId) -> bool {
    if let Kind::Epoll { items } = &os().descs[d].kind { items.iter().any(|i| !i.disabled && poll_mask(i.desc) & (i.events | EPOLLERR | EPOLLHUP) != 0) } else { true }
}
fn cond_ready(t: usize) -> bool {
    let th = &os().thr[t];
    match th.cond {
        Cond::None => true,
        Cond::Read(d) => match &os().descs[d].kind { Kind::Sock(s) => readable(s), Kind::Event { count, .. } => *count > 0, _ => true },
        Cond::Write(d, n) => match &os().descs[d].kind { Kind::Sock(s) => s.err != 0 || s.wr_shut || s.peer_gone || s.inflight == 0 || s.inflight + truesize(n) <= s.sndbuf, Kind::Event { count, .. } => *count < u64::MAX - 1, _ => true },
        Cond::Accept(d) => match &os().descs[d].kind { Kind::Sock(s) => !s.backlog.is_empty() || s.st != SockState::Listening, _ => true },
        Cond::Backlog(d) => match &os().descs[d].kind { Kind::Sock(s) => s.backlog.len() <= s.backlog_max || s.st != SockState::Listening, _ => true },
        Cond::Epoll(d) => ep_ready(d),
        Cond::Futex => th.woken,
        Cond::Done(x) => os().thr[x].done || os().thr[x].dead,
        Cond::Sleep | Cond::Idle => false,
    }
}
fn runnable(t: usize) -> bool {
    let th = &os().thr[t];
    if th.done || th.dead { return false; }
    if cond_ready(t) { return true; }
    match th.deadline { Some(dl) => dl <= os().now, None => false }
}
fn switch_to(t: usize) {
    if t == os().cur { return; }
    os().cur = t;
    unsafe { sx::raw::sx_switch(os().thr[t].sx) }
}
/// Give the processor to some other thread; returns when this thread is chosen again.
fn sched() {
    loop {
        let n = os().thr.len(); let cur = os().cur;
        let mut cand: [usize; 24] = [0; 24]; let mut k = 0;
        for i in 1..=n { let t = (cur + i) % n; if runnable(t) && k < 24 { cand[k] = t; k += 1; } }
        if k > 0 {
            let mut i = 0;
            while i + 1 < k && os().delays > 0 { if sx::flag("sched-delay") { os().delays -= 1; i += 1; } else { break; } }
            switch_to(cand[i]); return;
        }
        // a thread waiting for quiescence runs before time passes
        for t in 0..n { if os().thr[t].cond == Cond::Idle && !os().thr[t].done { switch_to(t); return; } }
        let mut best: Option<Duration> = None;
        for t in 0..n { let th = &os().thr[t]; if !th.done && !th.dead { if let Some(d) = th.deadline { best = Some(match best { None => d, Some(b) => if d < b { d } else { b } }); } } }
        match best {
            None => sx::fail("hang", hang_msg()),
            Some(b) => { if b > os().horizon { sx::fail("hang", "still waiting after the time by which the operation had to finish"); } os().now = b; }
        }
    }
}
fn hang_msg() -> &'static str {
    match os().thr[0].cond { Cond::Epoll(_) => "blocked forever waiting for a message or event", Cond::Read(_) => "blocked forever reading a socket", Cond::Write(..) => "blocked forever in a send", Cond::Futex => "blocked forever on a lock or channel", Cond::Done(_) => "blocked forever joining a thread", _ => "all threads blocked forever" }
}
#[derive(PartialEq, Clone, Copy)]
enum Wake { Ready, Timeout, Intr }
fn block(c: Cond, deadline: Option<Duration>, interruptible: bool) -> Wake {
    let t = os().cur;
    os().thr[t].cond = c; os().thr[t].deadline = deadline;
    if cond_ready(t) { os().thr[t].cond = Cond::None; os().thr[t].deadline = None; return Wake::Ready; }
    if let Some(d) = deadline { if d <= os().now { os().thr[t].cond = Cond::None; os().thr[t].deadline = None; return Wake::Timeout; } }
    if interruptible && os().eintr > 0 && sx::flag("interrupted") { os().eintr -= 1; os().thr[t].cond = Cond::None; os().thr[t].deadline = None; return Wake::Intr; }
    sched();
    let r = if cond_ready(t) { Wake::Ready } else { Wake::Timeout };
    os().thr[t].cond = Cond::None; os().thr[t].deadline = None; r
}
/// Every modelled system call passes here: a point where another thread may run, or a process may die.
/// Called before every atomic instruction: a point at which another thread may run. Loads count when they are of shared memory.
#[no_mangle] #[inline(never)] pub unsafe extern "C" fn sx_atomic_hook(p: *const u8, kind: u32) {
    if OSP.is_null() || !(*OSP).atomics { return; }
    let o = os(); if o.delays == 0 { return; }
    let a = p as usize; if kind == 0 && !o.procs.iter().any(|p| p.maps.iter().any(|m| a >= m.addr && a < m.addr + m.len)) { return; }
    if o.trace { sx::trace("atomic", (me() * 100 + o.cur) as u64); } preempt();
}
fn pt(name: &str) { if os().trace { sx::trace(name, (me() * 100 + os().cur) as u64); } point() }
fn point() {
    let o = os(); o.syscalls += 1;
    if o.syscalls > o.max_syscalls { sx::fail("livelock", "too many system calls without finishing"); }
    // a thread that spins does not keep the others from running
    if o.streak.0 == o.cur { o.streak.1 += 1; } else { o.streak = (o.cur, 0); }
    if o.streak.1 > 400 {
        o.streak.1 = 0; let n = o.thr.len(); let cur = o.cur;
        for i in 1..n { let t = (cur + i) % n; if runnable(t) { switch_to(t); break; } }
    }
    let o = os();
    if o.crash == Some(me()) && o.thr[o.cur].start != 0 {
        // the process dies here, or later
        if o.crash_skip > 0 { o.crash_skip -= 1; }
        else if sx::flag("dies-here") { o.crash = None; o.crashed += 1; kill(me()); sched(); sx::inconclusive("a dead thread was scheduled") }
    }
    preempt();
}
/// A system call which needs resources may fail, as often as the entry allows.
fn fault(e: i32) -> bool { if os().faults > 0 && os().in_lib && sx::flag("fails") { os().faults -= 1; errno(e); true } else { false } }
fn preempt() {
    let o = os();
    if o.delays > 0 && o.thr.len() > 1 {
        let cur = o.cur; let n = o.thr.len();
        let mut other = false; for i in 0..n { if i != cur && runnable(i) { other = true; } }
        if other && sx::flag("preempt") {
            os().delays -= 1;
            for i in 1..n { let t = (cur + i) % n; if runnable(t) { switch_to(t); break; } }
        }
    }
}
/// Let everything else run until nothing can move without time passing.
pub fn settle() { let t = os().cur; os().thr[t].cond = Cond::Idle; os().thr[t].deadline = None; sched(); os().thr[t].cond = Cond::None; }
/// Let `d` pass (other threads run meanwhile).
pub fn sleep(d: Duration) { let dl = os().now + d; block(Cond::Sleep, Some(dl), false); }
pub fn now() -> Duration { os().now }
extern "C" fn tramp(t: usize) {
    let start: extern "C" fn(usize) -> usize = unsafe { std::mem::transmute(os().thr[t].start) };
    start(os().thr[t].arg);
    unsafe { run_key_dtors(); }
    os().thr[t].done = true;
    sched();
    sx::inconclusive("finished thread scheduled again")
}
fn spawn_raw(p: usize, start: usize, arg: usize) -> usize {
    let t = os().thr.len();
    os().thr.push(Thr { proc_: p, cond: Cond::None, deadline: None, sx: 0, start, arg, done: false, dead: false, futex: 0, woken: false });
    os().thr[t].sx = unsafe { sx::raw::sx_thread_create(tramp as *const () as usize, t) };
    t
}
struct Job { f: Option<Box<dyn FnOnce()>> }
extern "C" fn job_start(a: usize) -> usize { let mut j = unsafe { Box::from_raw(a as *mut Job) }; (j.f.take().unwrap())(); 0 }
/// An application thread of process `p`.
pub fn spawn(p: usize, f: impl FnOnce() + 'static) -> usize { spawn_raw(p, job_start as *const () as usize, Box::into_raw(Box::new(Job { f: Some(Box::new(f)) })) as usize) }
pub fn join_thread(t: usize) { block(Cond::Done(t), None, false); }
pub fn thread_done(t: usize) -> bool { os().thr[t].done }
pub fn nthreads() -> usize { os().thr.iter().filter(|t| !t.done && !t.dead).count() }

// ---------------------------------------------------------------- sockets
fn new_sock() -> Sock { Sock { st: SockState::New, peer: 0, peer_gone: false, rd_shut: false, wr_shut: false, err: 0, q: VecDeque::new(), inflight: 0, sndbuf: 212992, sndtimeo: None, name: None, backlog: VecDeque::new(), backlog_max: 0, creator: me() } }
#[no_mangle] pub unsafe extern "C" fn socket(_d: c_int, ty: c_int, _p: c_int) -> c_int {
    pt("socket"); if fault(EMFILE) { return -1; }
    let d = new_desc(Kind::Sock(new_sock())); os().descs[d].nonblock = ty & SOCK_NONBLOCK != 0;
    let fd = install(me(), d, ty & SOCK_CLOEXEC != 0); if fd < 0 { return errno(EMFILE); } fd
}
#[no_mangle] pub unsafe extern "C" fn socketpair(_d: c_int, ty: c_int, _p: c_int, out: *mut c_int) -> c_int {
    pt("socketpair"); if fault(EMFILE) { return -1; }
    let a = new_desc(Kind::Sock(new_sock())); let b = new_desc(Kind::Sock(new_sock()));
    for (x, y) in [(a, b), (b, a)] { let s = sock(x).unwrap(); s.st = SockState::Connected; s.peer = y; os().descs[x].nonblock = ty & SOCK_NONBLOCK != 0; }
    let c = ty & SOCK_CLOEXEC != 0; let p = me();
    let f0 = install(p, a, c); if f0 < 0 { return errno(EMFILE); }
    let f1 = install(p, b, c); if f1 < 0 { close_fd(p, f0); return errno(EMFILE); }
    *out = f0; *out.add(1) = f1; 0
}
unsafe fn addr_name(a: *const u8, len: u32) -> Vec<u8> { std::slice::from_raw_parts(a.add(2), (len as usize).saturating_sub(2)).to_vec() }
fn find_name(n: &[u8]) -> Option<DescId> {
    for d in 0..os().descs.len() { if let Kind::Sock(s) = &os().descs[d].kind { if let Some(nm) = &s.name { if nm.len() == n.len() && nm[..] == n[..] { return Some(d); } } } }
    None
}
#[no_mangle] pub unsafe extern "C" fn bind(fd: c_int, a: *const u8, len: u32) -> c_int {
    pt("bind");
    let d = match get(fd) { Some(d) => d, None => return errno(EBADF) };
    if sock(d).is_none() { return errno(ENOTSOCK); }
    if len < 3 || len > 110 { return errno(EINVAL); }
    if let Some(e) = os().permission { return errno(e); }
    let n = addr_name(a, len);
    if n[0] != 0 { sx::inconclusive("file-system socket address"); }
    if find_name(&n).is_some() { return errno(EADDRINUSE); }
    let s = sock(d).unwrap(); if s.name.is_some() { return errno(EINVAL); }
    s.name = Some(n); 0
}
#[no_mangle] pub unsafe extern "C" fn listen(fd: c_int, n: c_int) -> c_int {
    pt("listen");
    let d = match get(fd) { Some(d) => d, None => return errno(EBADF) };
    match sock(d) { Some(s) => { if s.name.is_none() || (s.st != SockState::New && s.st != SockState::Listening) { return errno(EINVAL); } s.st = SockState::Listening; s.backlog_max = n as u32 as usize; 0 } None => errno(ENOTSOCK) }
}
#[no_mangle] pub unsafe extern "C" fn connect(fd: c_int, a: *const u8, len: u32) -> c_int {
    pt("connect");
    let d = match get(fd) { Some(d) => d, None => return errno(EBADF) };
    if sock(d).is_none() { return errno(ENOTSOCK); }
    if len < 3 || len > 110 { return errno(EINVAL); }
    let n = addr_name(a, len);
    if n[0] != 0 { sx::inconclusive("file-system socket address"); }
    if sock(d).unwrap().st == SockState::Connected { return errno(EISCONN); }
    if let Some(e) = os().permission { return errno(e); }
    let mut until: Option<Duration> = None;
    loop {
        let l = match find_name(&n) { Some(l) => l, None => return errno(ECONNREFUSED) };
        let ls = sock(l).unwrap();
        if ls.st != SockState::Listening { return errno(ECONNREFUSED); }
        if ls.backlog.len() > ls.backlog_max {
            if os().descs[d].nonblock { return errno(EAGAIN); }
            let to = sock(d).unwrap().sndtimeo.map(|t| until.get_or_insert(os().now + t).clone()); match block(Cond::Backlog(l), to, true) { Wake::Intr => return errno(EINTR), Wake::Timeout => return errno(EAGAIN), _ => {} } continue;
        }
        let mut e = new_sock(); e.st = SockState::Connected; e.peer = d;
        let e = new_desc(Kind::Sock(e)); os().descs[e].refs = 1;
        let s = sock(d).unwrap(); s.st = SockState::Connected; s.peer = e;
        sock(l).unwrap().backlog.push_back(e);
        return 0;
    }
}
#[no_mangle] pub unsafe extern "C" fn accept(fd: c_int, a: *mut u8, l: *mut u32) -> c_int { accept4(fd, a, l, 0) }
#[no_mangle] pub unsafe extern "C" fn accept4(fd: c_int, _a: *mut u8, l: *mut u32, flags: c_int) -> c_int {
    pt("accept4"); if fault(EMFILE) { return -1; }
    let d = match get(fd) { Some(d) => d, None => return errno(EBADF) };
    if sock(d).is_none() { return errno(ENOTSOCK); }
    loop {
        let s = match sock(d) { Some(s) => s, None => return errno(EBADF) };
        if s.st != SockState::Listening { return errno(EINVAL); }
        if let Some(&c) = s.backlog.front() {
            let nf = install(me(), c, flags & SOCK_CLOEXEC != 0); if nf < 0 { return errno(EMFILE); }
            s.backlog.pop_front(); os().accepts += 1; os().descs[c].refs -= 1; os().descs[c].nonblock = flags & SOCK_NONBLOCK != 0;
            if !l.is_null() { *l = 2; }
            return nf;
        }
        if os().descs[d].nonblock { return errno(EAGAIN); }
        if block(Cond::Accept(d), None, true) == Wake::Intr { return errno(EINTR); }
    }
}
#[no_mangle] pub unsafe extern "C" fn shutdown(fd: c_int, how: c_int) -> c_int {
    pt("shutdown");
    let d = match get(fd) { Some(d) => d, None => return errno(EBADF) };
    let s = match sock(d) { Some(s) => s, None => return errno(ENOTSOCK) };
    let (r, w) = (how == 0 || how == 2, how == 1 || how == 2);
    s.rd_shut |= r; s.wr_shut |= w;
    if s.st == SockState::Connected && !s.peer_gone { let p = s.peer; if let Some(ps) = sock(p) { ps.wr_shut |= r; ps.rd_shut |= w; } }
    0
}
#[no_mangle] pub unsafe extern "C" fn setsockopt(fd: c_int, level: c_int, name: c_int, v: *const c_void, len: u32) -> c_int {
    let d = match get(fd) { Some(d) => d, None => return errno(EBADF) };
    let s = match sock(d) { Some(s) => s, None => return errno(ENOTSOCK) };
    if level != 1 || len < 4 { return errno(EINVAL); }
    if name == 21 { if len < 16 { return errno(EINVAL); } let (a, b) = ((v as *const i64).read_unaligned(), (v as *const i64).add(1).read_unaligned()); s.sndtimeo = if a == 0 && b == 0 { None } else { Some(Duration::new(a.max(0) as u64, b as u32 * 1000)) }; return 0; }
    let x = (v as *const i32).read_unaligned() as u32;
    match name { 7 => { let x = x.min(212992) as usize; s.sndbuf = (x * 2).max(4608); 0 } 8 | 16 | 9 => 0, _ => 0 }
}
#[no_mangle] pub unsafe extern "C" fn getsockopt(fd: c_int, level: c_int, name: c_int, v: *mut c_void, len: *mut u32) -> c_int {
    pt("getsockopt");
    let d = match get(fd) { Some(d) => d, None => return errno(EBADF) };
    let s = match sock(d) { Some(s) => s, None => return errno(ENOTSOCK) };
    if level != 1 || *len < 4 { return errno(EINVAL); }
    let x = match name { 4 => { let e = s.err; s.err = 0; e } 7 => s.sndbuf as i32, 8 => 131072, 3 => 5, 30 => (s.st == SockState::Listening) as i32, _ => 0 };
    (v as *mut i32).write_unaligned(x); *len = 4; 0
}
#[repr(C)] pub struct Iov { pub base: *mut u8, pub len: usize }
#[repr(C)] pub struct MsgHdr { pub name: *mut u8, pub namelen: u32, pub iov: *mut Iov, pub iovlen: usize, pub control: *mut u8, pub controllen: usize, pub flags: i32 }

unsafe fn parse_cmsgs(p: *const u8, n: usize, fds: &mut Vec<DescId>) -> Result<(), i32> {
    let mut off = 0usize; let mut any = false;
    if n < 16 { return Ok(()); }
    while off + 16 <= n {
        let h = p.add(off); let len = (h as *const usize).read_unaligned(); let level = (h.add(8) as *const i32).read_unaligned(); let ty = (h.add(12) as *const i32).read_unaligned();
        if len < 16 || len > n - off { return Err(EINVAL); }
        if level == 1 {
            if ty != 1 { if ty == 2 { sx::inconclusive("SCM_CREDENTIALS"); } return Err(EINVAL); }
            let c = (len - 16) / 4; let c = sx::conc(c as u64) as usize; any = true;
            if fds.len() + c > 253 { return Err(EINVAL); }
            for i in 0..c { let fd = (h.add(16 + 4 * i) as *const i32).read_unaligned(); match get(fd) { Some(d) => fds.push(d), None => return Err(EBADF) } }
        }
        off += (len + 7) & !7; let _ = any;
    }
    Ok(())
}
#[no_mangle] pub unsafe extern "C" fn sendmsg(fd: c_int, h: *const MsgHdr, flags: c_int) -> isize {
    pt("sendmsg");
    let h = &*h;
    let d = match get(fd) { Some(d) => d, None => return errno(EBADF) as isize };
    if sock(d).is_none() { return errno(ENOTSOCK) as isize; }
    let s = sock(d).unwrap();
    if s.err != 0 { let e = s.err; s.err = 0; return errno(e) as isize; }
    if s.st != SockState::Connected { return errno(ENOTCONN) as isize; }
    let mut fds = vec![];
    if !h.control.is_null() { if let Err(e) = parse_cmsgs(h.control, h.controllen, &mut fds) { return errno(e) as isize; } }
    let mut data: Vec<u8> = vec![];
    for i in 0..h.iovlen { let v = &*h.iov.add(i); let n = sx::conc(v.len as u64) as usize; if n > 0 { data.extend_from_slice(std::slice::from_raw_parts(v.base, n)); } }
    let n = data.len();
    if os().stray { sx::check(sx::is_init(&data), "a packet consists of what was written into it"); }
    if n + 32 > s.sndbuf { return errno(EMSGSIZE) as isize; }
    if os().sendmsg_fail > 0 && sx::flag("send-fails") { os().sendmsg_fail -= 1; return errno(105) as isize; }
    let mut until: Option<Duration> = None;
    loop {
        let s = match sock(d) { Some(s) => s, None => return errno(EBADF) as isize };
        if s.err != 0 { let e = s.err; s.err = 0; return errno(e) as isize; }
        if s.wr_shut || s.peer_gone { return errno(EPIPE) as isize; }
        let p = s.peer;
        match sock(p) { None => return errno(EPIPE) as isize, Some(ps) => if ps.rd_shut { return errno(EPIPE) as isize; } }
        if s.inflight == 0 || s.inflight + truesize(n) <= s.sndbuf {
            s.inflight += truesize(n);
            for &f in &fds { os().descs[f].refs += 1; }
            sock(p).unwrap().q.push_back(Pkt { data, fds, from: d });
            return n as isize;
        }
        if os().descs[d].nonblock || flags & MSG_DONTWAIT != 0 { return errno(EAGAIN) as isize; }
        let to = s.sndtimeo.map(|t| until.get_or_insert(os().now + t).clone());
        match block(Cond::Write(d, n), to, true) { Wake::Intr => return errno(EINTR) as isize, Wake::Timeout => return errno(EAGAIN) as isize, _ => {} }
    }
}
#[no_mangle] pub unsafe extern "C" fn send(fd: c_int, p: *const u8, n: usize, flags: c_int) -> isize {
    let mut v = Iov { base: p as *mut u8, len: n };
    let h = MsgHdr { name: std::ptr::null_mut(), namelen: 0, iov: &mut v, iovlen: 1, control: std::ptr::null_mut(), controllen: 0, flags: 0 };
    sendmsg(fd, &h, flags)
}
#[no_mangle] pub unsafe extern "C" fn recvmsg(fd: c_int, h: *mut MsgHdr, flags: c_int) -> isize {
    pt("recvmsg");
    let h = &mut *h;
    let d = match get(fd) { Some(d) => d, None => return errno(EBADF) as isize };
    if sock(d).is_none() { return errno(ENOTSOCK) as isize; }
    loop {
        let s = match sock(d) { Some(s) => s, None => return errno(EBADF) as isize };
        if s.st != SockState::Connected { return errno(ENOTCONN) as isize; }
        if s.err != 0 { let e = s.err; s.err = 0; return errno(e) as isize; }
        if !s.q.is_empty() { break; }
        if s.rd_shut { h.controllen = 0; h.flags = 0; return 0; }
        if os().descs[d].nonblock || flags & MSG_DONTWAIT != 0 { return errno(EAGAIN) as isize; }
        if block(Cond::Read(d), None, true) == Wake::Intr { return errno(EINTR) as isize; }
    }
    let peek = flags & MSG_PEEK != 0;
    let pk: Pkt = if peek { let q = &sock(d).unwrap().q[0]; Pkt { data: q.data.clone(), fds: q.fds.clone(), from: q.from } } else {
        let p = sock(d).unwrap().q.pop_front().unwrap();
        if let Some(f) = sock(p.from) { f.inflight -= truesize(p.data.len()); }
        p
    };
    let mut off = 0; h.flags = 0;
    for i in 0..h.iovlen { let v = &*h.iov.add(i); let n = (sx::conc(v.len as u64) as usize).min(pk.data.len() - off); if n > 0 { std::ptr::copy_nonoverlapping(pk.data.as_ptr().add(off), v.base, n); } off += n; }
    if off < pk.data.len() { h.flags |= MSG_TRUNC; }
    let mut used = 0;
    if !pk.fds.is_empty() {
        let cap = if h.control.is_null() { 0 } else { h.controllen };
        let max = if cap >= 16 { (cap - 16) / 4 } else { 0 };
        let mut k = 0;
        while k < pk.fds.len() && k < max {
            let nf = install(me(), pk.fds[k], flags & MSG_CMSG_CLOEXEC != 0); if nf < 0 { break; }
            (h.control.add(16 + 4 * k) as *mut i32).write_unaligned(nf); k += 1;
        }
        if k > 0 {
            (h.control as *mut usize).write_unaligned(16 + 4 * k); (h.control.add(8) as *mut i32).write_unaligned(1); (h.control.add(12) as *mut i32).write_unaligned(1);
            used = (((16 + 4 * k) + 7) & !7).min(cap);
        }
        if k < pk.fds.len() { h.flags |= MSG_CTRUNC; }
        if !peek { for &f in &pk.fds { put(f); } }
    }
    h.controllen = used;
    let full = pk.data.len();
    if flags & MSG_TRUNC != 0 { full as isize } else { off as isize }
}
#[no_mangle] pub unsafe extern "C" fn recv(fd: c_int, p: *mut u8, n: usize, flags: c_int) -> isize {
    let mut v = Iov { base: p, len: n };
    let mut h = MsgHdr { name: std::ptr::null_mut(), namelen: 0, iov: &mut v, iovlen: 1, control: std::ptr::null_mut(), controllen: 0, flags: 0 };
    recvmsg(fd, &mut h, flags)
}
// ---------------------------------------------------------------- generic descriptors
#[no_mangle] pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if !active() { return sx::raw::sx_raw_syscall(3, fd as i64, 0, 0, 0, 0, 0) as i32; }
    pt("close");
    let p = me();
    if !os().procs[p].alive { return 0; }
    if close_fd(p, fd) { 0 } else { os().procs[p].bad_close += 1; errno(EBADF) }
}
#[no_mangle] pub unsafe extern "C" fn read(fd: c_int, p: *mut u8, n: usize) -> isize {
    if !active() { return sx::raw::sx_raw_syscall(0, fd as i64, p as i64, n as i64, 0, 0, 0) as isize; }
    pt("read");
    let d = match get(fd) { Some(d) => d, None => return errno(EBADF) as isize };
    loop {
        match &mut os().descs[d].kind {
            Kind::Event { count, sem } => {
                if n < 8 { return errno(EINVAL) as isize; }
                if *count > 0 { let v = if *sem { 1 } else { *count }; *count -= v; (p as *mut u64).write_unaligned(v); return 8; }
            }
            Kind::Sock(_) => return recv(fd, p, n, 0),
            _ => return errno(EINVAL) as isize,
        }
        if os().descs[d].nonblock { return errno(EAGAIN) as isize; }
        if block(Cond::Read(d), None, true) == Wake::Intr { return errno(EINTR) as isize; }
    }
}
#[no_mangle] pub unsafe extern "C" fn write(fd: c_int, p: *const u8, n: usize) -> isize {
    if !active() || (fd >= 0 && fd <= 2) { return if sx::in_engine() { n as isize } else { sx::raw::sx_raw_syscall(1, fd as i64, p as i64, n as i64, 0, 0, 0) as isize }; }
    pt("write");
    let d = match get(fd) { Some(d) => d, None => return errno(EBADF) as isize };
    loop {
        match &mut os().descs[d].kind {
            Kind::Event { count, .. } => {
                if n < 8 { return errno(EINVAL) as isize; }
                let v = (p as *const u64).read_unaligned(); if v == u64::MAX { return errno(EINVAL) as isize; }
                if *count <= u64::MAX - 1 - v { *count += v; return 8; }
            }
            Kind::Sock(_) => return send(fd, p, n, 0),
            _ => return errno(EINVAL) as isize,
        }
        if os().descs[d].nonblock { return errno(EAGAIN) as isize; }
        if block(Cond::Write(d, 0), None, true) == Wake::Intr { return errno(EINTR) as isize; }
    }
}
#[no_mangle] pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: i64) -> c_int {
    if !active() { return sx::raw::sx_raw_syscall(72, fd as i64, cmd as i64, arg, 0, 0, 0) as i32; }
    let p = me();
    let d = match get(fd) { Some(d) => d, None => return errno(EBADF) };
    if (cmd == 0 || cmd == 1030) && fault(EMFILE) { return -1; }
    match cmd {
        0 | 1030 => { let nf = install(p, d, cmd == 1030); if nf < 0 { errno(EMFILE) } else { nf } }
        1 => os().procs[p].fds[fd as usize].unwrap().cloexec as i32,
        2 => { os().procs[p].fds[fd as usize].as_mut().unwrap().cloexec = arg & 1 != 0; 0 }
        3 => 2 | if os().descs[d].nonblock { SOCK_NONBLOCK } else { 0 },
        4 => { os().descs[d].nonblock = arg as i32 & SOCK_NONBLOCK != 0; 0 }
        _ => errno(EINVAL),
    }
}
#[no_mangle] pub unsafe extern "C" fn dup(fd: c_int) -> c_int { fcntl(fd, 0, 0) }
#[no_mangle] pub unsafe extern "C" fn eventfd(v: u32, flags: c_int) -> c_int {
    pt("eventfd");
    let d = new_desc(Kind::Event { count: v as u64, sem: flags & 1 != 0 }); os().descs[d].nonblock = flags & SOCK_NONBLOCK != 0;
    let fd = install(me(), d, flags & SOCK_CLOEXEC != 0); if fd < 0 { return errno(EMFILE); } fd
}
#[no_mangle] pub unsafe extern "C" fn epoll_create1(flags: c_int) -> c_int {
    pt("epoll_create1");
    let d = new_desc(Kind::Epoll { items: vec![] }); let fd = install(me(), d, flags & SOCK_CLOEXEC != 0); if fd < 0 { return errno(EMFILE); } fd
}
#[no_mangle] pub unsafe extern "C" fn epoll_create(_n: c_int) -> c_int { epoll_create1(0) }
#[repr(C, packed)] #[derive(Clone, Copy)] pub struct EpEv { events: u32, data: u64 }
#[no_mangle] pub unsafe extern "C" fn epoll_ctl(ep: c_int, op: c_int, fd: c_int, ev: *mut EpEv) -> c_int {
    pt("epoll_ctl");
    let e = match get(ep) { Some(d) => d, None => return errno(EBADF) };
    let d = match get(fd) { Some(d) => d, None => return errno(EBADF) };
    if let Kind::Epoll { items } = &mut os().descs[e].kind {
        let pos = items.iter().position(|i| i.fd == fd && i.desc == d);
        match (op, pos) {
            (1, None) => { let v = *ev; items.push(EpItem { fd, desc: d, events: v.events, data: v.data, disabled: false }); 0 }
            (1, Some(_)) => errno(EEXIST),
            (2, Some(i)) => { items.remove(i); 0 }
            (3, Some(i)) => { let v = *ev; items[i].events = v.events; items[i].data = v.data; items[i].disabled = false; 0 }
            _ => errno(ENOENT),
        }
    } else { errno(EINVAL) }
}
#[no_mangle] pub unsafe extern "C" fn epoll_wait(ep: c_int, out: *mut EpEv, max: c_int, timeout: c_int) -> c_int {
    pt("epoll_wait");
    let e = match get(ep) { Some(d) => d, None => return errno(EBADF) };
    if max <= 0 { return errno(EINVAL); }
    let deadline = if timeout < 0 { None } else { Some(os().now + ms(timeout as u32)) };
    loop {
        match block(Cond::Epoll(e), deadline, timeout != 0) {
            Wake::Intr => return errno(EINTR),
            Wake::Timeout => return 0,
            Wake::Ready => {
                let items = match &mut os().descs[e].kind { Kind::Epoll { items } => items, _ => return errno(EBADF) };
                let mut n = 0; let mut i = 0; let len = items.len(); let mut taken: Vec<EpItem> = vec![];
                let mut k = 0;
                while k < len && n < max as usize {
                    let m = poll_mask(items[i].desc) & (items[i].events | EPOLLERR | EPOLLHUP);
                    if m != 0 && !items[i].disabled {
                        out.add(n).write_unaligned(EpEv { events: m, data: items[i].data }); n += 1;
                        let mut it = items.remove(i);
                        if it.events & (1 << 30) != 0 { it.disabled = true; }
                        taken.push(it);
                    } else { i += 1; }
                    k += 1;
                }
                items.append(&mut taken); // level-triggered entries go to the end of the ready list
                if n > 0 { return n as i32; }
            }
        }
    }
}
#[no_mangle] pub unsafe extern "C" fn epoll_pwait(ep: c_int, out: *mut EpEv, max: c_int, timeout: c_int, _s: *const c_void) -> c_int { epoll_wait(ep, out, max, timeout) }
fn ms(n: u32) -> Duration {
    Duration::new((n / 1000) as u64, (n % 1000) * 1_000_000)
}
#[repr(C)] pub struct PollFd { fd: i32, events: i16, revents: i16 }
#[no_mangle] pub unsafe extern "C" fn poll(p: *mut PollFd, n: u64, timeout: c_int) -> c_int {
    if !active() { return 0; }
    pt("poll");
    let deadline = if timeout < 0 { None } else { Some(os().now + ms(timeout as u32)) };
    loop {
        let mut c = 0;
        for i in 0..n as usize { let e = &mut *p.add(i); e.revents = 0; if e.fd < 0 { continue; } match get(e.fd) { None => { e.revents = 0x20; c += 1; } Some(d) => { let m = poll_mask(d) as i16 & (e.events | 8 | 16); e.revents = m; if m != 0 { c += 1; } } } }
        if c > 0 { return c; }
        if n == 1 { let d = get((*p).fd).unwrap(); match block(Cond::Read(d), deadline, true) { Wake::Timeout => return 0, Wake::Intr => return errno(EINTR), _ => {} } }
        else if timeout == 0 { return 0; } else { sx::inconclusive("poll on several descriptors"); }
    }
}
// ---------------------------------------------------------------- memory objects
const CAPB: u64 = 4 << 20;
#[no_mangle] pub unsafe extern "C" fn memfd_create(_n: *const u8, flags: u32) -> c_int {
    pt("memfd_create"); if fault(EMFILE) { return -1; }
    let d = new_desc(Kind::Mem { shm: None, size: 0, cap: 0 }); let fd = install(me(), d, flags & 1 != 0); if fd < 0 { return errno(EMFILE); } fd
}
#[no_mangle] pub unsafe extern "C" fn ftruncate(fd: c_int, n: i64) -> c_int {
    pt("ftruncate"); if fault(27) { return -1; }
    let d = match get(fd) { Some(d) => d, None => return errno(EBADF) };
    if n < 0 { return errno(EINVAL); }
    match &mut os().descs[d].kind {
        Kind::Mem { shm, size, cap } => {
            if shm.is_none() { let c = if !sx::is_symbolic(n as u64) { (n as u64).min(CAPB) } else if n as u64 > CAPB { CAPB } else { pages_of(n as u64, CAPB) }; *shm = Some(sx::raw::sx_shm_new(c)); *cap = c; }
            else if n as u64 > *cap { sx::inconclusive("growing a memory object"); }
            *size = n as u64; 0
        }
        _ => errno(EINVAL),
    }
}
#[no_mangle] pub unsafe extern "C" fn fstat(fd: c_int, st: *mut u8) -> c_int {
    pt("fstat");
    let d = match get(fd) { Some(d) => d, None => return errno(EBADF) };
    std::ptr::write_bytes(st, 0, 144);
    let (mode, size) = match &os().descs[d].kind { Kind::Mem { size, .. } => (0o100777u32, *size), Kind::Sock(_) => (0o140777, 0), Kind::Other => (0o020666, 0), _ => (0o600, 0) };
    (st.add(24) as *mut u32).write_unaligned(mode); (st.add(48) as *mut u64).write_unaligned(size); (st.add(56) as *mut u64).write_unaligned(4096);
    0
}
#[no_mangle] pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut u8) -> c_int { fstat(fd, st) }
#[no_mangle] pub unsafe extern "C" fn mmap(addr: *mut c_void, len: usize, prot: c_int, flags: c_int, fd: c_int, off: i64) -> *mut c_void {
    const FAILED: *mut c_void = usize::MAX as *mut c_void;
    if !active() { return sx::raw::sx_raw_syscall(9, addr as i64, len as i64, prot as i64, flags as i64, fd as i64, off) as *mut c_void; }
    pt("mmap"); if fault(ENOMEM) { return FAILED; }
    if flags & 0x20 != 0 { sx::inconclusive("anonymous mapping"); }
    let d = match get(fd) { Some(d) => d, None => { errno(EBADF); return FAILED; } };
    if len == 0 || off & 4095 != 0 { errno(EINVAL); return FAILED; }
    if len > 0x7fff_ffff_f000 { errno(ENOMEM); return FAILED; }
    if off as u64 > u64::MAX - len as u64 - 4096 || off < 0 { errno(EOVERFLOW); return FAILED; }
    let (shm, cap) = match &os().descs[d].kind { Kind::Mem { shm: Some(s), cap, .. } => (*s, *cap), Kind::Mem { shm: None, .. } => { sx::inconclusive("mapping an empty memory object") } Kind::Sock(_) | Kind::Event { .. } | Kind::Epoll { .. } => { errno(19); return FAILED; } _ => { errno(EACCES); return FAILED; } };
    // the part of the mapping the model backs: exact for small lengths
    let capr = (cap + 4095) & !4095;
    let o = if off as u64 >= capr { capr } else { sx::conc(off as u64) };
    let l = if sx::is_symbolic(len as u64) { let rest = capr - o + 4096; if len as u64 <= rest { pages_of(len as u64, rest) } else { rest } } else if len as u64 > CAPB * 2 { CAPB * 2 } else { (len as u64 + 4095) & !4095 };
    let p = if o >= capr { sx::raw::sx_shm_map(shm, capr, l) } else { sx::raw::sx_shm_map(shm, o, l) };
    os().descs[d].refs += 1;
    os().procs[me()].maps.push(MapEnt { addr: p as usize, len, desc: d, off: off as u64 });
    p as *mut c_void
}
fn pages_of(len: u64, max: u64) -> u64 { let mut k = 4096; while k < max { if len <= k { return k; } k += 4096; } max }
#[no_mangle] pub unsafe extern "C" fn munmap(addr: *mut c_void, len: usize) -> c_int {
    if !active() { return sx::raw::sx_raw_syscall(11, addr as i64, len as i64, 0, 0, 0, 0) as i32; }
    pt("munmap");
    if addr as usize & 4095 != 0 || len == 0 { return errno(EINVAL); }
    let p = me(); if !os().procs[p].alive { return 0; }
    let maps = &mut os().procs[p].maps;
    match maps.iter().position(|m| m.addr == addr as usize) {
        Some(i) => {
            let m = maps.remove(i);
            if !same_pages(m.len, len) { sx::fail("unmap", "munmap length does not cover the mapping it releases"); }
            sx::raw::sx_shm_unmap(addr as *mut u8, m.len as u64); put(m.desc); 0
        }
        None => sx::fail("unmap", "munmap of an address that is not the start of a live mapping"),
    }
}
fn same_pages(a: usize, b: usize) -> bool { a == b || (a + 4095) >> 12 == (b + 4095) >> 12 }
pub fn maps(p: usize) -> usize { os().procs[p].maps.len() }
#[no_mangle] pub unsafe extern "C" fn sysconf(n: c_int) -> i64 { match n { 30 => 4096, 84 | 83 => 8, _ => -1 } }
#[no_mangle] pub unsafe extern "C" fn mprotect(_a: *mut c_void, _n: usize, _p: c_int) -> c_int { 0 }
// ---------------------------------------------------------------- time
#[repr(C)] pub struct Ts { s: i64, ns: i64 }
#[no_mangle] pub unsafe extern "C" fn clock_gettime(_c: c_int, t: *mut Ts) -> c_int {
    if !active() { (*t).s = 1; (*t).ns = 0; return 0; }
    (*t).s = os().now.as_secs() as i64; (*t).ns = os().now.subsec_nanos() as i64; 0
}
#[no_mangle] pub unsafe extern "C" fn clock_nanosleep(_c: c_int, flags: c_int, t: *const Ts, _r: *mut Ts) -> c_int {
    pt("clock_nanosleep");
    let d = Duration::new((*t).s as u64, (*t).ns as u32);
    let dl = if flags & 1 != 0 { d } else { os().now.checked_add(d).unwrap_or(Duration::MAX) };
    block(Cond::Sleep, Some(dl), false); 0
}
#[no_mangle] pub unsafe extern "C" fn nanosleep(t: *const Ts, r: *mut Ts) -> c_int { clock_nanosleep(1, 0, t, r) }
#[no_mangle] pub unsafe extern "C" fn sched_yield() -> c_int { if active() { let c = os().cur; for i in 0..os().thr.len() { if i != c && runnable(i) { sched(); break; } } } 0 }
// ---------------------------------------------------------------- futex, random numbers, misc system calls
#[no_mangle] pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if !active() { return if sx::in_engine() { errno(ENOSYS) as i64 } else { let r = sx::raw::sx_raw_syscall(n, a, b, c, d, e, f); if r < 0 && r > -4096 { errno(-r as i32); -1 } else { r } }; }
    match n {
        202 => futex(a as usize, b as i32, c as u32, d as *const Ts, f as u32),
        318 => { let p = std::slice::from_raw_parts_mut(a as *mut u8, b as usize); for x in p.iter_mut() { *x = rnd(); } b }
        186 => os().cur as i64 + 1000,
        _ => { sx::trace("syscall", n as u64); errno(ENOSYS) as i64 }
    }
}
fn rnd() -> u8 { let o = os(); o.rng ^= o.rng << 13; o.rng ^= o.rng >> 7; o.rng ^= o.rng << 17; (o.rng >> 24) as u8 }
#[no_mangle] pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, _f: u32) -> isize { for i in 0..n { *p.add(i) = if active() { rnd() } else { 7 }; } n as isize }
#[no_mangle] pub unsafe extern "C" fn dlsym(_h: *mut c_void, n: *const u8) -> usize {
    let want = b"getrandom\0"; for i in 0..want.len() { if *n.add(i) != want[i] { return 0; } }
    getrandom as *const () as usize
}
unsafe fn futex(addr: usize, op: i32, val: u32, ts: *const Ts, _bits: u32) -> i64 {
    let cmd = op & 0x7f;
    match cmd {
        0 | 9 => {
            if (*(addr as *const std::sync::atomic::AtomicU32)).load(std::sync::atomic::Ordering::SeqCst) != val { return errno(EAGAIN) as i64; }
            let dl = if ts.is_null() { None } else { let d = Duration::new((*ts).s as u64, (*ts).ns as u32); Some(if cmd == 9 { d } else { os().now + d }) };
            let t = os().cur; os().thr[t].futex = addr; os().thr[t].woken = false;
            let r = block(Cond::Futex, dl, false);
            os().thr[t].futex = 0;
            if r == Wake::Timeout { return errno(ETIMEDOUT) as i64; } 0
        }
        1 | 10 => {
            let mut n = 0; for t in os().thr.iter_mut() { if n >= val as i64 { break; } if t.futex == addr && !t.woken && !t.dead { t.woken = true; n += 1; } }
            pt("dlsym"); n
        }
        _ => errno(ENOSYS) as i64,
    }
}
#[no_mangle] pub unsafe extern "C" fn pthread_create(t: *mut usize, _a: *const c_void, start: usize, arg: usize) -> c_int { if !active() { return 11; } let p = me(); *t = spawn_raw(p, start, arg) + 1; pt("pthread_create"); 0 }
#[no_mangle] pub unsafe extern "C" fn pthread_join(t: usize, r: *mut usize) -> c_int { join_thread(t - 1); if !r.is_null() { *r = 0; } 0 }
#[no_mangle] pub unsafe extern "C" fn pthread_detach(_t: usize) -> c_int { 0 }
#[no_mangle] pub unsafe extern "C" fn pthread_self() -> usize { if active() { os().cur + 1 } else { 1 } }
#[no_mangle] pub unsafe extern "C" fn pthread_attr_init(_a: *mut c_void) -> c_int { 0 }
#[no_mangle] pub unsafe extern "C" fn pthread_attr_destroy(_a: *mut c_void) -> c_int { 0 }
#[no_mangle] pub unsafe extern "C" fn pthread_attr_setstacksize(_a: *mut c_void, _n: usize) -> c_int { 0 }
#[no_mangle] pub unsafe extern "C" fn pthread_attr_setguardsize(_a: *mut c_void, _n: usize) -> c_int { 0 }
#[no_mangle] pub unsafe extern "C" fn pthread_getattr_np(_t: usize, _a: *mut c_void) -> c_int { 1 }
#[no_mangle] pub unsafe extern "C" fn pthread_setname_np(_t: usize, _n: *const u8) -> c_int { 0 }
// thread-specific data (destructors run when a thread finishes)
static mut KEYS: usize = 0; static mut KEYD: [usize; 32] = [0; 32]; static mut KEYV: [[usize; 32]; 64] = [[0; 32]; 64];
fn tcur() -> usize { if active() { os().cur } else { 0 } }
#[no_mangle] pub unsafe extern "C" fn pthread_key_create(k: *mut u32, d: usize) -> c_int { if KEYS >= 32 { return EAGAIN; } *k = KEYS as u32; KEYD[KEYS] = d; KEYS += 1; 0 }
#[no_mangle] pub unsafe extern "C" fn pthread_key_delete(k: u32) -> c_int { KEYD[k as usize] = 0; 0 }
#[no_mangle] pub unsafe extern "C" fn pthread_getspecific(k: u32) -> usize { KEYV[tcur()][k as usize] }
#[no_mangle] pub unsafe extern "C" fn pthread_setspecific(k: u32, v: usize) -> c_int { KEYV[tcur()][k as usize] = v; 0 }
unsafe fn run_key_dtors() {
    for _ in 0..4 { let mut any = false; for k in 0..KEYS { let v = KEYV[tcur()][k]; if v != 0 && KEYD[k] != 0 { KEYV[tcur()][k] = 0; any = true; let f: extern "C" fn(usize) = std::mem::transmute(KEYD[k]); f(v); } } if !any { break; } }
}
#[no_mangle] pub unsafe extern "C" fn prctl() -> c_int { 0 }
#[no_mangle] pub unsafe extern "C" fn sigaltstack(_a: *const c_void, _b: *mut c_void) -> c_int { 0 }
#[no_mangle] pub unsafe extern "C" fn getauxval(_t: u64) -> u64 { 0 }
#[no_mangle] pub unsafe extern "C" fn getpid() -> c_int { 4000 + if active() { me() as i32 } else { 0 } }

// ---------------------------------------------------------------- helpers for harnesses
/// create an eventfd owned by the application in process p (its count identifies it)
pub fn app_object(p: usize, mark: u64) -> i32 {
    let o = os(); let was = o.in_lib; o.in_lib = false;
    let d = new_desc(Kind::Event { count: mark, sem: false }); let fd = install(p, d, true);
    os().in_lib = was; fd
}
pub fn alive_objects() -> usize { os().descs.iter().filter(|d| !matches!(d.kind, Kind::Free | Kind::Other)).count() }
pub fn refs(d: DescId) -> usize { os().descs[d].refs }
/// how many sockets are currently listening
/// does process p listen on an address
pub fn listens(p: usize) -> bool { os().procs[p].fds.iter().flatten().any(|e| matches!(&os().descs[e.desc].kind, Kind::Sock(s) if s.st == SockState::Listening)) }
pub fn listeners() -> usize { os().descs.iter().filter(|d| matches!(&d.kind, Kind::Sock(s) if s.st == SockState::Listening)).count() }
/// another descriptor of process p for an existing kernel object, as if it had been passed there
pub fn give(p: usize, d: DescId) -> i32 { install(p, d, true) }
