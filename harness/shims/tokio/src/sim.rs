//! The harness's side: executor, virtual clock, connections.
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
use std::time::Duration;

pub(crate) struct Task {
    pub fut: Option<Pin<Box<dyn Future<Output = ()>>>>,
    pub ready: bool,
    /// The last poll ended in `yield_now`, when `progress` had this value: the task is polled again
    /// once another task (or the clock) has made progress since; in between nothing has changed.
    pub yielded: Option<usize>,
}
pub(crate) struct Timer {
    pub id: u64,
    pub at: Duration,
    pub waker: Waker,
}
pub struct Conn {
    pub to_sut: Vec<u8>,
    pub pos: usize,
    pub from_sut: Vec<u8>,
    /// The peer has closed its sending side: the code under test reads end of file after the data.
    pub eof: bool,
    /// Reads fail with this error once the data is consumed.
    pub read_err: Option<std::io::ErrorKind>,
    pub write_err: Option<std::io::ErrorKind>,
    /// A single read returns at most this many bytes.
    pub max_read: usize,
    /// A single write accepts at most this many bytes.
    pub max_write: usize,
    /// Writes stay pending once this many bytes wait to be taken by the peer.
    pub window: usize,
    pub shutdown: bool,
    pub dropped: bool,
    pub reads: usize,
    /// The greeting of the code under test is still to come.
    pub greet: bool,
    pub(crate) rw: Option<Waker>,
    pub(crate) ww: Option<Waker>,
}
pub(crate) struct Sim {
    pub now: Duration,
    pub tasks: Vec<Task>,
    pub cur: usize,
    pub timers: Vec<Timer>,
    pub next_timer: u64,
    pub conns: Vec<Conn>,
    pub accept: VecDeque<usize>,
    pub accept_waker: Option<Waker>,
    /// Connections the code under test opened (as a client), in order.
    pub opened: Vec<usize>,
    pub refuse: bool,
    /// How long it takes to connect.
    pub delay: Duration,
    /// Connections are secured (see the stand-in for tokio-rustls); the peers' part of that is done here.
    pub tls: bool,
    pub budget: [usize; 3],
    pub polls: usize,
    pub progress: usize,
}
static mut SIM: Option<Sim> = None;
pub(crate) fn sim() -> &'static mut Sim {
    unsafe {
        if SIM.is_none() {
            SIM = Some(Sim {
                now: Duration::from_secs(1000),
                tasks: Vec::new(),
                cur: usize::MAX,
                timers: Vec::new(),
                next_timer: 0,
                conns: Vec::new(),
                accept: VecDeque::new(),
                accept_waker: None,
                opened: Vec::new(),
                refuse: false,
                delay: Duration::ZERO,
                tls: false,
                budget: [0; 3],
                polls: 0,
                progress: 0,
            });
        }
        match SIM.as_mut() {
            Some(s) => s,
            None => std::hint::unreachable_unchecked(),
        }
    }
}

/// Kinds of scheduling decisions.
#[derive(Clone, Copy, PartialEq)]
pub enum Why {
    /// Which runnable task goes next.
    Task,
    /// Which branch `select!` polls first.
    Select,
    /// Which of several timers due at the same instant fires first.
    Timer,
}
/// How many decisions of a kind may differ from the default (the first choice) along one path; every
/// such decision is explored.
pub fn set_budget(w: Why, n: usize) {
    sim().budget[w as usize] = n;
}
pub(crate) fn decide(w: Why, n: usize) -> usize {
    let b = &mut sim().budget[w as usize];
    if n <= 1 || *b == 0 {
        return 0;
    }
    let c = vs::choice(n as u64) as usize;
    if c != 0 {
        *b -= 1;
    }
    c
}

fn raw(i: usize) -> RawWaker {
    fn clone(p: *const ()) -> RawWaker {
        raw(p as usize)
    }
    fn wake(p: *const ()) {
        let i = p as usize;
        let s = sim();
        if i < s.tasks.len() {
            s.tasks[i].ready = true;
        } else {
            unsafe { MAIN_READY = true }
        }
    }
    fn drop(_: *const ()) {}
    static VT: RawWakerVTable = RawWakerVTable::new(clone, wake, wake, drop);
    RawWaker::new(i as *const (), &VT)
}
static mut MAIN_READY: bool = false;
const MAIN: usize = 1 << 40;
fn waker(i: usize) -> Waker {
    unsafe { Waker::from_raw(raw(i)) }
}

pub(crate) fn add_task(f: Pin<Box<dyn Future<Output = ()>>>) -> usize {
    let s = sim();
    s.tasks.push(Task { fut: Some(f), ready: true, yielded: None });
    s.tasks.len() - 1
}
fn poll_task(i: usize) {
    let s = sim();
    let t = &mut s.tasks[i];
    t.ready = false;
    t.yielded = None;
    s.polls += 1;
    if let Some(mut f) = t.fut.take() {
        let w = waker(i);
        let mut cx = Context::from_waker(&w);
        let old = s.cur;
        s.cur = i;
        let r = f.as_mut().poll(&mut cx);
        let s = sim();
        s.cur = old;
        if r.is_pending() {
            s.tasks[i].fut = Some(f);
        }
    }
}
/// Runs tasks until none is runnable.
pub fn run() {
    let mut last = usize::MAX;
    let mut rounds = 0usize;
    loop {
        let s = sim();
        let n = s.tasks.len();
        let mut ready: Vec<usize> = Vec::new();
        // default order: round robin after the task that ran last
        for k in 0..n {
            let i = if last == usize::MAX { k } else { (last + 1 + k) % n };
            if s.tasks[i].ready && s.tasks[i].fut.is_some() {
                ready.push(i);
            }
        }
        if ready.is_empty() {
            let p = sim().progress;
            let y = sim().tasks.iter().position(|t| t.fut.is_some() && t.yielded.is_some_and(|at| at < p));
            match y {
                Some(i) => {
                    poll_task(i);
                    continue;
                }
                None => return,
            }
        }
        rounds += 1;
        sim().progress += 1;
        if rounds > 100_000 {
            vs::fail("the tasks never become idle");
        }
        let k = decide(Why::Task, ready.len());
        last = ready[k];
        poll_task(last);
    }
}
pub fn next_timer() -> Option<Duration> {
    sim().timers.iter().map(|t| t.at).min()
}
/// Lets `d` of virtual time pass, running tasks whenever a timer fires.
pub fn elapse(d: Duration) {
    run();
    let end = sim().now + d;
    loop {
        match next_timer() {
            Some(t) if t <= end => {
                let s = sim();
                if t > s.now {
                    s.now = t;
                }
                s.progress += 1;
                fire();
                run();
            }
            _ => break,
        }
    }
    sim().now = end;
}
fn fire() {
    let s = sim();
    let now = s.now;
    let mut k = 0;
    while k < s.timers.len() {
        if s.timers[k].at <= now {
            let t = s.timers.remove(k);
            t.waker.wake();
        } else {
            k += 1;
        }
    }
}
pub fn now() -> Duration {
    sim().now
}
/// Moves the clock without running anything.
pub fn skip(d: Duration) {
    sim().progress += 1;
    sim().now += d;
}
/// Polls `f` on the harness's own task, running the other tasks in between, until it is ready or
/// nothing can run any more.
pub fn drive<F: Future>(f: F) -> Option<F::Output> {
    let mut f = Box::pin(f);
    loop {
        if let Poll::Ready(v) = poll_once(f.as_mut()) {
            return Some(v);
        }
        run();
        if unsafe { !MAIN_READY } {
            return None;
        }
    }
}
/// As `drive`, letting time pass when nothing is runnable, up to `max`.
pub fn drive_for<F: Future>(f: F, max: Duration) -> Option<F::Output> {
    let mut f = Box::pin(f);
    let end = now() + max;
    loop {
        if let Poll::Ready(v) = poll_once(f.as_mut()) {
            return Some(v);
        }
        run();
        if unsafe { !MAIN_READY } {
            match next_timer() {
                Some(t) if t <= end => {
                    if t > sim().now {
                        sim().now = t;
                    }
                    fire();
                }
                _ => return None,
            }
        }
    }
}
/// One poll of a future of the harness.
pub fn poll_once<F: Future + ?Sized>(f: Pin<&mut F>) -> Poll<F::Output> {
    unsafe { MAIN_READY = false }
    let w = waker(MAIN);
    let mut cx = Context::from_waker(&w);
    f.poll(&mut cx)
}
pub fn main_ready() -> bool {
    unsafe { MAIN_READY }
}
/// Is task `i` finished?
pub fn tasks_alive() -> usize {
    sim().tasks.iter().filter(|t| t.fut.is_some()).count()
}
pub fn polls() -> usize {
    sim().polls
}

pub(crate) fn new_conn() -> usize {
    let s = sim();
    s.conns.push(Conn {
        to_sut: Vec::new(),
        pos: 0,
        from_sut: Vec::new(),
        eof: false,
        read_err: None,
        write_err: None,
        max_read: usize::MAX,
        max_write: usize::MAX,
        window: usize::MAX,
        shutdown: false,
        dropped: false,
        reads: 0,
        greet: false,
        rw: None,
        ww: None,
    });
    s.conns.len() - 1
}
/// The harness's end of a connection.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Peer(pub usize);
impl Peer {
    pub fn conn(self) -> &'static mut Conn {
        &mut sim().conns[self.0]
    }
    /// Bytes become readable for the code under test.
    pub fn send(self, b: &[u8]) {
        let c = self.conn();
        c.to_sut.extend_from_slice(b);
        if let Some(w) = c.rw.take() {
            w.wake();
        }
    }
    pub fn close(self) {
        let c = self.conn();
        c.eof = true;
        if let Some(w) = c.rw.take() {
            w.wake();
        }
    }
    pub fn fail_reads(self, e: std::io::ErrorKind) {
        let c = self.conn();
        c.read_err = Some(e);
        if let Some(w) = c.rw.take() {
            w.wake();
        }
    }
    pub fn fail_writes(self, e: std::io::ErrorKind) {
        let c = self.conn();
        c.write_err = Some(e);
        if let Some(w) = c.ww.take() {
            w.wake();
        }
    }
    /// Takes everything the code under test has written.
    pub fn recv(self) -> Vec<u8> {
        let c = self.conn();
        let mut v = std::mem::take(&mut c.from_sut);
        if c.greet && !v.is_empty() {
            vs::check(v.remove(0) == 0x16, "a secured connection does not start with a TLS handshake");
            c.greet = false;
        }
        if let Some(w) = c.ww.take() {
            w.wake();
        }
        v
    }
    /// The code under test has shut its sending side down or dropped the connection.
    pub fn closed_by_sut(self) -> bool {
        let c = self.conn();
        c.shutdown || c.dropped
    }
    pub fn unread(self) -> usize {
        let c = self.conn();
        c.to_sut.len() - c.pos
    }
}
/// A stream for the code under test and the harness's end of it.
pub fn pair() -> (crate::net::TcpStream, Peer) {
    let i = new_conn();
    (crate::net::TcpStream { id: i }, Peer(i))
}
/// A new inbound connection for the listener of the code under test.
pub fn dial() -> Peer {
    let p = dial_raw();
    greeted(p.0);
    p
}
/// Without the greeting of a secured connection.
pub fn dial_raw() -> Peer {
    let i = new_conn();
    let s = sim();
    s.accept.push_back(i);
    if let Some(w) = s.accept_waker.take() {
        w.wake();
    }
    Peer(i)
}
/// The next `n` calls of accept fail: 0 the connection was aborted, 1 lack of resources.
pub fn fail_accept(n: usize, kind: u64) {
    let s = sim();
    for _ in 0..n {
        s.accept.push_back(usize::MAX - kind as usize);
    }
    if let Some(w) = s.accept_waker.take() {
        w.wake();
    }
}
/// Connections the code under test has opened itself.
pub fn opened() -> Vec<Peer> {
    sim().opened.iter().map(|i| Peer(*i)).collect()
}
pub(crate) fn greeted(i: usize) {
    if sim().tls {
        let c = &mut sim().conns[i];
        c.greet = true;
        c.to_sut.push(0x16);
        if let Some(w) = c.rw.take() {
            w.wake();
        }
    }
}
pub fn set_tls(b: bool) {
    sim().tls = b;
}
pub fn tls() -> bool {
    sim().tls
}
pub fn set_delay(d: Duration) {
    sim().delay = d;
}
pub fn refuse_connections(b: bool) {
    sim().refuse = b;
}

/// std::time::Instant reads the virtual clock.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(_clk: i32, ts: *mut [i64; 2]) -> i32 {
    let n = sim().now;
    unsafe { *ts = [n.as_secs() as i64, n.subsec_nanos() as i64] };
    0
}
/// Some task keeps itself busy instead of waiting for something.
pub fn spinning() -> bool {
    sim().tasks.iter().any(|t| t.fut.is_some() && t.yielded.is_some())
}
