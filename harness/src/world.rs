//! Endpoints, tasks and the deterministic executor that polls a parked task only when it was woken.
use crate::transport::*;
use futures::io::{AsyncRead, AsyncWrite};
use futures::stream::Stream as _;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use yamux::{Config, Connection, ConnectionError, Mode, Stream};

pub struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst)
    }
}

/// A task: a waker of its own and, when its last operation returned Pending, that operation.
pub struct Task {
    flag: Arc<Flag>,
    pub parked: Option<Op>,
}
impl Task {
    pub fn new() -> Self {
        Task { flag: Arc::new(Flag(AtomicBool::new(false))), parked: None }
    }
    pub fn woken(&self) -> bool {
        self.flag.0.load(Ordering::SeqCst)
    }
    fn waker(&self) -> Waker {
        self.flag.0.store(false, Ordering::SeqCst);
        self.flag.clone().into()
    }
    pub fn runnable(&self) -> bool {
        self.parked.is_some() && self.woken()
    }
}

#[derive(Copy, Clone, Debug, PartialEq)]
pub enum Op {
    Rd(usize),
    Rp,
    Wr(usize),
    Fl,
    Cl,
    Open,
    Poll,
    CClose,
}

pub struct St {
    pub s: Option<Stream>,
    pub rt: Task,
    pub wt: Task,
    pub outbound: bool,
    pub wclosed: bool,
    pub werr: bool,
    pub reof: bool,
    pub nread: u64,
    pub nwritten: u64,
    /// pair mode: what the application intends
    pub wgoal: u64,
    pub wclose: bool,
    pub chunk: usize,
    pub keep: bool,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub server: bool,
    pub maxs: usize,
    pub maxc: Option<usize>,
    pub rac: bool,
    pub split: usize,
}

pub struct Ep {
    pub id: u8,
    pub cfg: Cfg,
    pub conn: Option<Connection<Socket>>,
    pub tr: Rc<RefCell<Tr>>,
    pub log: LogRef,
    pub st: BTreeMap<u32, St>,
    pub d: Task,
    pub o: Task,
    pub c: Task,
    pub dended: bool,
    pub cdone: bool,
    pub wpos: BTreeMap<u32, u64>,
    pub rpos: BTreeMap<u32, Vec<u64>>,
    pub dead: bool,
    pub opened: Vec<u32>,
    pub accepted: Vec<u32>,
    /// Once the application closes the connection, driver, opener and closer count as one task
    /// (they all drive the same flush and the transport remembers one waker).
    pub shared: bool,
    /// bytes on their way to this endpoint that have not arrived yet
    pub stage: std::collections::VecDeque<u8>,
    pub autodlv: bool,
    pub injpos: BTreeMap<u32, u64>,
    /// Where the call of the running stream operation or open goes, once another task ran during it.
    call_at: Option<usize>,
    pub pair: bool,
}

/// Another task's step, to be run at a scheduling point of the operation being executed.
struct Race {
    ep: *mut Ep,
    left: u64,
    step: String,
    /// the operation being executed is the driver's (or the closer's)
    driver: bool,
    /// how many locks the operation may hold meanwhile
    held: usize,
}
thread_local! {
    static RACE: RefCell<Option<Race>> = const { RefCell::new(None) };
    static NESTED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Called at every scheduling point: lock operations of the code under test, calls into the transport.
pub fn sched_point(held: usize) {
    let r = RACE.with(|x| {
        let mut x = x.borrow_mut();
        match x.as_mut() {
            Some(r) if !r.ep.is_null() && held <= r.held => {
                if r.left == 0 {
                    x.take()
                } else {
                    r.left -= 1;
                    None
                }
            }
            _ => None,
        }
    });
    if let Some(r) = r {
        // SAFETY: set by `guard` from its `self`, which is not used until the guarded call returns
        let e = unsafe { &mut *r.ep };
        e.interleave(&r)
    }
}

/// Ways to read `b` as pieces of the received frames, in order: a piece ends where its frame ends, except
/// the last one (with `strict` that one, too). Up to `want` solutions are added to `found`.
fn find(b: &[u8], data: &[u8], frames: &[(u64, u64)], start: u64, strict: bool, want: usize, found: &mut Vec<Vec<(i64, usize)>>) {
    let first = frames.partition_point(|f| f.0 + f.1 <= start);
    // path: (bytes matched before, frame, offset in it); cand: what to try next
    let mut path: Vec<(usize, usize, u64)> = vec![];
    let mut cand = (0usize, first, frames.get(first).map(|f| start.saturating_sub(f.0)).unwrap_or(0));
    for _ in 0..300_000 {
        let (i, j, off) = cand;
        if j >= frames.len() {
            match path.pop() {
                None => return,
                Some((i, j, _)) => {
                    cand = (i, j + 1, 0);
                    continue;
                }
            }
        }
        let p = (frames[j].0 + off) as usize;
        let left = (frames[j].1 - off) as usize;
        let m = left.min(b.len() - i);
        if m > 0 && data[p..p + m] == b[i..i + m] {
            if i + m < b.len() {
                path.push(cand);
                cand = (i + m, j + 1, 0);
                continue;
            }
            if !strict || m == left {
                let mut runs: Vec<(i64, usize)> = vec![];
                for (k, &(i0, j, off)) in path.iter().chain(std::iter::once(&cand)).enumerate() {
                    let p = frames[j].0 + off;
                    let end = path.get(k + 1).map(|x| x.0).unwrap_or(if k + 1 == path.len() { i } else { b.len() });
                    match runs.last_mut() {
                        Some(r) if r.0 + r.1 as i64 == p as i64 => r.1 += end - i0,
                        _ => runs.push((p as i64, end - i0)),
                    }
                }
                if !found.contains(&runs) {
                    found.push(runs)
                }
                if found.len() >= want {
                    return;
                }
            }
        }
        cand = (i, j + 1, 0);
    }
}

pub struct World {
    pub eps: Vec<Ep>,
    pub pair: bool,
    pub steps: Arc<Mutex<Vec<String>>>,
}

fn kind(e: &ConnectionError) -> &'static str {
    match e {
        ConnectionError::Io(_) => "io",
        ConnectionError::Decode(_) => "decode",
        ConnectionError::NoMoreStreamIds => "noids",
        ConnectionError::Closed => "closed",
        ConnectionError::TooManyStreams => "toomany",
        ConnectionError::InvalidWindowUpdate => "window",
        _ => "other",
    }
}

impl Ep {
    pub fn new(id: u8, peer: u8, cfg: Cfg) -> Option<Ep> {
        let log: LogRef = Default::default();
        let mut c = Config::default();
        c.set_max_connection_receive_window(None);
        c.set_max_num_streams(cfg.maxs);
        c.set_max_connection_receive_window(cfg.maxc);
        c.set_read_after_close(cfg.rac);
        c.set_split_send_size(cfg.split);
        let tr = Rc::new(RefCell::new(Tr::new(id, log.clone())));
        let _ = peer;
        log.borrow_mut().ev.push(format!(
            r#"{{"e":"cfg","srv":{},"maxs":{},"maxc":{},"rac":{},"split":{}}}"#,
            cfg.server,
            cfg.maxs,
            cfg.maxc.map(|x| x.min(1 << 30) as i64).unwrap_or(-1),
            cfg.rac,
            cfg.split.min(1 << 30)
        ));
        let mode = if cfg.server { Mode::Server } else { Mode::Client };
        let conn = Connection::new(Socket(tr.clone()), c, mode);
        let d = Task::new();
        Some(Ep {
            id,
            cfg,
            conn: Some(conn),
            tr,
            log,
            st: BTreeMap::new(),
            d,
            o: Task::new(),
            c: Task::new(),
            dended: false,
            cdone: false,
            wpos: BTreeMap::new(),
            rpos: BTreeMap::new(),
            dead: false,
            opened: vec![],
            accepted: vec![],
            shared: false,
            stage: Default::default(),
            autodlv: true,
            injpos: BTreeMap::new(),
            call_at: None,
            pair: false,
        })
    }
    pub fn ev(&self, s: String) {
        self.log.borrow_mut().push(s)
    }
    /// Run an operation of the code under test; `f` must not touch `self`: other tasks may run meanwhile.
    fn guard<R>(&mut self, what: &str, driver: bool, f: impl FnOnce() -> R) -> Option<R> {
        self.log.borrow_mut().calls = 0;
        let ep: *mut Ep = self;
        RACE.with(|x| {
            if let Some(r) = x.borrow_mut().as_mut() {
                if r.ep.is_null() {
                    r.ep = ep;
                    r.driver = driver;
                }
            }
        });
        let r = catch_unwind(AssertUnwindSafe(f));
        RACE.with(|x| {
            if let Some(r) = x.borrow_mut().as_mut() {
                // the operation had fewer scheduling points: the other task runs after it
                r.ep = std::ptr::null_mut()
            }
        });
        match r {
            Ok(r) => Some(r),
            Err(p) => {
                if !NESTED.get() {
                    parking_lot::deadlock::forget_held()
                }
                let msg = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                let msg: String = msg
                    .chars()
                    .filter(|c| c.is_ascii_alphanumeric() || " :_-.".contains(*c))
                    .take(120)
                    .collect();
                if NESTED.get() && msg == "lock taken twice by one thread" {
                    // this task would have had to wait for the other one: not a possible schedule
                    self.log.borrow_mut().frozen = true
                }
                self.ev(format!(r#"{{"e":"panic","in":"{what}","m":"{msg}"}}"#));
                self.die();
                None
            }
        }
    }
    /// Run `outer` with `inner` (steps of other tasks of this endpoint, separated by `/`) at its `k`-th scheduling point.
    pub fn race(&mut self, k: u64, held: usize, outer: &[&str], inner: &str) {
        RACE.with(|x| *x.borrow_mut() = Some(Race { ep: std::ptr::null_mut(), left: k, step: inner.to_string(), driver: false, held }));
        self.step(outer);
        let left = RACE.with(|x| x.borrow_mut().take());
        if self.dead {
            parking_lot::deadlock::forget_held()
        }
        if left.is_some() {
            self.steps(inner)
        }
    }
    fn steps(&mut self, s: &str) {
        for x in s.split('/') {
            self.step(&x.split_whitespace().collect::<Vec<_>>())
        }
    }
    fn interleave(&mut self, r: &Race) {
        // what the operation does in the end is recorded here, where it started at the latest
        let mut floating = !r.driver;
        let start;
        {
            let mut l = self.log.borrow_mut();
            start = l.ev.len() - r.driver as usize;
            if r.driver {
                // the driver may not have acted yet on what it saw last
                let last = l.ev.last_mut().unwrap();
                if ["rx", "rxeof", "rxerr", "rxbad", "werr", "c0", "dc"].iter().any(|k| last.starts_with(&format!(r#"{{"e":"{k}""#))) {
                    *last = format!(r#"{{"e":"call","op":{last}}}"#);
                    floating = true;
                }
            } else {
                self.call_at = Some(l.ev.len());
                l.ev.push(String::new());
            }
        }
        let calls = self.log.borrow().calls;
        let at = self.call_at.take();
        NESTED.set(true);
        self.steps(&r.step);
        NESTED.set(false);
        self.call_at = at;
        if self.log.borrow().frozen {
            self.log.borrow_mut().ev.truncate(start);
            return;
        }
        self.log.borrow_mut().calls = calls;
        if r.driver && floating && !self.dead {
            self.ev(r#"{"e":"ret"}"#.into());
        }
    }
    /// The result of the operation being executed (its last event), recorded at its call.
    fn settle(&mut self) {
        if let Some(i) = self.call_at.take() {
            let mut l = self.log.borrow_mut();
            let n = l.ev.len();
            if l.frozen {
            } else if n > i + 1 && !l.ev[n - 1].starts_with(r#"{"e":"panic""#) {
                let op = l.ev.pop().unwrap();
                l.ev[i] = format!(r#"{{"e":"call","op":{op}}}"#);
                l.ev.push(r#"{"e":"ret"}"#.into());
            } else {
                l.ev[i] = r#"{"e":"adv","n":0}"#.into();
            }
        }
    }
    /// After a panic nothing of this endpoint is touched again (not even dropped).
    fn die(&mut self) {
        self.dead = true;
        if let Some(c) = self.conn.take() {
            std::mem::forget(c)
        }
        for (_, s) in self.st.iter_mut() {
            if let Some(s) = s.s.take() {
                std::mem::forget(s)
            }
        }
    }
    pub fn driver_runnable(&self) -> bool {
        !self.dead && self.conn.is_some() && !self.dended && (self.d.parked.is_none() || self.d.woken())
    }
    fn add(&mut self, s: Stream, outbound: bool) {
        let id = s.id().val();
        if outbound {
            self.opened.push(id)
        } else {
            self.accepted.push(id)
        }
        if let Some(old) = self.st.remove(&id) {
            // a duplicate handle: the specification flags it; end the run here
            if old.s.is_some() {
                self.ev(format!(r#"{{"e":"dup","s":{}}}"#, sidn(id)));
                std::mem::forget(old.s);
                std::mem::forget(s);
                self.die();
                return;
            }
        }
        self.st.insert(
            id,
            St {
                s: Some(s),
                rt: Task::new(),
                wt: Task::new(),
                outbound,
                wclosed: false,
                werr: false,
                reof: false,
                nread: 0,
                nwritten: 0,
                wgoal: 0,
                wclose: false,
                chunk: 0,
                keep: true,
            },
        );
    }
    fn share(&mut self) {
        if self.shared {
            self.c.flag.0.store(true, Ordering::SeqCst)
        }
    }
    /// Poll the driver once.
    pub fn poll_driver(&mut self) {
        if self.dead || self.conn.is_none() {
            return;
        }
        if self.d.parked.is_some() && !self.d.woken() {
            return;
        }
        self.ev(r#"{"e":"p0"}"#.into());
        let w = self.d.waker();
        let r = self.with_conn("poll_next_inbound", true, |c| c.poll_next_inbound(&mut Context::from_waker(&w)));
        let Some(r) = r else { return };
        let wb = self.tr.borrow().wb;
        match r {
            Poll::Pending => {
                self.d.parked = Some(Op::Poll);
                self.ev(format!(r#"{{"e":"p1","r":"pend","s":0,"wb":{wb}}}"#));
            }
            Poll::Ready(None) => {
                self.d.parked = None;
                self.dended = true;
                self.share();
                self.ev(format!(r#"{{"e":"p1","r":"none","s":0,"wb":{wb}}}"#));
            }
            Poll::Ready(Some(Err(e))) => {
                self.d.parked = None;
                self.dended = true;
                self.share();
                self.ev(format!(r#"{{"e":"p1","r":"err","k":"{}","s":0,"wb":{wb}}}"#, kind(&e)));
            }
            Poll::Ready(Some(Ok(s))) => {
                self.d.parked = None;
                self.ev(format!(r#"{{"e":"p1","r":"stream","s":{},"wb":{wb}}}"#, sidn(s.id().val())));
                self.add(s, false);
            }
        }
    }
    pub fn open(&mut self) {
        if self.dead || self.conn.is_none() || (self.o.parked.is_some() && !self.o.woken()) {
            return;
        }
        self.ev(r#"{"e":"o0"}"#.into());
        let w = self.o.waker();
        let r = self.with_conn("poll_new_outbound", false, |c| c.poll_new_outbound(&mut Context::from_waker(&w)));
        let Some(r) = r else { return self.settle() };
        self.o.parked = None;
        match r {
            Poll::Pending => {
                self.o.parked = Some(Op::Open);
                self.ev(r#"{"e":"o1","r":"pend","s":0}"#.into());
            }
            Poll::Ready(Err(e)) => {
                self.share();
                self.ev(format!(r#"{{"e":"o1","r":"err","k":"{}","s":0}}"#, kind(&e)));
            }
            Poll::Ready(Ok(s)) => {
                self.ev(format!(r#"{{"e":"o1","r":"ok","s":{}}}"#, sidn(s.id().val())));
                self.add(s, true);
            }
        }
        self.settle()
    }
    fn with_conn<R>(&mut self, what: &str, driver: bool, f: impl FnOnce(&mut Connection<Socket>) -> R) -> Option<R> {
        let mut c = self.conn.take().unwrap();
        let r = self.guard(what, driver, || f(&mut c));
        if self.dead {
            std::mem::forget(c);
            return None;
        }
        self.conn = Some(c);
        r
    }
    fn with_stream<R>(&mut self, sid: u32, what: &str, f: impl FnOnce(Pin<&mut Stream>) -> R) -> Option<R> {
        let mut s = self.st.get_mut(&sid).unwrap().s.take().unwrap();
        let r = self.guard(what, false, || f(Pin::new(&mut s)));
        match self.st.get_mut(&sid) {
            Some(st) if !self.dead => st.s = Some(s),
            _ => {
                std::mem::forget(s);
                return None;
            }
        }
        r
    }
    pub fn cclose(&mut self) {
        if self.dead || self.conn.is_none() || (self.c.parked.is_some() && !self.c.woken()) {
            return;
        }
        self.ev(r#"{"e":"c0"}"#.into());
        if !self.shared {
            self.shared = true;
            self.d.flag = self.c.flag.clone();
            self.o.flag = self.c.flag.clone();
        }
        let w = self.c.waker();
        let r = self.with_conn("poll_close", true, |c| c.poll_close(&mut Context::from_waker(&w)));
        let Some(r) = r else { return };
        self.c.parked = None;
        match r {
            Poll::Pending => {
                self.c.parked = Some(Op::CClose);
                self.ev(r#"{"e":"c1","r":"pend"}"#.into());
            }
            Poll::Ready(Err(e)) => {
                self.cdone = true;
                self.share();
                self.ev(format!(r#"{{"e":"c1","r":"err","k":"{}"}}"#, kind(&e)));
            }
            Poll::Ready(Ok(())) => {
                self.cdone = true;
                self.share();
                self.ev(r#"{"e":"c1","r":"ok"}"#.into());
            }
        }
    }
    pub fn dropconn(&mut self) {
        if self.dead || self.conn.is_none() {
            return;
        }
        self.ev(r#"{"e":"dc"}"#.into());
        let c = self.conn.take();
        self.guard("drop(Connection)", true, || drop(c));
        self.d.parked = None;
        self.o.parked = None;
        self.c.parked = None;
        self.dended = true;
    }
    pub fn dropstream(&mut self, sid: u32) {
        if self.dead {
            return;
        }
        let Some(st) = self.st.get_mut(&sid) else { return };
        let Some(s) = st.s.take() else { return };
        self.ev(format!(r#"{{"e":"dr","s":{}}}"#, sidn(sid)));
        self.guard("drop(Stream)", true, || drop(s));
        self.st.remove(&sid);
    }
    pub fn query(&mut self, sid: u32) {
        if self.dead {
            return;
        }
        if self.st.get(&sid).and_then(|s| s.s.as_ref()).is_none() {
            return;
        }
        let r = self.with_stream(sid, "is_closed", |s| (s.is_closed(), s.is_write_closed(), s.is_pending_ack()));
        if let Some((c, w, a)) = r {
            self.ev(format!(r#"{{"e":"q","s":{},"c":{c},"w":{w},"a":{a}}}"#, sidn(sid)));
        }
    }
    /// Decode what the application read into runs of positions in what was received; for a few bytes,
    /// which may be found in several places, also the alternatives. `short`: the read emptied the buffer.
    fn decode(&mut self, sid: u32, b: &[u8], short: bool) -> (String, String) {
        if b.is_empty() {
            return ("[]".into(), "[]".into());
        }
        let starts = self.rpos.get(&sid).cloned().unwrap_or(vec![0]);
        let tr = self.tr.borrow();
        let (none, nof) = (vec![], vec![]);
        let data = tr.rxdata.get(&sid).unwrap_or(&none);
        let frames = tr.rxframes.get(&sid).unwrap_or(&nof);
        let mut found: Vec<Vec<(i64, usize)>> = vec![];
        let want = if b.len() < 8 { 6 } else { 1 };
        for s in &starts {
            for strict in [true, false] {
                if (strict || found.is_empty()) && found.len() < want {
                    find(b, data, frames, *s, strict && short, want, &mut found)
                }
            }
        }
        if found.is_empty() {
            // out of order or unknown: describe it as well as possible
            let mut runs = vec![];
            let mut i = 0;
            while i < b.len() {
                let run = |p: u64| data[data.len().min(p as usize)..].iter().zip(&b[i..]).take_while(|(x, y)| x == y).count();
                let best = starts.iter().copied().chain(frames.iter().map(|f| f.0)).map(|p| (run(p), p)).max_by_key(|x| x.0);
                match best {
                    Some((n, p)) if n >= 8.min(b.len() - i) => {
                        runs.push((p as i64, n));
                        i += n
                    }
                    _ => {
                        runs.push((-1, b.len() - i));
                        i = b.len()
                    }
                }
            }
            found.push(runs)
        }
        let mut ends: Vec<u64> = vec![];
        for f in &found {
            let e = f.last().map(|r| (r.0.max(0) as u64) + r.1 as u64).unwrap_or(0);
            if !ends.contains(&e) {
                ends.push(e)
            }
        }
        drop(tr);
        self.rpos.insert(sid, ends);
        let text = |f: &Vec<(i64, usize)>| format!("[{}]", f.iter().map(|(p, n)| format!("[{p},{n}]")).collect::<Vec<_>>().join(","));
        let alt: Vec<String> = found[1..].iter().map(text).collect();
        (text(&found[0]), format!("[{}]", alt.join(",")))
    }
    /// Run one operation of a stream's reader (Rd, Rp) or writer (Wr, Fl, Cl) half.
    pub fn sop(&mut self, sid: u32, op: Op) -> Option<Poll<i64>> {
        if self.dead {
            return None;
        }
        let st = self.st.get_mut(&sid)?;
        st.s.as_ref()?;
        let rd = matches!(op, Op::Rd(_) | Op::Rp);
        let t = if rd { &mut st.rt } else { &mut st.wt };
        let mut op = op;
        if let Some(p) = t.parked {
            if !t.woken() {
                return None;
            }
            op = p;
        }
        t.parked = None;
        let w = t.waker();
        let n = sidn(sid);
        let res: Poll<i64>;
        match op {
            Op::Rd(k) => {
                let mut buf = vec![0u8; k];
                let r = self.with_stream(sid, "poll_read", |s| s.poll_read(&mut Context::from_waker(&w), &mut buf));
                let Some(r) = r else { return self.gone() };
                res = self.rd_result(sid, "b", k, r.map(|r| r.map(|m| Some(buf[..m.min(k)].to_vec()))));
            }
            Op::Rp => {
                let r = self.with_stream(sid, "poll_next", |s| s.poll_next(&mut Context::from_waker(&w)));
                let Some(r) = r else { return self.gone() };
                let r = r.map(|o| match o {
                    None => Ok(None),
                    Some(Ok(p)) => Ok(Some(p.as_ref().to_vec())),
                    Some(Err(e)) => Err(e),
                });
                res = self.rd_result(sid, "p", 0, r);
            }
            Op::Wr(k) => {
                let pos = *self.wpos.get(&sid).unwrap_or(&0);
                let buf = content_vec(self.id, sid, pos, k);
                let r = self.with_stream(sid, "poll_write", |s| s.poll_write(&mut Context::from_waker(&w), &buf));
                let Some(r) = r else { return self.gone() };
                let st = self.st.get_mut(&sid).unwrap();
                match r {
                    Poll::Pending => {
                        res = Poll::Pending;
                        self.ev(format!(r#"{{"e":"wr","s":{n},"k":{k},"r":"pend","n":0,"p":{pos}}}"#));
                    }
                    Poll::Ready(Err(_)) => {
                        st.werr = true;
                        res = Poll::Ready(-1);
                        self.ev(format!(r#"{{"e":"wr","s":{n},"k":{k},"r":"err","n":0,"p":{pos}}}"#));
                    }
                    Poll::Ready(Ok(m)) => {
                        st.nwritten += m as u64;
                        self.wpos.insert(sid, pos + m as u64);
                        res = Poll::Ready(m as i64);
                        self.ev(format!(r#"{{"e":"wr","s":{n},"k":{k},"r":"ok","n":{m},"p":{pos}}}"#));
                    }
                }
            }
            Op::Fl | Op::Cl => {
                let what = if op == Op::Fl { "fl" } else { "cl" };
                let r = self.with_stream(sid, what, |s| {
                    let mut cx = Context::from_waker(&w);
                    if op == Op::Fl {
                        s.poll_flush(&mut cx)
                    } else {
                        s.poll_close(&mut cx)
                    }
                });
                let Some(r) = r else { return self.gone() };
                let st = self.st.get_mut(&sid).unwrap();
                let k = match r {
                    Poll::Pending => {
                        res = Poll::Pending;
                        "pend"
                    }
                    Poll::Ready(Ok(())) => {
                        if op == Op::Cl {
                            st.wclosed = true
                        }
                        res = Poll::Ready(0);
                        "ok"
                    }
                    Poll::Ready(Err(_)) => {
                        st.werr = true;
                        res = Poll::Ready(-1);
                        "err"
                    }
                };
                self.ev(format!(r#"{{"e":"{what}","s":{n},"r":"{k}"}}"#));
            }
            _ => return None,
        }
        if res.is_pending() {
            let st = self.st.get_mut(&sid).unwrap();
            let t = if rd { &mut st.rt } else { &mut st.wt };
            t.parked = Some(op);
        }
        self.settle();
        Some(res)
    }
    fn gone(&mut self) -> Option<Poll<i64>> {
        self.settle();
        None
    }
    fn rd_result(&mut self, sid: u32, m: &str, k: usize, r: Poll<std::io::Result<Option<Vec<u8>>>>) -> Poll<i64> {
        let n = sidn(sid);
        match r {
            Poll::Pending => {
                self.ev(format!(r#"{{"e":"rd","s":{n},"m":"{m}","k":{k},"r":"pend","n":0,"g":[]}}"#));
                Poll::Pending
            }
            Poll::Ready(Err(_)) => {
                self.st.get_mut(&sid).unwrap().reof = true;
                self.ev(format!(r#"{{"e":"rd","s":{n},"m":"{m}","k":{k},"r":"err","n":0,"g":[]}}"#));
                Poll::Ready(-1)
            }
            Poll::Ready(Ok(None)) => {
                self.st.get_mut(&sid).unwrap().reof = true;
                self.ev(format!(r#"{{"e":"rd","s":{n},"m":"{m}","k":{k},"r":"eof","n":0,"g":[]}}"#));
                Poll::Ready(0)
            }
            Poll::Ready(Ok(Some(b))) if b.is_empty() && m == "b" => {
                self.st.get_mut(&sid).unwrap().reof = true;
                self.ev(format!(r#"{{"e":"rd","s":{n},"m":"{m}","k":{k},"r":"eof","n":0,"g":[]}}"#));
                Poll::Ready(0)
            }
            Poll::Ready(Ok(Some(b))) => {
                let (g, ga) = self.decode(sid, &b, m == "p" || b.len() < k);
                self.st.get_mut(&sid).unwrap().nread += b.len() as u64;
                self.ev(format!(
                    r#"{{"e":"rd","s":{n},"m":"{m}","k":{k},"r":"data","n":{},"g":{g},"ga":{ga}}}"#,
                    b.len()
                ));
                Poll::Ready(b.len() as i64)
            }
        }
    }
    /// The task waiting in a call moves: the call is polled again with a new waker, as another task does.
    pub fn migrate(&mut self, who: &str, sid: u32) {
        if self.dead {
            return;
        }
        let fresh = || Arc::new(Flag(AtomicBool::new(true)));
        match who {
            "r" | "w" => {
                let Some(st) = self.st.get_mut(&sid) else { return };
                let t = if who == "r" { &mut st.rt } else { &mut st.wt };
                if t.parked.is_none() || st.s.is_none() {
                    return;
                }
                t.flag = fresh();
                self.sop(sid, if who == "r" { Op::Rp } else { Op::Fl });
            }
            _ if self.shared => {}
            "d" => {
                if self.d.parked.is_some() {
                    self.d.flag = fresh();
                    self.poll_driver()
                }
            }
            "o" => {
                if self.o.parked.is_some() {
                    self.o.flag = fresh();
                    self.open()
                }
            }
            _ => {}
        }
    }
    /// A waiting call is given up (its future is dropped).
    pub fn cancel(&mut self, who: &str, sid: u32) {
        match who {
            "r" | "w" => {
                if let Some(st) = self.st.get_mut(&sid) {
                    let t = if who == "r" { &mut st.rt } else { &mut st.wt };
                    t.parked = None
                }
            }
            "o" if !self.shared => self.o.parked = None,
            _ => {}
        }
    }
    /// The parked tasks of this endpoint.
    pub fn parked(&self) -> Vec<(&'static str, u32)> {
        let mut v = vec![];
        if self.dead {
            return v;
        }
        if self.o.parked.is_some() {
            v.push(("o", 0))
        }
        if self.c.parked.is_some() {
            v.push(("cc", 0))
        }
        for (id, s) in &self.st {
            if s.s.is_none() {
                continue;
            }
            if s.rt.parked.is_some() {
                v.push(("r", *id))
            }
            match s.wt.parked {
                Some(Op::Wr(_)) => v.push(("w", *id)),
                Some(Op::Fl) => v.push(("f", *id)),
                Some(Op::Cl) => v.push(("c", *id)),
                _ => {}
            }
        }
        v
    }
    /// Poll one runnable task (index modulo the number of runnable ones); false if there is none.
    pub fn run_one(&mut self, pick: usize) -> bool {
        let v = self.runnable();
        if v.is_empty() {
            return false;
        }
        match v[pick % v.len()] {
            (0, _) => self.poll_driver(),
            (1, _) => self.open(),
            (2, _) => self.cclose(),
            (3, s) => {
                self.sop(s, Op::Rp);
            }
            (_, s) => {
                self.sop(s, Op::Fl);
            }
        }
        true
    }
    pub fn runnable(&self) -> Vec<(u8, u32)> {
        let mut v = vec![];
        if self.dead {
            return v;
        }
        if self.driver_runnable() {
            v.push((0, 0))
        }
        if self.o.runnable() {
            v.push((1, 0))
        }
        if self.c.runnable() {
            v.push((2, 0))
        }
        for (id, s) in &self.st {
            if s.s.is_none() {
                continue;
            }
            if s.rt.runnable() {
                v.push((3, *id))
            }
            if s.wt.runnable() {
                v.push((4, *id))
            }
        }
        v
    }
    /// Poll woken tasks until none is left, then log the quiescent state. With `races` another task runs
    /// during about half of the polls.
    pub fn quiesce(&mut self, seed: u64, races: bool) {
        let mut x = seed | 1;
        let mut n = 0u64;
        loop {
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let p = (x >> 33) as usize;
            if races && self.runnable().len() > 1 && p % 2 == 0 {
                let outer = ((p >> 1) % 4096).to_string();
                let mut i = (p >> 13) % 4096;
                let mut inner = format!("run {i}");
                while i % 3 == 0 && i > 0 {
                    i /= 3;
                    inner += &format!(" / run {i}")
                }
                self.race(((p >> 25) % 24) as u64 >> ((p >> 29) % 4), 0, &["run", &outer], &inner)
            } else if !self.run_one(p) {
                break;
            }
            n += 1;
            if n > 200_000 {
                self.ev(r#"{"e":"panic","in":"quiesce","m":"tasks keep waking each other without end"}"#.into());
                self.die();
                return;
            }
        }
        self.qevent();
    }
    pub fn qevent(&mut self) {
        if self.dead {
            return;
        }
        let p: Vec<String> = self
            .parked()
            .iter()
            .map(|(k, s)| format!(r#"{{"k":"{k}","s":{}}}"#, sidn(*s)))
            .collect();
        let d = if self.conn.is_none() {
            "none"
        } else if self.dended {
            "ended"
        } else {
            "parked"
        };
        let t = self.tr.borrow();
        let rx = t.inb.len() + ((t.eof || t.rerr) && !t.rxdead) as usize;
        let s = format!(
            r#"{{"e":"Q","d":"{d}","wb":{},"fb":{},"cb":{},"rx":{},"uf":{},"pk":[{}]}}"#,
            t.wb,
            t.fb,
            t.cb,
            if t.rxdead { 0 } else { rx.min(1 << 30) },
            t.unfl.min(1 << 30),
            p.join(",")
        );
        drop(t);
        self.ev(s);
    }
    pub fn handles(&self) -> Vec<u32> {
        self.st.iter().filter(|(_, s)| s.s.is_some()).map(|(k, _)| *k).collect()
    }
    /// End of a run: drop what is left (inside the panic guard) without logging further.
    pub fn teardown(&mut self) {
        if self.dead {
            return;
        }
        let n = self.log.borrow().ev.len();
        let c = self.conn.take();
        let st = std::mem::take(&mut self.st);
        self.guard("teardown", true, || drop((c, st)));
        let mut l = self.log.borrow_mut();
        if l.ev.len() > n && !l.ev.last().unwrap().contains(r#""e":"panic""#) {
            l.ev.truncate(n);
        }
    }
}
