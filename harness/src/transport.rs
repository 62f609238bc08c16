//! The simulated transport: every byte crossing it is under the control of the harness, and both
//! directions are parsed independently of the code under test into frame events.
use futures::io::{AsyncRead, AsyncWrite};
use std::cell::RefCell;
use std::collections::{BTreeMap, VecDeque};
use std::io;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

/// Payload byte at position `pos` of what endpoint `ep` writes on stream `sid`.
pub fn content(ep: u8, sid: u32, pos: u64) -> u8 {
    // neighbouring bytes differ, blocks of 256 bytes start at unrelated values
    let mut x = (pos >> 8) ^ ((sid as u64) << 28) ^ ((ep as u64 + 1) << 60);
    x = x.wrapping_add(1).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    x ^= x >> 29;
    x = x.wrapping_mul(0xBF58_476D_1CE4_E5B9);
    ((x >> 40) as u8).wrapping_add(pos as u8)
}
pub fn content_vec(ep: u8, sid: u32, pos: u64, n: usize) -> Vec<u8> {
    (0..n as u64).map(|i| content(ep, sid, pos + i)).collect()
}

pub fn now_ms() -> u64 {
    web_time::verif_now().as_millis() as u64
}

/// The event log of one endpoint.
#[derive(Default)]
pub struct Log {
    pub ev: Vec<String>,
    pub calls: u64,
    /// Nothing more is recorded.
    pub frozen: bool,
}
impl Log {
    pub fn push(&mut self, s: String) {
        if !self.frozen {
            self.ev.push(s)
        }
    }
}
pub type LogRef = Rc<RefCell<Log>>;

#[derive(Clone, Debug, Default)]
pub struct FrameHdr {
    pub ty: u8,
    pub fl: u16,
    pub sid: u32,
    pub len: u32,
}

/// Incremental frame parser.
#[derive(Default)]
pub struct Parser {
    hdr: Vec<u8>,
    body: Vec<u8>,
    need: usize,
    pub dead: bool,
}
pub enum Parsed {
    Frame(FrameHdr, Vec<u8>),
    Bad(FrameHdr, &'static str),
}
impl Parser {
    pub fn boundary(&self) -> bool {
        self.hdr.is_empty()
    }
    pub fn push(&mut self, b: &[u8], out: &mut Vec<Parsed>) {
        let mut i = 0;
        while i < b.len() && !self.dead {
            if self.hdr.len() < 12 {
                let k = (12 - self.hdr.len()).min(b.len() - i);
                self.hdr.extend_from_slice(&b[i..i + k]);
                i += k;
                if self.hdr.len() < 12 {
                    break;
                }
                let h = Self::h(&self.hdr);
                if self.hdr[0] != 0 {
                    self.dead = true;
                    out.push(Parsed::Bad(h, "version"));
                    break;
                }
                if self.hdr[1] > 3 {
                    self.dead = true;
                    out.push(Parsed::Bad(h, "type"));
                    break;
                }
                self.need = if h.ty == 0 { h.len as usize } else { 0 };
                if self.need > 1024 * 1024 {
                    self.dead = true;
                    out.push(Parsed::Bad(h, "big"));
                    break;
                }
                if self.need == 0 {
                    out.push(Parsed::Frame(h, Vec::new()));
                    self.hdr.clear();
                }
            } else {
                let k = (self.need - self.body.len()).min(b.len() - i);
                self.body.extend_from_slice(&b[i..i + k]);
                i += k;
                if self.body.len() == self.need {
                    let h = Self::h(&self.hdr);
                    self.hdr.clear();
                    out.push(Parsed::Frame(h, std::mem::take(&mut self.body)));
                }
            }
        }
    }
    fn h(b: &[u8]) -> FrameHdr {
        FrameHdr {
            ty: b[1],
            fl: u16::from_be_bytes([b[2], b[3]]),
            sid: u32::from_be_bytes([b[4], b[5], b[6], b[7]]),
            len: u32::from_be_bytes([b[8], b[9], b[10], b[11]]),
        }
    }
}

pub fn encode(h: &FrameHdr, body: &[u8]) -> Vec<u8> {
    let mut v = vec![0, h.ty];
    v.extend(h.fl.to_be_bytes());
    v.extend(h.sid.to_be_bytes());
    v.extend(h.len.to_be_bytes());
    v.extend_from_slice(body);
    v
}

/// One end of a transport.
pub struct Tr {
    pub ep: u8,
    pub log: LogRef,
    // receiving side
    pub inb: VecDeque<u8>,
    pub rwaker: Option<Waker>,
    pub rchunk: usize,
    pub rstut: bool,
    rflip: bool,
    pub eof: bool,
    pub rerr: bool,
    pub rxp: Parser,
    pub rxpos: BTreeMap<u32, u64>,
    /// start positions of the data frames received, per stream
    pub rxframes: BTreeMap<u32, Vec<(u64, u64)>>,
    /// their payloads, one after the other
    pub rxdata: BTreeMap<u32, Vec<u8>>,
    pub rxdead: bool,
    // sending side
    pub outq: VecDeque<u8>,
    /// bytes the transport will still accept (None: unlimited)
    pub wbud: Option<u64>,
    /// pair mode: accept at most `cap - outq.len()`
    pub cap: Option<usize>,
    pub keep_out: bool,
    pub wchunk: usize,
    pub wstut: bool,
    wflip: bool,
    pub wwaker: Option<Waker>,
    pub fhold: bool,
    pub chold: bool,
    pub werr: Option<&'static str>,
    /// writing fails after this many more bytes
    pub wcut: Option<(u64, &'static str)>,
    pub ferr: bool,
    pub failed: bool,
    pub wfrom: u64,
    pub closed: bool,
    pub txp: Parser,
    pub txpos: BTreeMap<u32, u64>,
    t0: Option<u64>,
    pub wb: bool,
    pub fb: bool,
    pub cb: bool,
    pub unfl: u64,
    pub written: u64,
    /// frames sent, for the puppet peer
    pub sent: Vec<FrameHdr>,
}

impl Tr {
    /// How many more bytes the peer's end of the transport takes when `n` are waiting there to be read.
    pub fn room(&self, n: usize) -> usize {
        self.cap.map_or(usize::MAX, |c| (c as usize).saturating_sub(n))
    }
    pub fn new(ep: u8, log: LogRef) -> Self {
        Tr {
            ep,
            log,
            inb: VecDeque::new(),
            rwaker: None,
            rchunk: usize::MAX,
            rstut: false,
            rflip: false,
            eof: false,
            rerr: false,
            rxp: Parser::default(),
            rxpos: BTreeMap::new(),
            rxframes: BTreeMap::new(),
            rxdata: BTreeMap::new(),
            rxdead: false,
            outq: VecDeque::new(),
            wbud: None,
            cap: None,
            keep_out: false,
            wchunk: usize::MAX,
            wstut: false,
            wflip: false,
            wwaker: None,
            fhold: false,
            chold: false,
            werr: None,
            wcut: None,
            ferr: false,
            failed: false,
            wfrom: 0,
            closed: false,
            txp: Parser::default(),
            txpos: BTreeMap::new(),
            t0: None,
            wb: false,
            fb: false,
            cb: false,
            unfl: 0,
            written: 0,
            sent: Vec::new(),
        }
    }
    fn tick(&self) {
        let mut l = self.log.borrow_mut();
        l.calls += 1;
        if l.calls > 3_000_000 {
            drop(l);
            panic!("spin: too many transport calls without returning");
        }
    }
    pub fn wake_r(&mut self) {
        if let Some(w) = self.rwaker.take() {
            w.wake()
        }
    }
    pub fn wake_w(&mut self) {
        if let Some(w) = self.wwaker.take() {
            w.wake()
        }
    }
    fn ev(&self, s: String) {
        self.log.borrow_mut().push(s)
    }
    fn rx_bytes(&mut self, b: &[u8]) {
        let mut out = Vec::new();
        self.rxp.push(b, &mut out);
        for p in out {
            match p {
                Parsed::Frame(h, body) => {
                    let mut pos = 0;
                    if h.ty == 0 {
                        let e = self.rxpos.entry(h.sid).or_insert(0);
                        pos = *e;
                        *e += body.len() as u64;
                        self.rxdata.entry(h.sid).or_default().extend_from_slice(&body);
                        self.rxframes.entry(h.sid).or_default().push((pos, body.len() as u64));
                    }
                    self.ev(format!(
                        r#"{{"e":"rx","y":{},"f":{},"s":{},"h":{},"l":{},"p":{}}}"#,
                        h.ty,
                        h.fl,
                        sidn(h.sid),
                        h.len >> 16,
                        h.len & 0xffff,
                        pos
                    ));
                }
                Parsed::Bad(_, why) => {
                    self.rxdead = true;
                    self.ev(format!(r#"{{"e":"rxbad","k":"{why}"}}"#));
                }
            }
        }
    }
    fn tx_bytes(&mut self, b: &[u8]) {
        let mut out = Vec::new();
        self.txp.push(b, &mut out);
        for p in out {
            match p {
                Parsed::Frame(h, body) => {
                    let t0 = self.t0.take().unwrap_or_else(now_ms);
                    let known = match h.ty {
                        0 | 1 => h.fl < 16,
                        2 => h.sid == 0 && (h.fl == 1 || h.fl == 2),
                        _ => h.sid == 0 && h.fl == 0 && h.len < 3,
                    };
                    if !known {
                        self.ev(format!(
                            r#"{{"e":"txbad","k":"header","y":{},"f":{},"s":{}}}"#,
                            h.ty,
                            h.fl,
                            sidn(h.sid)
                        ));
                    }
                    let mut pos = 0i64;
                    if h.ty == 0 {
                        let ep = self.ep;
                        let e = self.txpos.entry(h.sid).or_insert(0);
                        let start = *e;
                        *e += body.len() as u64;
                        pos = start as i64;
                        if body.iter().enumerate().any(|(i, x)| *x != content(ep, h.sid, start + i as u64)) {
                            pos = -1
                        }
                    }
                    self.ev(format!(
                        r#"{{"e":"tx","y":{},"f":{},"s":{},"h":{},"l":{},"p":{},"t":{}}}"#,
                        h.ty,
                        h.fl,
                        sidn(h.sid),
                        h.len >> 16,
                        h.len & 0xffff,
                        pos,
                        t0
                    ));
                    self.sent.push(h);
                }
                Parsed::Bad(h, why) => {
                    self.ev(format!(
                        r#"{{"e":"txbad","k":"{}","y":{},"f":{},"s":{}}}"#,
                        why,
                        h.ty,
                        h.fl,
                        sidn(h.sid)
                    ));
                }
            }
        }
    }
}

/// Stream ids beyond TLC's integer range are logged as negative numbers (injective).
pub fn sidn(s: u32) -> i64 {
    if s >= 1 << 31 {
        s as i64 - (1i64 << 32)
    } else {
        s as i64
    }
}

#[derive(Clone)]
pub struct Socket(pub Rc<RefCell<Tr>>);

impl AsyncRead for Socket {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        crate::world::sched_point(0);
        let mut t = self.0.borrow_mut();
        let t = &mut *t;
        t.tick();
        if buf.is_empty() {
            return Poll::Ready(Ok(0));
        }
        if !t.inb.is_empty() {
            // stuttering: every other attempt is not ready although bytes are there
            if t.rstut {
                t.rflip = !t.rflip;
                if t.rflip {
                    cx.waker().wake_by_ref();
                    return Poll::Pending;
                }
            }
            // tiny fragments of huge inputs only multiply polls: at most ~40 per backlog
            let n = buf.len().min(t.inb.len()).min(t.rchunk.max(1).max(t.inb.len() / 40));
            let v: Vec<u8> = t.inb.drain(..n).collect();
            buf[..n].copy_from_slice(&v);
            t.rx_bytes(&v);
            return Poll::Ready(Ok(n));
        }
        if t.rerr {
            t.ev(r#"{"e":"rxerr"}"#.into());
            return Poll::Ready(Err(io::Error::new(io::ErrorKind::ConnectionReset, "injected read error")));
        }
        if t.eof {
            let mid = !t.rxp.boundary() && !t.rxp.dead;
            t.ev(format!(r#"{{"e":"rxeof","m":{mid}}}"#));
            return Poll::Ready(Ok(0));
        }
        t.rwaker = Some(cx.waker().clone());
        Poll::Pending
    }
}

impl Tr {
    fn fault(&mut self, k: &str) -> io::Error {
        self.failed = true;
        self.ev(format!(r#"{{"e":"werr","k":"{k}"}}"#));
        io::Error::new(io::ErrorKind::BrokenPipe, "injected write error")
    }
}

impl AsyncWrite for Socket {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        crate::world::sched_point(0);
        let mut t = self.0.borrow_mut();
        let t = &mut *t;
        t.tick();
        if t.txp.boundary() && t.t0.is_none() {
            t.t0 = Some(now_ms());
        }
        if buf.is_empty() {
            return Poll::Ready(Ok(0));
        }
        if t.closed {
            t.ev(r#"{"e":"wafter","k":"close"}"#.into());
            return Poll::Ready(Ok(buf.len()));
        }
        if t.failed {
            t.ev(r#"{"e":"wafter","k":"err"}"#.into());
            return Poll::Ready(Ok(buf.len()));
        }
        if let Some((0, k)) = t.wcut {
            t.wcut = None;
            t.werr = Some(k);
        }
        match t.werr.take() {
            Some("zero") => {
                t.failed = true;
                t.ev(r#"{"e":"werr","k":"zero"}"#.into());
                return Poll::Ready(Ok(0));
            }
            Some("over") => {
                t.failed = true;
                t.ev(r#"{"e":"werr","k":"over"}"#.into());
                return Poll::Ready(Ok(buf.len() + 1));
            }
            Some(k) => return Poll::Ready(Err(t.fault(k))),
            None => {}
        }
        let mut n = buf.len().min(t.wchunk.max(1).max(buf.len() / 40));
        if let Some(b) = t.wbud {
            n = n.min(b as usize);
        }
        if let Some((k, _)) = t.wcut {
            n = n.min(k as usize);
        }
        if let Some(c) = t.cap {
            n = n.min(c.saturating_sub(t.outq.len()));
        }
        if n == 0 {
            t.wwaker = Some(cx.waker().clone());
            t.wb = true;
            return Poll::Pending;
        }
        if t.wstut {
            t.wflip = !t.wflip;
            if t.wflip {
                cx.waker().wake_by_ref();
                t.wb = true;
                return Poll::Pending;
            }
        }
        if let Some(b) = t.wbud.as_mut() {
            *b -= n as u64;
        }
        if let Some(c) = t.wcut.as_mut() {
            c.0 -= n as u64;
        }
        t.wb = false;
        t.unfl += n as u64;
        t.written += n as u64;
        if t.keep_out {
            t.outq.extend(&buf[..n]);
        }
        t.tx_bytes(&buf[..n]);
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        crate::world::sched_point(0);
        let mut t = self.0.borrow_mut();
        let t = &mut *t;
        t.tick();
        if t.failed {
            // flushing after a failure moves no bytes: harmless
            return Poll::Ready(Ok(()));
        }
        if t.ferr {
            t.ferr = false;
            return Poll::Ready(Err(t.fault("flush")));
        }
        if t.fhold {
            t.wwaker = Some(cx.waker().clone());
            t.fb = true;
            return Poll::Pending;
        }
        t.fb = false;
        t.unfl = 0;
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        crate::world::sched_point(0);
        let mut t = self.0.borrow_mut();
        let t = &mut *t;
        t.tick();
        if t.ferr {
            t.ferr = false;
            return Poll::Ready(Err(t.fault("close")));
        }
        if t.fhold {
            t.wwaker = Some(cx.waker().clone());
            t.fb = true;
            t.cb = true;
            return Poll::Pending;
        }
        t.fb = false;
        t.cb = false;
        t.unfl = 0;
        if !t.closed {
            t.closed = true;
            let mid = !t.txp.boundary();
            t.ev(format!(r#"{{"e":"tclose","m":{mid}}}"#));
        }
        Poll::Ready(Ok(()))
    }
}
