//! Seeded random scenarios. Every choice is turned into an explicit step text, so that a run can
//! be replayed from its steps alone.
use crate::world::*;
use std::collections::BTreeMap;

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Self {
        Rng(s.wrapping_add(0x9E37_79B9_7F4A_7C15))
    }
    pub fn u(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn n(&mut self, n: u64) -> u64 {
        self.u() % n.max(1)
    }
    pub fn p(&mut self, pct: u64) -> bool {
        self.n(100) < pct
    }
    pub fn of<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let k = self.n(v.len() as u64) as usize;
        &v[k]
    }
}

const D: u64 = 256 * 1024;

/// What the scripted peer knows.
#[derive(Default)]
struct Peer {
    next: u32,
    st: BTreeMap<u32, PS>,
    seen: usize,
    pings: Vec<u32>,
}
#[derive(Default, Clone, Debug)]
struct PS {
    credit: u64,
    fin: bool,
    rst: bool,
    outbound: bool,
    ended: bool,
    acked: bool,
}
impl Peer {
    fn update(&mut self, e: &Ep) {
        let t = e.tr.borrow();
        for f in &t.sent[self.seen..] {
            match f.ty {
                0 | 1 => {
                    let s = self.st.entry(f.sid).or_insert(PS { credit: D, outbound: true, ..Default::default() });
                    if f.ty == 1 {
                        s.credit = (s.credit + f.len as u64).min(u32::MAX as u64)
                    }
                    if f.fl & 12 != 0 {
                        s.ended = s.ended || f.fl & 8 != 0
                    }
                }
                2 if f.fl & 1 != 0 => self.pings.push(f.len),
                _ => {}
            }
        }
        self.seen = t.sent.len();
    }
}

#[derive(Clone)]
struct W(Vec<(&'static str, u64)>);
impl W {
    fn set(mut self, k: &'static str, w: u64) -> Self {
        for x in self.0.iter_mut() {
            if x.0 == k {
                x.1 = w;
                return self;
            }
        }
        self.0.push((k, w));
        self
    }
    fn pick(&self, r: &mut Rng) -> &'static str {
        let t: u64 = self.0.iter().map(|x| x.1).sum();
        let mut k = r.n(t);
        for (n, w) in &self.0 {
            if k < *w {
                return n;
            }
            k -= w
        }
        unreachable!()
    }
}

fn base() -> W {
    W(vec![
        ("open", 6),
        ("wr", 14),
        ("rd", 14),
        ("rp", 4),
        ("fl", 2),
        ("cl", 4),
        ("dr", 4),
        ("q", 5),
        ("poll", 10),
        ("run", 10),
        ("quiesce", 8),
        ("isyn", 6),
        ("idata", 12),
        ("iwu", 4),
        ("ifin", 3),
        ("irst", 2),
        ("iping", 2),
        ("ipong", 3),
        ("iack", 3),
        ("iunk", 1),
        ("ibad", 0),
        ("igo", 0),
        ("iraw", 0),
        ("adv", 2),
        ("block", 2),
        ("unblock", 4),
        ("chunk", 1),
        ("fh", 1),
        ("auto", 1),
        ("dlv", 3),
        ("fail", 0),
        ("mig", 4),
        ("can", 1),
        ("cc", 0),
        ("dc", 0),
    ])
}

pub struct Prof {
    pub cfg: Cfg,
    w: W,
    steps: u64,
    maxopen: usize,
    maxin: usize,
    big: u64,
    name: String,
    races: bool,
}

/// `x<name>`: profile <name> with interleaved operations.
pub fn profile(name: &str, r: &mut Rng) -> Prof {
    let (name, races) = match name.strip_prefix('x') {
        Some(n) => (n, true),
        None => (name, false),
    };
    let mut cfg = Cfg {
        server: r.p(50),
        maxs: *r.of(&[512usize, 512, 100, 8]),
        maxc: Some(1 << 30),
        rac: r.p(75),
        split: *r.of(&[16384usize, 16384, 16384, 1000, 1, 1 << 40]),
    };
    let b = base();
    let (w, steps, maxopen, maxin, big) = match name {
        "life" => (b.set("cl", 8).set("dr", 6).set("ifin", 6).set("irst", 4).set("iack", 4).set("q", 8), 70, 3, 3, 3),
        "flow" => {
            cfg.split = *r.of(&[16384usize, 65536, 1 << 40]);
            let k = *r.of(&[1usize, 2, 3, 4, 8]);
            cfg.maxs = k;
            let extra = *r.of(&[0u64, 1, 100_000, D, D + 1, 3 * D, 8 * D, 40 * D]);
            cfg.maxc = if r.p(15) { None } else { Some((k as u64 * D + extra) as usize) };
            (
                b.set("open", 3).set("isyn", 4).set("idata", 30).set("rd", 30).set("rp", 8).set("ipong", 8).set("adv", 6)
                    .set("cl", 1).set("dr", 2).set("iwu", 6).set("wr", 12).set("ifin", 1).set("irst", 0).set("quiesce", 10),
                120, 2, k.min(4), 75,
            )
        }
        "credit" => {
            cfg.split = *r.of(&[16384usize, 65536, 1 << 40]);
            (b.set("wr", 40).set("iwu", 16).set("idata", 4).set("ibad", 1).set("isyn", 5).set("open", 6).set("dr", 2).set("cl", 2), 90, 3, 2, 70)
        }
        "ids" => {
            cfg.maxs = *r.of(&[512usize, 20, 6]);
            (b.set("open", 14).set("isyn", 16).set("ibad", 10).set("iunk", 12).set("dr", 9).set("cl", 6).set("iping", 4), 90, 8, 8, 3)
        }
        "limit" => {
            cfg.maxs = *r.of(&[0usize, 1, 2, 3, 4, 6]);
            (b.set("open", 3).set("isyn", 22).set("dr", 16).set("cl", 6).set("ifin", 6).set("irst", 4).set("poll", 16).set("quiesce", 14).set("q", 1), 80, 6, 20, 2)
        }
        "backlog" => {
            cfg.maxs = *r.of(&[512usize, 300, 258]);
            (
                b.set("open", 30).set("iack", 8).set("ifin", 4).set("irst", 4).set("dr", 4).set("cl", 4).set("rd", 2).set("rp", 0)
                    .set("wr", 6).set("fl", 0).set("isyn", 2).set("idata", 2).set("quiesce", 10).set("q", 2).set("adv", 0).set("chunk", 0),
                80, 300, 5, 0,
            )
        }
        "ping" => (
            b.set("iping", 24).set("ipong", 14).set("adv", 14).set("block", 5).set("poll", 20).set("open", 3).set("wr", 14).set("ibadpong", 3),
            80, 2, 2, 10,
        ),
        "close" => (b.set("cc", 3).set("block", 5).set("dc", 1).set("wr", 20).set("iping", 5).set("cl", 5), 60, 4, 3, 10),
        "fail" => (
            b.set("fail", 3).set("igo", 1).set("cc", 1).set("dc", 1).set("iraw", 1).set("rd", 18).set("wr", 16).set("q", 6).set("open", 8).set("block", 4),
            60, 4, 4, 8,
        ),
        "frag" => (b.set("chunk", 8).set("iraw", 1).set("auto", 4).set("dlv", 16).set("iping", 6).set("iunk", 4).set("ibad", 1), 80, 3, 3, 6),
        "fuzz" => (b.set("iraw", 8).set("ibad", 6).set("iunk", 6).set("ifuzz", 30).set("chunk", 6).set("dlv", 10), 60, 3, 4, 6),
        "block" => {
            cfg.split = *r.of(&[16384usize, 1000, 10]);
            (
                b.set("block", 8).set("unblock", 5).set("wr", 40).set("iping", 8).set("rd", 20).set("idata", 16).set("fl", 6).set("cl", 5),
                110, 4, 3, 20,
            )
        }
        "split" => {
            // reader and writer of one stream as different tasks while its queue is full
            cfg.split = *r.of(&[16384usize, 1000]);
            (
                b.set("block", 10).set("unblock", 5).set("wr", 50).set("rd", 30).set("idata", 30).set("fl", 6).set("cl", 2).set("open", 2)
                    .set("isyn", 3).set("dr", 1).set("irst", 1),
                130, 1, 2, 60,
            )
        }
        "stall" => (
            b.set("open", 8).set("isyn", 8).set("wr", 30).set("rd", 12).set("idata", 24).set("iwu", 2).set("cl", 3).set("dr", 1).set("quiesce", 12),
            110, 4, 4, 40,
        ),
        _ => (b, 80, 4, 4, 8),
    };
    if name != "flow" && r.p(20) {
        cfg.maxc = None
    }
    if let Some(c) = cfg.maxc {
        cfg.maxc = Some(c.max(cfg.maxs * D as usize));
    }
    Prof { cfg, w, steps, maxopen, maxin, big, name: name.to_string(), races }
}

pub fn run_single(p: &Prof, r: &mut Rng, w: &mut World) {
    let server = p.cfg.server;
    let mut peer = Peer { next: if server { 1 } else { 2 }, ..Default::default() };
    if p.name == "backlog" {
        // get near the limit quickly
        let k = 250 + r.n(8);
        for i in 0..k {
            w.step("a open");
            if r.p(60) {
                let Some(s) = w.eps[0].opened.last().copied() else { break };
                w.step(&format!("a wr {s} 1"));
            }
            if i % 16 == 0 {
                w.step("a poll");
            }
        }
        w.step("a quiesce 1");
    }
    if p.name == "flow" && r.p(80) {
        // measure a round-trip time first
        w.step("a poll");
        w.step(&format!("adv {}", *r.of(&[0u64, 1, 10, 50, 1000, 20000])));
        w.step("a inj 2 2 0 0");
        w.step("a quiesce 1");
        peer.update(&w.eps[0]);
        peer.pings.clear();
    }
    let mut ended = 0;
    let mut blocked = false;
    for _ in 0..p.steps {
        if w.eps[0].dead {
            break;
        }
        if w.eps[0].dended || w.eps[0].conn.is_none() {
            ended += 1;
            if ended > 15 {
                break;
            }
        }
        peer.update(&w.eps[0]);
        let hs = w.eps[0].handles();
        let a = p.w.pick(r);
        if let Some(t) = step_for(a, p, r, w, &mut peer, &hs, &mut blocked) {
            for l in t {
                if p.races && r.p(60) {
                    if let Some(l) = raced(&l, p, r, w, &mut peer, &hs) {
                        w.step(&l);
                        continue;
                    }
                }
                w.step(&l);
            }
        }
    }
    // wind down: let everything through, look at the quiescent state, then end in one of the ways
    w.step("a auto 1");
    if r.p(60) {
        w.step("a chunk inf inf");
        w.step("a stut 0 0");
    }
    w.step("a fh 0");
    w.step("a bud inf");
    let quiesce = if p.races { "rquiesce" } else { "quiesce" };
    w.step(&format!("a {quiesce} {}", r.u() >> 1));
    for h in w.eps[0].handles().into_iter().take(12) {
        w.step(&format!("a q {h}"));
        w.step(&format!("a rd {h} 100000"));
        w.step(&format!("a rd {h} 100000"));
    }
    w.step(&format!("a {quiesce} {}", r.u() >> 1));
    match r.n(if p.name == "close" { 4 } else { 8 }) {
        0 | 1 => w.step("a cc"),
        2 => w.step("a eof"),
        3 => w.step("a inj 3 0 0 0"),
        _ => {}
    }
    w.step(&format!("a {quiesce} {}", r.u() >> 1));
    for h in w.eps[0].handles().into_iter().take(12) {
        if r.p(50) {
            w.step(&format!("a dr {h}"));
        } else {
            w.step(&format!("a q {h}"));
            w.step(&format!("a rd {h} 400000"));
            w.step(&format!("a rp {h}"));
        }
    }
    w.step(&format!("a quiesce {}", r.u() >> 1));
}

/// The step with another task's step in the middle of it.
fn raced(l: &str, p: &Prof, r: &mut Rng, w: &mut World, peer: &mut Peer, hs: &[u32]) -> Option<String> {
    let o = l.strip_prefix("a ")?;
    let f: Vec<&str> = o.split(' ').collect();
    if f[0] == "quiesce" {
        return Some(format!("a r{o}"));
    }
    let inner = match f[0] {
        "poll" | "cc" => *r.of(&["rd", "rd", "rp", "wr", "wr", "cl", "dr", "q", "run", "run", "fl"]),
        "rd" | "rp" | "wr" | "cl" | "fl" => *r.of(&["poll", "poll", "poll", "poll", "run", "open", if p.name == "close" { "cc" } else { "poll" }]),
        "open" => *r.of(&["rd", "wr", "cl", "dr", "q", "run"]),
        _ => return None,
    };
    let other: Vec<u32> = hs.iter().copied().filter(|h| f.len() < 2 || h.to_string() != f[1]).collect();
    let mut l2 = match inner {
        "poll" | "cc" => inner.to_string(),
        "run" => format!("run {}", r.n(1000)),
        _ => step_for(inner, p, r, w, peer, &other, &mut false)?[0].strip_prefix("a ")?.to_string(),
    };
    if p.name == "flow" && (f[0] == "rd" || f[0] == "rp") && !other.is_empty() && r.p(60) {
        // two readers at once
        return Some(format!("a race1 {} {o} / rd {} {}", r.n(14), r.of(&other), 1 << 20));
    }
    if r.p(30) {
        l2 += &match r.n(4) {
            0 if f[0] != "poll" && f[0] != "cc" => " / open".to_string(),
            _ => format!(" / run {}", r.n(1000)),
        }
    }
    let k = match r.n(4) {
        0 => r.n(40),
        _ => r.n(9),
    };
    Some(format!("a race {k} {o} / {l2}"))
}

fn size(p: &Prof, r: &mut Rng) -> u64 {
    if r.n(100) < p.big {
        match r.n(5) {
            0 => D,
            1 => D / 2 + r.n(3) - 1,
            2 => 1 + r.n(D),
            3 => 16384 + r.n(3) - 1,
            _ => 60000 + r.n(80000),
        }
    } else {
        match r.n(4) {
            0 => 1,
            1 => 1 + r.n(20),
            _ => 1 + r.n(3000),
        }
    }
}

fn step_for(a: &str, p: &Prof, r: &mut Rng, w: &mut World, peer: &mut Peer, hs: &[u32], blocked: &mut bool) -> Option<Vec<String>> {
    let e = &w.eps[0];
    let one = |s: String| Some(vec![s]);
    let live: Vec<u32> = peer.st.iter().filter(|(_, s)| !s.rst && !s.ended).map(|(k, _)| *k).collect();
    match a {
        "open" => {
            if e.opened.len() >= p.maxopen && p.name != "limit" {
                return None;
            }
            let cnt = hs.len();
            // running into the configured maximum ends the connection: do it only now and then
            if cnt >= p.cfg.maxs && !r.p(4) {
                return None;
            }
            one("a open".into())
        }
        "wr" | "fl" | "cl" | "rd" | "rp" | "dr" | "q" => {
            if hs.is_empty() {
                return None;
            }
            let s = *r.of(hs);
            if p.name == "stall" && s % 8 < 4 && (a == "rd" || a == "rp") {
                return None;
            }
            if p.name == "backlog" && (a == "dr" || a == "cl") && r.p(30) {
                return Some(vec![format!("a {a} {s}"), "a quiesce 1".into()]);
            }
            match a {
                "wr" => {
                    let n = size(p, r);
                    if p.name == "block" || p.name == "split" || p.name == "stall" || p.name == "credit" {
                        let k = 1 + r.n(14);
                        return Some((0..k).map(|_| format!("a wr {s} {n}")).collect());
                    }
                    one(format!("a wr {s} {n}"))
                }
                "rd" => {
                    let k = match r.n(4) {
                        0 => 1 + r.n(10),
                        1 => 1 + r.n(2000),
                        2 => 131072,
                        _ => 1 << 20,
                    };
                    one(format!("a rd {s} {k}"))
                }
                _ => one(format!("a {a} {s}")),
            }
        }
        "poll" => one("a poll".into()),
        "run" => one(format!("a run {}", r.n(1000))),
        "quiesce" => one(format!("a quiesce {}", r.u() >> 1)),
        "isyn" => {
            let n = peer.st.values().filter(|s| !s.outbound).count();
            if n >= p.maxin {
                return None;
            }
            let id = peer.next;
            peer.next += 2 * (1 + r.n(3) as u32);
            let mut fl = 1;
            if r.p(10) {
                fl |= 4
            }
            let len;
            let ty = r.n(2);
            if ty == 0 {
                len = match r.n(6) {
                    0 => 0,
                    1 if p.big > 10 || r.p(20) => D,
                    _ => size(p, r).min(D),
                };
            } else {
                len = match r.n(5) {
                    0 => 0,
                    1 => 1 + r.n(D),
                    2 if r.p(30) => u32::MAX as u64 - D - r.n(2),
                    _ => 0,
                };
            }
            peer.st.insert(
                id,
                PS { credit: if ty == 0 { D.saturating_sub(len) } else { D }, fin: fl & 4 != 0, ..Default::default() },
            );
            one(format!("a inj {ty} {fl} {id} {len}"))
        }
        "idata" | "ifin" => {
            let c: Vec<u32> = live.iter().copied().filter(|s| !peer.st[s].fin).collect();
            if c.is_empty() {
                return None;
            }
            let s = *r.of(&c);
            let ps = peer.st.get_mut(&s).unwrap();
            let mut fl = 0;
            if ps.outbound && !ps.acked && r.p(70) {
                fl |= 2;
                ps.acked = true;
            }
            if a == "ifin" {
                ps.fin = true;
                fl |= 4;
                if r.p(30) {
                    return one(format!("a inj 1 {fl} {s} {}", r.n(50)));
                }
            }
            let mut n = size(p, r);
            if a == "ifin" && r.p(50) {
                n = 0
            }
            if r.p(3) {
                n = 0
            }
            if n > ps.credit {
                n = ps.credit
            }
            ps.credit -= n;
            one(format!("a inj 0 {fl} {s} {n}"))
        }
        "iwu" => {
            if live.is_empty() {
                return None;
            }
            let s = *r.of(&live);
            let ps = peer.st.get_mut(&s).unwrap();
            let mut fl = 0;
            if ps.outbound && !ps.acked && r.p(70) {
                fl |= 2;
                ps.acked = true;
            }
            let n = match r.n(6) {
                0 => 1 + r.n(10),
                1 => 0,
                2 => D,
                _ => 1 + r.n(60000),
            };
            one(format!("a inj 1 {fl} {s} {n}"))
        }
        "iack" => {
            let c: Vec<u32> = live.iter().copied().filter(|s| peer.st[s].outbound && !peer.st[s].acked).collect();
            if c.is_empty() {
                return None;
            }
            let s = *r.of(&c);
            peer.st.get_mut(&s).unwrap().acked = true;
            one(format!("a inj {} 2 {s} 0", r.n(2)))
        }
        "irst" => {
            if live.is_empty() {
                return None;
            }
            let s = *r.of(&live);
            peer.st.get_mut(&s).unwrap().rst = true;
            one(format!("a inj {} 8 {s} {}", r.n(2), r.n(2) * r.n(30)))
        }
        "iping" => {
            let sid = if r.p(70) || live.is_empty() { 0 } else { *r.of(&live) };
            let v = if r.p(50) { r.n(10) } else { r.u() & 0xffff_ffff };
            let k = 1 + if r.p(20) { r.n(40) } else { 0 };
            Some((0..k).map(|i| format!("a inj 2 1 {sid} {}", (v + i) & 0xffff_ffff)).collect())
        }
        "ipong" => {
            let id = peer.pings.pop()?;
            one(format!("a inj 2 2 0 {id}"))
        }
        "ibadpong" => one(format!("a inj 2 {} 0 {}", 2 + r.n(2), r.n(6))),
        "iunk" => {
            // a stream that does not exist: never opened, finished or dropped earlier
            let gone: Vec<u32> = peer.st.keys().copied().filter(|s| !hs.contains(s)).collect();
            let sid = if r.p(50) && !gone.is_empty() { *r.of(&gone) } else { 1000 + r.n(50) as u32 };
            let fl = *r.of(&[0u64, 2, 4, 8, 6, 12, 10]);
            let t = match r.n(4) {
                0 => format!("a inj 0 {fl} {sid} {}", r.n(300)),
                1 => format!("a inj 0 {fl} {sid} 0"),
                2 => format!("a inj 1 {fl} {sid} {}", r.n(300)),
                _ => format!("a inj 2 1 {sid} {}", r.n(300)),
            };
            one(t)
        }
        "ibad" => {
            let (own, theirs) = if p.cfg.server { (2, 1) } else { (1, 2) };
            let t = match r.n(9) {
                // wrong parity, zero, in use
                0 => format!("a inj {} 1 {} 0", r.n(2), own + 2 * r.n(200)),
                1 => format!("a inj {} 1 0 0", r.n(2)),
                2 if !hs.is_empty() => format!("a inj {} {} {} {}", r.n(2), 1 + 4 * r.n(2), r.of(hs), r.n(20)),
                // first frame larger than the default credit
                3 => format!("a inj 0 1 {} {}", theirs + 2 * (300 + r.n(100)), D + 1 + r.n(3) * r.n(700_000)),
                // more than the usable credit
                4 if !live.is_empty() => {
                    let s = *r.of(&live);
                    let c = peer.st[&s].credit;
                    let n = c + 1 + if r.p(50) { 0 } else { r.n(1000) };
                    if n > 1 << 20 {
                        return None;
                    }
                    let fl = if r.p(30) { 4 } else { 0 };
                    format!("a inj 0 {fl} {s} {n}")
                }
                // overflowing credit
                5 if !live.is_empty() => format!("a inj 1 {} {} {}", 4 * r.n(2), r.of(&live), u32::MAX as u64 - r.n(3)),
                6 => format!("a inj 1 1 {} {}", theirs + 2 * (400 + r.n(100)), u32::MAX as u64 - r.n(2) * D - r.n(2)),
                7 => format!("a inj 2 {} 0 {}", 2, r.n(10)),
                _ => return None,
            };
            one(t)
        }
        "igo" => one(format!("a inj 3 0 0 {}", r.n(4))),
        "iraw" => match r.n(4) {
            0 => one(format!("a raw {:02x}0000000000000000000000", 1 + r.n(255))),
            1 => one(format!("a raw 00{:02x}00000000000000000000", 4 + r.n(252))),
            2 => one(format!("a raw 00000000000000{:02x}{:08x}", r.n(4), (1 << 20) + 1 + r.n(1 << 31))),
            _ => {
                let n = 1 + r.n(11);
                let mut s = String::from("a raw 00");
                for _ in 1..n {
                    s.push_str("00")
                }
                Some(vec![s, "a eof".into()])
            }
        },
        "ifuzz" => {
            // a random header over a small alphabet, mostly valid on its own
            let ty = r.n(4);
            if ty == 3 && !r.p(5) {
                return None;
            }
            let fl = match r.n(4) {
                0 => 0,
                1 => 1 << r.n(4),
                2 => r.n(16),
                _ => r.n(65536),
            };
            let sid = match r.n(5) {
                0 => 0,
                1 | 2 if !live.is_empty() => *r.of(&live) as u64,
                3 => r.u() & 0xffff_ffff,
                _ => r.n(12),
            };
            let len = match r.n(5) {
                0 => 0,
                1 => r.n(30),
                2 => r.n(5000),
                3 if ty == 0 => r.n(1 << 20),
                3 => r.u() & 0xffff_ffff,
                _ => r.n(300),
            };
            one(format!("a inj {ty} {fl} {sid} {len}"))
        }
        "adv" => one(format!("adv {}", *r.of(&[1u64, 10, 99, 1000, 5000, 9999, 10000, 10001, 30000]))),
        "block" => {
            *blocked = true;
            one(format!("a bud {}", if r.p(50) { 0 } else { r.n(60) }))
        }
        "unblock" => {
            if !*blocked {
                return None;
            }
            if r.p(50) {
                return one(format!("a bud {}", r.n(40000)));
            }
            *blocked = false;
            one("a bud inf".into())
        }
        "chunk" => {
            if r.p(30) {
                return one(format!("a stut {} {}", r.n(2), r.n(2)));
            }
            let f = |r: &mut Rng| match r.n(5) {
                0 => "inf".to_string(),
                1 if p.big < 10 => "1".to_string(),
                _ => format!("{}", if p.big < 10 { 1 + r.n(30) } else { 500 + r.n(5000) }),
            };
            let (x, y) = (f(r), f(r));
            one(format!("a chunk {x} {y}"))
        }
        "fh" => one(format!("a fh {}", r.n(2))),
        "auto" => one(format!("a auto {}", r.n(2))),
        "dlv" => one(format!("a dlv {}", if r.p(50) { 1 + r.n(30) } else { r.n(5000) })),
        "fail" => one(match r.n(9) {
            0 => "a eof".into(),
            1 => "a rerr".into(),
            2 => "a werr err".into(),
            3 => "a werr zero".into(),
            4 => "a werr over".into(),
            5 => "a werr flush".into(),
            6 | 7 => format!("a wcut {} {}", r.n(40), *r.of(&["err", "zero", "over"])),
            _ => {
                let k = r.n(24);
                return Some(vec!["a auto 0".into(), format!("a dlv {k}"), "a quiesce 1".into(), "a eof".into()]);
            }
        }),
        // a waiting task moves, or gives up
        "mig" | "can" => {
            let v = w.eps[0].parked();
            if r.p(25) || v.is_empty() {
                return one(format!("a {a} d"));
            }
            let (k, s) = *r.of(&v);
            one(match k {
                "r" => format!("a {a} r {s}"),
                "o" => format!("a {a} o"),
                "cc" => return None,
                _ => format!("a {a} w {s}"),
            })
        }
        "cc" => one("a cc".into()),
        "dc" => one("a dc".into()),
        _ => None,
    }
}

/// Two real endpoints over a transport of limited capacity.
pub fn pair_cfgs(name: &str, r: &mut Rng) -> Vec<Cfg> {
    let rac = r.p(80);
    (0..2)
        .map(|i| Cfg {
            server: i == 1,
            maxs: *r.of(&[512usize, 64, 16]),
            maxc: Some(1 << 30),
            rac,
            split: if name == "pairsmall" { *r.of(&[16384usize, 100, 7]) } else { *r.of(&[16384usize, 16384, 1 << 40, 4000]) },
        })
        .collect()
}

pub fn run_pair(name: &str, r: &mut Rng, w: &mut World) {
    let small = name == "pairsmall";
    let cap = if small { *r.of(&[1u64, 5, 12, 13, 40, 300]) } else { *r.of(&[64u64, 1000, 4096, 20000, 70000, 300_000]) };
    for x in ["a", "b"] {
        w.step(&format!("{x} cap {cap}"));
        if r.p(30) {
            w.step(&format!("{x} chunk {} {}", 1 + r.n(if small { 20 } else { cap }), 1 + r.n(if small { 20 } else { cap })));
        }
        if r.p(20) {
            w.step(&format!("{x} stut {} {}", r.n(2), r.n(2)));
        }
    }
    let satur = !small && r.p(50);
    let nst = 1 + r.n(if satur { 4 } else { 3 });
    let bytes = |r: &mut Rng| -> u64 {
        let b = if small {
            r.n(400)
        } else if satur {
            100_000 + r.n(300_000)
        } else {
            match r.n(4) {
                0 => 0,
                1 => r.n(100),
                2 => r.n(50_000),
                _ => r.n(600_000),
            }
        };
        b.min(cap * 40)
    };
    let steps = if satur { 10 } else { 60 };
    let mut goal = vec![(0usize, 0u32); 0];
    if satur {
        // both sides start with full transports
        for (i, x) in ["a", "b"].iter().enumerate() {
            for _ in 0..nst {
                w.step(&format!("{x} open"));
                if let Some(s) = w.eps[i].opened.last().copied() {
                    let k = 16384;
                    for _ in 0..12 {
                        w.step(&format!("{x} wr {s} {k}"));
                    }
                }
            }
        }
        w.step("a poll");
        w.step("b poll");
    }
    for _ in 0..steps {
        let i = r.n(2) as usize;
        let x = ["a", "b"][i];
        if w.eps[i].dead || w.eps[1 - i].dead {
            break;
        }
        let hs = w.eps[i].handles();
        let t = match r.n(20) {
            0..=1 if w.eps[i].opened.len() < nst as usize => format!("{x} open"),
            2..=4 if !hs.is_empty() => format!("{x} wr {} {}", r.of(&hs), 1 + bytes(r)),
            5..=6 if !hs.is_empty() => format!("{x} rd {} {}", r.of(&hs), 1 + r.n(100_000)),
            7 if !hs.is_empty() => format!("{x} rp {}", r.of(&hs)),
            8 if !hs.is_empty() && r.p(40) => format!("{x} cl {}", r.of(&hs)),
            9 if !hs.is_empty() && r.p(30) => {
                // dropping a stream whose write side is closed while the peer still sends is the
                // recorded finding of C08 and not what this profile is about
                let s = *r.of(&hs);
                let st = &w.eps[i].st[&s];
                if st.wclosed && !st.reof {
                    continue;
                }
                format!("{x} dr {s}")
            }
            10 => format!("adv {}", *r.of(&[1u64, 100, 10_000, 10_001])),
            11..=13 => format!("{x} dlv {}", if small { 1 + r.n(30) } else { 1 + r.n(30_000) }),
            14..=15 => format!("{x} poll"),
            16 if r.p(20) && !hs.is_empty() => format!("{x} q {}", r.of(&hs)),
            _ => format!("{x} run {}", r.n(1000)),
        };
        w.step(&t);
        for (i, x) in ["a", "b"].iter().enumerate() {
            for s in w.eps[i].handles() {
                if !goal.contains(&(i, s)) {
                    goal.push((i, s));
                    let b = bytes(r);
                    let k = if small { 1 + r.n(50) } else { 1 + r.n(60_000) };
                    w.step(&format!("{x} goal {s} {b} {} {k}", r.n(2)));
                }
            }
        }
    }
    for (i, x) in ["a", "b"].iter().enumerate() {
        for s in w.eps[i].handles() {
            if !goal.contains(&(i, s)) {
                let b = bytes(r);
                w.step(&format!("{x} goal {s} {b} 1 {}", 1 + r.n(30_000)));
            }
        }
    }
    let how = *r.of(&["", "ca", "cb", "cab", "cabx", "cabx"]);
    w.step(&format!("drain {} {how}", r.u() >> 1));
}
