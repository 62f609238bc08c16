//! Scenario steps: parsing and execution.
use crate::transport::*;
use crate::world::*;
use std::time::Duration;

impl Ep {
    /// Bytes on their way to this endpoint arrive.
    pub fn deliver(&mut self, n: usize) -> usize {
        let k = n.min(self.stage.len());
        let v: Vec<u8> = self.stage.drain(..k).collect();
        let mut d = self.tr.borrow_mut();
        d.inb.extend(v);
        if k > 0 {
            d.wake_r()
        }
        k
    }
    /// One step of this endpoint or of its environment.
    pub fn step(&mut self, w: &[&str]) {
        let e = self;
        let n = |k: usize| -> u64 { w[k].parse::<u64>().unwrap_or_else(|_| panic!("bad step {w:?}")) };
        match w[0] {
            "open" => e.open(),
            "poll" => e.poll_driver(),
            "wr" => {
                e.sop(n(1) as u32, Op::Wr(n(2) as usize));
            }
            "rd" => {
                e.sop(n(1) as u32, Op::Rd(n(2) as usize));
            }
            "rp" => {
                e.sop(n(1) as u32, Op::Rp);
            }
            "fl" => {
                e.sop(n(1) as u32, Op::Fl);
            }
            "cl" => {
                e.sop(n(1) as u32, Op::Cl);
            }
            "dr" => e.dropstream(n(1) as u32),
            // a waiting call is polled again from another task (a new waker) / given up
            "mig" => e.migrate(w[1], w.get(2).and_then(|x| x.parse().ok()).unwrap_or(0)),
            "can" => e.cancel(w[1], w.get(2).and_then(|x| x.parse().ok()).unwrap_or(0)),
            // answer the last ping
            "pong" => {
                let v = e.tr.borrow().sent.iter().rev().find(|f| f.ty == 2 && f.fl & 1 != 0).map(|f| f.len).unwrap_or(0);
                let v = v.to_string();
                e.step(&["inj", "2", "2", w[1], &v]);
            }
            "pongx" => {
                // the value of an earlier ping (0: the last one), changed by w[2]
                let v = e.tr.borrow().sent.iter().rev().filter(|f| f.ty == 2 && f.fl & 1 != 0).nth(n(1) as usize).map(|f| f.len).unwrap_or(0);
                let v = v.wrapping_add(w[2].parse::<i64>().unwrap() as u32).to_string();
                e.step(&["inj", "2", "2", "0", &v]);
            }
            "q" => e.query(n(1) as u32),
            "cc" => e.cclose(),
            "dc" => e.dropconn(),
            "inj" => {
                let (ty, fl, sid, len) = (n(1) as u8, n(2) as u16, n(3) as u32, n(4) as u32);
                let h = FrameHdr { ty, fl, sid, len };
                let body = if ty == 0 {
                    let p = e.injpos.entry(sid).or_insert(0);
                    let v = content_vec(1 - e.id, sid, *p, len as usize);
                    *p += len as u64;
                    v
                } else {
                    vec![]
                };
                e.stage.extend(encode(&h, &body));
                if e.autodlv {
                    e.deliver(usize::MAX);
                }
            }
            "raw" => {
                let h = w[1].as_bytes();
                let b: Vec<u8> = (0..h.len() / 2)
                    .map(|k| u8::from_str_radix(std::str::from_utf8(&h[2 * k..2 * k + 2]).unwrap(), 16).unwrap())
                    .collect();
                e.stage.extend(b);
                if e.autodlv {
                    e.deliver(usize::MAX);
                }
            }
            "dlv" => {
                e.deliver(n(1) as usize);
            }
            "auto" => {
                e.autodlv = w[1] == "1";
                if e.autodlv {
                    e.deliver(usize::MAX);
                }
            }
            "eof" => {
                e.stage.clear();
                let mut t = e.tr.borrow_mut();
                t.eof = true;
                t.wake_r();
            }
            "rerr" => {
                e.stage.clear();
                let mut t = e.tr.borrow_mut();
                t.rerr = true;
                t.wake_r();
            }
            "bud" => {
                let mut t = e.tr.borrow_mut();
                if w[1] == "inf" {
                    t.wbud = None;
                } else {
                    t.wbud = Some(n(1));
                }
                if t.wbud != Some(0) {
                    t.wake_w();
                }
            }
            "cap" => {
                e.tr.borrow_mut().cap = Some(n(1) as usize);
            }
            "chunk" => {
                let mut t = e.tr.borrow_mut();
                t.rchunk = if w[1] == "inf" { usize::MAX } else { n(1) as usize };
                t.wchunk = if w[2] == "inf" { usize::MAX } else { n(2) as usize };
            }
            "stut" => {
                let mut t = e.tr.borrow_mut();
                t.rstut = w[1] == "1";
                t.wstut = w[2] == "1";
            }
            "fh" => {
                let mut t = e.tr.borrow_mut();
                t.fhold = w[1] == "1";
                if !t.fhold {
                    t.wake_w();
                }
            }
            // writing fails after so many more bytes
            "wcut" => {
                let k = match w[2] {
                    "zero" => "zero",
                    "over" => "over",
                    _ => "err",
                };
                e.tr.borrow_mut().wcut = Some((n(1), k));
            }
            "werr" => {
                let mut t = e.tr.borrow_mut();
                match w[1] {
                    "flush" => t.ferr = true,
                    "zero" => t.werr = Some("zero"),
                    "over" => t.werr = Some("over"),
                    _ => t.werr = Some("err"),
                }
                t.wake_w();
            }
            "run" => {
                e.run_one(n(1) as usize);
            }
            "quiesce" => e.quiesce(n(1), false),
            "rquiesce" => e.quiesce(n(1), true),
            "goal" => {
                // goal <sid> <bytes> <close> <chunk>
                let (sid, g, c, k) = (n(1) as u32, n(2), n(3) == 1, n(4) as usize);
                if let Some(s) = e.st.get_mut(&sid) {
                    s.wgoal = g;
                    s.wclose = c;
                    s.chunk = k;
                }
            }
            "cfgtry" => {
                // cfgtry <maxs> <maxc|-> <order>
                let maxs = n(1) as usize;
                let maxc = w[2].parse::<usize>().ok();
                let order = w[3];
                let r = std::panic::catch_unwind(|| {
                    let mut c = yamux::Config::default();
                    if order == "s" {
                        // default limit is 1 GiB
                        c.set_max_num_streams(maxs);
                    } else if order == "c" {
                        c.set_max_connection_receive_window(maxc);
                    } else {
                        c.set_max_connection_receive_window(None);
                        c.set_max_num_streams(maxs);
                        c.set_max_connection_receive_window(maxc);
                    }
                });
                let (es, ec) = match order {
                    "s" => (maxs, Some(1usize << 30)),
                    "c" => (512, maxc),
                    _ => (maxs, maxc),
                };
                e.ev(format!(
                    r#"{{"e":"cfgtry","maxs":{es},"maxc":{},"ok":{}}}"#,
                    ec.map(|x| x.min(i32::MAX as usize) as i64).unwrap_or(-1),
                    r.is_ok()
                ));
            }
            _ => panic!("bad step {w:?}"),
        }
    }
}

impl World {
    pub fn new(pair: bool, cfgs: &[Cfg]) -> World {
        web_time::verif_reset();
        parking_lot::deadlock::set_hook(Some(sched_point));
        let mut eps = vec![];
        for (i, c) in cfgs.iter().enumerate() {
            eps.push(Ep::new(i as u8, 1 - i as u8, c.clone()).expect("config"));
        }
        if pair {
            for e in &eps {
                e.tr.borrow_mut().keep_out = true;
            }
        }
        World { eps, pair, steps: Default::default() }
    }
    /// In pair mode, bytes move from the peer's output to this endpoint's arrival queue.
    pub fn deliver(&mut self, i: usize, n: usize) -> usize {
        if self.pair {
            let (dst, src) = (i, 1 - i);
            let mut s = self.eps[src].tr.borrow_mut();
            // what has arrived and is not read yet is bounded, too
            let alive = std::rc::Rc::strong_count(&self.eps[dst].tr) > 1;
            let room = if alive { s.room(self.eps[dst].tr.borrow().inb.len()) } else { usize::MAX };
            let k = n.min(s.outq.len()).min(room);
            let v: Vec<u8> = s.outq.drain(..k).collect();
            if k > 0 {
                s.wake_w();
            }
            let gone = s.closed || std::rc::Rc::strong_count(&self.eps[src].tr) == 1;
            let eof = gone && s.outq.is_empty();
            drop(s);
            // when the destination is gone its bytes are discarded
            if std::rc::Rc::strong_count(&self.eps[dst].tr) == 1 {
                return k;
            }
            let mut d = self.eps[dst].tr.borrow_mut();
            let news = k > 0 || (eof && !d.eof);
            d.inb.extend(v);
            if eof {
                d.eof = true
            }
            if news {
                d.wake_r()
            }
            return if news { k.max(1) } else { 0 };
        }
        self.eps[i].deliver(n)
    }
    pub fn step(&mut self, line: &str) {
        self.steps.lock().unwrap().push(line.to_string());
        let w: Vec<&str> = line.split_whitespace().collect();
        if w.is_empty() {
            return;
        }
        if w[0] == "adv" {
            let ms: u64 = w[1].parse().unwrap();
            web_time::verif_advance(Duration::from_millis(ms));
            for e in &self.eps {
                e.ev(format!(r#"{{"e":"adv","n":{ms}}}"#));
            }
            return;
        }
        if w[0] == "drain" {
            self.drain(w[1].parse().unwrap(), w.get(2).copied().unwrap_or(""));
            return;
        }
        let i = match w[0] {
            "a" => 0,
            "b" => 1,
            _ => panic!("bad step {line}"),
        };
        if w[1] == "dlv" && self.pair {
            self.deliver(i, w[2].parse().unwrap());
            return;
        }
        let e = &mut self.eps[i];
        if w[1] == "race" || w[1] == "race1" {
            // race <k> <step> / <step of another task> / ...
            // race1: also while the operation holds a lock (the other tasks use other streams)
            let cut = w.iter().position(|x| *x == "/").unwrap_or_else(|| panic!("bad step {line}"));
            e.race(w[2].parse().unwrap(), (w[1] == "race1") as usize, &w[3..cut], &w[cut + 1..].join(" "));
        } else {
            e.step(&w[1..])
        }
    }

    /// Pair mode: deliver everything, let every application read the streams it keeps to the end
    /// and write what it intends, poll what was woken, until nothing can happen any more.
    /// `how`: "" | "ca" | "cb" | "cab": which sides close the connection at the end.
    pub fn drain(&mut self, seed: u64, how: &str) {
        let mut x = seed | 1;
        let mut rnd = move |n: usize| -> usize {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            ((x >> 11) % n.max(1) as u64) as usize
        };
        let mut stage = 0;
        let mut iters = 0u64;
        let simultaneous = how == "cabx";
        loop {
            iters += 1;
            if iters > 400_000 {
                for e in &mut self.eps {
                    e.ev(r#"{"e":"panic","in":"drain","m":"no end"}"#.into());
                }
                return;
            }
            for e in &mut self.eps {
                e.log.borrow_mut().calls = 0;
            }
            // candidate actions: (endpoint, kind, stream)
            let mut c: Vec<(usize, u8, u32)> = vec![];
            for i in 0..2 {
                let d = &self.eps[1 - i];
                let s = d.tr.borrow();
                let gone = s.closed || std::rc::Rc::strong_count(&d.tr) == 1;
                let there = &self.eps[i].tr;
                let room = std::rc::Rc::strong_count(there) == 1 || s.room(there.borrow().inb.len()) > 0;
                if (!s.outq.is_empty() && room) || (s.outq.is_empty() && gone && !self.eps[i].tr.borrow().eof && self.eps[i].conn.is_some() && std::rc::Rc::strong_count(&self.eps[i].tr) > 1) {
                    c.push((i, 0, 0));
                    c.push((i, 0, 0));
                }
                drop(s);
                let e = &self.eps[i];
                if e.dead {
                    continue;
                }
                if std::rc::Rc::strong_count(&e.tr) == 1 {
                    // our transport end is gone: the peer's bytes are lost
                    let mut o = self.eps[1 - i].tr.borrow_mut();
                    o.cap = None;
                }
                for _ in 0..e.runnable().len().min(3) {
                    c.push((i, 1, 0));
                }
                for (id, st) in &e.st {
                    if st.s.is_none() {
                        continue;
                    }
                    if st.rt.parked.is_none() && !st.reof {
                        c.push((i, 2, *id));
                    }
                    if st.wt.parked.is_none() && !st.werr {
                        if st.nwritten < st.wgoal && !st.wclosed {
                            c.push((i, 3, *id));
                        } else if (st.wclose || stage >= 1) && !st.wclosed {
                            c.push((i, 4, *id));
                        }
                    }
                    if st.reof && (st.wclosed || st.werr) && st.wt.parked.is_none() && stage >= 1 {
                        c.push((i, 5, *id));
                    }
                }
            }
            if (c.is_empty() || (simultaneous && stage == 0 && iters > 50)) && stage < 2 {
                // stage 0: exchanges; stage 1: close what is still open; stage 2: close connections
                stage += 1;
                if simultaneous {
                    stage = 2
                }
                if stage == 2 {
                    if how.contains('a') && how.starts_with('c') {
                        self.eps[0].cclose();
                    }
                    if how.contains('b') {
                        self.eps[1].cclose();
                    }
                }
                continue;
            }
            if c.is_empty() {
                break;
            }
            let (i, k, sid) = c[rnd(c.len())];
            match k {
                0 => {
                    let n = match rnd(4) {
                        0 => 1 + rnd(20),
                        1 => 1 + rnd(2000),
                        _ => usize::MAX,
                    };
                    self.deliver(i, n);
                }
                1 => {
                    let p = rnd(1000);
                    if seed % 4 == 0 && self.eps[i].runnable().len() > 1 {
                        let inner = rnd(1000);
                        self.eps[i].race(rnd(12) as u64, 0, &["run", &p.to_string()], &format!("run {inner}"))
                    } else {
                        self.eps[i].run_one(p);
                    }
                }
                2 => {
                    let op = match rnd(4) {
                        0 => Op::Rp,
                        1 => Op::Rd(1 + rnd(5000)),
                        _ => Op::Rd(65536),
                    };
                    self.eps[i].sop(sid, op);
                }
                3 => {
                    let st = &self.eps[i].st[&sid];
                    let left = (st.wgoal - st.nwritten) as usize;
                    let k = st.chunk.max(1).min(left);
                    self.eps[i].sop(sid, Op::Wr(k));
                }
                4 => {
                    self.eps[i].sop(sid, Op::Cl);
                }
                _ => self.eps[i].dropstream(sid),
            }
        }
        for i in 0..2 {
            self.eps[i].qevent();
            let asked = how.starts_with('c');
            let e = &self.eps[i];
            if e.dead {
                continue;
            }
            let mut u = vec![];
            for (k, s) in e.parked() {
                u.push(format!(r#"{{"k":"{k}","s":{}}}"#, sidn(s)));
            }
            for (id, st) in &e.st {
                if st.s.is_some() && st.wt.parked.is_none() && st.rt.parked.is_none() && !(st.reof && (st.wclosed || st.werr)) {
                    u.push(format!(r#"{{"k":"open","s":{}}}"#, sidn(*id)));
                }
            }
            if asked && !e.dended && e.conn.is_some() {
                u.push(r#"{"k":"conn","s":0}"#.to_string());
            }
            if !self.eps[1 - i].tr.borrow().outq.is_empty() && std::rc::Rc::strong_count(&e.tr) > 1 {
                u.push(r#"{"k":"bytes","s":0}"#.to_string());
            }
            e.ev(format!(r#"{{"e":"fin","un":[{}]}}"#, u.join(",")));
        }
    }
}
