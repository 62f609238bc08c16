//! Harness: runs scenarios against the real crate and writes one trace (a JSON line) per endpoint.
//!
//!   yxharness gen <profile> <seed> <count> <out.ndjson> [jobs]
//!   yxharness run <scenario-file> <out.ndjson>      (scenario file: blocks "# <id>", "cfg ...", steps)
mod exec;
mod gen;
mod transport;
mod world;

use std::fs::File;
use std::io::{BufWriter, Write};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use world::*;

fn cfg_line(c: &Cfg) -> String {
    format!(
        "cfg {} {} {} {} {}",
        c.server as u8,
        c.maxs,
        c.maxc.map(|x| x.to_string()).unwrap_or("-".into()),
        c.rac as u8,
        c.split
    )
}
fn parse_cfg(l: &str) -> Cfg {
    let w: Vec<&str> = l.split_whitespace().collect();
    Cfg {
        server: w[1] == "1",
        maxs: w[2].parse().unwrap(),
        maxc: w[3].parse().ok(),
        rac: w[4] == "1",
        split: w[5].parse().unwrap(),
    }
}

struct Out {
    id: String,
    scn: Vec<String>,
    logs: Vec<Vec<String>>,
}

fn finish(id: &str, cfgs: &[Cfg], mut w: World) -> Out {
    for e in w.eps.iter_mut() {
        e.teardown();
    }
    let mut scn: Vec<String> = cfgs.iter().map(cfg_line).collect();
    scn.extend(w.steps.lock().unwrap().iter().cloned());
    let logs = w.eps.iter().map(|e| e.log.borrow().ev.clone()).collect();
    // dead endpoints hold leaked objects; everything else is dropped here
    Out { id: id.to_string(), scn, logs }
}

fn one(profile: &str, seed: u64, idx: usize, cur: &Arc<Mutex<Cur>>) -> Out {
    let mut r = gen::Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(idx as u64));
    let id = format!("{profile}-{seed}-{idx}");
    if profile.starts_with("pair") {
        let cfgs = gen::pair_cfgs(profile, &mut r);
        let mut w = World::new(true, &cfgs);
        track(cur, &id, &cfgs, &w);
        gen::run_pair(profile, &mut r, &mut w);
        finish(&id, &cfgs, w)
    } else {
        let p = gen::profile(profile, &mut r);
        let cfgs = vec![p.cfg.clone()];
        let mut w = World::new(false, &cfgs);
        track(cur, &id, &cfgs, &w);
        gen::run_single(&p, &mut r, &mut w);
        finish(&id, &cfgs, w)
    }
}

#[derive(Default)]
struct Cur {
    id: String,
    since: Option<Instant>,
    cfg: Vec<String>,
    steps: Arc<Mutex<Vec<String>>>,
}
fn track(cur: &Arc<Mutex<Cur>>, id: &str, cfgs: &[Cfg], w: &World) {
    let mut c = cur.lock().unwrap();
    c.id = id.into();
    c.since = Some(Instant::now());
    c.cfg = cfgs.iter().map(cfg_line).collect();
    c.steps = w.steps.clone();
}

fn replay(block: &[String], cur: &Arc<Mutex<Cur>>) -> Out {
    let id = block[0].trim_start_matches("# ").to_string();
    let cfgs: Vec<Cfg> = block.iter().filter(|l| l.starts_with("cfg ")).map(|l| parse_cfg(l)).collect();
    {
        let mut c = cur.lock().unwrap();
        c.id = id.clone();
        c.cfg = cfgs.iter().map(cfg_line).collect();
        c.steps = Default::default();
    }
    let mut w = World::new(cfgs.len() == 2, &cfgs);
    track(cur, &id, &cfgs, &w);
    for l in &block[1..] {
        if !l.starts_with("cfg ") {
            w.step(l)
        }
    }
    finish(&id, &cfgs, w)
}

fn emit(out: &Mutex<BufWriter<File>>, scn: &Mutex<BufWriter<File>>, o: &Out) {
    let mut f = out.lock().unwrap();
    for (k, l) in o.logs.iter().enumerate() {
        let x = ["a", "b"][k];
        writeln!(f, r#"{{"id":"{}{}","n":{},"ev":[{}]}}"#, o.id, x, l.len(), l.join(",")).unwrap();
    }
    drop(f);
    let mut s = scn.lock().unwrap();
    writeln!(s, "# {}", o.id).unwrap();
    for l in &o.scn {
        writeln!(s, "{l}").unwrap();
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let (out, total, job): (String, usize, Box<dyn Fn(usize, &Arc<Mutex<Cur>>) -> Out + Send + Sync>);
    let mut jobs = 8;
    match a[1].as_str() {
        "gen" => {
            let (p, seed): (String, u64) = (a[2].clone(), a[3].parse().unwrap());
            total = a[4].parse().unwrap();
            out = a[5].clone();
            if let Some(j) = a.get(6) {
                jobs = j.parse().unwrap()
            }
            job = Box::new(move |i, c| one(&p, seed, i, c));
        }
        "run" => {
            let t = std::fs::read_to_string(&a[2]).unwrap();
            out = a[3].clone();
            let mut blocks: Vec<Vec<String>> = vec![];
            for l in t.lines().map(|l| l.trim()).filter(|l| !l.is_empty()) {
                if l.starts_with('#') {
                    blocks.push(vec![])
                }
                blocks.last_mut().unwrap().push(l.to_string())
            }
            total = blocks.len();
            job = Box::new(move |i, c| replay(&blocks[i], c));
        }
        _ => std::process::exit(2),
    }
    let job = Arc::new(job);
    let f = Arc::new(Mutex::new(BufWriter::new(File::create(&out).unwrap())));
    let s = Arc::new(Mutex::new(BufWriter::new(File::create(format!("{out}.scn")).unwrap())));
    let next = Arc::new(AtomicUsize::new(0));
    let done = Arc::new(AtomicUsize::new(0));
    let curs: Vec<Arc<Mutex<Cur>>> = (0..jobs).map(|_| Default::default()).collect();
    for c in &curs {
        let (job, f, s, next, done, c) = (job.clone(), f.clone(), s.clone(), next.clone(), done.clone(), c.clone());
        std::thread::spawn(move || loop {
            let i = next.fetch_add(1, Ordering::SeqCst);
            if i >= total {
                break;
            }
            let o = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| job(i, &c))) {
                Ok(o) => o,
                Err(_) => {
                    // outside of any guarded call: the configuration was refused
                    let c = c.lock().unwrap();
                    let mut scn = c.cfg.clone();
                    scn.extend(c.steps.lock().unwrap_or_else(|e| e.into_inner()).iter().cloned());
                    let ev = vec![r#"{"e":"panic","in":"run","m":"outside"}"#.to_string()];
                    Out { id: c.id.clone(), scn, logs: vec![ev] }
                }
            };
            if c.lock().unwrap().since.is_none() {
                break; // given up on by the watchdog
            }
            emit(&f, &s, &o);
            c.lock().unwrap().since = None;
            done.fetch_add(1, Ordering::SeqCst);
        });
    }
    // watchdog: a run that does not end is itself a violation
    loop {
        std::thread::sleep(Duration::from_millis(20));
        let d = done.load(Ordering::SeqCst);
        if d >= total {
            break;
        }
        for c in &curs {
            let mut c = c.lock().unwrap();
            if c.since.map(|t| t.elapsed() > Duration::from_secs(60)).unwrap_or(false) {
                c.since = None;
                let mut scn = c.cfg.clone();
                scn.extend(c.steps.lock().unwrap().iter().cloned());
                let ev = vec![r#"{"e":"panic","in":"run","m":"hang"}"#.to_string()];
                emit(&f, &s, &Out { id: c.id.clone(), scn, logs: vec![ev] });
                done.fetch_add(1, Ordering::SeqCst);
            }
        }
    }
    f.lock().unwrap().flush().unwrap();
    s.lock().unwrap().flush().unwrap();
    std::process::exit(0);
}
