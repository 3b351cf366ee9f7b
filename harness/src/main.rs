//! Runtime monitor for the midi2 crate: runs the real code under generated workloads and
//! judges what it observes.  Driven by tools/check.py.
mod alloc;
mod bufs;
mod conv;
mod core;
mod gen;
mod kind;
mod props;
mod tables;
mod view;
#[cfg(target_arch = "wasm32")]
mod wasm;

use crate::core::*;
use std::collections::BTreeMap;
#[cfg(not(target_arch = "wasm32"))]
use std::io::Write;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
struct Args(Vec<String>);
impl Args {
    fn opt(&self, n: &str) -> Option<&str> {
        self.0.iter().position(|a| a == n).and_then(|i| self.0.get(i + 1)).map(|s| s.as_str())
    }
    fn num(&self, n: &str, d: u64) -> u64 {
        self.opt(n).map(|s| s.parse().expect(n)).unwrap_or(d)
    }
    fn has(&self, n: &str) -> bool {
        self.0.iter().any(|a| a == n)
    }
}
#[derive(Default)]
struct Total {
    rec: Record,
    fails: BTreeMap<String, (String, u64, String, u64)>,
    digests: Vec<u64>,
    counts: Vec<u64>,
}
const STUCK_TICKS: u64 = 300; // x 100 ms of the watchdog's own running time

fn main() {
    // (compiled for WebAssembly, the monitor is driven through the functions of wasm.rs)
    #[cfg(not(target_arch = "wasm32"))]
    {
        let a = Args(std::env::args().skip(1).collect());
        install_hook();
        match a.0.first().map(|s| s.as_str()).unwrap_or_default() {
            "range" => {
                // case by case, naming each before it runs (used after an abnormal death)
                let u = unit(&a);
                for i in a.num("--from", 0)..a.num("--to", 1) {
                    println!("CASE {i}");
                    std::io::stdout().flush().unwrap();
                    let _ = run_case(&u, i, a.num("--seed", 1), 0, false);
                }
            }
            "run" => run(&a),
            _ => {
                let (text, code) = query(&a);
                print!("{text}");
                std::process::exit(code);
            }
        }
    }
}
fn unit(a: &Args) -> UnitDef {
    if a.has("--small") {
        gen::SMALL.store(true, Ordering::Relaxed);
    }
    let name = a.opt("--unit").expect("--unit");
    let prop = name.split('/').next().unwrap();
    props::units(prop).into_iter().find(|u| u.name == name).expect("no such unit")
}
/// Commands that answer with a text.
fn query(a: &Args) -> (String, i32) {
    let seed = a.num("--seed", 1);
    let mut o = String::new();
    match a.0.first().map(|s| s.as_str()).unwrap_or_default() {
        "list" => {
            for u in props::units(a.opt("--prop").unwrap_or("")) {
                o.push_str(&format!("{} {} {}\n", u.name, u.quick, u.thorough));
            }
        }
        "case" => {
            // one case, verbosely
            let c = run_case(&unit(a), a.num("--index", 0), seed, 0, true);
            for s in &c.rec.samples {
                o.push_str(&format!("SAMPLE {s}\n"));
            }
            o.push_str(&format!("DIGEST {:016x}\n", c.dig.0));
            for f in &c.fails {
                o.push_str(&format!("FAIL {}\n  {}\n", f.sig, f.detail));
            }
            return (o, if c.fails.is_empty() { 0 } else { 1 });
        }
        "digests" => {
            // per-case digests of one unit
            let u = unit(a);
            for i in a.num("--from", 0)..a.num("--to", 1) {
                let c = run_case(&u, i, seed, 0, false);
                o.push_str(&format!("{i} {:016x}\n", case_digest(&c)));
            }
        }
        _ => return ("usage: monitor run|case|range|digests|list ...\n".into(), 2),
    }
    (o, 0)
}
fn case_digest(c: &Case) -> u64 {
    let mut h = Hash64::new();
    h.add(c.dig.0).add(c.idx);
    for f in &c.fails {
        h.str(&f.sig);
    }
    h.0
}
/// The units of a run, how many cases of each, and in which order.
struct Plan {
    units: Vec<UnitDef>,
    counts: Vec<u64>,
    chunks: Vec<(usize, u64, u64)>,
    seed: u64,
}
fn plan(a: &Args) -> Plan {
    if a.has("--small") {
        gen::SMALL.store(true, Ordering::Relaxed);
    }
    let thorough = a.has("--thorough");
    let num = a.num("--num", 1);
    let den = a.num("--den", 1);
    let filter = a.opt("--filter").unwrap_or("").to_string();
    let mut units = vec![];
    for p in a.opt("--prop").expect("--prop").split(',') {
        units.extend(props::units(p));
    }
    units.retain(|u| u.name.contains(&filter));
    // one of several processes that share the units
    let (lane, lanes) = (a.num("--lane", 0) as usize, a.num("--lanes", 1) as usize);
    units = units.into_iter().enumerate().filter(|(i, _)| i % lanes == lane).map(|(_, u)| u).collect();
    if !units.is_empty() {
        let k = a.num("--rotate", 0) as usize % units.len();
        units.rotate_left(k);
    }
    // a given number of cases for every unit, or for each unit named in a file
    let counts: Vec<u64> = match (a.opt("--per"), a.opt("--counts")) {
        (Some(n), _) => vec![n.parse::<u64>().expect("--per"); units.len()],
        (_, Some(f)) => {
            let t = std::fs::read_to_string(f).expect("--counts");
            let m: BTreeMap<&str, u64> = t.lines().filter_map(|l| l.split_once(' ')).map(|(u, n)| (u, n.parse().expect("--counts"))).collect();
            units.iter().map(|u| m.get(u.name.as_str()).copied().unwrap_or(0)).collect()
        }
        _ => units.iter().map(|u| ((if thorough { u.thorough } else { u.quick }) * num / den).max(1)).collect(),
    };
    // chunks interleaved over the units, so that a time limit thins all units alike
    let mut chunks: Vec<(usize, u64, u64)> = vec![];
    let per = a.num("--chunk", 50);
    let most = counts.iter().copied().max().unwrap_or(0);
    for r in 0..most.div_ceil(per) {
        for (i, n) in counts.iter().enumerate() {
            if r * per < *n {
                chunks.push((i, r * per, (r * per + per).min(*n)));
            }
        }
    }
    Plan { units, counts, chunks, seed: a.num("--seed", 1) }
}
impl Total {
    fn new(n: usize) -> Self {
        Total { digests: vec![0; n], counts: vec![0; n], ..Default::default() }
    }
    fn case(&mut self, p: &Plan, ui: usize, i: u64) {
        let u = &p.units[ui];
        let mut c = run_case(u, i, p.seed, 0, false);
        self.digests[ui] = self.digests[ui].wrapping_add(case_digest(&c));
        self.counts[ui] += 1;
        if !c.fails.is_empty() {
            let new = c.fails.iter().any(|f| !self.fails.contains_key(&f.sig));
            let fails = if new { run_case(u, i, p.seed, 0, true).fails } else { c.fails.clone() };
            let fails = if fails.is_empty() { c.fails.clone() } else { fails };
            for f in fails {
                let e = self.fails.entry(f.sig).or_insert((u.name.clone(), i, f.detail, 0));
                e.3 += 1;
            }
        }
        self.rec.merge(std::mem::take(&mut c.rec));
    }
    fn merge(&mut self, o: Total) {
        for (i, d) in o.digests.iter().enumerate() {
            self.digests[i] = self.digests[i].wrapping_add(*d);
            self.counts[i] += o.counts[i];
        }
        for (k, v) in o.fails {
            let e = self.fails.entry(k).or_insert_with(|| (v.0.clone(), v.1, v.2.clone(), 0));
            e.3 += v.3;
            if v.1 < e.1 {
                (e.0, e.1, e.2) = (v.0, v.1, v.2);
            }
        }
        self.rec.merge(o.rec);
    }
    fn report(&self, p: &Plan, wall: f64) -> String {
        let t = self;
        let mut o = String::new();
        o.push_str(&format!("{{\"seed\":{},\"wall_s\":{wall:.3},\"evals\":{},\"distinct\":{},", p.seed, t.rec.evals, t.rec.sigs.len()));
        let ev: Vec<String> = t.rec.evs.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
        o.push_str(&format!("\"events\":{{{}}},", ev.join(",")));
        let un: Vec<String> =
            p.units.iter().enumerate().map(|(i, u)| format!("[{},{},{},\"{:016x}\"]", esc(&u.name), t.counts[i], p.counts[i], t.digests[i])).collect();
        o.push_str(&format!("\"units\":[{}],", un.join(",")));
        let sm: Vec<String> = t.rec.samples.iter().map(|s| esc(s)).collect();
        o.push_str(&format!("\"samples\":[{}],", sm.join(",")));
        let fs: Vec<String> = t
            .fails
            .iter()
            .map(|(s, (u, i, d, n))| format!("{{\"sig\":{},\"unit\":{},\"index\":{},\"detail\":{},\"count\":{}}}", esc(s), esc(u), i, esc(d), n))
            .collect();
        o.push_str(&format!("\"failures\":[{}]}}\n", fs.join(",")));
        o
    }
}
#[cfg_attr(target_arch = "wasm32", allow(dead_code))]
fn run(a: &Args) {
    let secs = a.num("--max-secs", u64::MAX);
    let marks = a.opt("--marks").map(|s| s.to_string());
    let out = a.opt("--out").map(|s| s.to_string());
    let nthreads = a.num("--threads", 8) as usize;
    let stuck = a.opt("--stuck-secs").map(|s| s.parse::<u64>().unwrap() * 10).unwrap_or(STUCK_TICKS);
    let plan = plan(a);
    let t0 = std::time::Instant::now();
    let next = AtomicUsize::new(0);
    let total = Mutex::new(Total::new(plan.units.len()));
    // what each thread is doing: unit << 40 | index, plus a beat
    // (a lock, because not every target has 64-bit atomics)
    let doing: Vec<Mutex<u64>> = (0..nthreads).map(|_| Mutex::new(u64::MAX)).collect();
    let done = AtomicUsize::new(0);
    let (plan, next, total, doing, done, marks) = (&plan, &next, &total, &doing, &done, &marks);
    let emit = |hang: Option<(usize, u64)>| {
        let mut t = total.lock().unwrap();
        if let Some((u, i)) = hang {
            let sig = format!("{}:hang", plan.units[u].name);
            t.fails.insert(sig, (plan.units[u].name.clone(), i, "the case did not finish".into(), 1));
        }
        let o = t.report(plan, t0.elapsed().as_secs_f64());
        match &out {
            Some(f) => std::fs::write(f, o).unwrap(),
            None => print!("{o}"),
        }
    };
    let emit = &emit;
    std::thread::scope(|s| {
        for th in 0..nthreads {
            let b = std::thread::Builder::new().stack_size(8 << 20);
            b.spawn_scoped(s, move || {
                let mut mine = Total::new(plan.units.len());
                loop {
                    let k = next.fetch_add(1, Ordering::Relaxed);
                    if k >= plan.chunks.len() || t0.elapsed().as_secs() >= secs {
                        break;
                    }
                    let (ui, lo, hi) = plan.chunks[k];
                    if let Some(m) = marks {
                        let _ = std::fs::write(format!("{m}/{th}"), format!("{} {lo} {hi}\n", plan.units[ui].name));
                    }
                    for i in lo..hi {
                        *doing[th].lock().unwrap() = (ui as u64) << 40 | i;
                        mine.case(plan, ui, i);
                    }
                    *doing[th].lock().unwrap() = u64::MAX;
                }
                if let Some(m) = marks {
                    let _ = std::fs::remove_file(format!("{m}/{th}"));
                }
                total.lock().unwrap().merge(mine);
                done.fetch_add(1, Ordering::SeqCst);
            })
            .unwrap();
        }
        // watchdog
        let mut last = vec![(u64::MAX, 0u64); nthreads];
        while done.load(Ordering::SeqCst) < nthreads {
            std::thread::sleep(std::time::Duration::from_millis(if t0.elapsed().as_secs() < 2 { 10 } else { 100 }));
            if t0.elapsed().as_secs() < 2 {
                continue;
            }
            for th in 0..nthreads {
                let d = *doing[th].lock().unwrap();
                if d != u64::MAX && d == last[th].0 {
                    last[th].1 += 1;
                    if last[th].1 > stuck {
                        emit(Some(((d >> 40) as usize, d & ((1 << 40) - 1))));
                        std::process::exit(3);
                    }
                } else {
                    last[th] = (d, 0);
                }
            }
        }
    });
    emit(None);
}
