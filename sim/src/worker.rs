//! Running cases: one, by tape, or a share of a batch.
use crate::props::{c11, Prop};
use crate::world::*;
use std::collections::{BTreeMap, HashSet};
use std::fs::File;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::sync::atomic::Ordering::Relaxed;
use std::time::{Duration, Instant};

pub const WORKERS: u64 = 8;
/// Hashes of all runs below this index are kept for the determinism check.
pub const KEEP: u64 = 400;

pub fn case_seed(prop: &Prop, seed: u64, idx: u64) -> u64 {
    let p = prop.id.bytes().fold(0u64, |a, b| a * 131 + b as u64);
    mix(mix(seed ^ 0xB5) ^ p.wrapping_mul(0x1_0000_0001) ^ idx.wrapping_mul(0x9E37_79B9_7F4A_7C15))
}

pub enum End {
    Verdict(Verdict),
    /// The harness itself failed.
    Broken(String),
}

/// Runs a case on a thread with the stack a Rust thread usually has.
pub fn run_case(prop: &'static Prop, w: &W) -> End {
    let w2 = w.clone();
    let h = std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || {
            let mut w = w2;
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (prop.run)(&mut w)));
            match r {
                Ok(v) => End::Verdict(v),
                Err(e) => {
                    if let Some(s) = e.downcast_ref::<SimPanic>() {
                        return End::Verdict(violation(s.0, "the simulator stopped the run"));
                    }
                    let m = LAST_PANIC.with(|p| p.borrow().clone());
                    // Panics raised in the harness's own source are the harness's; any other comes from
                    // library code called outside a guard.
                    if m.contains(" at src/") {
                        End::Broken(m)
                    } else {
                        End::Verdict(violation("panic", format!("the library panicked: {}", m)))
                    }
                }
            }
        })
        .expect("thread");
    h.join().unwrap_or_else(|_| End::Broken("case thread died".into()))
}

pub struct Known {
    pub property: String,
    pub class: String,
    pub text: String,
}
pub fn known(path: &str) -> Vec<Known> {
    let mut v = Vec::new();
    for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
        // known: property=<id> class=<class> text=<substring of the detail>
        if let Some(r) = l.strip_prefix("known: property=") {
            if let (Some((p, r)), true) = (r.split_once(" class="), true) {
                if let Some((c, t)) = r.split_once(" text=") {
                    v.push(Known { property: p.into(), class: c.into(), text: t.into() });
                }
            }
        }
    }
    v
}
pub fn matches(ks: &[Known], prop: &str, v: &Violation) -> Option<usize> {
    ks.iter().position(|k| k.property == prop && k.class == v.class && v.detail.contains(&k.text))
}

pub struct Job {
    pub prop: &'static Prop,
    pub seed: u64,
    pub k: u64,
    pub runs: u64,
    pub secs: u64,
    /// Eight slots of (progress, violating index), one per worker.
    pub slots: String,
    pub out: String,
    pub known: String,
}

fn one_line(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t")
}

pub fn work(j: Job) -> i32 {
    let slots = std::fs::OpenOptions::new().read(true).write(true).open(&j.slots).expect("slots");
    let ks = known(&j.known);
    let start = Instant::now();
    let mut faults: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut fault_runs: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut probes: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut seen: HashSet<u64> = HashSet::new();
    let mut shapes: HashSet<u64> = HashSet::new();
    let mut kept = Vec::new();
    let (mut done, mut events, mut ns, mut draws, mut nontrivial) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let mut found: Option<(u64, Violation)> = None;
    let mut broken: Option<(u64, String)> = None;
    let mut known_hits: BTreeMap<usize, u64> = BTreeMap::new();
    let mut sample = Vec::new();
    let mut idx = j.k;
    let mut code = 0;
    while idx < j.runs {
        let mut all = [0u8; 16 * WORKERS as usize];
        let _ = slots.read_exact_at(&mut all, 0);
        let lowest = (0..WORKERS as usize)
            .map(|i| u64::from_le_bytes(all[16 * i + 8..16 * i + 16].try_into().unwrap()))
            .filter(|&v| v != 0)
            .min();
        if lowest.map_or(false, |l| idx >= l - 1) || start.elapsed() > Duration::from_secs(j.secs) {
            break;
        }
        let _ = slots.write_all_at(&(idx + 1).to_le_bytes(), 16 * j.k);
        let w = W::fresh(case_seed(j.prop, j.seed, idx));
        let end = run_case(j.prop, &w);
        done += 1;
        {
            let g = w.lock();
            for (k, v) in &g.faults {
                *faults.entry(k).or_insert(0) += v;
                *fault_runs.entry(k).or_insert(0) += 1;
            }
            for (k, v) in &g.probes {
                *probes.entry(k).or_insert(0) += v;
            }
            events += g.events;
            ns += g.clock_ns;
            draws += g.tape.len() as u64;
        }
        let h = w.hash();
        shapes.insert(w.shape());
        if idx < KEEP {
            kept.push((idx, h));
        }
        if w.lock().nontrivial {
            nontrivial += 1;
            seen.insert(h);
            if sample.len() < 2 {
                sample.push(idx);
            }
        }
        match end {
            End::Verdict(Ok(())) => {}
            End::Verdict(Err(v)) => {
                if let Some(i) = matches(&ks, j.prop.id, &v) {
                    *known_hits.entry(i).or_insert(0) += 1;
                } else {
                    let _ = slots.write_all_at(&(idx + 1).to_le_bytes(), 16 * j.k + 8);
                    found = Some((idx, v));
                    break;
                }
                if c11::STUCK.load(Relaxed) {
                    break;
                }
            }
            End::Broken(m) => {
                broken = Some((idx, m));
                code = 3;
                break;
            }
        }
        idx += WORKERS;
    }
    let mut o = String::new();
    o.push_str(&format!("done {}\nevents {}\nns {}\ndraws {}\nnontrivial {}\n", done, events, ns, draws, nontrivial));
    for (k, v) in &faults {
        o.push_str(&format!("fault {} {} {}\n", k, v, fault_runs[k]));
    }
    for (k, v) in &probes {
        o.push_str(&format!("probe {} {}\n", k, v));
    }
    for (i, h) in kept {
        o.push_str(&format!("hash {} {}\n", i, h));
    }
    for i in sample {
        o.push_str(&format!("sample {}\n", i));
    }
    for (i, n) in known_hits {
        o.push_str(&format!("known {} {}\n", i, n));
    }
    if let Some((i, v)) = found {
        o.push_str(&format!("violation {} {}\t{}\n", i, one_line(&v.class), one_line(&v.detail)));
    }
    if let Some((i, m)) = broken {
        o.push_str(&format!("broken {} {}\n", i, one_line(&m)));
    }
    o.push_str("end\n");
    std::fs::write(&j.out, o).expect("out");
    let mut bin = Vec::with_capacity(8 * seen.len());
    for h in seen {
        bin.extend_from_slice(&h.to_le_bytes());
    }
    std::fs::write(format!("{}.bin", j.out), bin).expect("out");
    let shapes: Vec<u8> = shapes.into_iter().flat_map(|h| h.to_le_bytes()).collect();
    std::fs::write(format!("{}.shapes", j.out), shapes).expect("out");
    code
}

fn report(w: &W, e: End, trace: bool) -> i32 {
    if trace {
        let g = w.lock();
        for l in g.trace.iter().flatten() {
            println!("TRACE {}", one_line(l));
        }
    }
    println!("HASH {}", w.hash());
    let (nt, len) = {
        let g = w.lock();
        (u8::from(g.nontrivial), g.tape.len())
    };
    println!("SHAPE {} {}", nt, len);
    let out = match e {
        End::Verdict(Ok(())) => "RESULT ok".to_string(),
        End::Verdict(Err(v)) => format!("RESULT violation {}\t{}", one_line(&v.class), one_line(&v.detail)),
        End::Broken(m) => format!("RESULT broken {}", one_line(&m)),
    };
    println!("{}", out);
    let _ = std::io::stdout().flush();
    0
}

/// One case by index.
pub fn one(prop: &'static Prop, seed: u64, idx: u64, spill: Option<&str>, trace: bool) -> i32 {
    let w = W::fresh(case_seed(prop, seed, idx));
    if let Some(p) = spill {
        w.lock().spill = Some(File::create(p).expect("spill"));
    }
    if trace {
        w.enable_trace();
    }
    let e = run_case(prop, &w);
    report(&w, e, trace)
}

/// One case by tape.
pub fn tape(prop: &'static Prop, t: Vec<u64>, spill: Option<&str>, trace: bool) -> i32 {
    let w = W::replay(t, trace);
    if let Some(p) = spill {
        w.lock().spill = Some(File::create(p).expect("spill"));
    }
    let e = run_case(prop, &w);
    report(&w, e, trace)
}

/// A stretch of a worker's share, ending with the case of interest.
pub fn history(prop: &'static Prop, seed: u64, start: u64, idx: u64) -> i32 {
    let mut i = start;
    loop {
        let w = W::fresh(case_seed(prop, seed, i));
        let e = run_case(prop, &w);
        if i >= idx {
            return report(&w, e, false);
        }
        i += WORKERS;
    }
}

/// Hashes of some cases, for the determinism check.
pub fn hashes(prop: &'static Prop, seed: u64, idxs: Vec<u64>) -> i32 {
    for i in idxs {
        let w = W::fresh(case_seed(prop, seed, i));
        let _ = run_case(prop, &w);
        println!("hash {} {}", i, w.hash());
    }
    0
}
