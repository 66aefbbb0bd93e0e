//! The parent: shares a batch out among worker processes, watches them, reproduces and minimises
//! what they find, and writes the evidence.
use crate::props::Prop;
use crate::worker::{known, WORKERS};
use std::collections::{BTreeMap, HashSet};
use std::io::Read;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub struct Opts {
    pub prop: &'static Prop,
    pub seed: u64,
    pub tier: String,
    pub runs: u64,
    pub secs: u64,
    pub bins: [String; 2],
    pub verif: String,
}

#[derive(Clone, Debug)]
pub struct Out {
    pub class: String,
    pub detail: String,
    pub trace: Vec<String>,
    pub hash: u64,
    pub tape_len: u64,
}

fn cpu_ticks(pid: u32) -> u64 {
    std::fs::read_to_string(format!("/proc/{}/stat", pid))
        .ok()
        .and_then(|s| {
            let t: Vec<String> = s.rsplit(')').next()?.split_whitespace().map(|x| x.to_string()).collect();
            Some(t.get(11)?.parse::<u64>().ok()? + t.get(12)?.parse::<u64>().ok()?)
        })
        .unwrap_or(0)
}

/// No progress for this long, on the processor or by the clock, is a hang.
const HANG_CPU: u64 = 30;
const HANG_WALL: u64 = 150;

/// Runs a child that prints a RESULT line, within the hang limits.
pub fn child(bin: &str, args: &[String], cpu: u64, wall: u64) -> Out {
    let mut out = Out { class: String::new(), detail: String::new(), trace: vec![], hash: 0, tape_len: 0 };
    let mut c = match Command::new(bin).args(args).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn() {
        Ok(c) => c,
        Err(e) => {
            out.class = "broken".into();
            out.detail = e.to_string();
            return out;
        }
    };
    let mut so = c.stdout.take().unwrap();
    let mut se = c.stderr.take().unwrap();
    let t1 = std::thread::spawn(move || {
        let mut v = Vec::new();
        let _ = so.read_to_end(&mut v);
        String::from_utf8_lossy(&v).into_owned()
    });
    let t2 = std::thread::spawn(move || {
        let mut v = Vec::new();
        let _ = se.read_to_end(&mut v);
        String::from_utf8_lossy(&v).into_owned()
    });
    let start = Instant::now();
    let mut nap = 100;
    let status = loop {
        match c.try_wait() {
            Ok(Some(s)) => break Some(s),
            Ok(None) => {}
            Err(_) => break None,
        }
        if cpu_ticks(c.id()) > cpu * 100 || start.elapsed() > Duration::from_secs(wall) {
            let _ = c.kill();
            let _ = c.wait();
            break None;
        }
        std::thread::sleep(Duration::from_micros(nap));
        nap = (nap * 2).min(50_000);
    };
    let so = t1.join().unwrap_or_default();
    let se = t2.join().unwrap_or_default();
    for l in so.lines() {
        if let Some(t) = l.strip_prefix("TRACE ") {
            out.trace.push(t.to_string());
        } else if let Some(h) = l.strip_prefix("HASH ") {
            out.hash = h.parse().unwrap_or(0);
        } else if let Some(h) = l.strip_prefix("SHAPE ") {
            out.tape_len = h.split(' ').nth(1).and_then(|x| x.parse().ok()).unwrap_or(0);
        } else if let Some(r) = l.strip_prefix("RESULT ") {
            if r == "ok" {
                out.class = "ok".into();
            } else if let Some(v) = r.strip_prefix("violation ") {
                let (c, d) = v.split_once('\t').unwrap_or((v, ""));
                out.class = c.into();
                out.detail = d.into();
            } else {
                out.class = "broken".into();
                out.detail = r.to_string();
            }
        }
    }
    if out.class.is_empty() {
        match status {
            None => {
                out.class = "hang".into();
                out.detail = "the run did not end".into();
            }
            Some(s) => {
                out.class = "abort".into();
                out.detail = format!("the process died ({}): {}", s, se.lines().filter(|l| !l.is_empty()).take(3).collect::<Vec<_>>().join(" / "));
            }
        }
    }
    out
}

fn strings(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Min<'a> {
    o: &'a Opts,
    bin: String,
    class: String,
    file: String,
    tries: u64,
    until: Instant,
}
impl Min<'_> {
    fn holds(&mut self, t: &[u64]) -> bool {
        self.tries += 1;
        let r = run_tape(self.o.prop, &self.bin, &self.file, t, false);
        r.class == self.class
    }
    fn spent(&self) -> bool {
        Instant::now() > self.until
    }
    fn minimise(&mut self, mut t: Vec<u64>) -> Vec<u64> {
        // Shorter first: what is missing reads as zero, the simplest choice.
        let (mut lo, mut hi) = (0usize, t.len());
        while lo < hi && !self.spent() {
            let mid = (lo + hi) / 2;
            if self.holds(&t[..mid]) {
                hi = mid;
            } else {
                lo = mid + 1;
            }
        }
        t.truncate(hi);
        let mut again = true;
        while again && !self.spent() {
            again = false;
            let mut size = (t.len() / 2).max(1);
            while size >= 1 && !self.spent() {
                let mut i = 0;
                while i < t.len() && !self.spent() {
                    let e = (i + size).min(t.len());
                    let mut u = t.clone();
                    u.drain(i..e);
                    if self.holds(&u) {
                        t = u;
                        again = true;
                        continue;
                    }
                    if t[i..e].iter().any(|&x| x != 0) {
                        let mut u = t.clone();
                        u[i..e].iter_mut().for_each(|x| *x = 0);
                        if self.holds(&u) {
                            t = u;
                            again = true;
                        }
                    }
                    i = e;
                }
                if size == 1 {
                    break;
                }
                size /= 2;
            }
            for i in 0..t.len() {
                if self.spent() {
                    break;
                }
                let (mut lo, mut hi) = (0, t[i]);
                while lo < hi && !self.spent() {
                    let mid = lo + (hi - lo) / 2;
                    let mut u = t.clone();
                    u[i] = mid;
                    if self.holds(&u) {
                        hi = mid;
                        t = u;
                        again = true;
                    } else {
                        lo = mid + 1;
                    }
                }
            }
        }
        while t.last() == Some(&0) {
            t.pop();
        }
        t
    }
}

fn tape_text(t: &[u64]) -> String {
    t.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")
}
pub fn parse_tape(s: &str) -> Vec<u64> {
    s.split_whitespace().filter_map(|x| x.parse().ok()).collect()
}

fn run_tape(p: &Prop, bin: &str, file: &str, t: &[u64], trace: bool) -> Out {
    let _ = std::fs::write(file, tape_text(t));
    let mut a = strings(&["tape", p.id, file]);
    if trace {
        a.push("--trace".into());
    }
    child(bin, &a, HANG_CPU, HANG_WALL)
}

fn profile(idx: u64) -> usize {
    (idx % 2) as usize
}

enum Found {
    Replay(String),
    NotReproduced(String),
    Broken(String),
}

fn investigate(o: &Opts, dir: &str, idx: u64, class: &str, detail: &str) -> Found {
    let bin = o.bins[profile(idx)].clone();
    let prof = ["checked", "plain"][profile(idx)];
    let spill = format!("{}/spill", dir);
    let seed = o.seed.to_string();
    let id = idx.to_string();
    let out_dir = format!("{}/replays", o.verif);
    let _ = std::fs::create_dir_all(&out_dir);
    let path = format!("{}/{}-{}-{}.replay", out_dir, o.prop.id, o.seed, idx);
    let timing = class == "hang" || class == "stall";
    let mut r = Out { class: String::new(), detail: String::new(), trace: vec![], hash: 0, tape_len: 0 };
    for _ in 0..3 {
        let _ = std::fs::remove_file(&spill);
        r = child(&bin, &strings(&["one", o.prop.id, &seed, &id, "--spill", &spill]), HANG_CPU, HANG_WALL);
        if r.class != "ok" {
            break;
        }
    }
    if r.class == "broken" {
        return Found::Broken(r.detail);
    }
    if r.class != "ok" {
        let t = parse_tape(&std::fs::read_to_string(&spill).unwrap_or_default());
        let full = t.len();
        let file = format!("{}/try", dir);
        let slow = r.class == "hang" || r.class == "stall";
        let again = run_tape(o.prop, &bin, &file, &t, false);
        let (mut t, class) = (t, r.class.clone());
        let mut tries = 0;
        if again.class == class && !slow {
            let mut m = Min { o, bin: bin.clone(), class: class.clone(), file: file.clone(), tries: 0, until: Instant::now() + Duration::from_secs(if o.tier == "quick" { 25 } else { 120 }) };
            t = m.minimise(t);
            tries = m.tries;
        }
        // The minimised file, replayed in fresh processes.
        let last = run_tape(o.prop, &bin, &file, &t, true);
        let (d, tr) = if last.class == class { (last.detail.clone(), last.trace.clone()) } else { (r.detail.clone(), vec![]) };
        let text = format!(
            "bvhsim-replay 1\nproperty {}\nprofile {}\nfound-by seed {} run {}\nclass {}\ndetail {}\nminimised {} choices of {} ({} attempts)\nreplayed {}\ntape {}\ntrace\n{}\n",
            o.prop.id, prof, o.seed, idx, class, d, t.len(), full, tries, if last.class == class { "same violation in a fresh process" } else { "not the same" }, tape_text(&t), tr.join("\n")
        );
        let _ = std::fs::write(&path, text);
        eprintln!("{}: {}: {}", o.prop.id, class, d);
        return Found::Replay(path);
    }
    // Not alone: then after the runs before it in its worker.
    let k = idx % WORKERS;
    let mut back = 1;
    let mut best = None;
    loop {
        let start = idx.saturating_sub(back * WORKERS).max(k);
        let start = start - (start % WORKERS) + k;
        let h = child(&bin, &strings(&["history", o.prop.id, &seed, &start.to_string(), &id]), 600, 600);
        if h.class != "ok" && h.class != "broken" {
            best = Some((start, h));
            break;
        }
        if start == k {
            break;
        }
        back *= 4;
    }
    if let Some((start, h)) = best {
        let text = format!(
            "bvhsim-replay 1\nproperty {}\nprofile {}\nfound-by seed {} run {}\nclass {}\ndetail {}\nhistory {} {} {}\n",
            o.prop.id, prof, o.seed, idx, h.class, h.detail, o.seed, start, idx
        );
        let _ = std::fs::write(&path, text);
        eprintln!("{}: {}: {}", o.prop.id, h.class, h.detail);
        return Found::Replay(path);
    }
    if timing {
        // A busy machine, not a finding.
        return Found::NotReproduced(format!("run {}: {}: {}", idx, class, detail));
    }
    let text = format!(
        "bvhsim-replay 1\nproperty {}\nprofile {}\nfound-by seed {} run {}\nclass {}\ndetail {}\nhistory {} {} {}\nnote seen once; the code under test does not behave the same every time\n",
        o.prop.id, prof, o.seed, idx, class, detail, o.seed, k, idx
    );
    let _ = std::fs::write(&path, text);
    Found::Replay(path)
}

pub fn run(o: &Opts) -> i32 {
    let t0 = Instant::now();
    let p = o.prop;
    let dir = format!("/tmp/bvhsim.{}.{}", std::process::id(), p.id);
    std::fs::create_dir_all(&dir).expect("scratch");
    let slots = format!("{}/slots", dir);
    let known_path = format!("{}/known-findings.txt", o.verif);
    let mut skip: Vec<String> = Vec::new();
    std::fs::write(&slots, vec![0u8; 16 * WORKERS as usize]).expect("slots");
    let mut kids: Vec<Option<Child>> = Vec::new();
    for k in 0..WORKERS {
        let c = Command::new(&o.bins[profile(k)])
            .args([
                "worker", p.id, &o.seed.to_string(), &k.to_string(), &o.runs.to_string(), &o.secs.to_string(), &slots,
                &format!("{}/out{}", dir, k), &known_path,
            ])
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .spawn();
        match c {
            Ok(c) => kids.push(Some(c)),
            Err(e) => {
                eprintln!("cannot start worker: {}", e);
                return 2;
            }
        }
    }
    // Watch them.
    let mut seen = vec![(0u64, Instant::now(), 0u64); WORKERS as usize];
    let mut dead: Vec<(u64, &'static str, String)> = Vec::new();
    let mut alive = WORKERS;
    while alive > 0 {
        std::thread::sleep(Duration::from_millis(20));
        let raw = std::fs::read(&slots).unwrap_or_default();
        for k in 0..WORKERS as usize {
            let prog = raw.get(16 * k..16 * k + 8).map(|b| u64::from_le_bytes(b.try_into().unwrap())).unwrap_or(0);
            let Some(c) = kids[k].as_mut() else { continue };
            let end = match c.try_wait() {
                Ok(Some(s)) if s.success() || s.code() == Some(3) => {
                    kids[k] = None;
                    alive -= 1;
                    continue;
                }
                Ok(Some(s)) => Some(("abort", format!("the process died: {}", s))),
                _ => {
                    if prog != seen[k].0 {
                        seen[k] = (prog, Instant::now(), cpu_ticks(c.id()));
                        None
                    } else if seen[k].1.elapsed() > Duration::from_secs(HANG_WALL) || (seen[k].1.elapsed() > Duration::from_secs(HANG_CPU) && cpu_ticks(c.id()).saturating_sub(seen[k].2) > HANG_CPU * 100) {
                        let _ = c.kill();
                        let _ = c.wait();
                        Some(("hang", "the run did not end".to_string()))
                    } else {
                        None
                    }
                }
            };
            if let Some((class, d)) = end {
                kids[k] = None;
                alive -= 1;
                dead.push((prog.saturating_sub(1), class, d));
                // Later runs of the others are of no interest.
                use std::os::unix::fs::FileExt;
                if let Ok(f) = std::fs::OpenOptions::new().write(true).open(&slots) {
                    let _ = f.write_all_at(&prog.max(1).to_le_bytes(), 16 * k as u64 + 8);
                }
            }
        }
    }
    // Gather.
    let (mut done, mut events, mut ns, mut draws, mut nontrivial) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let mut faults: BTreeMap<String, (u64, u64)> = BTreeMap::new();
    let mut probes: BTreeMap<String, u64> = BTreeMap::new();
    let mut kept: BTreeMap<u64, u64> = BTreeMap::new();
    let mut samples: Vec<u64> = Vec::new();
    let mut found: Vec<(u64, String, String)> = dead.into_iter().map(|(i, c, d)| (i, c.to_string(), d)).collect();
    let mut known_hits: BTreeMap<usize, u64> = BTreeMap::new();
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut shapes: HashSet<u64> = HashSet::new();
    let mut broken = Vec::new();
    for k in 0..WORKERS {
        let Ok(s) = std::fs::read_to_string(format!("{}/out{}", dir, k)) else { continue };
        for l in s.lines() {
            let (a, r) = l.split_once(' ').unwrap_or((l, ""));
            let num = |s: &str| s.parse::<u64>().unwrap_or(0);
            let f: Vec<&str> = r.split(' ').collect();
            match a {
                "done" => done += num(r),
                "events" => events += num(r),
                "ns" => ns += num(r),
                "draws" => draws += num(r),
                "nontrivial" => nontrivial += num(r),
                "fault" => {
                    let e = faults.entry(f[0].into()).or_insert((0, 0));
                    e.0 += num(f[1]);
                    e.1 += num(f[2]);
                }
                "probe" => *probes.entry(f[0].into()).or_insert(0) += num(f[1]),
                "hash" => {
                    kept.insert(num(f[0]), num(f[1]));
                }
                "sample" => samples.push(num(r)),
                "known" => *known_hits.entry(num(f[0]) as usize).or_insert(0) += num(f[1]),
                "violation" => {
                    let (i, x) = r.split_once(' ').unwrap_or((r, ""));
                    let (c, d) = x.split_once('\t').unwrap_or((x, ""));
                    found.push((num(i), c.into(), d.into()));
                }
                "broken" => broken.push(r.to_string()),
                _ => {}
            }
        }
        for (ext, set) in [("bin", &mut distinct), ("shapes", &mut shapes)] {
            if let Ok(b) = std::fs::read(format!("{}/out{}.{}", dir, k, ext)) {
                for c in b.chunks_exact(8) {
                    set.insert(u64::from_le_bytes(c.try_into().unwrap()));
                }
            }
        }
    }
    let search = t0.elapsed().as_secs_f64();
    found.sort();
    let mut code = 0;
    let mut violations = 0;
    let mut replay = None;
    for (i, c, d) in &found {
        match investigate(o, &dir, *i, c, d) {
            Found::Replay(f) => {
                replay = Some(f);
                violations += 1;
                code = 1;
                break;
            }
            Found::NotReproduced(m) => skip.push(m),
            Found::Broken(m) => broken.push(m),
        }
    }
    if !broken.is_empty() {
        for b in &broken {
            eprintln!("harness error: {}", b);
        }
        if code == 0 {
            code = 2;
        }
    }
    // Determinism: some runs again, in other company and order.
    let mut mismatches = 0;
    let mut compared = 0;
    if code == 0 {
        let lim = if o.tier == "quick" { 160 } else { crate::worker::KEEP };
        for par in 0..2u64 {
            let idxs: Vec<String> = kept.keys().rev().filter(|i| *i % 2 == par && **i < lim).map(|i| i.to_string()).collect();
            let mut a = strings(&["hashes", p.id, &o.seed.to_string()]);
            a.extend(idxs);
            if let Ok(x) = Command::new(&o.bins[par as usize]).args(&a).output() {
                for l in String::from_utf8_lossy(&x.stdout).lines() {
                    let f: Vec<u64> = l.split(' ').skip(1).filter_map(|x| x.parse().ok()).collect();
                    if f.len() == 2 {
                        compared += 1;
                        if kept.get(&f[0]) != Some(&f[1]) {
                            mismatches += 1;
                        }
                    }
                }
            }
        }
    }
    // Samples, written out.
    samples.sort();
    let mut shown = Vec::new();
    for i in samples.iter().take(3) {
        let r = child(&o.bins[profile(*i)], &strings(&["one", p.id, &o.seed.to_string(), &i.to_string(), "--trace"]), HANG_CPU, HANG_WALL);
        let t: Vec<String> = r.trace.iter().take(25).map(|l| l.chars().take(300).collect::<String>()).collect();
        shown.push(format!("{{\"run\": {}, \"profile\": {}, \"choices\": {}, \"result\": {}, \"trace\": [{}]}}", i, esc(["checked", "plain"][profile(*i)]), r.tape_len, esc(&r.class), t.iter().map(|l| esc(l)).collect::<Vec<_>>().join(", ")));
    }
    let wall = t0.elapsed().as_secs_f64();
    let map = |m: &BTreeMap<String, u64>| format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect::<Vec<_>>().join(", "));
    let fm: BTreeMap<String, u64> = faults.iter().map(|(k, v)| (k.clone(), v.0)).collect();
    let fr: BTreeMap<String, u64> = faults.iter().map(|(k, v)| (k.clone(), v.1)).collect();
    let ev = format!(
        "{{\n \"property\": {id},\n \"tier\": {tier},\n \"seed\": {seed},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {done},\n  \"distinct_nontrivial\": {dn},\n  \"rule\": {rule},\n  \"samples\": [{samples}],\n  \"nontrivial_runs\": {nt},\n  \"distinct_event_sequences\": {{\"count\": {shapes}, \"measure\": \"order of event and fault kinds in a run, immediate repeats collapsed, sizes and data left out\"}},\n  \"runs_per_hour\": {rph:.0},\n  \"simulated_seconds\": {sim:.3},\n  \"events\": {events},\n  \"choices_drawn\": {draws},\n  \"faults_injected\": {faults},\n  \"runs_with_fault\": {fr},\n  \"rare_conditions_reached\": {probes},\n  \"determinism_check\": {{\"runs_repeated\": {cmp}, \"different_event_logs\": {mm}}},\n  \"builds\": \"even runs with overflow checks and debug assertions, odd runs without\",\n  \"real_components\": {real},\n  \"stubs\": {stub},\n  \"unreproduced\": [{unrep}]\n }},\n \"assumptions\": [{ass}],\n \"wall_s\": {wall:.2},\n \"violations\": {violations}\n}}\n",
        id = esc(p.id),
        tier = esc(&o.tier),
        seed = o.seed,
        dn = distinct.len(),
        rule = esc(p.rule),
        samples = shown.join(", "),
        nt = nontrivial,
        shapes = shapes.len(),
        rph = done as f64 / search.max(0.001) * 3600.0,
        sim = ns as f64 / 1e9,
        faults = map(&fm),
        fr = map(&fr),
        probes = map(&probes),
        cmp = compared,
        mm = mismatches,
        real = esc(p.real),
        stub = esc(p.stub),
        unrep = skip.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "),
        ass = ["sampling, not enumeration: a clean batch is evidence, not proof", "simulated readers, sinks and disk follow the contracts of std::io as documented", "std's f32/f64 text conversion is the reference for numbers"].iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "),
    );
    let _ = std::fs::create_dir_all(format!("{}/evidence", o.verif));
    if let Err(e) = std::fs::write(format!("{}/evidence/{}.json", o.verif, p.id), ev) {
        eprintln!("cannot write evidence: {}", e);
        code = if code == 0 { 2 } else { code };
    }
    let ks = known(&known_path);
    for (i, n) in &known_hits {
        if let Some(k) = ks.get(*i) {
            println!("KNOWN-FINDING: property={} {} ({}; {} runs)", k.property, k.text, k.class, n);
        }
    }
    println!("{}: {} runs in {:.1} s, {} non-trivial, {} distinct, {} faults injected, determinism {}/{}", p.id, done, search, nontrivial, distinct.len(), fm.values().sum::<u64>(), compared - mismatches, compared);
    if let Some(f) = replay {
        println!("VIOLATION property={} replay={}", p.id, f);
    }
    let _ = std::fs::remove_dir_all(&dir);
    code
}

/// Replays a file: the same violation, exit 1; otherwise exit 0.
pub fn replay(path: &str, bins: &[String; 2]) -> i32 {
    let s = match std::fs::read_to_string(path) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("{}: {}", path, e);
            return 2;
        }
    };
    let get = |k: &str| s.lines().find_map(|l| l.strip_prefix(&format!("{} ", k)).map(|x| x.to_string()));
    let id = get("property").unwrap_or_default();
    let Some(p) = crate::props::ALL.iter().find(|p| p.id == id) else {
        eprintln!("no property {:?}", id);
        return 2;
    };
    let bin = &bins[if get("profile").as_deref() == Some("plain") { 1 } else { 0 }];
    let r = if let Some(t) = get("tape") {
        let file = format!("/tmp/bvhsim.replay.{}", std::process::id());
        let r = run_tape(p, bin, &file, &parse_tape(&t), true);
        let _ = std::fs::remove_file(&file);
        r
    } else {
        let h: Vec<String> = get("history").unwrap_or_default().split(' ').map(|x| x.to_string()).collect();
        if h.len() != 3 {
            eprintln!("no tape and no history");
            return 2;
        }
        child(bin, &[&["history".to_string(), p.id.to_string()][..], &h[..]].concat(), 600, 600)
    };
    for l in &r.trace {
        println!("{}", l);
    }
    println!("{}: {}", r.class, r.detail);
    let want = get("class").unwrap_or_default();
    if r.class == want {
        println!("VIOLATION property={} replay={}", id, path);
        1
    } else if r.class == "broken" {
        2
    } else {
        println!("the violation ({}) does not show", want);
        0
    }
}
