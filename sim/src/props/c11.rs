//! C11: concurrent loads, saves and edits do not affect one another.
//!
//! Operations run on real threads, but only one at a time: each is parked at every reader, sink and
//! frame-source call and goes on when the scheduler, driven by the tape, says so.
use super::c09::{frame, small_doc};
use super::Prop;
use crate::disk;
use crate::doc::*;
use crate::ensure;
use crate::io::*;
use crate::world::*;
use bvh_anim::write::WriteOptions;
use bvh_anim::Bvh;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

pub const PROP: Prop = Prop {
    id: "C11",
    run,
    quick: 40_000,
    thorough: 1_200_000,
    rule: "a run makes 2..4 operations (some with another nested in one of their I/O calls), records what each does alone, then runs them together, parked at every I/O call and released one at a time in drawn order, some stalled until all others end; non-trivial: at least two operations were in progress at once; distinct by hash of the event log, which contains every scheduling choice",
    real: "bvh_anim loader, writer, cursor, on real threads",
    stub: "the choice of which thread runs; readers, sinks, frame sources",
};

#[derive(Clone)]
enum Op {
    Load { bytes: Arc<Vec<u8>>, pol: ReadPolicy, plug: Plug, err: Option<(usize, ErrSpec, bool)>, panic_at: Option<usize> },
    Save { b: Arc<Bvh>, o: WriteOptions, short: bool, pol: WritePolicy, plug: SinkPlug, fail: Option<(usize, SinkFail, bool)>, panic_at: Option<usize> },
    Memory { b: Arc<Bvh>, o: WriteOptions },
    Edit { b: Box<Bvh>, pos: usize, fs: Arc<Vec<Vec<f32>>>, panic_at: Option<usize> },
}
enum Outcome {
    Doc(Bvh),
    Other(String, Vec<u8>),
}
impl Outcome {
    fn same_as(&self, o: &Outcome) -> Result<(), String> {
        match (self, o) {
            (Outcome::Doc(a), Outcome::Doc(b)) => same(a, b),
            (Outcome::Other(a, x), Outcome::Other(b, y)) if a == b && x == y => Ok(()),
            (Outcome::Other(a, x), Outcome::Other(b, y)) => Err(format!("{} with {} bytes, alone {} with {} bytes", a, x.len(), b, y.len())),
            (a, b) => Err(format!("{}, alone {}", a.brief(), b.brief())),
        }
    }
    fn brief(&self) -> String {
        match self {
            Outcome::Doc(b) => format!("a document of {} joints", b.joints().count()),
            Outcome::Other(s, _) => s.clone(),
        }
    }
}

impl Op {
    fn name(&self) -> &'static str {
        match self {
            Op::Load { .. } => "load",
            Op::Save { .. } => "save",
            Op::Memory { .. } => "serialise",
            Op::Edit { .. } => "edit",
        }
    }
    /// Carries the operation out; `Err` is a panic of the library or a spent budget.
    fn perform(&self, w: &W, hook: Option<Hook>) -> Result<Outcome, Violation> {
        match self {
            Op::Load { bytes, pol, plug, err, panic_at } => {
                let mut r = SimReader::new(w, bytes.clone(), pol);
                r.err = *err;
                r.panic_at = *panic_at;
                r.hook = hook;
                match guard(|| plug.load(r)) {
                    Ok(Ok(b)) => Ok(Outcome::Doc(b)),
                    Ok(Err(e)) => Ok(Outcome::Other(format!("{:?}", e), vec![])),
                    Err(c) => caught(c),
                }
            }
            Op::Save { b, o, short, pol, plug, fail, panic_at } => {
                let mut s = SimSink::new(w, pol);
                s.fail = *fail;
                s.panic_at = *panic_at;
                s.hook = hook;
                let st = s.state();
                let r = guard(|| plug.save(b, o, *short, s));
                let bytes = std::mem::take(&mut st.lock().unwrap_or_else(|p| p.into_inner()).accepted);
                match r {
                    Ok(r) => Ok(Outcome::Other(format!("{:?}", r), bytes)),
                    Err(c) => match caught(c)? {
                        Outcome::Other(s, _) => Ok(Outcome::Other(s, bytes)),
                        d => Ok(d),
                    },
                }
            }
            Op::Memory { b, o } => match guard(|| o.write_to_string(b)) {
                Ok(v) => Ok(Outcome::Other("text".into(), v)),
                Err(c) => caught(c),
            },
            Op::Edit { b, pos, fs, panic_at } => {
                let mut b = (**b).clone();
                let src = SimFrames {
                    frames: fs,
                    next: 0,
                    hint: (fs.len(), Some(fs.len())),
                    panic_at: *panic_at,
                    pulled: Arc::default(),
                    hook,
                    w: w.clone(),
                };
                let r = guard(|| {
                    let mut c = b.frame_cursor();
                    for _ in 0..*pos {
                        c.move_next();
                    }
                    let r = c.try_insert_frames(src).map(|_| ()).map_err(|e| e.to_string());
                    (r, c.index())
                });
                let s = match r {
                    Ok(r) => format!("{:?}", r),
                    Err(c) => match caught(c)? {
                        Outcome::Other(s, _) => s,
                        _ => String::new(),
                    },
                };
                let v: Vec<u8> = b.frames().flat_map(|f| f.as_slice().to_vec()).flat_map(|x| x.to_bits().to_le_bytes()).collect();
                Ok(Outcome::Other(s, v))
            }
        }
    }
}
fn caught(c: Caught) -> Result<Outcome, Violation> {
    match c {
        Caught::Sim(k @ ("reader-panic" | "sink-panic" | "frame-source-panic")) => Ok(Outcome::Other(k.to_string(), vec![])),
        Caught::Sim(k) => violation(k, "while other operations were in progress"),
        Caught::Lib(m) => violation("panic", format!("the library panicked: {}", m)),
    }
}

fn draw_op(w: &mut W, shared: &Arc<Bvh>) -> Option<Op> {
    match w.weighted(&[5, 4, 1, 3]) {
        0 => {
            let (_, t) = gen_text(w, Scale::Small);
            let mut b = t.bytes;
            if w.chance(1, 6) {
                disk::damage(w, &mut b);
            }
            let err = if w.chance(1, 5) { Some((w.upto(b.len()), ErrSpec::draw(w), w.chance(1, 2))) } else { None };
            let panic_at = if w.chance(1, 8) { Some(w.upto(b.len())) } else { None };
            Some(Op::Load { bytes: Arc::new(b), pol: chunky(w), plug: Plug::draw(w), err, panic_at })
        }
        1 => {
            let b = if w.chance(2, 3) { shared.clone() } else { Arc::new(document(w)?) };
            let (o, _, short) = draw_options(w, false);
            let len = guard(|| o.write_to_string(&b).len()).ok()?;
            let fail = if w.chance(1, 5) {
                let e = ErrSpec::draw(w);
                let f = if w.chance(1, 3) { SinkFail::Zero } else { SinkFail::Error(ErrSpec2(e)) };
                Some((w.upto(len), f, w.chance(1, 2)))
            } else {
                None
            };
            let panic_at = if w.chance(1, 8) { Some(w.upto(len)) } else { None };
            Some(Op::Save { b, o, short, pol: WritePolicy::draw(w), plug: SinkPlug::draw(w), fail, panic_at })
        }
        2 => Some(Op::Memory { b: shared.clone(), o: draw_options(w, false).0 }),
        _ => {
            let d = small_doc(w, true);
            let b = super::c09::load_quietly(w, &d)?;
            let n = w.upto(5);
            let mut fs: Vec<Vec<f32>> = (0..n).map(|_| frame(w, d.nch)).collect();
            if w.chance(1, 4) {
                let i = w.upto(n);
                fs.insert(i, frame(w, d.nch + 1));
            }
            let panic_at = if w.chance(1, 6) { Some(w.upto(n)) } else { None };
            Some(Op::Edit { b: Box::new(b), pos: w.upto(d.nframes), fs: Arc::new(fs), panic_at })
        }
    }
}
/// Deliveries that give the scheduler something to interleave.
fn chunky(w: &mut W) -> ReadPolicy {
    ReadPolicy::draw(w)
}
fn document(w: &mut W) -> Option<Bvh> {
    let d = gen_doc(w, Scale::Small);
    let t = render(w, &d, &Layout::plain());
    guard(|| bvh_anim::from_bytes(&t.bytes[..])).ok()?.ok()
}

#[derive(Clone, Copy, PartialEq)]
enum St {
    New,
    Parked,
    Done,
}
struct Inner {
    turn: Option<usize>,
    quantum: u64,
    st: Vec<St>,
    tid: Vec<String>,
}
struct Baton {
    m: Mutex<Inner>,
    cv: Condvar,
}
impl Baton {
    fn park(&self, i: usize) {
        let mut g = self.m.lock().unwrap();
        if g.quantum > 0 {
            g.quantum -= 1;
            return;
        }
        g.st[i] = St::Parked;
        g.turn = None;
        self.cv.notify_all();
        while g.turn != Some(i) {
            g = self.cv.wait(g).unwrap();
        }
    }
    fn begin(&self, i: usize) {
        let tid = std::fs::read_link("/proc/thread-self").ok().and_then(|p| p.file_name().map(|f| f.to_string_lossy().into_owned())).unwrap_or_default();
        let mut g = self.m.lock().unwrap();
        g.tid[i] = tid;
        while g.turn != Some(i) {
            g = self.cv.wait(g).unwrap();
        }
    }
    fn end(&self, i: usize) {
        let mut g = self.m.lock().unwrap();
        g.st[i] = St::Done;
        g.turn = None;
        self.cv.notify_all();
    }
    /// Lets task `i` run until it parks or ends. False: it does neither, it is stuck.
    fn step(&self, i: usize, quantum: u64) -> bool {
        let mut g = self.m.lock().unwrap();
        g.turn = Some(i);
        g.quantum = quantum;
        self.cv.notify_all();
        let start = Instant::now();
        let mut asleep: Option<Instant> = None;
        while g.turn == Some(i) {
            let (h, _) = self.cv.wait_timeout(g, Duration::from_millis(200)).unwrap();
            g = h;
            if g.turn != Some(i) {
                break;
            }
            let tid = g.tid[i].clone();
            if tid.is_empty() {
                // Not even started; the machine is busy.
                continue;
            }
            let state = std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid))
                .ok()
                .and_then(|s| s.rsplit(')').next().and_then(|t| t.trim().chars().next()))
                .unwrap_or('?');
            if state == 'S' {
                let since = *asleep.get_or_insert_with(Instant::now);
                if since.elapsed() > Duration::from_secs(4) {
                    return false;
                }
            } else {
                asleep = None;
            }
            if start.elapsed() > Duration::from_secs(120) {
                return false;
            }
        }
        true
    }
}

struct Task {
    op: Op,
    alone: Outcome,
    /// Carried out inside the n-th I/O call of `op`.
    nested: Option<(u64, Op, Outcome)>,
    /// Stalls at this I/O call until every other operation has ended.
    stall_at: Option<u64>,
}

/// Set when threads are stuck for good: the process must not be reused.
pub static STUCK: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

pub fn run(w: &mut W) -> Verdict {
    let shared = match document(w) {
        Some(b) => Arc::new(b),
        None => {
            w.probe("setup-load-failed");
            return Ok(());
        }
    };
    let n = 2 + w.upto(2);
    let mut tasks = Vec::new();
    for _ in 0..n {
        let op = match draw_op(w, &shared) {
            Some(o) => o,
            None => return Ok(()),
        };
        // What it does alone. If that panics, other properties say so.
        let alone = match op.perform(w, None) {
            Ok(x) => x,
            Err(_) => {
                w.probe("setup-panicked");
                return Ok(());
            }
        };
        let nested = if w.chance(1, 4) {
            match draw_op(w, &shared) {
                None => return Ok(()),
                Some(o) => match o.perform(w, None) {
                    Ok(x) => Some((w.draw(12), o, x)),
                    Err(_) => return Ok(()),
                },
            }
        } else {
            None
        };
        let stall_at = if w.chance(1, 5) { Some(w.draw(16)) } else { None };
        w.say(|| format!("operation: {}{}{}", op.name(), nested.as_ref().map_or(String::new(), |x| format!(" with a nested {}", x.1.name())), if stall_at.is_some() { ", stalling" } else { "" }));
        tasks.push(Task { op, alone, nested, stall_at });
    }
    let baton = Arc::new(Baton {
        m: Mutex::new(Inner { turn: None, quantum: 0, st: vec![St::New; n], tid: vec![String::new(); n] }),
        cv: Condvar::new(),
    });
    let stall_at: Vec<Option<u64>> = tasks.iter().map(|t| t.stall_at).collect();
    let calls: Vec<Arc<AtomicU64>> = (0..n).map(|_| Arc::new(AtomicU64::new(0))).collect();
    let mut handles = Vec::new();
    for (i, t) in tasks.into_iter().enumerate() {
        let (baton, w, calls) = (baton.clone(), w.clone(), calls[i].clone());
        let h = std::thread::Builder::new()
            .stack_size(1 << 20)
            .spawn(move || {
                baton.begin(i);
                let r = body(i, t, &baton, &w, &calls);
                baton.end(i);
                r
            })
            .expect("thread");
        handles.push(h);
    }
    // The scheduler.
    let mut steps = 0u64;
    let mut overlapped = false;
    let bias = w.upto(2);
    let mut last = 0;
    loop {
        let st = baton.m.lock().unwrap().st.clone();
        let alive: Vec<usize> = (0..n).filter(|&i| st[i] != St::Done).collect();
        if alive.is_empty() {
            break;
        }
        if st.iter().filter(|s| **s == St::Parked).count() >= 2 {
            overlapped = true;
        }
        let stalled = |i: usize| stall_at[i].map_or(false, |k| calls[i].load(Relaxed) > k);
        let mut ready: Vec<usize> = alive.iter().copied().filter(|&i| !stalled(i)).collect();
        if ready.is_empty() {
            ready = alive.clone();
        } else if ready.len() < alive.len() {
            w.lock().faults.entry("stalled-operation").and_modify(|c| *c += 1).or_insert(1);
        }
        let i = if bias == 1 && ready.contains(&last) && w.chance(3, 4) { last } else { *w.pick(&ready) };
        last = i;
        let quantum = match w.weighted(&[6, 2, 1]) {
            0 => 0,
            1 => 1 + w.draw(4),
            _ => w.draw(64),
        };
        // A stall takes effect at its call, not after it.
        let quantum = match stall_at[i] {
            Some(k) if !stalled(i) => quantum.min(k.saturating_sub(calls[i].load(Relaxed))),
            _ => quantum,
        };
        w.ev("run", i as u64, quantum);
        if !baton.step(i, quantum) {
            STUCK.store(true, Relaxed);
            return violation("stall", format!("operation {} neither reached its next I/O call nor ended: it waits for something held by an operation whose I/O is not moving", i));
        }
        w.tick(1_000);
        steps += 1;
        if steps > 3_000 {
            // Enough interleaving: the rest runs freely, still one at a time.
            w.probe("many-steps");
            for &j in &alive {
                let done = |j: usize| baton.m.lock().unwrap().st[j] == St::Done;
                while !done(j) {
                    if !baton.step(j, u64::MAX) {
                        STUCK.store(true, Relaxed);
                        return violation("stall", format!("operation {} does not end", j));
                    }
                }
            }
        }
    }
    if overlapped {
        w.mark();
    }
    let mut out = Ok(());
    for h in handles {
        let r = h.join().unwrap_or_else(|_| violation("panic", "an operation's thread died"));
        if out.is_ok() {
            out = r;
        }
    }
    out
}

fn body(i: usize, t: Task, baton: &Arc<Baton>, w: &W, calls: &Arc<AtomicU64>) -> Verdict {
    let plain: Hook = {
        let (b, c) = (baton.clone(), calls.clone());
        Arc::new(move |_| {
            c.fetch_add(1, Relaxed);
            b.park(i);
        })
    };
    let bad: Arc<Mutex<Option<Violation>>> = Arc::default();
    let hook: Hook = match t.nested {
        None => plain.clone(),
        Some((at, op, alone)) => {
            let slot = Mutex::new(Some((op, alone)));
            let (w, plain, bad) = (w.clone(), plain.clone(), bad.clone());
            let mine = AtomicU64::new(0);
            Arc::new(move |k| {
                plain(k);
                if mine.fetch_add(1, Relaxed) != at {
                    return;
                }
                let x = slot.lock().unwrap().take();
                if let Some((op, alone)) = x {
                    w.fault("nested-operation");
                    let r = op.perform(&w, Some(plain.clone()));
                    let v = match r {
                        Err(v) => Some(v),
                        Ok(o) => o.same_as(&alone).err().map(|m| Violation {
                            class: "differs".into(),
                            detail: format!("a {} nested in another operation's I/O: {}", op.name(), m),
                        }),
                    };
                    if let Some(v) = v {
                        *bad.lock().unwrap() = Some(v);
                    }
                }
            })
        }
    };
    let r = t.op.perform(w, Some(hook))?;
    if let Some(v) = bad.lock().unwrap().take() {
        return Err(v);
    }
    let s = r.same_as(&t.alone);
    ensure!(s.is_ok(), "differs", "a {} running beside others: {}", t.op.name(), s.unwrap_err());
    Ok(())
}
