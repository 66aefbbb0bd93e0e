//! C22: repeated use, failing or not, leaves memory as it was.
use super::Prop;
use crate::alloc;
use crate::disk;
use crate::doc::*;
use crate::ensure;
use crate::io::*;
use crate::world::*;
use bvh_anim::write::WriteOptions;
use bvh_anim::Bvh;
use std::sync::Arc;

pub const PROP: Prop = Prop {
    id: "C22",
    run,
    quick: 4_000,
    thorough: 150_000,
    rule: "a run draws a session of 1..6 operations (loads, saves and edits that succeed, fail, meet damage or are abandoned by a panic) and repeats it 160 to 400 times, half of the runs with other names and numbers of the same length each time; non-trivial: an operation of the session failed or panicked; distinct by hash of the event log",
    real: "bvh_anim loader, writer, cursor, iterators, error types",
    stub: "devices behind BufRead and Write; frame sources; the allocator's meter",
};

/// One operation with everything about it fixed.
enum Op {
    Load { doc: usize, bytes: Arc<Vec<u8>>, own: bool, pol: ReadPolicy, plug: Plug, err: Option<(usize, ErrSpec, bool)>, panic_at: Option<usize> },
    Memory { bytes: Arc<Vec<u8>>, form: usize, utf8: bool },
    Save { pol: WritePolicy, plug: SinkPlug, o: WriteOptions, short: bool, fail: Option<(usize, SinkFail, bool)>, flush: Option<(ErrSpec, bool)>, panic_at: Option<usize> },
    ToString,
    Insert { at: usize, n: usize, wrong: Option<usize>, panic_at: Option<usize>, hint: (usize, Option<usize>) },
    Remove { at: usize },
    Clear,
    Extract,
    Copy,
    Look,
}

struct Session {
    docs: Vec<(Text, Vec<(usize, usize)>)>,
    ops: Vec<Op>,
    vary: bool,
}

/// The document's text with other names and numbers of the same length.
fn other(bytes: &[u8], spans: &[(usize, usize)], k: usize) -> Vec<u8> {
    let mut b = bytes.to_vec();
    for (i, &(s, e)) in spans.iter().enumerate() {
        let mut n = k.wrapping_mul(131).wrapping_add(i);
        for c in b[s..e].iter_mut().rev() {
            *c = b'0' + (n % 10) as u8;
            n /= 10;
        }
    }
    b
}

/// Runs the session once in a world of its own. How many operations did not succeed.
fn once(s: &Session, k: usize) -> Result<u64, Violation> {
    let w = W::replay(Vec::new(), false);
    let mut cur: Option<Bvh> = None;
    let mut bad = 0;
    let text = |i: usize| -> Vec<u8> {
        let (t, spans) = &s.docs[i];
        if s.vary {
            other(&t.bytes, spans, k)
        } else {
            t.bytes.clone()
        }
    };
    for op in &s.ops {
        match op {
            Op::Load { doc, bytes, own, pol, plug, err, panic_at } => {
                let b = if *own { Arc::new(text(*doc)) } else { bytes.clone() };
                let mut r = SimReader::new(&w, b, pol);
                r.err = *err;
                r.panic_at = *panic_at;
                match guard(|| plug.load(r)) {
                    Ok(Ok(b)) => cur = Some(b),
                    Ok(Err(e)) => {
                        bad += 1;
                        std::hint::black_box(super::c18::signature(&e).len());
                    }
                    Err(_) => bad += 1,
                }
            }
            Op::Memory { bytes, form, utf8 } => match guard(|| load_memory(*form, bytes, *utf8)) {
                Ok(Ok(b)) => cur = Some(b),
                _ => bad += 1,
            },
            Op::Save { pol, plug, o, short, fail, flush, panic_at } => {
                if let Some(b) = &cur {
                    let mut x = SimSink::new(&w, pol);
                    x.fail = *fail;
                    x.flush_fail = *flush;
                    x.panic_at = *panic_at;
                    if !matches!(guard(|| plug.save(b, o, *short, x)), Ok(Ok(()))) {
                        bad += 1;
                    }
                }
            }
            Op::ToString => {
                if let Some(b) = &cur {
                    std::hint::black_box(guard(|| b.to_string().len()).unwrap_or(0));
                }
            }
            Op::Insert { at, n, wrong, panic_at, hint } => {
                if let Some(b) = &mut cur {
                    let nch = b.num_channels();
                    let fs: Vec<Vec<f32>> = (0..*n).map(|i| vec![k as f32 + i as f32; if Some(i) == *wrong { nch + 1 } else { nch }]).collect();
                    let r = guard(|| {
                        let mut c = b.frame_cursor();
                        for _ in 0..*at {
                            c.move_next();
                        }
                        let src = SimFrames { frames: &fs, next: 0, hint: *hint, panic_at: *panic_at, pulled: Arc::default(), hook: None, w: w.clone() };
                        c.try_insert_frames(src).map(|_| ())
                    });
                    if !matches!(r, Ok(Ok(()))) {
                        bad += 1;
                    }
                }
            }
            Op::Remove { at } => {
                if let Some(b) = &mut cur {
                    let r = guard(|| {
                        let mut c = b.frame_cursor();
                        for _ in 0..*at {
                            c.move_next();
                        }
                        c.remove_frame().map(|_| ())
                    });
                    if !matches!(r, Ok(Ok(()))) {
                        bad += 1;
                    }
                }
            }
            Op::Clear => {
                if let Some(b) = &mut cur {
                    let _ = guard(|| {
                        b.frame_cursor().remove_all_frames();
                    });
                }
            }
            Op::Extract => {
                if let Some(b) = &mut cur {
                    std::hint::black_box(guard(|| b.extract_frames().len()).unwrap_or(0));
                }
            }
            Op::Copy => {
                if let Some(b) = &cur {
                    if let Ok(x) = guard(|| b.clone()) {
                        cur = Some(x);
                    }
                }
            }
            Op::Look => {
                if let Some(b) = &cur {
                    let _ = guard(|| {
                        let mut n = format!("{:?}", b).len();
                        for j in b.joints() {
                            n += j.children().count() + j.name().len() + j.channels().len();
                            n += b.joints().find_by_name(j.name()).map_or(0, |j| j.index());
                        }
                        for f in b.frames() {
                            n += f.len();
                        }
                        std::hint::black_box(n);
                    });
                }
            }
        }
    }
    Ok(bad)
}

fn draw_op(w: &mut W, docs: &[(Text, Vec<(usize, usize)>)], first: bool) -> Op {
    let i = w.upto(docs.len() - 1);
    let t = &docs[i].0;
    let kind = if first { 0 } else { w.weighted(&[4, 2, 6, 1, 5, 2, 1, 1, 1, 1]) };
    match kind {
        0 => {
            let mut bytes = t.bytes.clone();
            let how = if first { 0 } else { w.weighted(&[2, 3, 3, 3, 2]) };
            let at = super::c02::position(w, t);
            match how {
                3 => disk::damage(w, &mut bytes),
                4 => bytes.truncate(at),
                _ => {}
            }
            Op::Load {
                doc: i,
                bytes: Arc::new(bytes),
                own: how < 3,
                pol: ReadPolicy::draw(w),
                plug: Plug::draw(w),
                err: if how == 1 { Some((at, ErrSpec::draw(w), w.chance(1, 2))) } else { None },
                panic_at: if how == 2 { Some(at) } else { None },
            }
        }
        1 => {
            let mut bytes = t.bytes.clone();
            match w.draw(3) {
                0 => {}
                1 => disk::damage(w, &mut bytes),
                _ => {
                    super::c05::bend(w, &mut bytes, t.root_close);
                }
            }
            let utf8 = std::str::from_utf8(&bytes).is_ok();
            Op::Memory { bytes: Arc::new(bytes), form: w.upto(8), utf8 }
        }
        2 => {
            let (o, _, short) = draw_options(w, false);
            let at = w.upto(t.bytes.len());
            let how = w.draw(5);
            let (spec, sticky) = (ErrSpec::draw(w), w.chance(1, 2));
            Op::Save {
                pol: WritePolicy::draw(w),
                plug: SinkPlug::draw(w),
                o,
                short,
                fail: match how {
                    1 => Some((at, SinkFail::Error(ErrSpec2(spec)), sticky)),
                    2 => Some((at, SinkFail::Zero, sticky)),
                    _ => None,
                },
                flush: if how == 3 { Some((spec, sticky)) } else { None },
                panic_at: if how == 4 { Some(at) } else { None },
            }
        }
        3 => Op::ToString,
        4 => {
            let n = 1 + w.upto(5);
            let how = w.draw(3);
            let at = w.upto(n - 1);
            Op::Insert {
                at: w.upto(4),
                n,
                wrong: if how == 1 { Some(at) } else { None },
                panic_at: if how == 2 { Some(w.upto(n)) } else { None },
                hint: *w.pick(&[(0usize, None), (0, Some(0)), (0, Some(1000)), (50, Some(50)), (1, Some(0))]),
            }
        }
        5 => Op::Remove { at: w.upto(5) },
        6 => Op::Clear,
        7 => Op::Extract,
        8 => Op::Copy,
        _ => Op::Look,
    }
}

pub fn run(w: &mut W) -> Verdict {
    let vary = w.chance(1, 2);
    let mut docs = Vec::new();
    for _ in 0..1 + w.upto(1) {
        let mut d = gen_doc(w, Scale::Small);
        while d.nch > 0 && d.nframes * d.nch > 60 {
            d.nframes /= 2;
            d.vals.truncate(d.nframes * d.nch);
            d.vtexts.truncate(d.nframes * d.nch);
        }
        let l = Layout::draw(w);
        let t = render(w, &d, &l);
        let spans = t
            .toks
            .iter()
            .filter(|k| {
                let x = t.tok(k);
                match k.k {
                    K::Name => x.len() < 200,
                    K::Value(_) | K::Offset(_) => x.len() < 12,
                    _ => false,
                }
            })
            .map(|k| (k.start as usize, k.end as usize))
            .collect();
        docs.push((t, spans));
    }
    let n = 1 + w.upto(5);
    let ops: Vec<Op> = (0..n).map(|i| draw_op(w, &docs, i == 0)).collect();
    let s = Session { docs, ops, vary };
    let size: usize = s.docs.iter().map(|d| d.0.bytes.len()).sum::<usize>() * n;
    // Warm up for as long as is then measured, so that any growing table grows again.
    let half = if size < 4_000 { 80 + w.upto(120) } else { 80 };
    w.say(|| format!("a session of {} operations, {} times, {}", n, 2 * half, if vary { "varied" } else { "alike" }));
    let mut bad = 0;
    for k in 0..half {
        bad += once(&s, k)?;
    }
    let before = alloc::live();
    for k in half..2 * half {
        bad += once(&s, k)?;
    }
    let after = alloc::live();
    w.fault_n("failed-operations", bad);
    if bad > 0 {
        w.mark();
    }
    w.ev("sessions", 2 * half as u64, bad);
    // Anything a session leaves behind is at least a byte.
    ensure!(after <= before + half / 2, "growth", "{} further sessions of {} operations left {} bytes more in use", half, n, after - before);
    Ok(())
}
