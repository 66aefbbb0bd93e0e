//! C10: an interrupted batch insertion keeps every frame it does not own.
use super::c09::*;
use super::Prop;
use crate::alloc;
use crate::ensure;
use crate::io::*;
use crate::world::*;
use std::sync::atomic::Ordering::Relaxed;
use std::sync::Arc;

pub const PROP: Prop = Prop {
    id: "C10",
    run,
    quick: 400_000,
    thorough: 30_000_000,
    rule: "a run performs 1..4 batch insertions at drawn positions of one document, each from a source that misbehaves in a drawn way; non-trivial: a source ended by error, panic or early, or lied about its size; distinct by hash of the event log",
    real: "bvh_anim cursor and frame iterators",
    stub: "the frame source; the allocator's limit",
};

/// What the source claims about its size.
fn hint(w: &mut W, n: usize, nch: usize) -> (usize, Option<usize>) {
    let c = nch.max(1);
    match w.weighted(&[3, 2, 2, 2, 2, 2, 1, 1, 1, 2, 2]) {
        0 => (n, Some(n)),
        1 => (0, None),
        2 => (usize::MAX, None),
        3 => (0, Some(usize::MAX)),
        4 => (usize::MAX, Some(usize::MAX)),
        5 => (0, Some(0)),
        6 => {
            // Around where the number of values no longer fits.
            let k = usize::MAX / c;
            let d = w.upto(2);
            let v = (k - 1).wrapping_add(d);
            (0, Some(v))
        }
        7 => {
            let v = (isize::MAX as usize / 4) / c + w.upto(2);
            (v, Some(v))
        }
        8 => {
            let v = 1usize << (20 + w.upto(8));
            (v, Some(v))
        }
        9 => {
            // Nearly right, or contradicting itself.
            let lo = w.upto(n + 2);
            let up = w.upto(n + 2);
            (lo, if w.chance(1, 4) { None } else { Some(up) })
        }
        _ => {
            let lo = *w.pick(&[1usize, 7, 100, 70_000, usize::MAX / 2, usize::MAX - 1, usize::MAX]);
            let up = *w.pick(&[0usize, 1, 3, 99, 65_536, usize::MAX / 2, usize::MAX - 1]);
            (lo, Some(up))
        }
    }
}

pub fn run(w: &mut W) -> Verdict {
    let d = small_doc(w, !w.clone().chance(1, 20));
    let mut b = match load_quietly(w, &d) {
        Some(b) => b,
        None => return Ok(()),
    };
    let mut m = Model::of(&d);
    let rounds = 1 + w.upto(3);
    for _ in 0..rounds {
        let pos = match w.weighted(&[3, 2, 1]) {
            0 => w.upto(m.frames.len()),
            1 => m.frames.len(),
            _ => 0,
        };
        let n = match w.weighted(&[300, 30, 1]) {
            0 => w.upto(6),
            1 => w.size(600),
            // Up to beyond what a 16-bit count of values holds.
            _ => (65_536 / m.nch.max(1)).saturating_sub(2) + w.upto(4),
        };
        // Every insertion moves the frames behind it.
        let n = if n * ((m.frames.len() - pos) * m.nch + 500) > 50_000_000 { n % 4_000 } else { n };
        let mut fs: Vec<Vec<f32>> = if n > 12 {
            let mut r = w.sub();
            (0..n).map(|_| (0..m.nch).map(|_| r.below(1 << 20) as f32 / 8.0).collect()).collect()
        } else {
            (0..n).map(|_| frame(w, m.nch)).collect()
        };
        let h = hint(w, n, m.nch);
        let mut bad = None;
        let mut panic_at = None;
        let mut shy = None;
        match w.weighted(&[3, 3, 3, 1]) {
            3 if n > 0 => shy = Some(w.upto(n - 1)),
            0 => {
                let len = match w.draw(4) {
                    0 => m.nch + 1,
                    1 => m.nch.saturating_sub(1),
                    2 => 2 * m.nch,
                    _ => 0,
                };
                if len != m.nch {
                    let i = w.upto(n);
                    fs.insert(i, frame(w, len));
                    bad = Some(i);
                    w.fault("wrong-frame-in-batch");
                }
            }
            1 => panic_at = Some(w.upto(n)),
            _ => {
                if h.0 > n || h.1.map_or(false, |u| u > n) {
                    w.fault("frame-source-ends-early");
                }
            }
        }
        if h != (n, Some(n)) {
            w.fault("wrong-size-hint");
        }
        w.mark();
        let shrink = w.chance(1, 2);
        let pulled = Arc::new(std::sync::atomic::AtomicUsize::new(0));
        let items: Vec<SimFrame> = fs
            .iter()
            .enumerate()
            .map(|(i, f)| SimFrame { v: f.clone(), panics: if shy == Some(i) { Some(w.clone()) } else { None } })
            .collect();
        let panic_at = if shy.is_some() { None } else { panic_at };
        let src = SimFrames { frames: &items, next: 0, hint: h, panic_at, pulled: pulled.clone(), hook: None, w: w.clone() };
        w.say(|| format!("batch of {} at {} of {}, {} channels, hint {:?}, wrong at {:?}, panic at {:?}", fs.len(), pos, m.frames.len(), m.nch, h, bad, panic_at));
        let x = no_panic("edit", || -> Result<usize, Violation> {
            let mut c = b.frame_cursor();
            if shrink {
                c.shrink_to_fit();
            }
            for _ in 0..pos {
                c.move_next();
            }
            let (r, peak) = alloc::measure(|| guard(|| c.try_insert_frames(src).map(|_| ())));
            let before = m.frames.len();
            let _ = peak;
            let done = match r {
                Ok(Ok(())) => {
                    ensure!(bad.is_none(), "wrong-frame-accepted", "a frame of the wrong length was accepted");
                    ensure!(panic_at.is_none() && shy.is_none(), "stopped-early", "the source was not asked for frame {:?}", panic_at);
                    fs.len()
                }
                Ok(Err(e)) => match bad {
                    Some(i) => i,
                    None => return violation("refused", format!("frames of the right length refused: {}", e)),
                },
                Err(Caught::Sim("frame-source-panic")) => panic_at.or(shy).unwrap_or(0),
                Err(Caught::Sim(k)) => return violation(k, "in the batch insertion"),
                Err(Caught::Lib(p)) => return violation("panic", format!("batch insertion panicked: {}", p)),
            };
            if pulled.load(Relaxed) > fs.len() {
                return violation("source", "the source was asked beyond its end");
            }
            // What is in the document now.
            for (k, f) in fs.iter().take(done).enumerate() {
                m.frames_insert(pos + k, f.clone());
            }
            let now = if m.nch > 0 { pos + done } else { pos };
            ensure!(m.frames.len() == before + now - pos, "simulator", "model");
            let s = no_panic("inspect", || sweep(&mut c, &m, now))?;
            ensure!(s.is_ok(), "frames", "after the batch stopped: {}", s.unwrap_err());
            // Still usable, right here.
            if w.chance(1, 3) && m.nch > 0 {
                let f = frame(w, m.nch);
                ensure!(c.try_insert_frame(&f).is_ok(), "unusable", "the next insertion was refused");
                m.frames_insert(now, f);
                let s = no_panic("inspect", || sweep(&mut c, &m, now + 1))?;
                ensure!(s.is_ok(), "frames", "after the next insertion: {}", s.unwrap_err());
            }
            Ok(done)
        })??;
        w.ev("batch", x as u64, m.frames.len() as u64);
        let s = no_panic("inspect", || compare(&b, &m))?;
        ensure!(s.is_ok(), "state", "{}", s.unwrap_err());
    }
    Ok(())
}
