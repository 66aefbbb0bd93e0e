//! C19: lost or repeated motion values are refused with the exact counts.
use super::Prop;
use crate::doc::*;
use crate::ensure;
use crate::io::*;
use crate::world::*;
use bvh_anim::errors::{LoadErrorKind, LoadMotionError};
use std::sync::Arc;

pub const PROP: Prop = Prop {
    id: "C19",
    run,
    quick: 250_000,
    thorough: 9_000_000,
    rule: "a run stores one document, lets its motion section lose, repeat, gain, exchange, split and join values and lines or change its frame count 1..3 times over (each time from the good copy, 1..4 faults) and loads it; non-trivial: the number of values or of frames changed; distinct by hash of the event log",
    real: "bvh_anim loader and error types",
    stub: "the device behind BufRead; the disk",
};

pub fn run(w: &mut W) -> Verdict {
    let scale = if w.chance(1, 10) { Scale::Any } else { Scale::Small };
    let d = gen_doc(w, scale);
    let l = Layout::draw(w);
    let t = render(w, &d, &l);
    let eol: &[u8] = if t.crlf { b"\r\n" } else { b"\n" };
    let count = match t.find(K::FrameCount) {
        Some(k) => *k,
        None => return Ok(()),
    };
    let time = *t.find(K::FrameTime).unwrap();
    // Lines of values, as the text has them.
    let mut lines: Vec<Vec<(Vec<u8>, f32)>> = Vec::new();
    let mut last = u32::MAX;
    let mut i = 0;
    for k in &t.toks {
        if let K::Value(_) = k.k {
            if k.line != last {
                lines.push(Vec::new());
                last = k.line;
            }
            lines.last_mut().unwrap().push((t.tok(k).to_vec(), d.vals[i]));
            i += 1;
        }
    }
    let n = if t.bytes.len() < 5_000 { 1 + w.upto(2) } else { 1 };
    for _ in 0..n {
        let mut ls = lines.clone();
        let mut frames = d.nframes;
        let faults = w.upto(4);
        for _ in 0..faults {
            let some = ls.len();
            let li = w.upto(some.saturating_sub(1));
            match w.weighted(&[4, 3, 3, 3, 3, 3, 2, 2, 2, 1]) {
                0 if some > 0 && !ls[li].is_empty() => {
                    let k = w.upto(ls[li].len() - 1);
                    ls[li].remove(k);
                    w.fault("lost-value");
                }
                1 if some > 0 && !ls[li].is_empty() => {
                    let k = w.upto(ls[li].len() - 1);
                    let x = ls[li][k].clone();
                    ls[li].insert(k, x);
                    w.fault("repeated-value");
                }
                2 if some > 0 => {
                    let k = w.upto(ls[li].len());
                    let x = gen_num(w, 1);
                    ls[li].insert(k, (x.text.into_bytes(), x.val));
                    w.fault("stray-value");
                }
                3 if some > 0 => {
                    ls.remove(li);
                    w.fault("lost-line");
                }
                4 if some > 0 => {
                    let x = ls[li].clone();
                    let to = w.upto(some);
                    ls.insert(to, x);
                    w.fault("repeated-line");
                }
                5 => {
                    frames = match w.draw(6) {
                        0 => frames + 1,
                        1 => frames.saturating_sub(1),
                        2 => 0,
                        3 => w.upto(2 * d.nframes + 3),
                        4 => *w.pick(&[1usize, 255, 256, 65_535, 65_536, 1 << 20, (1 << 31) - 1, 1 << 32, 1 << 40]),
                        _ => frames * 2,
                    };
                    w.fault("other-frame-count");
                }
                6 if some > 0 && ls[li].len() > 1 => {
                    let k = 1 + w.upto(ls[li].len() - 2);
                    let x = ls[li].split_off(k);
                    ls.insert(li + 1, x);
                    w.fault("split-line");
                }
                7 if li + 1 < some => {
                    let x = ls.remove(li + 1);
                    ls[li].extend(x);
                    w.fault("joined-lines");
                }
                8 if some > 1 => {
                    let to = w.upto(some - 1);
                    ls.swap(li, to);
                    w.fault("exchanged-lines");
                }
                9 => {
                    // A stray line where there may be none yet.
                    let x = gen_num(w, 1);
                    let to = w.upto(some);
                    ls.insert(to, vec![(x.text.into_bytes(), x.val)]);
                    w.fault("stray-value");
                }
                _ => {}
            }
        }
        let mut b = t.bytes[..count.start as usize].to_vec();
        b.extend_from_slice(frames.to_string().as_bytes());
        b.extend_from_slice(&t.bytes[count.end as usize..time.end as usize]);
        b.extend_from_slice(eol);
        let mut vals: Vec<f32> = Vec::new();
        let blank = w.chance(1, 6);
        let sep: &[u8] = if w.chance(1, 4) { b"\t" } else { b" " };
        for (i, l) in ls.iter().enumerate() {
            for (k, (text, v)) in l.iter().enumerate() {
                if k > 0 {
                    b.extend_from_slice(sep);
                }
                b.extend_from_slice(text);
                vals.push(*v);
            }
            if i + 1 < ls.len() || w.chance(3, 4) {
                b.extend_from_slice(eol);
            }
            if blank && i % 3 == 0 {
                b.extend_from_slice(eol);
            }
        }
        let want = d.nch.checked_mul(frames).unwrap();
        if vals.len() != d.vals.len() || frames != d.nframes {
            w.mark();
        }
        let what = || format!("{} values for {} frames of {} channels", vals.len(), frames, d.nch);
        w.say(what);
        let r = SimReader::new(&w.clone(), Arc::new(b), &ReadPolicy::draw(w));
        let plug = Plug::draw(w);
        let res = match guard(|| plug.load(r)) {
            Ok(r) => r,
            // C04's business.
            Err(_) => {
                w.probe("load-did-not-return");
                return Ok(());
            }
        };
        match res {
            Ok(x) => {
                ensure!(vals.len() == want, "loaded", "{}: loaded all the same", what());
                w.probe("counts-agree");
                let c = no_panic("inspect", || check_frames(&x, d.nch, &vals))?;
                ensure!(c.is_ok(), "values", "{}: {}", what(), c.unwrap_err());
                ensure!(d.nch == 0 || x.frames().len() == frames, "frames", "{}: {} frames", what(), x.frames().len());
            }
            Err(e) => {
                ensure!(vals.len() != want, "refused", "{}: refused: {}", what(), e);
                match e.kind() {
                    LoadErrorKind::Motion(LoadMotionError::MotionCountMismatch {
                        actual_total_motion_values: a,
                        expected_total_motion_values: x,
                        expected_num_frames: f,
                        expected_num_clips: c,
                    }) => {
                        ensure!(
                            (*a, *x, *f, *c) == (vals.len(), want, frames, d.nch),
                            "counts",
                            "{}: reported as {} of {} values, {} frames, {} clips",
                            what(),
                            a,
                            x,
                            f,
                            c
                        );
                        let s = e.to_string();
                        for k in [vals.len(), want, frames, d.nch] {
                            ensure!(s.contains(&k.to_string()), "message", "{}: the message does not say {}: {}", what(), k, s);
                        }
                    }
                    k => return violation("kind", format!("{}: reported as {:?}", what(), k)),
                }
            }
        }
    }
    Ok(())
}
