//! C03: a document cut short never loads as a complete one.
use super::Prop;
use crate::doc::*;
use crate::io::*;
use crate::world::*;
use bvh_anim::errors::{LoadErrorKind, LoadMotionError};
use std::sync::Arc;

pub const PROP: Prop = Prop {
    id: "C03",
    run,
    quick: 250_000,
    thorough: 9_000_000,
    rule: "a run generates one document and loads 1..6 prefixes of it, cut at drawn bytes; non-trivial: at least one cut fell before the last token's end; distinct by hash of the event log",
    real: "bvh_anim loader, std BufReader/Take/Chain",
    stub: "the device behind BufRead",
};

pub fn run(w: &mut W) -> Verdict {
    let scale = if w.chance(1, 5) { Scale::Any } else { Scale::Small };
    let (d, t) = gen_text(w, scale);
    let total = d.nframes * d.nch;
    let ft = *t.find(K::FrameTime).unwrap();
    let last = *t.toks.last().unwrap();
    let n = if t.bytes.len() < 5_000 { 1 + w.upto(5) } else { 1 };
    for _ in 0..n {
        let cut = match w.weighted(&[3, 2]) {
            0 => super::c02::position(w, &t),
            _ => {
                // In or around the last tokens.
                let k = t.toks[t.toks.len() - 1 - w.upto(t.toks.len().min(8) - 1)];
                (k.start as usize + w.upto((k.end - k.start + 1) as usize)).min(t.bytes.len())
            }
        };
        w.fault("truncated-file");
        if cut < last.end as usize {
            w.mark();
        }
        let bytes = Arc::new(t.bytes[..cut].to_vec());
        w.say(|| format!("cut at byte {} of {}", cut, t.bytes.len()));
        let pol = ReadPolicy::draw(w);
        let plug = Plug::draw(w);
        let r = SimReader::new(w, bytes.clone(), &pol);
        let res = no_panic("load", || plug.load(r))?;
        // What is left, by the model.
        let whole_values = t.toks.iter().filter(|k| matches!(k.k, K::Value(_)) && k.end as usize <= cut).count();
        let part = t
            .toks
            .iter()
            .find(|k| matches!(k.k, K::Value(_)) && (k.start as usize) < cut && cut < k.end as usize);
        let possible = cut >= t.root_close
            && cut > ft.start as usize
            && whole_values + usize::from(part.is_some()) >= total;
        match res {
            Err(e) => {
                if cut >= last.end as usize {
                    return violation("rejected", format!("nothing but trailing space was cut off, yet: {}", e));
                }
                let left = &bytes[..cut];
                let at = left.iter().filter(|&&c| c == b'\n').count() - usize::from(left.last() == Some(&b'\n'));
                let start = |k: K| t.find(k).unwrap().start as usize;
                let end = |k: K| t.find(k).unwrap().end as usize;
                use LoadErrorKind::{Joints, Motion};
                use LoadMotionError::*;
                let k = e.kind();
                let (good, what) = if cut < t.root_close {
                    // What the remains of a line are is not always clear, but they are the hierarchy's.
                    (matches!(k, Joints(_)), "an error of the hierarchy")
                } else if cut < end(K::Motion) {
                    (matches!(k, Motion(MissingMotionSection { line }) if *line == at), "the missing motion section")
                } else if cut <= start(K::FrameCount) {
                    (matches!(k, Motion(MissingNumFrames { line, parse_error: None }) if *line == at), "the missing frame count")
                } else if cut < end(K::FrameCount) {
                    (matches!(k, Motion(MissingNumFrames { line, .. } | MissingFrameTime { line, parse_error: None }) if *line == at), "the missing frame time")
                } else if cut <= ft.start as usize {
                    (matches!(k, Motion(MissingFrameTime { line, parse_error: None }) if *line == at), "the missing frame time")
                } else if cut < ft.end as usize && matches!(k, Motion(MissingFrameTime { line, .. }) if *line == at) {
                    (true, "")
                } else {
                    let n = whole_values + usize::from(part.is_some());
                    (
                        match k {
                            Motion(MotionCountMismatch { actual_total_motion_values, expected_total_motion_values, .. }) => {
                                *actual_total_motion_values == n && *expected_total_motion_values == total
                            }
                            Motion(ParseMotionSection { line, .. }) => part.is_some() && *line == at,
                            _ => false,
                        },
                        "the missing values",
                    )
                };
                if !good {
                    return violation("kind", format!("cut at byte {} of {}, in or after line {}: {} should be reported, not {:?}", cut, t.bytes.len(), at, what, e));
                }
            }
            Ok(b) => {
                if !possible {
                    return violation(
                        "loaded-incomplete",
                        format!("cut at byte {} of {}: {} of {} values left, frame time {}, hierarchy {}; loaded all the same", cut, t.bytes.len(), whole_values, total,
                            if cut > ft.start as usize { "there" } else { "missing" }, if cut >= t.root_close { "whole" } else { "incomplete" }),
                    );
                }
                let mut m = d.clone();
                if cut < ft.end as usize {
                    let left = std::str::from_utf8(&t.bytes[ft.start as usize..cut]).unwrap();
                    match left.parse::<f64>() {
                        Ok(v) if v >= 0.0 && v < 1e18 => m.ft = std::time::Duration::from_secs_f64(v),
                        _ => {
                            w.probe("odd-number-prefix");
                            m.ft = *b.frame_time();
                        }
                    }
                }
                if let Some(k) = part {
                    let left = std::str::from_utf8(&t.bytes[k.start as usize..cut]).unwrap();
                    let i = m.vals.len() - 1;
                    match left.parse::<f32>() {
                        Ok(v) => m.vals[i] = v,
                        Err(_) => {
                            w.probe("odd-number-prefix");
                            m.vals[i] = b.frames().last().map(|f| f.as_slice()[m.nch - 1]).unwrap_or(0.0);
                        }
                    }
                }
                w.probe("loaded-anyway");
                let c = no_panic("inspect", || check_doc(&b, &m))?;
                if let Err(c) = c {
                    return violation("differs", format!("cut at byte {} of {}: {}", cut, t.bytes.len(), c));
                }
            }
        }
    }
    Ok(())
}
