//! C12: a damaged token is reported as what it is, at its own line.
use super::Prop;
use crate::doc::*;
use crate::ensure;
use crate::io::*;
use crate::world::*;
use bvh_anim::errors::{LoadErrorKind, LoadJointsError, LoadMotionError};
use bvh_anim::Axis;
use std::sync::Arc;

pub const PROP: Prop = Prop {
    id: "C12",
    run,
    quick: 400_000,
    thorough: 14_000_000,
    rule: "a run stores one document, damages or drops exactly one token 1..4 times over (each time from the good copy) and loads it through a drawn schedule; non-trivial: the loader refused the document; distinct by hash of the event log",
    real: "bvh_anim loader and error types",
    stub: "the device behind BufRead; the disk",
};

const BAD_FLOAT: &[&str] = &[
    "x", "abc", "--1", "1..2", "1,5", "0x10", "1e", "1e+", ".", "+", "-", "1_000", "1.5f", "12a", "1-2", "e5", "#", "{",
    "}", "++1", "1.2.3", "½", "１", "OFFSET", "1e5.5", "-.", "=1", "0.5%", "1e--5",
];
const BAD_COUNT: &[&str] = &[
    "x", "-1", "1.5", "1e3", "99999999999999999999999", "18446744073709551616", "0x2", "²", "3a", "{", "+-1", "--2", "1.", "#", "three", "1_0",
];
const BAD_CHANNEL: &[&str] = &[
    "xposition", "XPosition", "Xpos", "Xrotation2", "W", "Wrotation", "position", "Xscale", "XROTATION", "X", "7", "Xposition,", "Zrotatio", "ZZrotation", "Yrotatiom", "é",
];
const BAD_TIME: &[&str] = &[
    "x", "-1", "-0.033", "nan", "NaN", "inf", "-inf", "infinity", "1e400", "1e300", "18446744073709551616", "1e20", "1..5", "1,5", "-1e-5", "0.03s", "+", ".", "1e", "-1e300",
];

fn garbage(w: &mut W, k: K) -> Vec<u8> {
    let raw = w.chance(1, 10);
    if raw {
        // Bytes of no text at all.
        return w.pick(&[&b"\xff"[..], b"\xfe\xff\x80", b"1\xff", b"\x00", b"\x01\x02", b"\x80Xposition", b"MOTION\xff"]).to_vec();
    }
    let s = match k {
        K::Offset(_) | K::Value(_) => *w.pick(BAD_FLOAT),
        K::ChannelCount | K::FrameCount => *w.pick(BAD_COUNT),
        K::Channel => *w.pick(BAD_CHANNEL),
        K::Motion => *w.pick(&["motion", "MOTIONS", "MOTIO", "Motion", "M", "HIERARCHY", "XMOTION", "Frames", "}"]),
        K::FramesKw => *w.pick(&["frames:", "FRAMES:", "Framess:", "Frame:", "F", "Xframes:", "MOTION", "#", "7:"]),
        K::FrameKw => *w.pick(&["frame", "FRAME", "Frames", "Fram", "F", "xFrame", "0.1"]),
        K::TimeKw => *w.pick(&["time:", "TIME:", "Times:", "Tim:", "T", "xTime:", "0.1"]),
        K::FrameTime => *w.pick(BAD_TIME),
        _ => "x",
    };
    s.as_bytes().to_vec()
}

/// One token replaced by garbage, or lost: the token, whether it is lost, the garbage, the bytes.
pub fn corrupt(w: &mut W, t: &Text) -> Option<(Tok, bool, Vec<u8>, Vec<u8>)> {
    // The section first, so that the few tokens of the headers get their share.
    let section = w.weighted(&[3, 3, 2]);
    let cand: Vec<Tok> = t
        .toks
        .iter()
        .filter(|k| match section {
            0 => matches!(k.k, K::Offset(_) | K::ChannelCount | K::Channel),
            1 => matches!(k.k, K::Motion | K::FramesKw | K::FrameCount | K::FrameKw | K::TimeKw | K::FrameTime),
            _ => matches!(k.k, K::Value(_)),
        })
        .copied()
        .collect();
    if cand.is_empty() {
        return None;
    }
    let k = *w.pick(&cand);
    let drop = matches!(k.k, K::Offset(_) | K::ChannelCount | K::FrameCount | K::FrameTime) && w.chance(1, 3);
    let g = if drop { vec![] } else { garbage(w, k.k) };
    let mut b = t.bytes.clone();
    b.splice(k.start as usize..k.end as usize, g.iter().copied());
    w.fault(if drop { "lost-token" } else { "damaged-token" });
    Some((k, drop, g, b))
}

pub fn run(w: &mut W) -> Verdict {
    let scale = if w.chance(1, 8) { Scale::Any } else { Scale::Small };
    let (d, t) = gen_text(w, scale);
    let n = if t.bytes.len() < 5_000 { 1 + w.upto(3) } else { 1 };
    for _ in 0..n {
        let (k, drop, g, b) = match corrupt(w, &t) {
            Some(x) => x,
            None => continue,
        };
        let line = k.line as usize;
        w.say(|| format!("{:?} on line {} becomes {:?}", k.k, line, String::from_utf8_lossy(&g)));
        w.ev("token", line as u64, k.start as u64);
        let what = || format!("{:?} {:?} on line {} replaced by {:?}", k.k, String::from_utf8_lossy(t.tok(&k)), line, String::from_utf8_lossy(&g));
        let r = SimReader::new(&w.clone(), Arc::new(b), &ReadPolicy::draw(w));
        let plug = Plug::draw(w);
        let e = match guard(|| plug.load(r)) {
            Ok(Ok(_)) => return violation("loaded", format!("{}: loaded all the same", what())),
            Ok(Err(e)) => e,
            Err(Caught::Lib(m)) => return violation("panic", format!("{}: panicked: {}", what(), m)),
            Err(Caught::Sim(s)) => return violation(s, what()),
        };
        w.mark();
        let shown = format!("{:?}", e);
        let got_line = e.line();
        ensure!(got_line == Some(line), "line", "{}: reported at {:?}: {}", what(), got_line, shown);
        use LoadErrorKind::{Joints, Motion};
        let axis = |a: u8| [Axis::X, Axis::Y, Axis::Z][a as usize];
        let ok = match (k.k, e.into_kind()) {
            (K::Offset(_), Joints(LoadJointsError::MissingOffsetAxis { axis: Axis::Z, .. })) => drop,
            (K::Offset(a), Joints(LoadJointsError::ParseOffsetError { axis: x, .. })) => !drop && x == axis(a),
            (K::ChannelCount, Joints(LoadJointsError::ParseNumChannelsError { .. })) => true,
            (K::Channel, Joints(LoadJointsError::ParseChannelError { error, .. })) => error.into_inner() == g,
            (K::Motion, Motion(LoadMotionError::MissingMotionSection { .. })) => true,
            (K::FramesKw | K::FrameCount, Motion(LoadMotionError::MissingNumFrames { .. })) => true,
            (K::FrameKw | K::TimeKw | K::FrameTime, Motion(LoadMotionError::MissingFrameTime { .. })) => true,
            (K::Value(p), Motion(LoadMotionError::ParseMotionSection { channel_index, .. })) => channel_index == p as usize,
            _ => false,
        };
        ensure!(ok, "kind", "{}: reported as {}", what(), shown);
    }
    let _ = d;
    Ok(())
}
