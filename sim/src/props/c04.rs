//! C04: damaged or hostile input never panics, aborts, hangs or balloons memory.
use super::Prop;
use crate::alloc;
use crate::disk;
use crate::doc::*;
use crate::ensure;
use crate::io::*;
use crate::world::*;
use std::sync::Arc;

pub const PROP: Prop = Prop {
    id: "C04",
    run,
    quick: 500_000,
    thorough: 16_000_000,
    rule: "a run makes one byte stream (a stored document with 1..6 storage faults, a hostile stream of grammar fragments, or an extreme one) and loads it; non-trivial: the stream is not a well-formed document; distinct by hash of the event log; even runs with overflow checks, odd runs without",
    real: "bvh_anim loader",
    stub: "the device behind BufRead; the disk; the allocator's limit",
};

const NUMS: &[&str] = &[
    "0", "1", "2", "3", "6", "-1", "1.5", "0.033", "4294967295", "4294967296", "18446744073709551615",
    "18446744073709551616", "9223372036854775807", "9223372036854775808", "1e3", "1e400", "-1e400", "1e-400",
    "nan", "NaN", "-nan", "inf", "-inf", "infinity", "-0", "+1", "1_0", "0x1", "", "99999999999999999999999999",
    "3000000", "200000000", "6148914691236517206", "1e19", "1.8446744073709552e19", "-1e-9", "584942417355", "1e18",
    ".", "-", "+", "e", "1e", "..1", "٣", "1e999999999999999999999",
];

fn hostile_line<D: Draw>(w: &mut D, out: &mut Vec<u8>) {
    let num = |w: &mut D| *w.pick(NUMS);
    let s: String = match w.draw(24) {
        0 => "HIERARCHY".into(),
        1 => "ROOT a".into(),
        2 => "ROOT".into(),
        3 | 4 => "{".into(),
        5 | 6 | 7 => "}".into(),
        8 | 9 => "JOINT b".into(),
        10 => "JOINT".into(),
        11 => "End Site".into(),
        12 => "End".into(),
        13 => format!("OFFSET {} {} {}", num(w), num(w), num(w)),
        14 => format!("OFFSET {}", num(w)),
        15 => format!("CHANNELS {} Xposition Yposition", num(w)),
        16 => format!("CHANNELS {}", num(w)),
        17 => "MOTION".into(),
        18 => format!("Frames: {}", num(w)),
        19 => format!("Frame Time: {}", num(w)),
        20 => format!("{} {} {}", num(w), num(w), num(w)),
        21 => w.pick(&["", " ", "\t", "\r", "\u{feff}HIERARCHY", ":", "::", "End:Site", "JOINT:x", "{ {", "} }", "{}",
            "JOINT b {", "End Site {", "ROOT a {", "Frames", "Frame", "Frame Time:", "Frame Time", "Frames:", "\0", "# c",
            "hierarchy", "root a", "OFFSET", "CHANNELS", "JOINT }", "JOINT {", "ROOT ROOT", "JOINT a b c"]).to_string(),
        22 => format!("CHANNELS 1 Xposition {}", num(w)),
        _ => "OFFSET 1 2 3".into(),
    };
    out.extend_from_slice(s.as_bytes());
    out.extend_from_slice(if w.chance(1, 10) { b"\r\n" } else { b"\n" });
}

/// A stream built from fragments of the grammar, mostly in an order that gets past the first checks.
pub fn hostile(w: &mut W) -> Vec<u8> {
    let mut b = Vec::new();
    let num = |w: &mut W| *w.pick(NUMS);
    if !w.chance(1, 12) {
        b.extend_from_slice(b"HIERARCHY\n");
        if !w.chance(1, 10) {
            b.extend_from_slice(b"ROOT r\n");
        }
        if !w.chance(1, 10) {
            b.extend_from_slice(b"{\n");
        }
    }
    match w.weighted(&[5, 4]) {
        0 => {
            let n = w.upto(14);
            for _ in 0..n {
                hostile_line(w, &mut b);
            }
        }
        _ => {
            // A balanced body with the odd stray line.
            if !w.chance(1, 8) {
                b.extend_from_slice(b"OFFSET 0 0 0\n");
            }
            if !w.chance(1, 8) {
                b.extend_from_slice(format!("CHANNELS {} Xposition\n", num(w)).as_bytes());
            }
            let n = w.upto(6);
            let mut open = 0;
            for _ in 0..n {
                match w.draw(6) {
                    0 | 1 => {
                        b.extend_from_slice(b"JOINT j\n{\nOFFSET 1 1 1\nCHANNELS 1 Zrotation\n");
                        open += 1;
                    }
                    2 => b.extend_from_slice(b"End Site\n{\nOFFSET 1 1 1\n}\n"),
                    3 if open > 0 => {
                        b.extend_from_slice(b"}\n");
                        open -= 1;
                    }
                    _ => hostile_line(w, &mut b),
                }
            }
            for _ in 0..open {
                b.extend_from_slice(b"}\n");
            }
        }
    }
    let k = w.weighted(&[1, 8, 2]);
    for _ in 0..k {
        b.extend_from_slice(b"}\n");
    }
    if !w.chance(1, 8) {
        b.extend_from_slice(b"MOTION\n");
    }
    if !w.chance(1, 8) {
        b.extend_from_slice(format!("Frames: {}\n", num(w)).as_bytes());
    }
    if !w.chance(1, 8) {
        b.extend_from_slice(format!("Frame Time: {}\n", num(w)).as_bytes());
    }
    let n = w.upto(4);
    for _ in 0..n {
        if w.chance(1, 4) {
            hostile_line(w, &mut b);
        } else {
            b.extend_from_slice(format!("{}\n", num(w)).as_bytes());
        }
    }
    if w.chance(1, 8) {
        let k = w.upto(b.len());
        b.truncate(k);
    }
    w.fault("hostile-stream");
    b
}

/// Streams extreme in one respect.
fn extreme(w: &mut W) -> Vec<u8> {
    let mut b = b"HIERARCHY\nROOT r\n{\nOFFSET 0 0 0\nCHANNELS 1 Xposition\n".to_vec();
    let n = *w.pick(&[100usize, 3_000, 60_000]);
    let close = w.chance(1, 2);
    match w.draw(9) {
        0 => {
            for _ in 0..n {
                b.extend_from_slice(b"JOINT j\n{\nOFFSET 0 0 0\nCHANNELS 0\n");
            }
            if close {
                for _ in 0..n + 1 {
                    b.extend_from_slice(b"}\n");
                }
                b.extend_from_slice(b"MOTION\nFrames: 0\nFrame Time: 1\n");
            }
        }
        1 => {
            for _ in 0..n {
                b.extend_from_slice(b"{\n");
            }
        }
        2 => {
            for _ in 0..n {
                b.extend_from_slice(b"}\n");
            }
        }
        3 => {
            for _ in 0..n {
                b.extend_from_slice(b"End Site\n{\n");
            }
        }
        4 => {
            b.extend_from_slice(b"JOINT ");
            b.resize(b.len() + n * 8, b'x');
        }
        5 => {
            b.extend_from_slice(b"CHANNELS 3");
            for _ in 0..n {
                b.extend_from_slice(b" Xposition");
            }
            b.extend_from_slice(b"\n}\nMOTION\nFrames: 0\nFrame Time: 1\n");
        }
        6 => {
            b.extend_from_slice(b"}\nMOTION\nFrames: 18446744073709551615\nFrame Time: 1\n");
            for _ in 0..n {
                b.extend_from_slice(b"1 ");
            }
        }
        7 => {
            b.extend_from_slice(b"}\nMOTION\n");
            b.resize(b.len() + n, b'\n');
            b.extend_from_slice(b"Frames: 1\n");
            b.resize(b.len() + n, b'\n');
        }
        _ => {
            b.extend_from_slice(b"OFFSET 1");
            b.resize(b.len() + n * 4, b'0');
            b.extend_from_slice(b" 0 0\n}\nMOTION\nFrames: 1\nFrame Time: 0.");
            b.resize(b.len() + n * 4, b'3');
            b.extend_from_slice(b"\n1.");
            b.resize(b.len() + n * 4, b'7');
            b.extend_from_slice(b"\n");
        }
    }
    w.fault("extreme-stream");
    b
}

/// A damaged or hostile byte stream.
pub fn stream(w: &mut W) -> Vec<u8> {
    match w.weighted(&[60, 50, 1]) {
        0 => {
            let scale = if w.chance(1, 12) { Scale::Any } else { Scale::Small };
            let (_, t) = gen_text(w, scale);
            let mut b = t.bytes;
            let n = 1 + w.upto(5);
            for _ in 0..n {
                disk::damage(w, &mut b);
            }
            b
        }
        1 => hostile(w),
        _ => extreme(w),
    }
}

pub fn run(w: &mut W) -> Verdict {
    let b = stream(w);
    w.mark();
    let len = b.len();
    w.say(|| format!("stream of {} bytes: {:?}", len, String::from_utf8_lossy(&b[..len.min(600)])));
    let bytes = Arc::new(b);
    let pol = ReadPolicy::draw(w);
    let plug = if w.chance(1, 3) { Plug::draw(w) } else { Plug::direct() };
    let r = SimReader::new(w, bytes.clone(), &pol);
    let st = r.stats();
    let (res, peak) = alloc::measure(|| guard(|| plug.load(r)));
    let delivered = st.lock().unwrap().delivered;
    match res {
        Err(Caught::Lib(m)) => return violation("panic", format!("the loader panicked: {}", m)),
        Err(Caught::Sim(k)) => return violation(k, format!("the loader called the reader {} times for {} bytes", st.lock().unwrap().calls, len)),
        Ok(Ok(_)) => w.probe("loaded"),
        Ok(Err(e)) => {
            w.probe("refused");
            // The error can be shown.
            let t = no_panic("show-error", || {
                use std::error::Error;
                let mut n = format!("{} {:?}", e, e).len() + e.line().unwrap_or(0);
                let mut c: Option<&(dyn Error + 'static)> = e.source();
                while let Some(x) = c {
                    n += x.to_string().len();
                    c = x.source();
                }
                n
            })?;
            std::hint::black_box(t);
        }
    }
    let bound = (4 << 20) + 512 * delivered;
    ensure!(peak <= bound, "memory", "loading {} delivered bytes took {} bytes of memory (bound {})", delivered, peak, bound);
    Ok(())
}
