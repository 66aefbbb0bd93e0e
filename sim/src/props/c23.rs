//! C23: an error says in words what it says in data.
use super::Prop;
use crate::doc::*;
use crate::ensure;
use crate::io::*;
use crate::world::*;
use bvh_anim::errors::*;
use std::error::Error;
use std::sync::Arc;

pub const PROP: Prop = Prop {
    id: "C23",
    run,
    quick: 300_000,
    thorough: 12_000_000,
    rule: "a run provokes 1..4 failures of loads (damaged, bent, hostile or cut bytes, lost values, failing devices) and of edits, and reads each error in every way there is; non-trivial: a load failed; distinct by hash of the event log",
    real: "bvh_anim loader, cursor and error types",
    stub: "the device behind BufRead; the disk",
};

/// The numbers in a text.
fn says(text: &str, n: usize) -> bool {
    let n = n.to_string();
    text.split(|c: char| !c.is_ascii_digit()).any(|t| t == n)
}
/// The first number behind a word, if both are there.
fn behind(text: &str, w: &str) -> Option<String> {
    let text = text.to_lowercase();
    let mut seen = false;
    for t in text.split(|c: char| !c.is_ascii_alphanumeric()) {
        if seen && !t.is_empty() && t.bytes().all(|b| b.is_ascii_digit()) {
            return Some(t.to_string());
        }
        seen |= t == w;
    }
    None
}
/// Each number in the text that stands behind one of the words is that word's.
fn told_apart(text: &str, roles: &[(&str, usize)]) -> bool {
    roles.iter().all(|(w, n)| behind(text, w).map_or(true, |t| t == n.to_string()))
}
fn word(text: &str, s: &str) -> bool {
    text.split(|c: char| !c.is_ascii_alphanumeric()).any(|t| t == s)
}

/// What is wrong with how the error presents itself.
pub fn examine(e: LoadError) -> Result<(), String> {
    let text = e.to_string();
    let debug = format!("{:?}", e);
    let show = format!("{:?} shown as {:?}", debug, text);
    let err = |m: String| -> Result<(), String> { Err(format!("{}: {}", m, show)) };
    let source = match Error::source(&e) {
        Some(s) => s,
        None => return err("no source".into()),
    };
    let mut depth = 0;
    let mut cur = Some(source);
    while let Some(x) = cur {
        depth += 1;
        if depth > 6 {
            return err("a chain of sources without end".into());
        }
        if x.to_string().is_empty() {
            return err(format!("source {} has nothing to say", depth));
        }
        cur = x.source();
    }
    let (section, inner, inner_debug, line) = match e.kind() {
        LoadErrorKind::Joints(k) => ("hierarchy", k.to_string(), format!("{:?}", k), k.line()),
        LoadErrorKind::Motion(k) => ("motion", k.to_string(), format!("{:?}", k), k.line()),
    };
    let right_source = match e.kind() {
        LoadErrorKind::Joints(_) => source.downcast_ref::<LoadJointsError>().map(|k| format!("{:?}", k)),
        LoadErrorKind::Motion(_) => source.downcast_ref::<LoadMotionError>().map(|k| format!("{:?}", k)),
    };
    if right_source.as_ref() != Some(&inner_debug) {
        return err(format!("its source is {:?}, its kind {}", right_source, inner_debug));
    }
    if !text.contains(&inner) {
        return err(format!("its text lacks that of its kind, {:?}", inner));
    }
    if !word(&text.to_lowercase(), section) {
        return err(format!("its text does not name the {} section", section));
    }
    if e.line() != line {
        return err(format!("line() is {:?}, its kind's {:?}", e.line(), line));
    }
    if let Some(l) = line {
        if !says(&inner, l) || !word(&debug, &l.to_string()) {
            return err(format!("line {} is not in its text", l));
        }
    }
    if let Some(io) = load_io_error(&e).map(|x| x.1) {
        if !inner.contains(&io.to_string()) {
            return err(format!("its text lacks that of the I/O error, {:?}", io.to_string()));
        }
        match chained_io_error(&e) {
            Some(c) if c.kind() == io.kind() && c.raw_os_error() == io.raw_os_error() && c.to_string() == io.to_string() => {}
            c => return err(format!("the I/O error in its chain is {:?}, its own {:?}", c, io)),
        }
        if line.is_some() {
            return err("an I/O error has a line".into());
        }
    }
    let axis = match e.kind() {
        LoadErrorKind::Joints(LoadJointsError::ParseOffsetError { axis, .. })
        | LoadErrorKind::Joints(LoadJointsError::MissingOffsetAxis { axis, .. }) => Some(*axis),
        _ => None,
    };
    if let Some(a) = axis {
        let v = a.vector();
        for (i, (x, name)) in [(bvh_anim::Axis::X, "x"), (bvh_anim::Axis::Y, "y"), (bvh_anim::Axis::Z, "z")].iter().enumerate() {
            if word(&inner, name) != (*x == a) || (v[i] == 1.0) != (*x == a) {
                return err(format!("its text does not name the axis {:?}", a));
            }
        }
    }
    if let LoadErrorKind::Joints(LoadJointsError::ParseChannelError { error, .. }) = e.kind() {
        let c = source.source().and_then(|s| s.downcast_ref::<ParseChannelError>()).map(|c| c.to_string());
        if c != Some(error.to_string()) {
            return err(format!("its channel error {:?} is not its source {:?}", error, c));
        }
    }
    if let LoadErrorKind::Motion(LoadMotionError::MotionCountMismatch {
        actual_total_motion_values: a,
        expected_total_motion_values: x,
        expected_num_frames: f,
        expected_num_clips: c,
    }) = e.kind()
    {
        if ![*a, *x, *f, *c].iter().all(|n| says(&inner, *n)) {
            return err("its text lacks a count".into());
        }
        if !told_apart(&inner, &[("expected", *x), ("found", *a), ("frames", *f), ("clips", *c)]) {
            return err("its text takes one count for another".into());
        }
        if a == x || f.saturating_mul(*c) != *x {
            return err("its counts do not contradict each other as they should".into());
        }
    }
    // As callers pass it on.
    let boxed: Box<dyn Error + Send + Sync> = Box::new(e);
    if boxed.to_string() != text {
        return err(format!("boxed, it is shown as {:?}", boxed.to_string()));
    }
    match boxed.downcast::<LoadError>() {
        Ok(e) => match e.into_kind() {
            LoadErrorKind::Joints(k) if format!("{:?}", k) == inner_debug => {
                let again = LoadError::from(k);
                if again.to_string() != text {
                    return err(format!("made again from its kind, it is shown as {:?}", again.to_string()));
                }
            }
            LoadErrorKind::Motion(k) if format!("{:?}", k) == inner_debug => {
                let again = LoadError::from(k);
                if again.to_string() != text {
                    return err(format!("made again from its kind, it is shown as {:?}", again.to_string()));
                }
            }
            k => return err(format!("into_kind() gives {:?}", k)),
        },
        Err(_) => return err("boxed, it is something else".into()),
    }
    Ok(())
}

/// Failures of edits.
fn edits(w: &mut W) -> Result<(), String> {
    let d = super::c09::small_doc(w, true);
    let mut b = match super::c09::load_quietly(w, &d) {
        Some(b) => b,
        None => return Ok(()),
    };
    let n = d.nch;
    let len = match w.draw(3) {
        0 => n + 1 + w.upto(50),
        1 => w.upto(n),
        _ => n.saturating_sub(1),
    };
    let k = match w.draw(4) {
        0 => usize::MAX - w.upto(3),
        1 => (1usize << w.pick(&[8u32, 16, 31, 32, 53, 63])) + n + w.upto(3),
        _ => n + w.upto(40),
    };
    for e in [SetMotionError::BadFrame(k), SetMotionError::BadChannel(k)] {
        if !says(&e.to_string(), k) || Error::source(&e).is_some() {
            return Err(format!("{:?} is shown as {}", e, e));
        }
    }
    if let Some(mut f) = b.frames_mut().next() {
        match f.try_set_motion(k, 1.0) {
            Err(e) => {
                if !says(&e.to_string(), k) || !told_apart(&e.to_string(), &[("channel", k)]) || e != SetMotionError::BadChannel(k) || e != e.clone() {
                    return Err(format!("setting value {} of {} gives {:?}, shown as {}", k, n, e, e));
                }
                w.fault("edit-refused");
            }
            Ok(_) => return Err(format!("value {} of {} was set", k, n)),
        }
    }
    let frames = d.nframes;
    let mut c = b.frame_cursor();
    c.move_last();
    match c.remove_frame() {
        Err(e) => {
            if !says(&e.to_string(), frames) || Error::source(&e).is_some() {
                return Err(format!("removing at {} gives {:?}, shown as {}", frames, e, e));
            }
            w.fault("edit-refused");
        }
        Ok(_) => return Err(format!("a frame at {} of {} was removed", frames, frames)),
    }
    if len != n {
        let f = vec![1.0f32; len];
        let many = w.chance(1, 2);
        let r = if many { c.try_insert_frames(vec![&f]).map(|_| ()) } else { c.try_insert_frame(&f).map(|_| ()) };
        match r {
            Err(e) => {
                let t = e.to_string();
                if !says(&t, n) || !says(&t, len) || !told_apart(&t, &[("frame", len), ("bvh", n)]) || Error::source(&e).is_some() {
                    return Err(format!("inserting {} values among {} gives {:?}, shown as {}", len, n, e, t));
                }
                w.fault("edit-refused");
            }
            Ok(()) => return Err(format!("{} values were inserted among {}", len, n)),
        }
    }
    Ok(())
}

pub fn run(w: &mut W) -> Verdict {
    for _ in 0..1 + w.upto(3) {
        let kind = w.weighted(&[5, 3, 2, 3, 3, 1]);
        let mut device = None;
        let bytes = match kind {
            0 => {
                let (_, t) = gen_text(w, Scale::Small);
                match super::c12::corrupt(w, &t) {
                    Some(x) => x.3,
                    None => t.bytes,
                }
            }
            1 => {
                let (_, t) = gen_text(w, Scale::Small);
                let mut b = t.bytes;
                super::c05::bend(w, &mut b, t.root_close);
                b
            }
            2 => super::c04::stream(w),
            3 => {
                // Lost or added values.
                let (_, t) = gen_text(w, Scale::Small);
                let mut b = t.bytes;
                if w.chance(1, 2) {
                    b.extend_from_slice(b"\n1 2 3\n");
                    w.fault("added-values");
                } else {
                    let at = t.root_close_line + w.upto(b.len() - t.root_close_line);
                    b.truncate(at);
                    w.fault("cut-off");
                }
                b
            }
            4 => {
                let (_, t) = gen_text(w, Scale::Small);
                device = Some((super::c02::position(w, &t), ErrSpec::draw(w), w.chance(1, 2)));
                t.bytes
            }
            _ => {
                let x = no_panic("edit", || edits(w))?;
                ensure!(x.is_ok(), "edit-error", "{}", x.unwrap_err());
                continue;
            }
        };
        w.say(|| format!("{} bytes: {:?}", bytes.len(), String::from_utf8_lossy(&bytes[..bytes.len().min(600)])));
        let pol = if bytes.len() > 200_000 { ReadPolicy::calm() } else { ReadPolicy::draw(w) };
        let mut r = SimReader::new(w, Arc::new(bytes), &pol);
        r.err = device;
        let plug = Plug::draw(w);
        // That the load ends is C04's business.
        let e = match guard(|| plug.load(r)) {
            Ok(Err(e)) => e,
            _ => continue,
        };
        w.mark();
        w.ev("refused", kind as u64, e.line().map_or(0, |l| l as u64 + 1));
        let x = no_panic("show-error", || examine(e))?;
        ensure!(x.is_ok(), "load-error", "{}", x.unwrap_err());
    }
    Ok(())
}
