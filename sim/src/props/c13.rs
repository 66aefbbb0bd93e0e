//! C13: a failed or cancelled load or save leaves nothing behind.
use super::Prop;
use crate::disk;
use crate::doc::*;
use crate::ensure;
use crate::io::*;
use crate::world::*;
use bvh_anim::Bvh;
use std::sync::Arc;

pub const PROP: Prop = Prop {
    id: "C13",
    run,
    quick: 90_000,
    thorough: 3_000_000,
    rule: "a run is a history of 1..6 loads and saves that fail, are cut short, meet damage or are abandoned by a panic, each followed, sooner or later, by healthy ones whose results and call counts are checked; non-trivial: an operation failed before a healthy one; distinct by hash of the event log",
    real: "bvh_anim loader and writer, std wrappers",
    stub: "devices behind BufRead and Write",
};

pub fn run(w: &mut W) -> Verdict {
    // Two documents, so that remains of one show in the other.
    let mut docs: Vec<(Doc, Text, Option<Bvh>, Vec<u8>)> = Vec::new();
    for _ in 0..2 {
        let scale = if w.chance(1, 8) { Scale::Any } else { Scale::Small };
        let (d, t) = gen_text(w, scale);
        // Made anew by the library before anything has failed in this run.
        let b = match guard(|| bvh_anim::from_bytes(&t.bytes[..])) {
            Ok(Ok(b)) if guard(|| check_doc(&b, &d).is_ok()).unwrap_or(false) => Some(b),
            _ => None,
        };
        let text = match &b {
            Some(b) => match guard(|| b.to_string()) {
                Ok(t) => t,
                Err(_) => return Ok(()),
            },
            None => vec![],
        };
        docs.push((d, t, b, text));
    }
    let mut failed = false;
    let n = 1 + w.upto(5);
    for _ in 0..n {
        let (d, t, b, text) = &docs[w.upto(1)];
        let load = b.is_none() || w.chance(1, 2);
        // Now and then the same trouble comes in series.
        let series = if w.chance(1, 24) && t.bytes.len() < 4_000 { 1 + w.size(300) } else { 1 };
        if load {
            let mut bytes = t.bytes.clone();
            let kind = w.weighted(&[3, 3, 2, 2]);
            match kind {
                0 | 1 => {}
                2 => bytes.truncate(w.upto(t.bytes.len())),
                _ => disk::damage(w, &mut bytes),
            }
            let len = bytes.len();
            let bytes = Arc::new(bytes);
            let mut pol = ReadPolicy::draw(w);
            if series > 1 {
                pol = ReadPolicy::calm();
            }
            let at = super::c02::position(w, t).min(len);
            let (spec, sticky) = (ErrSpec::draw(w), w.chance(1, 2));
            let plug = Plug::draw(w);
            w.say(|| format!("load that may fail, kind {} at {}, {} times over", kind, at, series));
            for _ in 0..series {
                let mut r = SimReader::new(&w.clone(), bytes.clone(), &pol);
                match kind {
                    0 => r.err = Some((at, spec, sticky)),
                    1 => r.panic_at = Some(at),
                    _ => {}
                }
                match guard(|| plug.load(r)) {
                    Ok(Ok(_)) => {}
                    Ok(Err(_)) | Err(Caught::Sim("reader-panic")) => failed = true,
                    // Panics and livelock on damaged input are C04's.
                    Err(_) => return Ok(()),
                }
            }
        } else {
            let b = b.as_ref().unwrap();
            let mut pol = WritePolicy::draw(w);
            if series > 1 {
                pol = WritePolicy::calm();
            }
            let at = w.upto(text.len());
            let how = w.draw(4);
            let (spec, sticky) = (ErrSpec::draw(w), w.chance(1, 2));
            let (o, _, short) = draw_options(w, false);
            let plug = SinkPlug::draw(w);
            w.say(|| format!("save that may fail at {}, {} times over", at, series));
            for _ in 0..series {
                let mut s = SimSink::new(&w.clone(), &pol);
                match how {
                    0 => s.panic_at = Some(at),
                    1 => s.flush_fail = Some((spec, sticky)),
                    2 => s.fail = Some((at, SinkFail::Zero, sticky)),
                    _ => s.fail = Some((at, SinkFail::Error(ErrSpec2(spec)), sticky)),
                }
                match guard(|| plug.save(b, &o, short, s)) {
                    Ok(Ok(())) => {}
                    Ok(Err(_)) | Err(Caught::Sim("sink-panic")) => failed = true,
                    Err(_) => return Ok(()),
                }
            }
        }
        let _ = d;
        if !w.chance(1, 2) {
            continue;
        }
        healthy(w, &docs, failed)?;
    }
    healthy(w, &docs, failed)
}

fn healthy(w: &mut W, docs: &[(Doc, Text, Option<Bvh>, Vec<u8>)], failed: bool) -> Verdict {
    let (d, t, b, text) = &docs[w.upto(1)];
    if failed {
        w.mark();
    }
    // Transient trouble is still allowed; hard faults have stopped.
    if b.is_none() || w.chance(1, 2) {
        let pol = ReadPolicy::draw(w);
        let r = SimReader::new(w, Arc::new(t.bytes.clone()), &pol);
        let st = r.stats();
        let plug = Plug::draw(w);
        w.say(|| "healthy load".into());
        match no_panic("load", || plug.load(r))? {
            Ok(x) => {
                let c = no_panic("inspect", || check_doc(&x, d))?;
                if b.is_some() {
                    ensure!(c.is_ok(), "load-differs", "after failures, a healthy load differs: {}", c.unwrap_err());
                }
            }
            Err(e) => {
                ensure!(b.is_none(), "load-refused", "after failures, a healthy load is refused: {}", e);
            }
        }
        let s = st.lock().unwrap();
        let bound = 4 * (t.bytes.len() as u64 + s.interrupts) + 200;
        ensure!(s.calls <= bound, "calls", "a healthy load made {} reader calls for {} bytes and {} interruptions", s.calls, t.bytes.len(), s.interrupts);
    } else {
        let b = b.as_ref().unwrap();
        let s = SimSink::new(&w.clone(), &WritePolicy::draw(w));
        let st = s.state();
        let plug = SinkPlug::draw(w);
        w.say(|| "healthy save".into());
        let r = no_panic("save", || plug.save(b, &Default::default(), true, s))?;
        ensure!(r.is_ok(), "save-failed", "after failures, a healthy save fails: {:?}", r);
        let s = st.lock().unwrap();
        ensure!(&s.accepted == text, "save-differs", "after failures, a healthy save delivers {} bytes instead of {}", s.accepted.len(), text.len());
        let bound = 4 * (text.len() as u64 + s.interrupts) + 200;
        ensure!(s.calls <= bound, "calls", "a healthy save made {} sink calls for {} bytes and {} interruptions", s.calls, text.len(), s.interrupts);
    }
    Ok(())
}
