//! C02: a failing reader surfaces as that very I/O error, never as a document.
use super::Prop;
use crate::doc::*;
use crate::disk;
use crate::ensure;
use crate::io::*;
use crate::world::*;
use std::sync::Arc;

pub const PROP: Prop = Prop {
    id: "C02",
    run,
    quick: 250_000,
    thorough: 9_000_000,
    rule: "a run generates one document and loads it 1..4 times, each time with one hard error of a drawn kind at a drawn byte; non-trivial: an error was delivered to the library; distinct by hash of the event log",
    real: "bvh_anim loader and error types, std BufReader/Take/Chain",
    stub: "the device behind BufRead",
};

/// A byte position, biased to where the parser changes state.
pub fn position(w: &mut W, t: &Text) -> usize {
    let n = t.bytes.len();
    match w.weighted(&[4, 4, 2, 2, 2, 1]) {
        0 => w.upto(n),
        1 => {
            let k = *w.pick(&t.toks);
            let p = if w.chance(1, 2) { k.start } else { k.end } as usize;
            (p + w.upto(2)).saturating_sub(1).min(n)
        }
        2 => {
            // Around the sections' seam and in the headers of the motion section.
            let heads: Vec<Tok> = t
                .toks
                .iter()
                .filter(|k| matches!(k.k, K::Motion | K::FramesKw | K::FrameCount | K::FrameKw | K::TimeKw | K::FrameTime | K::Hierarchy | K::Root))
                .copied()
                .collect();
            let k = *w.pick(&heads);
            (k.start as usize + w.upto((k.end - k.start + 2) as usize)).saturating_sub(1).min(n)
        }
        3 => (t.root_close_line + w.upto(40)).min(n),
        4 => n - w.upto(n.min(12)),
        _ => w.upto(n.min(12)),
    }
}

pub fn run(w: &mut W) -> Verdict {
    let scale = if w.chance(1, 4) { Scale::Any } else { Scale::Small };
    let (d, mut t) = gen_text(w, scale);
    let mut damaged = false;
    if w.chance(1, 8) {
        damaged = true;
        let mut b = std::mem::take(&mut t.bytes);
        for _ in 0..1 + w.upto(2) {
            disk::damage(w, &mut b);
        }
        t.bytes = b;
        if t.bytes.is_empty() {
            return Ok(());
        }
    }
    let bytes = Arc::new(t.bytes.clone());
    let n = if bytes.len() < 5_000 { 1 + w.upto(3) } else { 1 };
    for _ in 0..n {
        let at = if damaged { w.upto(bytes.len()) } else { position(w, &t) };
        let spec = ErrSpec::draw(w);
        let sticky = w.chance(1, 2);
        let pol = ReadPolicy::draw(w);
        let plug = Plug::draw(w);
        w.say(|| format!("error {:?} at byte {} of {} ({}) via {:?}", spec.make(), at, bytes.len(), if sticky { "for good" } else { "once" }, plug));
        let mut r = SimReader::new(w, bytes.clone(), &pol);
        r.err = Some((at, spec, sticky));
        let st = r.stats();
        let res = no_panic("load", || plug.load(r))?;
        let hit = st.lock().unwrap().errors > 0;
        if !hit {
            w.probe("error-not-reached");
            continue;
        }
        w.mark();
        let e = match res {
            Ok(_) => return violation("document-despite-error", format!("the reader failed with {:?} at byte {} of {}, yet a document was returned", spec.make(), at, bytes.len())),
            Err(e) => e,
        };
        if damaged {
            continue;
        }
        let (joints, io) = match load_io_error(&e) {
            Some(x) => x,
            None => return violation("not-io", format!("the reader failed with {:?} at byte {}, reported as {:?}", spec.make(), at, e)),
        };
        if let Err(m) = spec.check(io) {
            return violation("other-error", m);
        }
        match chained_io_error(&e) {
            Some(c) if spec.check(c).is_ok() => {}
            other => return violation("source-chain", format!("source chain leads to {:?}, expected {:?}", other, spec.make())),
        }
        if at < t.root_close {
            ensure!(joints, "section", "error at byte {} (hierarchy ends at {}) attributed to the motion section", at, t.root_close);
        } else if at >= t.root_close_line {
            ensure!(!joints, "section", "error at byte {} (hierarchy ends at {}) attributed to the hierarchy", at, t.root_close);
        }
    }
    // The reader works again: the same document loads.
    if !damaged && w.chance(1, 4) {
        let r = SimReader::new(w, bytes.clone(), &ReadPolicy::calm());
        match no_panic("load", || Plug::direct().load(r))? {
            Ok(b) => {
                let c = no_panic("inspect", || check_doc(&b, &d))?;
                ensure!(c.is_ok(), "differs-afterwards", "{}", c.unwrap_err());
            }
            Err(e) => return violation("rejected-afterwards", format!("{}", e)),
        }
    }
    Ok(())
}
