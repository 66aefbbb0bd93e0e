//! C18: the outcome of loading depends on the bytes alone.
use super::Prop;
use crate::doc::*;
use crate::io::*;
use crate::world::*;
use bvh_anim::errors::LoadError;
use bvh_anim::Bvh;
use std::sync::Arc;

pub const PROP: Prop = Prop {
    id: "C18",
    run,
    quick: 150_000,
    thorough: 6_000_000,
    rule: "a run makes 1..3 byte streams (well-formed, damaged, bent, hostile) and loads them in a drawn order 2..7 times by drawn entry points, piece sizes and interruptions, some with the device failing at a byte; non-trivial: a stream that is refused was loaded in pieces or with interruptions; distinct by hash of the event log",
    real: "bvh_anim loader and error types, std BufReader/Take/Chain",
    stub: "the device behind BufRead; the disk",
};

/// Everything a caller can see of a failed load.
pub fn signature(e: &LoadError) -> String {
    let mut s = format!("{:?} | {} | line {:?}", e, e, e.line());
    let mut cur: Option<&(dyn std::error::Error + 'static)> = std::error::Error::source(e);
    while let Some(x) = cur {
        s.push_str(" <- ");
        s.push_str(&x.to_string());
        cur = x.source();
    }
    s
}

enum Outcome {
    Doc(Bvh),
    Refused(String),
    /// Not returning is C04's business, as long as it is the same for all.
    Panicked,
}

fn outcome(what: &str, f: impl FnOnce() -> Result<Bvh, LoadError>) -> Result<Outcome, Violation> {
    match guard(f) {
        Ok(Ok(b)) => Ok(Outcome::Doc(b)),
        Ok(Err(e)) => Ok(Outcome::Refused(no_panic("show-error", || signature(&e))?)),
        Err(Caught::Lib(_)) => Ok(Outcome::Panicked),
        Err(Caught::Sim(k)) => violation(k, format!("the loader did not end: {}", what)),
    }
}

fn agree(want: &Outcome, got: &Outcome, how: &str) -> Verdict {
    match (want, got) {
        (Outcome::Panicked, Outcome::Panicked) => Ok(()),
        (Outcome::Refused(a), Outcome::Refused(b)) if a == b => Ok(()),
        (Outcome::Refused(a), Outcome::Refused(b)) => violation("other-error", format!("{}: {}; from memory: {}", how, b, a)),
        (Outcome::Doc(a), Outcome::Doc(b)) => match no_panic("inspect", || same(a, b))? {
            Ok(()) => Ok(()),
            Err(m) => violation("other-document", format!("{}: {}", how, m)),
        },
        (Outcome::Doc(_), Outcome::Refused(e)) => violation("refused", format!("{}: refused with {}, yet loaded from memory", how, e)),
        (Outcome::Refused(e), Outcome::Doc(_)) => violation("loaded", format!("{}: loaded, yet refused from memory with {}", how, e)),
        (_, Outcome::Panicked) => violation("panic", format!("{}: panicked, yet not from memory", how)),
        (Outcome::Panicked, _) => violation("panic", format!("{}: returned, yet panicked from memory", how)),
    }
}

pub fn run(w: &mut W) -> Verdict {
    let n = 1 + w.upto(2);
    let mut all: Vec<(Arc<Vec<u8>>, Outcome, bool)> = Vec::new();
    for _ in 0..n {
        let b = match w.weighted(&[3, 5, 5]) {
            0 => {
                let scale = if w.chance(1, 8) { Scale::Any } else { Scale::Small };
                gen_text(w, scale).1.bytes
            }
            1 => super::c04::stream(w),
            _ => {
                let (_, t) = gen_text(w, Scale::Small);
                let mut b = t.bytes;
                super::c05::bend(w, &mut b, t.root_close);
                b
            }
        };
        let utf8 = std::str::from_utf8(&b).is_ok();
        w.say(|| format!("stream of {} bytes: {:?}", b.len(), String::from_utf8_lossy(&b[..b.len().min(700)])));
        let o = outcome("from memory", || bvh_anim::from_bytes(&b[..]))?;
        w.probe(match &o {
            Outcome::Doc(_) => "loads",
            Outcome::Refused(_) => "refused",
            Outcome::Panicked => "panics",
        });
        all.push((Arc::new(b), o, utf8));
    }
    let ops = 2 + w.upto(5);
    for _ in 0..ops {
        let (bytes, want, utf8) = &all[w.upto(n - 1)];
        let ops_cost = bytes.len() > 200_000;
        match w.weighted(&[6, 2, 3]) {
            0 => {
                let pol = if ops_cost { ReadPolicy::calm().with_interrupts(4) } else { ReadPolicy::draw(w) };
                let plug = Plug::draw(w);
                let how = format!("read as {:?} through {:?}", pol, plug);
                w.say(|| how.clone());
                let r = SimReader::new(w, bytes.clone(), &pol);
                let got = outcome(&how, || plug.load(r))?;
                if matches!(got, Outcome::Refused(_)) {
                    w.mark();
                }
                agree(want, &got, &how)?;
            }
            1 => {
                let form = w.upto(8);
                let how = format!("memory entry point {}", form);
                w.say(|| how.clone());
                let got = outcome(&how, || load_memory(form, bytes, *utf8))?;
                agree(want, &got, &how)?;
            }
            _ => {
                // The device fails at a byte: what comes of it does not depend on the pieces either.
                let at = w.upto(bytes.len());
                let spec = ErrSpec::draw(w);
                let sticky = w.chance(1, 2);
                let mut r = SimReader::new(w, bytes.clone(), &ReadPolicy::calm());
                r.err = Some((at, spec, sticky));
                let want = outcome("failing device", || bvh_anim::from_reader(r))?;
                let pol = if ops_cost { ReadPolicy::calm().with_interrupts(4) } else { ReadPolicy::draw(w) };
                let plug = Plug::draw(w);
                let how = format!("device failing with {:?} at byte {}, read as {:?} through {:?}", spec.make(), at, pol, plug);
                w.say(|| how.clone());
                let mut r = SimReader::new(w, bytes.clone(), &pol);
                r.err = Some((at, spec, sticky));
                let got = outcome(&how, || plug.load(r))?;
                agree(&want, &got, &how)?;
            }
        }
    }
    Ok(())
}
