//! C01: loading reproduces the document however its bytes are delivered.
use super::Prop;
use crate::doc::*;
use crate::ensure;
use crate::io::*;
use crate::world::*;
use std::sync::Arc;

pub const PROP: Prop = Prop {
    id: "C01",
    run,
    quick: 100_000,
    thorough: 4_000_000,
    rule: "a run generates one document and loads it 1..3 times, each time through a drawn entry point and delivery schedule; non-trivial: at least one load went through the simulated reader with a split or interrupted delivery; distinct by hash of the whole event log",
    real: "bvh_anim (parser, line splitter, number parser), std BufReader/Take/Chain",
    stub: "the device behind BufRead",
};

pub fn run(w: &mut W) -> Verdict {
    let (d, t) = gen_text(w, Scale::Any);
    let bytes = Arc::new(t.bytes);
    let n = if bytes.len() < 20_000 { 1 + w.upto(2) } else { 1 };
    let utf8 = d.utf8() && std::str::from_utf8(&bytes).is_ok();
    for i in 0..n {
        let memory = w.chance(1, if n > 1 { 4 } else { 8 });
        let res = if memory {
            let form = w.upto(8);
            w.say(|| format!("load {} from memory, entry point {}", i, form));
            no_panic("load", || load_memory(form, &bytes, utf8))?
        } else {
            let pol = ReadPolicy::draw(w);
            let plug = Plug::draw(w);
            w.say(|| format!("load {} via {:?} {:?}", i, plug, pol));
            w.mark();
            let r = SimReader::new(w, bytes.clone(), &pol);
            no_panic("load", || plug.load(r))?
        };
        let b = match res {
            Ok(b) => b,
            Err(e) => return violation("rejected", format!("well-formed document refused: {}", e)),
        };
        let c = no_panic("inspect", || check_doc(&b, &d))?;
        ensure!(c.is_ok(), "differs", "loaded document differs: {}", c.unwrap_err());
    }
    Ok(())
}
