//! C20: saving what was loaded from a save reproduces the file.
use super::Prop;
use crate::disk::*;
use crate::doc::*;
use crate::io::*;
use crate::literals;
use crate::world::*;
use std::io::Write;
use std::sync::Arc;
use std::time::Duration;

pub const PROP: Prop = Prop {
    id: "C20",
    run,
    quick: 80_000,
    thorough: 3_000_000,
    rule: "a run saves one document (generated, edited, from a literal, or what a damaged text still loads as) to the simulated disk, then 1..4 times crashes, restarts, loads the file and saves it anew with the same options; non-trivial: at least one rewrite was compared; distinct by hash of the event log",
    real: "bvh_anim loader and writer, literal macro, std wrappers",
    stub: "the disk, its cache and power supply; the device behind BufRead and Write",
};

pub fn run(w: &mut W) -> Verdict {
    let mut b = match w.weighted(&[8, 2, 4]) {
        0 => {
            let scale = if w.chance(1, 4) { Scale::Any } else { Scale::Small };
            match super::c06::document(w, scale)? {
                Some((_, b)) => b,
                None => return Ok(()),
            }
        }
        1 => {
            let i = w.upto(literals::COUNT - 1);
            match guard(|| literals::literal(i)) {
                Ok((b, _)) => b,
                Err(_) => return Ok(()),
            }
        }
        _ => {
            let (_, t) = gen_text(w, Scale::Small);
            let mut x = t.bytes;
            super::c05::bend(w, &mut x, t.root_close);
            match guard(|| bvh_anim::from_bytes(&x[..])) {
                Ok(Ok(b)) => {
                    w.probe("damaged-text-loads");
                    b
                }
                _ => return Ok(()),
            }
        }
    };
    if w.chance(1, 2) {
        for _ in 0..1 + w.upto(2) {
            if guard(|| super::c06::touch(w, &mut b)).is_err() {
                w.probe("setup-edit-failed");
                return Ok(());
            }
        }
    }
    if w.chance(1, 6) {
        let bits = 1 + w.upto(58);
        let t = Duration::new(w.draw(1u64 << bits), w.draw(1_000_000_000) as u32);
        b.set_frame_time(t);
    }
    let (o, _, short) = draw_options(w, false);
    w.say(|| format!("options {:?}", o));
    let disk = SimDisk::new(w, *w.clone().pick(&[512usize, 64, 4096]));
    let store = |w: &mut W, b: &bvh_anim::Bvh| -> Result<Vec<u8>, Violation> {
        let sink = SimSink::new(&w.clone(), &WritePolicy::draw(w));
        let st = sink.state();
        let plug = SinkPlug::draw(w);
        let r = no_panic("save", || plug.save(b, &o, short, sink))?;
        if let Err(e) = r {
            return violation("save-failed", format!("the sink never failed, yet saving returned {:?}", e));
        }
        let text = std::mem::take(&mut st.lock().unwrap().accepted);
        let mut f = disk.create("doc");
        if f.write_all(&text).is_err() {
            return violation("simulator", "disk write failed");
        }
        disk.fsync("doc");
        disk.sync_dir();
        Ok(text)
    };
    let first = store(w, &b)?;
    let n = 1 + w.upto(3);
    for g in 0..n {
        let mut sub = w.sub();
        disk.crash(&mut sub);
        let stored = match disk.read("doc") {
            Some(s) => s,
            None => return violation("simulator", "the synced file vanished"),
        };
        let r = SimReader::new(&w.clone(), Arc::new(stored), &ReadPolicy::draw(w));
        let plug = Plug::draw(w);
        let x = match no_panic("load", || plug.load(r))? {
            Ok(x) => x,
            Err(e) => return violation("reload-refused", format!("generation {} does not load: {}; text {:?}", g, e, String::from_utf8_lossy(&first[..first.len().min(700)]))),
        };
        let text = store(w, &x)?;
        w.mark();
        if text != first {
            let k = text.iter().zip(&first).take_while(|(a, b)| a == b).count();
            let cut = |t: &[u8]| String::from_utf8_lossy(&t[k.saturating_sub(30).min(t.len())..(k + 40).min(t.len())]).into_owned();
            return violation("text-differs", format!("generation {}: {} bytes became {}; at byte {} {:?} became {:?}", g + 1, first.len(), text.len(), k, cut(&first), cut(&text)));
        }
    }
    Ok(())
}
