//! C07: a failing sink surfaces as its error and holds an exact prefix.
use super::Prop;
use crate::doc::*;
use crate::ensure;
use crate::io::*;
use crate::world::*;

pub const PROP: Prop = Prop {
    id: "C07",
    run,
    quick: 100_000,
    thorough: 3_500_000,
    rule: "a run saves one document 1..4 times to a sink that fails at a drawn byte or flush in a drawn way; non-trivial: the failure was delivered; distinct by hash of the event log",
    real: "bvh_anim writer, std BufWriter/LineWriter",
    stub: "the device behind Write",
};

pub fn run(w: &mut W) -> Verdict {
    let scale = if w.chance(1, 3) { Scale::Any } else { Scale::Small };
    let (_, b) = match super::c06::document(w, scale)? {
        Some(x) => x,
        None => return Ok(()),
    };
    let n = if b.frames().len() < 50 { 1 + w.upto(3) } else { 1 };
    for _ in 0..n {
        let (o, _, short) = draw_options(w, false);
        let pol = WritePolicy::draw(w);
        let plug = SinkPlug::draw(w);
        let want = no_panic("serialise", || if short { b.to_string() } else { o.write_to_string(&b) })?;
        if want.is_empty() {
            // Which text it should be is not for this property to say.
            return Ok(());
        }
        let spec = ErrSpec::draw(w);
        let sticky = w.chance(1, 2);
        let mut sink = SimSink::new(w, &pol);
        let mode = w.weighted(&[4, 2, 2]);
        let at = match w.weighted(&[3, 2, 2, 1]) {
            0 => w.upto(want.len() - 1),
            1 => {
                // At or next to a line end.
                let mut p = w.upto(want.len() - 1);
                while p + 1 < want.len() && want[p] != b'\n' {
                    p += 1;
                }
                (p + w.upto(2)).min(want.len() - 1)
            }
            2 => want.len() - 1 - w.upto((want.len() - 1).min(4)),
            _ => w.upto((want.len() - 1).min(4)),
        };
        let fail = if mode == 1 { SinkFail::Zero } else { SinkFail::Error(ErrSpec2(spec)) };
        if mode == 2 {
            sink.flush_fail = Some((spec, sticky));
        } else {
            sink.fail = Some((at, fail, sticky));
        }
        w.say(|| format!("mode {} error {:?} at {} of {} sticky {} via {:?} {:?} with {:?}", mode, spec.make(), at, want.len(), sticky, plug, pol, o));
        let st = sink.state();
        let before = b.clone();
        let res = no_panic("save", || plug.save(&b, &o, short, sink))?;
        let st = st.lock().unwrap();
        let fired = st.errors > 0 || st.flush_fails > 0;
        let k = st.accepted.iter().zip(&want).take_while(|(a, b)| a == b).count();
        ensure!(
            k == st.accepted.len() && k <= want.len(),
            "not-a-prefix",
            "the sink holds {} bytes, the text has {}, first difference at {}",
            st.accepted.len(),
            want.len(),
            k
        );
        if st.after_fail {
            w.probe("accepted-after-failure");
        }
        match res {
            Ok(()) => {
                ensure!(!fired, "success-despite-failure", "the sink failed ({:?} at byte {}), yet saving succeeded with {} of {} bytes", fail, at, st.accepted.len(), want.len());
                ensure!(mode != 2, "success-without-flush", "saving succeeded without the flush that would have failed");
                return violation("success-despite-failure", format!("saving succeeded although the sink never took byte {}: it holds {} of {}", at, st.accepted.len(), want.len()));
            }
            Err(e) => {
                if !fired {
                    return violation("failed-early", format!("the sink had not failed, yet saving returned {:?}", e));
                }
                w.mark();
                if mode == 1 {
                    ensure!(e.kind() == std::io::ErrorKind::WriteZero, "other-error", "the sink accepted nothing, saving returned {:?}", e);
                } else if let Err(m) = spec.check(&e) {
                    return violation("other-error", m);
                }
            }
        }
        let s = same(&b, &before);
        ensure!(s.is_ok(), "document-changed", "{}", s.unwrap_err());
    }
    Ok(())
}
