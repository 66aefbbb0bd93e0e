//! C06: a successful save delivered every byte, however the sink accepts them.
use super::Prop;
use crate::doc::*;
use crate::ensure;
use crate::io::*;
use crate::world::*;
use bvh_anim::Bvh;

pub const PROP: Prop = Prop {
    id: "C06",
    run,
    quick: 90_000,
    thorough: 3_000_000,
    rule: "a run saves one document 1..3 times through drawn options, wrappers and sink schedules; non-trivial: a short or interrupted write happened; distinct by hash of the event log",
    real: "bvh_anim writer, std BufWriter/LineWriter",
    stub: "the device behind Write",
};

/// A document to save: loaded from a generated text, sometimes edited. None if loading failed,
/// which is another property's business.
pub fn document(w: &mut W, scale: Scale) -> Result<Option<(Doc, Bvh)>, Violation> {
    let d = gen_doc(w, scale);
    let t = render(w, &d, &Layout::plain());
    match guard(|| bvh_anim::from_bytes(&t.bytes[..])) {
        Ok(Ok(b)) => Ok(Some((d, b))),
        _ => {
            w.probe("setup-load-failed");
            Ok(None)
        }
    }
}

/// One edit through the public face; edits that keep sums, sizes or shapes are among them.
pub fn touch(w: &mut W, b: &mut Bvh) {
    let (n, ch) = (b.frames().len(), b.num_channels());
    let kind = w.weighted(&[3, 2, 2, 1, 1, 1, 1, 1]);
    if n == 0 || ch == 0 {
        if ch > 0 && kind % 2 == 0 {
            let f = vec![0.5; ch];
            let _ = b.frame_cursor().try_insert_frame(&f);
        } else {
            let t = std::time::Duration::from_nanos(w.draw(1_000_000_000));
            b.set_frame_time(t);
        }
        return;
    }
    let (i, j) = (w.upto(n - 1), w.upto(n - 1));
    let (c, e) = (w.upto(ch - 1), w.upto(ch - 1));
    w.say(|| format!("edit {} at frames {} {}, values {} {}", kind, i, j, c, e));
    match kind {
        0 => b.frames_mut().nth(i).unwrap().as_mut_slice().swap(c, e),
        1 => {
            let x = b.frames().nth(i).unwrap().as_slice().to_vec();
            let y = b.frames().nth(j).unwrap().as_slice().to_vec();
            b.frames_mut().nth(i).unwrap().as_mut_slice().copy_from_slice(&y);
            b.frames_mut().nth(j).unwrap().as_mut_slice().copy_from_slice(&x);
        }
        2 => b.frames_mut().nth(i).unwrap().as_mut_slice()[c] = gen_num(w, 1).val,
        3 => {
            // One value gains what another loses.
            let mut f = b.frames_mut().nth(i).unwrap();
            let f = f.as_mut_slice();
            f[c] += 1.0;
            f[e] -= 1.0;
        }
        4 => {
            let x = b.frames_mut().nth(i).unwrap().as_mut_slice()[c];
            b.frames_mut().nth(i).unwrap().as_mut_slice()[c] = if w.chance(1, 2) { -x } else { f32::from_bits(x.to_bits() ^ 1) };
        }
        5 => {
            let t = std::time::Duration::from_nanos(w.draw(1_000_000_000));
            b.set_frame_time(t);
        }
        6 => {
            let mut cur = b.frame_cursor();
            for _ in 0..i {
                cur.move_next();
            }
            let _ = cur.remove_frame();
        }
        _ => {
            let f = b.frames().nth(i).unwrap().as_slice().to_vec();
            let mut cur = b.frame_cursor();
            for _ in 0..j {
                cur.move_next();
            }
            let _ = cur.try_insert_frame(&f);
        }
    }
}

pub fn run(w: &mut W) -> Verdict {
    let scale = if w.chance(1, 2) { Scale::Any } else { Scale::Small };
    let (_, b) = match document(w, scale)? {
        Some(x) => x,
        None => return Ok(()),
    };
    let mut b = b;
    if w.chance(1, 10) {
        b = Bvh::new();
    }
    if w.chance(1, 8) {
        let _ = b.extract_frames();
    }
    let n = if b.frames().len() < 50 { 1 + w.upto(3) } else { 1 };
    let again = w.chance(1, 2);
    let mut last = None;
    for k in 0..n {
        if k > 0 && w.chance(1, 2) {
            // Meanwhile the client edits; what is saved is the document as it now is.
            if guard(|| touch(w, &mut b)).is_err() {
                w.probe("setup-edit-failed");
                return Ok(());
            }
        }
        let (o, _, short) = match last.take() {
            Some(o) if again => o,
            _ => draw_options(w, false),
        };
        last = Some((o.clone(), [None; 3], short));
        let pol = WritePolicy::draw(w);
        let plug = SinkPlug::draw(w);
        w.say(|| format!("save with {:?} via {:?} {:?}", o, plug, pol));
        let want = no_panic("serialise", || if short { b.to_string() } else { o.write_to_string(&b) })?;
        let sink = SimSink::new(w, &pol);
        let st = sink.state();
        let res = no_panic("save", || plug.save(&b, &o, short, sink))?;
        let st = st.lock().unwrap();
        if w.any_fault() {
            w.mark();
        }
        if let Err(e) = res {
            return violation("failed", format!("the sink never failed, yet saving returned {:?} after {} of {} bytes", e, st.accepted.len(), want.len()));
        }
        if st.accepted != want {
            let k = st.accepted.iter().zip(&want).take_while(|(a, b)| a == b).count();
            return violation("bytes", format!("success reported, but the sink holds {} bytes of {}, first difference at {}", st.accepted.len(), want.len(), k));
        }
        ensure!(
            st.flushes.last() == Some(&want.len()),
            "flush",
            "success reported, but the last flush was at {:?} of {} bytes",
            st.flushes.last(),
            want.len()
        );
    }
    Ok(())
}
