//! C24: comparing and copying documents follow their content, through any history.
use super::Prop;
use crate::doc::*;
use crate::io::*;
use crate::literals;
use crate::world::*;
use bvh_anim::Bvh;
use std::sync::Arc;

pub const PROP: Prop = Prop {
    id: "C24",
    run,
    quick: 100_000,
    thorough: 3_000_000,
    rule: "a run keeps up to six documents (loads of one model in several layouts and deliveries, near twins, copies, reloads), edits, breaks, copies, extracts and drops them in drawn order, comparing every pair after every step; non-trivial: two equal and two different documents were compared and one was changed or lost; distinct by hash of the event log",
    real: "bvh_anim loader, writer, cursor, equality and copies, literal macro",
    stub: "the devices behind BufRead and Write",
};

struct Held {
    b: Bvh,
    m: Doc,
}

fn num(v: f32) -> Num {
    Num { text: v.to_string(), val: v }
}

/// A change somebody would want to see: one item of the document, as little as possible.
fn differ(w: &mut W, d: &mut Doc) -> &'static str {
    let last = d.joints.len() - 1;
    let i = w.upto(last);
    let slight = |w: &mut W, v: f32| -> f32 {
        match w.draw(3) {
            0 => {
                let x = f32::from_bits(v.to_bits() ^ 1);
                if x.is_finite() { x } else { 0.5 }
            }
            1 => if v == 0.0 { 1.0 } else { -v },
            _ => v + 1.0,
        }
    };
    match w.draw(12) {
        0 | 1 if !d.vals.is_empty() => {
            let k = match w.draw(3) {
                0 => d.vals.len() - 1,
                _ => w.upto(d.vals.len() - 1),
            };
            d.vals[k] = slight(w, d.vals[k]);
            d.vtexts[k] = d.vals[k].to_string().into_boxed_str();
            "value"
        }
        2 => {
            let ns = d.ft.as_nanos() as u64 % 1_000_000_000;
            let t = (ns ^ 1).min(999_999_999);
            d.ft = std::time::Duration::new(d.ft.as_secs() % 1000, t as u32);
            d.ft_text = format!("{}.{:09}", d.ft.as_secs(), t);
            "frame time"
        }
        3 => {
            let n = &mut d.joints[i].name;
            match w.draw(3) {
                0 => n.push(b'_'),
                1 if n.len() > 1 && n[0].is_ascii() && n[1].is_ascii_alphabetic() => {
                    n.remove(0);
                }
                _ => {
                    let k = n.len() - 1;
                    n[k] = if n[k].is_ascii_alphabetic() { n[k] ^ 0x20 } else { b'q' };
                }
            }
            "name"
        }
        4 => {
            let a = w.upto(2);
            let v = slight(w, d.joints[i].offset[a].val);
            d.joints[i].offset[a] = num(v);
            "offset"
        }
        5 | 6 => {
            let ends: Vec<usize> = (0..=last).filter(|&k| d.joints[k].end_site.is_some()).collect();
            match ends.is_empty() {
                true => "nothing",
                false => {
                    let k = *w.pick(&ends);
                    let a = w.upto(2);
                    let e = d.joints[k].end_site.as_mut().unwrap();
                    e[a] = num(slight(w, e[a].val));
                    "end site"
                }
            }
        }
        7 if !d.joints[i].channels.is_empty() => {
            let k = w.upto(d.joints[i].channels.len() - 1);
            let c = &mut d.joints[i].channels[k];
            *c = (*c + 1 + w.upto(4) as u8) % 6;
            "channel"
        }
        8 if d.nframes > 0 && d.nch > 0 => {
            d.nframes -= 1;
            let n = d.nframes * d.nch;
            d.vals.truncate(n);
            d.vtexts.truncate(n);
            "last frame"
        }
        9 if last > 1 => {
            // The last joint hangs elsewhere, at the same place in the list.
            let mut up = vec![last - 1];
            while let Some(p) = d.joints[*up.last().unwrap()].parent {
                up.push(p);
            }
            let p = *w.pick(&up);
            if d.joints[last].parent != Some(p) && d.joints[p].end_site.is_none() {
                d.joints[last].parent = Some(p);
                d.joints[last].depth = d.joints[p].depth + 1;
            }
            "parent"
        }
        10 if last > 0 && d.joints[i].channels.len() + d.joints[(i + 1) % (last + 1)].channels.len() > 0 => {
            // A channel moves to the joint before or after; the values stay.
            let (a, b) = (i, (i + 1) % (last + 1));
            let (a, b) = if d.joints[a].channels.is_empty() { (b, a) } else { (a, b) };
            let c = d.joints[a].channels.pop().unwrap();
            d.joints[b].channels.push(c);
            "channel's joint"
        }
        11 => {
            let (a, b) = (w.upto(last), w.upto(last));
            if a != b {
                let n = d.joints[a].name.clone();
                d.joints[a].name = std::mem::replace(&mut d.joints[b].name, n);
            }
            "names"
        }
        _ => "nothing",
    }
}

/// Whether two documents are the same content, floats compared as floats.
fn alike(a: &Doc, b: &Doc) -> bool {
    let three = |x: &[Num; 3], y: &[Num; 3]| (0..3).all(|i| x[i].val == y[i].val);
    a.joints.len() == b.joints.len()
        && a.nch == b.nch
        && a.ft == b.ft
        && a.vals.len() == b.vals.len()
        && a.vals.iter().zip(&b.vals).all(|(x, y)| x == y)
        && a.joints.iter().zip(&b.joints).all(|(x, y)| joint_alike(x, y) && three(&x.offset, &y.offset))
}
fn joint_alike(x: &MJoint, y: &MJoint) -> bool {
    let three = |x: &[Num; 3], y: &[Num; 3]| (0..3).all(|i| x[i].val == y[i].val);
    x.name == y.name
        && x.parent == y.parent
        && x.depth == y.depth
        && three(&x.offset, &y.offset)
        && x.channels == y.channels
        && match (&x.end_site, &y.end_site) {
            (None, None) => true,
            (Some(p), Some(q)) => three(p, q),
            _ => false,
        }
}

fn exactly(a: &Doc, b: &Doc) -> bool {
    let bits = |x: &[Num; 3], y: &[Num; 3]| (0..3).all(|i| x[i].val.to_bits() == y[i].val.to_bits());
    alike_bits(a, b)
        && a.joints.iter().zip(&b.joints).all(|(x, y)| {
            x.name == y.name
                && x.parent == y.parent
                && x.channels == y.channels
                && bits(&x.offset, &y.offset)
                && match (&x.end_site, &y.end_site) {
                    (None, None) => true,
                    (Some(p), Some(q)) => bits(p, q),
                    _ => false,
                }
        })
}
fn alike_bits(a: &Doc, b: &Doc) -> bool {
    a.joints.len() == b.joints.len()
        && a.nch == b.nch
        && a.ft == b.ft
        && a.vals.len() == b.vals.len()
        && a.vals.iter().zip(&b.vals).all(|(x, y)| x.to_bits() == y.to_bits())
}

fn load(w: &mut W, d: &Doc) -> Option<Bvh> {
    let l = Layout::draw(w);
    let t = render(w, d, &l);
    let plug = Plug::draw(w);
    let pol = ReadPolicy::draw(w);
    let r = SimReader::new(w, Arc::new(t.bytes), &pol);
    match guard(|| plug.load(r)) {
        Ok(Ok(b)) if guard(|| check_doc(&b, d).is_ok()).unwrap_or(false) => Some(b),
        _ => {
            w.probe("setup-load-failed");
            None
        }
    }
}

/// Every pair is compared, and every document with what it should hold.
fn judge(w: &mut W, all: &[Held], what: &str, seen: &mut [bool; 2]) -> Verdict {
    for (i, x) in all.iter().enumerate() {
        let now = match guard(|| model_of(&x.b)) {
            Ok(n) => n,
            Err(p) => return violation("panic", format!("reading document {} after {} panicked: {:?}", i, what, p)),
        };
        if !exactly(&now, &x.m) {
            return violation("changed", format!("after {}: document {} is no longer what it was ({} frames, {} expected)", what, i, now.nframes, x.m.nframes));
        }
        for (j, y) in all.iter().enumerate() {
            let want = alike(&x.m, &y.m);
            let got = no_panic("compare", || (x.b == y.b, x.b != y.b))?;
            if got != (want, !want) {
                return violation(
                    "equality",
                    format!("after {}: documents {} and {} compare {:?} (==, !=), their content is {}", what, i, j, got, if want { "the same" } else { "different" }),
                );
            }
            if i != j {
                seen[want as usize] = true;
            }
        }
    }
    // Joints compare as their documents' joints do.
    if all.len() > 1 && w.chance(1, 4) {
        let (i, j) = (w.upto(all.len() - 1), w.upto(all.len() - 1));
        let (x, y) = (&all[i], &all[j]);
        let mut before = 0;
        let mut same_before = true;
        for (k, (p, q)) in x.b.joints().zip(y.b.joints()).enumerate().take(200) {
            let (a, b) = (&x.m.joints[k], &y.m.joints[k]);
            // The place of a channel's value in a frame is part of the channel.
            let want = joint_alike(a, b) && (same_before || a.channels.is_empty());
            let got = no_panic("compare joints", || p == q)?;
            if got != want {
                return violation("joint-equality", format!("after {}: joint {} of documents {} and {} compare {}, expected {}", what, k, i, j, got, want));
            }
            before += a.channels.len();
            same_before = before == y.m.joints[..=k].iter().map(|j| j.channels.len()).sum::<usize>();
        }
    }
    Ok(())
}

pub fn run(w: &mut W) -> Verdict {
    let mut all: Vec<Held> = Vec::new();
    let mut seen = [false; 2];
    let mut busy = 0u64;
    let base = if w.chance(1, 12) {
        let i = w.upto(literals::COUNT - 1);
        match guard(|| literals::literal(i)) {
            Ok((b, m)) => {
                all.push(Held { b, m: m.clone() });
                m
            }
            Err(_) => return Ok(()),
        }
    } else {
        let scale = if w.chance(1, 8) { Scale::Any } else { Scale::Small };
        gen_doc(w, scale)
    };
    let big = base.vals.len() > 3_000 || base.joints.len() > 300;
    let n = if big { 1 } else { 1 + w.upto(2) };
    for _ in 0..n {
        match load(w, &base) {
            Some(b) => {
                w.ev("load", all.len() as u64, 0);
                all.push(Held { b, m: base.clone() });
            }
            None => return Ok(()),
        }
    }
    // The macro's own tokens are the only model a literal has; if it is not that, C08 says so.
    if !guard(|| all.iter().all(|x| check_doc(&x.b, &x.m).is_ok())).unwrap_or(false) {
        w.probe("setup-load-failed");
        return Ok(());
    }
    judge(w, &all, "loading", &mut seen)?;
    let steps = if big { 1 + w.upto(2) } else { 2 + w.upto(8) };
    for _ in 0..steps {
        let i = w.upto(all.len() - 1);
        let full = all.len() >= if big { 3 } else { 6 };
        let mut op = w.weighted(&[4, 3, 5, 2, 2, 2, 2, 1, 1, 1, 1]);
        if full && op < 2 {
            op = 7;
        }
        let what: String = match op {
            0 => {
                // A near twin.
                let mut d = base.clone();
                let what = differ(w, &mut d);
                match load(w, &d) {
                    Some(b) => all.push(Held { b, m: d }),
                    None => return Ok(()),
                }
                format!("a twin differing in {}", what)
            }
            1 => {
                let b = no_panic("copy", || all[i].b.clone())?;
                let m = all[i].m.clone();
                all.push(Held { b, m });
                format!("a copy of {}", i)
            }
            2 => {
                let h = &mut all[i];
                busy += 1;
                match guard(|| {
                    super::c06::touch(w, &mut h.b);
                    model_of(&h.b)
                }) {
                    Ok(m) => h.m = m,
                    Err(_) => {
                        w.probe("setup-edit-failed");
                        return Ok(());
                    }
                }
                format!("an edit of {}", i)
            }
            3 => {
                // Over another document's remains.
                let j = w.upto(all.len() - 1);
                let src = all[j].b.clone();
                no_panic("copy over", || all[i].b.clone_from(&src))?;
                all[i].m = all[j].m.clone();
                busy += 1;
                format!("a copy of {} over {}", j, i)
            }
            4 => {
                // Through a file and back, exactly.
                let (o, _, short) = draw_options(w, true);
                let sink = SimSink::new(&w.clone(), &WritePolicy::draw(w));
                let st = sink.state();
                let plug = SinkPlug::draw(w);
                let ok = matches!(guard(|| plug.save(&all[i].b, &o, short, sink)), Ok(Ok(())));
                let text = std::mem::take(&mut st.lock().unwrap_or_else(|p| p.into_inner()).accepted);
                match guard(|| bvh_anim::from_bytes(&text[..])) {
                    Ok(Ok(b)) if ok && guard(|| exactly(&model_of(&b), &all[i].m)).unwrap_or(false) => {
                        let m = all[i].m.clone();
                        if full {
                            all[i].b = b;
                        } else {
                            all.push(Held { b, m });
                        }
                    }
                    _ => w.probe("reload-differs"),
                }
                format!("a reload of {}", i)
            }
            5 => {
                // A save that fails.
                let (o, _, short) = draw_options(w, false);
                let mut sink = SimSink::new(&w.clone(), &WritePolicy::draw(w));
                let at = w.size(2_000);
                if w.chance(1, 3) {
                    sink.panic_at = Some(at);
                } else {
                    sink.fail = Some((at, SinkFail::Error(ErrSpec2(ErrSpec::draw(w))), true));
                }
                let plug = SinkPlug::draw(w);
                let _ = guard(|| plug.save(&all[i].b, &o, short, sink));
                format!("a failing save of {}", i)
            }
            6 => {
                // A batch of frames whose source fails half-way.
                let n = all[i].b.num_channels();
                if n > 0 {
                    let k = w.upto(3);
                    let fs: Vec<Vec<f32>> = (0..k + 1).map(|_| super::c09::frame(w, n)).collect();
                    let src = SimFrames { frames: &fs, next: 0, hint: (0, None), panic_at: Some(k), pulled: Arc::default(), hook: None, w: w.clone() };
                    let h = &mut all[i];
                    let _ = guard(|| h.b.frame_cursor().try_insert_frames(src).map(|_| ()));
                    match guard(|| model_of(&h.b)) {
                        Ok(m) => h.m = m,
                        Err(_) => return Ok(()),
                    }
                    busy += 1;
                }
                format!("a broken batch into {}", i)
            }
            7 if all.len() > 2 => {
                let h = all.remove(i);
                drop(h);
                busy += 1;
                format!("dropping {}", i)
            }
            8 => {
                let h = &mut all[i];
                let v = no_panic("extract", || h.b.extract_frames())?;
                drop(v);
                match guard(|| model_of(&h.b)) {
                    Ok(m) => h.m = m,
                    Err(_) => return Ok(()),
                }
                busy += 1;
                format!("extracting from {}", i)
            }
            9 => {
                let j = w.upto(all.len() - 1);
                all.swap(i, j);
                format!("exchanging {} and {}", i, j)
            }
            _ => {
                // A load that fails leaves the others alone.
                let l = Layout::draw(w);
                let t = render(w, &base, &l);
                let pol = ReadPolicy::draw(w);
                let at = super::c02::position(w, &t);
                let mut r = SimReader::new(w, Arc::new(t.bytes), &pol);
                if w.chance(1, 2) {
                    r.panic_at = Some(at);
                } else {
                    r.err = Some((at, ErrSpec::draw(w), true));
                }
                let plug = Plug::draw(w);
                let _ = guard(|| plug.load(r).map(|_| ()));
                "a failing load".into()
            }
        };
        w.ev("step", op as u64, i as u64);
        w.say(|| format!("{}: {} documents", what, all.len()));
        judge(w, &all, &what, &mut seen)?;
    }
    if seen[0] && seen[1] && busy > 0 {
        w.mark();
    }
    Ok(())
}
