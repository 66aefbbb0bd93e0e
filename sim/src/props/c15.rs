//! C15: a literal document is the document its text loads as.
use super::Prop;
use crate::doc::*;
use crate::io::*;
use crate::literals;
use crate::world::*;
use bvh_anim::Bvh;
use std::sync::{Arc, Mutex};

pub const PROP: Prop = Prop {
    id: "C15",
    run,
    quick: 120_000,
    thorough: 4_000_000,
    rule: "a run builds one of 55 literal documents (or an empty one), before, after and inside the load of its own tokens' text in a drawn layout and delivery, sometimes after failures, then takes both through the same edits and a save; non-trivial: the text was delivered with a short or interrupted read; distinct by hash of the event log",
    real: "the literal macro and its builder, bvh_anim loader, writer, cursor and equality",
    stub: "the device behind BufRead and Write",
};

fn agree(a: &Bvh, b: &Bvh) -> Result<(), String> {
    same(a, b)?;
    if !(a == b && b == a) || a != b {
        return Err("they compare different, although all that can be seen is the same".into());
    }
    if a.joints().zip(b.joints()).any(|(p, q)| p != q) {
        return Err("their joints compare different".into());
    }
    if *a.frame_time() != *b.frame_time() {
        return Err(format!("frame time {:?} against {:?}", a.frame_time(), b.frame_time()));
    }
    Ok(())
}

fn bare(w: &mut W) -> Verdict {
    let i = w.upto(4);
    let (mut b, ns) = no_panic("literal", || literals::bare(i))?;
    let ok = b.joints().next().is_none() && b.frames().len() == 0 && b.num_channels() == 0 && b.root_joint().is_none();
    if !ok || b.frame_time().as_nanos() != ns as u128 {
        return violation("bare", format!("literal {} without a skeleton: {:?}", i, b));
    }
    b.set_frame_time(std::time::Duration::from_nanos(ns));
    let mut e = Bvh::new();
    e.set_frame_time(std::time::Duration::from_nanos(ns));
    if b != e {
        return violation("bare", format!("literal {} without a skeleton differs from an empty document", i));
    }
    Ok(())
}

pub fn run(w: &mut W) -> Verdict {
    if !literals::THERE {
        return violation("does-not-compile", "a literal document of the kinds the macro is documented to accept does not compile");
    }
    if w.chance(1, 60) {
        return bare(w);
    }
    let i = w.upto(literals::COUNT - 1);
    let (b, m) = no_panic("literal", || literals::literal(i))?;
    if let Err(e) = no_panic("reading a literal", || check_doc(&b, &m).and_then(|_| check_children(&b)))? {
        return violation("literal", format!("literal {}: {}", i, e));
    }
    let l = Layout::draw(w);
    let t = render(w, &m, &l);
    let bytes = Arc::new(t.bytes.clone());
    if w.chance(1, 3) {
        // Something goes wrong first.
        let pol = ReadPolicy::draw(w);
        let at = super::c02::position(w, &t).min(bytes.len());
        let mut r = SimReader::new(w, bytes.clone(), &pol);
        if w.chance(1, 2) {
            r.panic_at = Some(at);
        } else {
            r.err = Some((at, ErrSpec::draw(w), w.chance(1, 2)));
        }
        let plug = Plug::draw(w);
        let _ = guard(|| plug.load(r).map(|_| ()));
    }
    let pol = ReadPolicy::draw(w);
    let plug = Plug::draw(w);
    let mut r = SimReader::new(w, bytes, &pol);
    let inside: Arc<Mutex<Option<Bvh>>> = Arc::default();
    if w.chance(1, 3) {
        // The literal is built while its text is being read, at the n-th call of the reader.
        let (n, calls, out) = (w.size(40), Mutex::new(0usize), inside.clone());
        r.hook = Some(Arc::new(move |_| {
            let mut c = calls.lock().unwrap_or_else(|p| p.into_inner());
            if *c == n {
                if let Ok((b, _)) = guard(|| literals::literal(i)) {
                    *out.lock().unwrap_or_else(|p| p.into_inner()) = Some(b);
                }
            }
            *c += 1;
        }));
    }
    w.say(|| format!("literal {} ({} joints, {} channels, {} frames) via {:?} {:?}", i, m.joints.len(), m.nch, m.nframes, plug, pol));
    let mut x = match guard(|| plug.load(r)) {
        Ok(Ok(x)) if guard(|| check_doc(&x, &m).is_ok()).unwrap_or(false) => x,
        _ => {
            // That texts load as what they say is another property.
            w.probe("setup-load-failed");
            return Ok(());
        }
    };
    if w.any_fault() {
        w.mark();
    }
    let mut b = b;
    if let Err(e) = no_panic("compare", || agree(&b, &x))? {
        return violation("differs", format!("literal {} against the load of its text: {}", i, e));
    }
    let built = inside.lock().unwrap_or_else(|p| p.into_inner()).take();
    let (again, _) = no_panic("literal", || literals::literal(i))?;
    for (y, when) in built.iter().map(|y| (y, "during the load")).chain(Some((&again, "afterwards"))) {
        if let Err(e) = no_panic("compare", || agree(y, &b))? {
            return violation("differs", format!("literal {} built {}: {}", i, when, e));
        }
    }
    // Both live on alike.
    for _ in 0..w.upto(3) {
        let op = w.draw(3);
        let at = w.upto(m.nframes + 2);
        let f = super::c09::frame(w, m.nch);
        let go = |b: &mut Bvh| {
            let mut c = b.frame_cursor();
            for _ in 0..at {
                c.move_next();
            }
            match op {
                0 => c.try_insert_frame(&f).is_ok(),
                1 => c.remove_frame().is_ok(),
                _ => match c.peek_next_mut() {
                    Some(mut g) if !f.is_empty() => g.try_set_motion(at % f.len(), f[0]).is_ok(),
                    _ => false,
                },
            }
        };
        let r = (guard(|| go(&mut b)), guard(|| go(&mut x)));
        match r {
            (Ok(p), Ok(q)) if p == q => {}
            (Err(_), Err(_)) => return Ok(()),
            _ => return violation("edit", format!("literal {}: an edit went differently on it and on the load of its text", i)),
        }
        if let Err(e) = no_panic("compare", || agree(&b, &x))? {
            return violation("differs", format!("literal {} and the load of its text, both edited: {}", i, e));
        }
    }
    let (o, _, short) = draw_options(w, false);
    let s = no_panic("serialise", || [&b, &x].map(|b| if short { b.to_string() } else { o.write_to_string(b) }))?;
    if s[0] != s[1] {
        return violation("saved", format!("literal {} and the load of its text are saved as different texts", i));
    }
    Ok(())
}
