//! C05: whatever loads, even from damaged storage, is a well-formed document.
use super::Prop;
use crate::disk;
use crate::doc::*;
use crate::ensure;
use crate::io::*;
use crate::world::*;
use bvh_anim::Bvh;
use std::sync::Arc;

pub const PROP: Prop = Prop {
    id: "C05",
    run,
    quick: 500_000,
    thorough: 16_000_000,
    rule: "a run makes one stored stream, damages it (structure-preserving damage is preferred), loads it and, if it loads, inspects, edits, saves and reloads the document; non-trivial: damaged bytes loaded as a document; distinct by hash of the event log",
    real: "bvh_anim loader, accessors, cursor, writer",
    stub: "the device behind BufRead and Write; the disk",
};

/// Damage that tends to leave something loadable.
pub fn bend(w: &mut W, b: &mut Vec<u8>, root_close: usize) {
    let mut ls: Vec<Vec<u8>> = b.split_inclusive(|&c| c == b'\n').map(|l| l.to_vec()).collect();
    // Lines of the hierarchy.
    let mut pos = 0;
    let mut hier = 0;
    for l in &ls {
        if pos >= root_close {
            break;
        }
        pos += l.len();
        hier += 1;
    }
    if hier < 2 {
        return;
    }
    let pool: &[&str] = &[
        "JOINT x\n", "JOINT y\n{\n}\n", "JOINT z\n{\nOFFSET 1 1 1\nCHANNELS 1 Xposition\n}\n", "{\n", "}\n",
        "End Site\n", "End Site\n{\nOFFSET 9 9 9\n}\n", "End Site\n{\n}\n", "OFFSET 7 7 7\n", "CHANNELS 0\n",
        "CHANNELS 1 Yrotation\n", "CHANNELS 2 Xposition Zrotation\n", "CHANNELS 5 Xposition\n",
        "JOINT a\n{\nJOINT b\n{\n}\n}\n", "JOINT e\n{\nEnd Site\n{\nOFFSET 1 2 3\n}\nJOINT f\n{\n}\n}\n", "comment\n",
        "OFFSET nan inf -inf\n", "OFFSET 1e30 1e-30 -0\n",
    ];
    let k = 1 + w.upto(2);
    for _ in 0..k {
        let h = hier.min(ls.len()).max(1);
        match w.weighted(&[6, 3, 2, 2, 2, 6]) {
            5 => bend_token(w, &mut ls, h),
            0 => {
                let i = w.upto(h);
                let l = w.pick(pool).as_bytes().to_vec();
                ls.insert(i.min(ls.len()), l);
                hier += 1;
                w.fault("stray-line");
            }
            1 => {
                let i = w.upto(h - 1);
                ls.remove(i);
                hier = hier.saturating_sub(1);
                w.fault("lost-line");
                if ls.is_empty() {
                    break;
                }
            }
            2 => {
                let i = w.upto(h - 1);
                let x = ls[i].clone();
                let j = w.upto(h - 1);
                ls.insert(j, x);
                hier += 1;
                w.fault("duplicated-line");
            }
            3 => {
                let i = w.upto(h - 1);
                let j = w.upto(h - 1);
                ls.swap(i, j);
                w.fault("misdirected-lines");
            }
            _ => {
                // A balanced block is lost or doubled.
                let i = w.upto(h - 1);
                let mut e = i;
                let mut bal = 0i32;
                let mut seen = false;
                while e < h {
                    let t = String::from_utf8_lossy(&ls[e]).trim().to_string();
                    if t == "{" {
                        bal += 1;
                        seen = true;
                    }
                    if t == "}" {
                        bal -= 1;
                    }
                    e += 1;
                    if (seen && bal <= 0) || bal < 0 {
                        break;
                    }
                }
                let block: Vec<_> = ls[i..e].to_vec();
                if w.chance(1, 2) {
                    ls.drain(i..e);
                    hier = hier.saturating_sub(e - i);
                    w.fault("lost-block");
                } else {
                    let j = w.upto(h - 1);
                    for (o, l) in block.into_iter().enumerate() {
                        ls.insert(j + o, l);
                        hier += 1;
                    }
                    w.fault("duplicated-block");
                }
                if ls.is_empty() {
                    break;
                }
            }
        }
    }
    *b = ls.concat();
}

/// One line gets a token more, less or other than it had.
fn bend_token(w: &mut W, ls: &mut [Vec<u8>], h: usize) {
    const ODD: &[&str] = &[
        "\u{a0}", "\u{b}", "\u{85}", "\u{2028}", "\u{3000}", "\u{feff}", "\0", ":", "{", "}", "x", "0", "1", "-", "\u{1f}",
        "Xposition", "Yrotation", "a:b", "\r", "#", "7e0", "End", "JOINT", "\u{1}",
    ];
    let named: Vec<usize> = (0..h.min(ls.len()))
        .filter(|&i| {
            let l = String::from_utf8_lossy(&ls[i]).trim().to_string();
            l.starts_with("JOINT") || l.starts_with("ROOT")
        })
        .collect();
    let i = if !named.is_empty() && w.chance(1, 2) { *w.pick(&named) } else { w.upto(h.min(ls.len()) - 1) };
    let l = &mut ls[i];
    let mut spans = Vec::new();
    let mut k = 0;
    while k < l.len() {
        while k < l.len() && l[k].is_ascii_whitespace() {
            k += 1;
        }
        let s = k;
        while k < l.len() && !l[k].is_ascii_whitespace() {
            k += 1;
        }
        if k > s {
            spans.push((s, k));
        }
    }
    if spans.is_empty() {
        return;
    }
    let t = w.upto(spans.len() - 1);
    let (s, e) = spans[t];
    let x = w.pick(ODD).as_bytes().to_vec();
    match w.draw(6) {
        // A stranger after, before or inside the token, or in its place.
        0 => {
            l.splice(e..e, [b" ".to_vec(), x].concat());
            w.fault("stray-token");
        }
        1 | 2 => {
            l.splice(e..e, x);
            w.fault("stray-bytes");
        }
        3 => {
            let m = s + w.upto(e - s);
            l.splice(m..m, x);
            w.fault("stray-bytes");
        }
        4 => {
            l.splice(s..e, x);
            w.fault("overwritten-word");
        }
        _ => {
            l.drain(s..e);
            w.fault("lost-token");
        }
    }
}

/// Structural soundness of whatever was loaded, by its public face.
pub fn sound(b: &Bvh) -> Result<(), String> {
    let n = b.joints().count();
    if n == 0 {
        return Err("loaded, but there is no joint".into());
    }
    let mut next = 0;
    for (i, j) in b.joints().enumerate() {
        if j.index() != i {
            return Err(format!("joint {} has index {}", i, j.index()));
        }
        if j.is_root() != (i == 0) || j.is_child() == j.is_root() {
            return Err(format!("joint {}: is_root {} is_child {}", i, j.is_root(), j.is_child()));
        }
        match (i, j.parent_index(), j.parent()) {
            (0, None, None) => {}
            (0, p, _) => return Err(format!("the root has parent {:?}", p)),
            (_, Some(p), Some(q)) if p < i && q.index() == p => {}
            (_, p, _) => return Err(format!("joint {} has parent {:?}", i, p)),
        }
        for c in j.channels() {
            if c.motion_index() != next {
                return Err(format!("joint {}: motion index {}, expected {}", i, c.motion_index(), next));
            }
            next += 1;
        }
        if j.has_end_site() != j.end_site().is_some() {
            return Err(format!("joint {}: has_end_site", i));
        }
        let _ = (j.name().len(), j.offset()[0], format!("{:?}", j).len());
    }
    if next != b.num_channels() {
        return Err(format!("the joints have {} channels, the document {}", next, b.num_channels()));
    }
    check_children(b)?;
    let mut k = 0;
    for f in b.frames() {
        if f.len() != b.num_channels() {
            return Err(format!("frame {} has {} values for {} channels", k, f.len(), b.num_channels()));
        }
        for j in b.joints().take(20) {
            for c in j.channels() {
                if f.get(c).is_none() {
                    return Err(format!("frame {} has no value for channel {}", k, c.motion_index()));
                }
            }
        }
        k += 1;
    }
    if k != b.frames().len() || k != b.frames().rev().count() {
        return Err(format!("{} frames iterated, {} announced", k, b.frames().len()));
    }
    match b.root_joint() {
        Some(r) if r.index() == 0 => {}
        _ => return Err("no root joint".into()),
    }
    for j in b.joints().take(5) {
        match b.joints().find_by_name(j.name()) {
            Some(f) if f.name() == j.name() => {}
            _ => return Err(format!("joint {} not found by name", j.index())),
        }
    }
    let _ = format!("{:?}", b).len();
    Ok(())
}

pub fn run(w: &mut W) -> Verdict {
    let kind = w.weighted(&[10, 4, 3, 1]);
    let bytes = match kind {
        0 => {
            let mut d = gen_doc(w, Scale::Small);
            // Without frames, or without values, damage to the hierarchy does not show in a count.
            if w.chance(3, 4) {
                d.nframes = 0;
                d.vals.clear();
                d.vtexts.clear();
            }
            let l = Layout::draw(w);
            let t = render(w, &d, &l);
            let mut b = t.bytes;
            bend(w, &mut b, t.root_close);
            b
        }
        1 => super::c04::hostile(w),
        2 => {
            let (_, t) = gen_text(w, Scale::Small);
            let mut b = t.bytes;
            for _ in 0..1 + w.upto(2) {
                disk::damage(w, &mut b);
            }
            b
        }
        _ => gen_text(w, Scale::Any).1.bytes,
    };
    w.say(|| format!("stream of {} bytes: {:?}", bytes.len(), String::from_utf8_lossy(&bytes[..bytes.len().min(900)])));
    let bytes = Arc::new(bytes);
    let r = SimReader::new(&w.clone(), bytes.clone(), &ReadPolicy::draw(w));
    let plug = Plug::draw(w);
    let mut b = match guard(|| plug.load(r)) {
        Ok(Ok(b)) => b,
        Ok(Err(_)) => {
            w.probe("refused");
            return Ok(());
        }
        // Not returning at all is C04's business.
        Err(_) => {
            w.probe("load-did-not-return");
            return Ok(());
        }
    };
    w.probe("loaded");
    if kind != 3 {
        w.mark();
    }
    let s = no_panic("inspect", || sound(&b))?;
    ensure!(s.is_ok(), "inconsistent", "{}", s.unwrap_err());

    // Save and reload.
    let (o, _, short) = draw_options(w, true);
    let text = no_panic("save", || if short { b.to_string() } else { o.write_to_string(&b) })?;
    match no_panic("reload", || bvh_anim::from_bytes(&text[..]))? {
        Err(e) => return violation("reload-refused", format!("saved document does not load: {}; text: {:?}", e, String::from_utf8_lossy(&text[..text.len().min(700)]))),
        Ok(c) => {
            let s = no_panic("inspect", || same(&b, &c))?;
            if let Err(m) = s {
                return violation("reload-differs", format!("{}; text: {:?}", m, String::from_utf8_lossy(&text[..text.len().min(700)])));
            }
        }
    }
    // Edit.
    let n = b.frames().len();
    let ch = b.num_channels();
    let frame = vec![1.25f32; ch];
    let e = no_panic("edit", || -> Result<(), String> {
        {
            let mut c = b.frame_cursor();
            c.move_last();
            c.try_insert_frame(&frame).map_err(|e| e.to_string())?;
            c.move_first();
            c.try_insert_frame(&frame).map_err(|e| e.to_string())?;
        }
        if ch > 0 {
            if b.frames().len() != n + 2 {
                return Err(format!("{} frames after adding two to {}", b.frames().len(), n));
            }
            for f in [b.frames().next(), b.frames().next_back()] {
                if f.map(|f| f.as_slice().to_vec()) != Some(frame.clone()) {
                    return Err("added frame not found".into());
                }
            }
            b.frame_cursor().remove_frame().map_err(|e| e.to_string())?;
            if b.frames().len() != n + 1 {
                return Err("removal did not remove one frame".into());
            }
        }
        sound(&b)
    })?;
    ensure!(e.is_ok(), "edit", "{}", e.unwrap_err());
    Ok(())
}
