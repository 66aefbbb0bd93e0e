//! C09: frame editing behaves like editing a plain list of frames.
use super::Prop;
use crate::doc::*;
use crate::ensure;
use crate::io::*;
use crate::world::*;
use bvh_anim::errors::SetMotionError;
use bvh_anim::frames::{FrameCursor, Frames, FramesMut};
use bvh_anim::Bvh;
use std::sync::Arc;

pub const PROP: Prop = Prop {
    id: "C09",
    run,
    quick: 500_000,
    thorough: 20_000_000,
    rule: "a run drives one document and a plain list of frames through the same drawn history of 1..300 operations, comparing every result and, after every mutation, the whole state; non-trivial: at least two mutations took effect and at least one operation was refused or failed; distinct by hash of the event log",
    real: "bvh_anim cursor, frame iterators, frame access, loader and writer",
    stub: "frame sources, sinks and readers",
};

/// The reference: what a list of frames does.
#[derive(Clone)]
pub struct Model {
    pub nch: usize,
    pub frames: Vec<Vec<f32>>,
}
impl Model {
    pub fn of(d: &Doc) -> Model {
        Model { nch: d.nch, frames: (0..d.frames()).map(|i| d.frame(i).to_vec()).collect() }
    }
    pub fn flat(&self) -> Vec<f32> {
        self.frames.concat()
    }
}

/// A document small enough to be compared over and over, its dimensions at code's usual boundaries.
pub fn small_doc(w: &mut W, with_channels: bool) -> Doc {
    let mut d = gen_doc(w, Scale::Small);
    if d.joints.len() > 3 {
        d.joints.truncate(3);
        let n = d.joints.len();
        for j in d.joints.iter_mut().take(n) {
            if j.end_site.is_none() {
                j.end_site = Some([0, 1, 2].map(|_| Num { text: "1".into(), val: 1.0 }));
            }
        }
    }
    for j in &mut d.joints {
        j.channels.clear();
    }
    let nch = match w.weighted(&[3, 4, 3, if with_channels { 0 } else { 1 }]) {
        0 => 1 + w.upto(2),
        1 => 3 + w.upto(9),
        2 => {
            let most = if w.chance(1, 8) { 699 } else { 69 };
            1 + w.upto(most)
        }
        _ => 0,
    };
    for k in 0..nch {
        let i = k % d.joints.len();
        // In joint order, so that motion indices follow.
        d.joints[i].channels.push((k % 6) as u8);
    }
    d.nch = nch;
    d.nframes = match w.weighted(&[5, 2, 1]) {
        0 => w.upto(6),
        1 => w.upto(40),
        _ => w.size(300),
    };
    let most = if w.chance(1, 400) {
        // More values, and sometimes frames, than 16 bits count.
        d.nframes = 65_000 + w.upto(1_000);
        70_000
    } else {
        4_000
    };
    while d.nframes * nch > most {
        d.nframes /= 2;
    }
    d.vals = (0..d.nframes * nch).map(|i| i as f32 + 0.5).collect();
    d.vtexts = d.vals.iter().map(|v| v.to_string().into_boxed_str()).collect();
    d
}

/// Loads the document quietly; None if that does not work, which is others' business.
pub fn load_quietly(w: &mut W, d: &Doc) -> Option<Bvh> {
    let t = render(w, d, &Layout::plain());
    match guard(|| bvh_anim::from_bytes(&t.bytes[..])) {
        Ok(Ok(b)) => {
            if guard(|| check_frames(&b, d.nch, &d.vals).is_ok() && check_skeleton(&b, d).is_ok() && b.num_channels() == d.nch).unwrap_or(false) {
                Some(b)
            } else {
                w.probe("setup-load-failed");
                None
            }
        }
        _ => {
            w.probe("setup-load-failed");
            None
        }
    }
}

fn eq_frame(f: Option<&[f32]>, m: Option<&Vec<f32>>) -> Result<(), String> {
    match (f, m) {
        (None, None) => Ok(()),
        (Some(f), Some(m)) if f.len() == m.len() && f.iter().zip(m).all(|(a, b)| a.to_bits() == b.to_bits()) => Ok(()),
        (f, m) => Err(format!(
            "frame {:?}, expected {:?}",
            f.map(|f| f.iter().take(6).copied().collect::<Vec<_>>()),
            m.map(|m| m.iter().take(6).copied().collect::<Vec<_>>())
        )),
    }
}

#[allow(deprecated)]
pub fn compare(b: &Bvh, m: &Model) -> Result<(), String> {
    check_frames(b, m.nch, &m.flat())?;
    if b.num_frames() != m.frames.len() {
        return Err(format!("num_frames() is {}, expected {}", b.num_frames(), m.frames.len()));
    }
    Ok(())
}

/// The whole sequence, seen through a cursor, which is put back where it was.
pub fn sweep(c: &mut FrameCursor<'_>, m: &Model, pos: usize) -> Result<(), String> {
    if c.len() != m.frames.len() || c.index() != pos || c.num_channels() != m.nch {
        return Err(format!("cursor says index {} of {} with {} channels, expected {} of {} with {}", c.index(), c.len(), c.num_channels(), pos, m.frames.len(), m.nch));
    }
    c.move_first();
    // A peek may cost as much as the frames before it: of very many frames some are looked at.
    let n = m.frames.len();
    let step = 1 + n / 3_000;
    for i in 0..n {
        if i % step == 0 || i < 20 || i + 20 > n || i.abs_diff(pos) < 20 {
            eq_frame(c.peek_next().as_ref().map(|f| f.as_slice()), Some(&m.frames[i])).map_err(|e| format!("at {}: {}", i, e))?;
        }
        c.move_next();
    }
    if c.peek_next().is_some() {
        return Err("a frame beyond the last".into());
    }
    c.move_first();
    for _ in 0..pos {
        c.move_next();
    }
    if c.index() != pos {
        return Err(format!("moved to {}, cursor at {}", pos, c.index()));
    }
    Ok(())
}

fn value(w: &mut W) -> f32 {
    match w.draw(6) {
        0 => *w.pick(&[0.0f32, -0.0, 1e-45, f32::MAX, f32::MIN, -1.5]),
        _ => w.draw(1_000_000) as f32 / 8.0,
    }
}
/// A recognisable frame.
pub fn frame(w: &mut W, n: usize) -> Vec<f32> {
    let base = value(w);
    (0..n).map(|i| if i == 0 { base } else { base + i as f32 }).collect()
}
fn wrong_len(w: &mut W, n: usize) -> usize {
    match w.draw(6) {
        0 => 0,
        1 => n + 1,
        2 => n.saturating_sub(1),
        3 => 2 * n,
        4 => n + w.upto(20),
        _ => 3 * n + 1,
    }
}

/// Uses one cursor for a while.
fn cursor_session(w: &mut W, b: &mut Bvh, m: &mut Model, ops: usize, st: &mut Stats) -> Result<(), String> {
    let from = w.chance(1, 5);
    let mut c = if from { FrameCursor::from(&mut *b) } else { b.frame_cursor() };
    let mut pos = 0usize;
    if c.index() != 0 {
        return Err(format!("a new cursor is at {}", c.index()));
    }
    for _ in 0..ops {
        let op = w.weighted(&[6, 4, 2, 2, 3, 3, 3, 3, 8, 3, 5, 3, 6, 1, 1, 2]);
        let before = st.mutations;
        match op {
            0 => {
                c.move_next();
                pos = (pos + 1).min(m.frames.len());
            }
            1 => {
                c.move_prev();
                pos = pos.saturating_sub(1);
            }
            2 => {
                c.move_first();
                pos = 0;
            }
            3 => {
                c.move_last();
                pos = m.frames.len();
            }
            4 => eq_frame(c.peek_next().as_ref().map(|f| f.as_slice()), m.frames.get(pos)).map_err(|e| format!("peek_next: {}", e))?,
            5 => eq_frame(c.peek_prev().as_ref().map(|f| f.as_slice()), if pos > 0 { m.frames.get(pos - 1) } else { None }).map_err(|e| format!("peek_prev: {}", e))?,
            6 => {
                let (p, n) = c.surrounding_frames();
                eq_frame(p.as_ref().map(|f| f.as_slice()), if pos > 0 { m.frames.get(pos - 1) } else { None }).map_err(|e| format!("surrounding: {}", e))?;
                eq_frame(n.as_ref().map(|f| f.as_slice()), m.frames.get(pos)).map_err(|e| format!("surrounding: {}", e))?;
            }
            7 => {
                let prev = w.chance(1, 2);
                let at = if prev { pos.checked_sub(1) } else { Some(pos) };
                let f = if prev { c.peek_prev_mut() } else { c.peek_next_mut() };
                let mf = at.and_then(|i| m.frames.get_mut(i));
                match (f, mf) {
                    (None, None) => {}
                    (Some(mut f), Some(mf)) => {
                        eq_frame(Some(f.as_slice()), Some(mf))?;
                        let k = if w.chance(1, 20) { far(w, m.nch) } else { w.upto(m.nch + 2) };
                        let v = value(w);
                        set(&mut f, mf, k, v, st)?;
                    }
                    (f, mf) => return Err(format!("mutable peek gives {:?}, expected {:?}", f.is_some(), mf.is_some())),
                }
            }
            8 => {
                let f = frame(w, m.nch);
                match c.try_insert_frame(&f) {
                    Ok(_) => {
                        m.frames_insert(pos, f);
                        if m.nch > 0 {
                            pos += 1;
                            st.mutations += 1;
                        }
                    }
                    Err(e) => return Err(format!("insertion of a frame of the right length refused: {}", e)),
                }
            }
            9 => {
                let n = wrong_len(w, m.nch);
                let f = frame(w, n);
                match c.try_insert_frame(&f) {
                    Ok(_) if n == m.nch => {
                        m.frames_insert(pos, f);
                        if m.nch > 0 {
                            pos += 1;
                            st.mutations += 1;
                        }
                    }
                    Ok(_) => return Err(format!("a frame of {} values inserted among frames of {}", n, m.nch)),
                    Err(e) if n == m.nch => return Err(format!("insertion refused: {}", e)),
                    Err(_) => st.refusals += 1,
                }
            }
            10 => {
                let k = w.upto(4);
                let mut fs: Vec<Vec<f32>> = (0..k).map(|_| frame(w, m.nch)).collect();
                let mut bad = None;
                if w.chance(1, 3) {
                    let n = wrong_len(w, m.nch);
                    if n != m.nch {
                        let i = w.upto(k);
                        fs.insert(i, frame(w, n));
                        bad = Some(i);
                    }
                }
                let r = match w.draw(3) {
                    0 => c.try_insert_frames(&fs).map(|_| ()),
                    1 => c.try_insert_frames(fs.iter().map(|f| &f[..])).map(|_| ()),
                    _ => {
                        let src = SimFrames {
                            frames: &fs,
                            next: 0,
                            hint: (0, None),
                            panic_at: None,
                            pulled: Arc::default(),
                            hook: None,
                            w: w.clone(),
                        };
                        c.try_insert_frames(src).map(|_| ())
                    }
                };
                if r.is_ok() != bad.is_none() {
                    return Err(format!("batch insertion returned {:?}, wrong frame at {:?}", r.map_err(|e| e.to_string()), bad));
                }
                if bad.is_some() {
                    st.refusals += 1;
                }
                for f in fs.into_iter().take(bad.unwrap_or(usize::MAX)) {
                    m.frames_insert(pos, f);
                    if m.nch > 0 {
                        pos += 1;
                        st.mutations += 1;
                    }
                }
            }
            11 | 12 => match c.remove_frame() {
                Ok(_) if pos < m.frames.len() => {
                    m.frames.remove(pos);
                    st.mutations += 1;
                }
                Err(_) if pos >= m.frames.len() => st.refusals += 1,
                r => return Err(format!("remove_frame at {} of {} returned {}", pos, m.frames.len(), if r.is_ok() { "Ok" } else { "Err" })),
            },
            13 => {
                c.remove_all_frames();
                m.frames.clear();
                pos = 0;
                st.mutations += 1;
            }
            14 => c.shrink_to_fit(),
            _ => sweep(&mut c, m, pos)?,
        }
        w.ev("op", op as u64, pos as u64);
        w.say(|| format!("operation {} -> index {} of {}", op, pos, m.frames.len()));
        if c.index() != pos || c.len() != m.frames.len() {
            return Err(format!("after operation {}: cursor at {} of {}, expected {} of {}", op, c.index(), c.len(), pos, m.frames.len()));
        }
        if st.mutations != before && m.frames.len() <= 24 {
            sweep(&mut c, m, pos)?;
        }
    }
    // The cursor ends as an iterator, or is dropped.
    match w.draw(5) {
        0 => iterate(c.into_frames(), &m.frames[pos..])?,
        1 => iterate(Frames::from(c), &m.frames[pos..])?,
        2 => iterate_mut(w, c.into_frames_mut(), &mut m.frames[pos..], st)?,
        3 => iterate_mut(w, FramesMut::from(c), &mut m.frames[pos..], st)?,
        _ => {}
    }
    Ok(())
}

#[derive(Default)]
struct Stats {
    mutations: u64,
    refusals: u64,
}
impl Model {
    /// Documents without channels hold no frames.
    pub fn frames_insert(&mut self, pos: usize, f: Vec<f32>) {
        if self.nch > 0 {
            self.frames.insert(pos, f);
        }
    }
}

fn set(f: &mut bvh_anim::frames::FrameMut<'_>, mf: &mut [f32], k: usize, v: f32, st: &mut Stats) -> Result<(), String> {
    match f.try_set_motion(k, v) {
        Ok(old) if k < mf.len() => {
            if old.to_bits() != mf[k].to_bits() {
                return Err(format!("setting value {} returned {} as the old one, expected {}", k, old, mf[k]));
            }
            mf[k] = v;
            st.mutations += 1;
        }
        Err(SetMotionError::BadChannel(i)) if k >= mf.len() && i == k => st.refusals += 1,
        r => return Err(format!("setting value {} of {} returned {:?}", k, mf.len(), r)),
    }
    let m: Vec<f32> = mf.to_vec();
    eq_frame(Some(f.as_slice()), Some(&m)).map_err(|e| format!("after setting value {}: {}", k, e))
}

fn iterate(mut it: Frames<'_>, m: &[Vec<f32>]) -> Result<(), String> {
    for (i, f) in m.iter().enumerate() {
        if it.len() != m.len() - i {
            return Err(format!("iterator announces {}, expected {}", it.len(), m.len() - i));
        }
        eq_frame(it.next().as_ref().map(|f| f.as_slice()), Some(f)).map_err(|e| format!("iterating from the cursor: {}", e))?;
    }
    match it.next() {
        None => Ok(()),
        Some(_) => Err("iterator does not end".into()),
    }
}
fn iterate_mut(w: &mut W, it: FramesMut<'_>, m: &mut [Vec<f32>], st: &mut Stats) -> Result<(), String> {
    if it.len() != m.len() {
        return Err(format!("mutable iterator announces {}, expected {}", it.len(), m.len()));
    }
    let every = 1 + w.upto(4);
    let mut n = 0;
    for (i, mut f) in it.enumerate() {
        if i >= m.len() {
            return Err("mutable iterator does not end".into());
        }
        eq_frame(Some(f.as_slice()), Some(&m[i])).map_err(|e| format!("iterating mutably: {}", e))?;
        if i % every == 0 && !m[i].is_empty() {
            let k = i % m[i].len();
            set(&mut f, &mut m[i], k, i as f32 - 0.25, st)?;
        }
        n += 1;
    }
    if n != m.len() {
        return Err(format!("mutable iterator gave {} of {}", n, m.len()));
    }
    Ok(())
}

/// A number which arithmetic on it may make small.
fn far(w: &mut W, n: usize) -> usize {
    let n = n.max(1);
    let small = w.upto(3);
    match w.draw(4) {
        0 => usize::MAX - small,
        1 => (1usize << *w.pick(&[8u32, 16, 31, 32, 33, 62, 63])) + small,
        2 => (usize::MAX / n).saturating_add(small),
        _ => (1usize << 32) / n + 1 + small,
    }
}

/// Takes frames from both ends, one by one or skipping some, as one would from a slice.
fn mixed<I, F>(w: &mut W, mut it: I, m: &[Vec<f32>], visit: &mut dyn FnMut(&mut W, F, usize) -> Result<(), String>) -> Result<(), String>
where
    I: DoubleEndedIterator<Item = F> + ExactSizeIterator,
    F: AsRef<[f32]>,
{
    let (mut lo, mut hi) = (0usize, m.len());
    let steps = w.upto(12);
    for _ in 0..steps {
        if it.len() != hi - lo || it.size_hint() != (hi - lo, Some(hi - lo)) {
            return Err(format!("iterator announces {:?}, expected {}", it.size_hint(), hi - lo));
        }
        let k = if w.chance(1, 4) { w.upto(hi - lo + 1) } else { w.upto(2) };
        let k = if w.chance(1, 24) { far(w, m.first().map_or(1, |f| f.len())) } else { k };
        let op = w.weighted(&[3, 3, 4, 4]);
        let (f, at) = match op {
            0 => (it.next(), if lo < hi { Some(lo) } else { None }),
            1 => (it.next_back(), if lo < hi { Some(hi - 1) } else { None }),
            2 => (it.nth(k), if k < hi - lo { Some(lo + k) } else { None }),
            _ => (it.nth_back(k), if k < hi - lo { Some(hi - 1 - k) } else { None }),
        };
        match (op, at) {
            (0, Some(i)) | (2, Some(i)) => lo = i + 1,
            (1, Some(i)) | (3, Some(i)) => hi = i,
            (2, None) => lo = hi,
            (3, None) => hi = lo,
            _ => {}
        }
        eq_frame(f.as_ref().map(|f| f.as_ref()), at.map(|i| &m[i])).map_err(|e| format!("taking from the ends, step {} by {}: {}", op, k, e))?;
        if let (Some(f), Some(i)) = (f, at) {
            visit(w, f, i)?;
        }
    }
    let left = &m[lo..hi];
    match w.draw(5) {
        0 => {
            let n = it.count();
            if n != left.len() {
                return Err(format!("count() is {}, expected {}", n, left.len()));
            }
        }
        1 => eq_frame(it.last().as_ref().map(|f| f.as_ref()), left.last()).map_err(|e| format!("last(): {}", e))?,
        2 => {
            let k = 1 + w.upto(3);
            let mut n = 0;
            for (f, mf) in it.step_by(k).zip(left.iter().step_by(k)) {
                eq_frame(Some(f.as_ref()), Some(mf)).map_err(|e| format!("step_by({}): {}", k, e))?;
                n += 1;
            }
            if n != (left.len() + k - 1) / k {
                return Err(format!("step_by({}) gave {} of {}", k, n, left.len()));
            }
        }
        3 => {
            let mut n = 0;
            for (f, mf) in it.by_ref().rev().zip(left.iter().rev()) {
                eq_frame(Some(f.as_ref()), Some(mf)).map_err(|e| format!("rev(): {}", e))?;
                n += 1;
            }
            if n != left.len() {
                return Err(format!("rev() gave {} of {}", n, left.len()));
            }
        }
        _ => {
            for mf in left {
                eq_frame(it.next().as_ref().map(|f| f.as_ref()), Some(mf)).map_err(|e| format!("the rest: {}", e))?;
            }
            for _ in 0..2 {
                if it.next().is_some() || it.next_back().is_some() || it.len() != 0 {
                    return Err("iterator goes on after its end".into());
                }
            }
        }
    }
    Ok(())
}

/// One frame's values by channel, number and range, read and written.
fn access(w: &mut W, b: &mut Bvh, m: &mut Model, i: usize, st: &mut Stats) -> Result<(), String> {
    let chans: Vec<bvh_anim::Channel> = b.joints().flat_map(|j| j.channels().to_vec()).collect();
    let n = m.nch;
    if chans.len() != n {
        return Err(format!("{} channels, expected {}", chans.len(), n));
    }
    let (f, mf) = match (b.frames_mut().nth(i), m.frames.get_mut(i)) {
        (None, None) => return Ok(()),
        (Some(f), Some(mf)) => (f, mf),
        (f, mf) => return Err(format!("frame {}: {:?}, expected {:?}", i, f.is_some(), mf.is_some())),
    };
    let mut f = f;
    let same = |a: &[f32], b: &[f32]| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits());
    for _ in 0..1 + w.upto(4) {
        let k = w.upto(n - 1);
        let v = value(w);
        let lo = w.upto(n + 1);
        let hi = w.upto(n + 1);
        let inside = lo <= hi && hi <= n;
        let op = w.draw(8);
        match op {
            0 => {
                f[chans[k]] = v;
                mf[k] = v;
            }
            1 => {
                f[&chans[k]] = v;
                mf[k] = v;
            }
            2 => match f.try_set_motion(&chans[k], v) {
                Ok(old) if old.to_bits() == mf[k].to_bits() => mf[k] = v,
                r => return Err(format!("setting channel {} returned {:?}, expected {}", k, r, mf[k])),
            },
            3 if inside => {
                for (p, x) in f[lo..hi].iter_mut().enumerate() {
                    *x = v + p as f32;
                    mf[lo + p] = v + p as f32;
                }
            }
            4 => {
                let x: &mut [f32] = f.as_mut();
                x[k] = v;
                mf[k] = v;
            }
            5 => {
                let x: &mut [f32] = std::borrow::BorrowMut::borrow_mut(&mut f);
                x[k] = v;
                mf[k] = v;
            }
            _ => match f.get(lo..hi) {
                Some(x) if inside && same(x, &mf[lo..hi]) => {}
                None if !inside => st.refusals += 1,
                x => return Err(format!("values {}..{} of {}: {:?}", lo, hi, n, x)),
            },
        }
        st.mutations += 1;
        if f.len() != n || f.is_empty() || !same(f.as_slice(), mf) || !same(f.as_ref(), mf) || f[k].to_bits() != mf[k].to_bits()
            || f[chans[k]].to_bits() != mf[k].to_bits() || !same(std::borrow::Borrow::borrow(&f), mf)
            || !same(bvh_anim::frames::Frame::from(&f).as_slice(), mf) || f.get(k..).map_or(true, |x| !same(x, &mf[k..])) || f.get(n).is_some()
        {
            return Err(format!("after access {} to frame {} (value {}, range {}..{}): {:?}, expected {:?}", op, i, k, lo, hi, f.as_slice(), mf));
        }
    }
    // The last use of it.
    let k = w.upto(n - 1);
    let v = value(w);
    match w.draw(4) {
        0 => match f.get_mut(chans[k]) {
            Some(x) if x.to_bits() == mf[k].to_bits() => {
                *x = v;
                mf[k] = v;
            }
            x => return Err(format!("mutable value of channel {} is {:?}, expected {}", k, x, mf[k])),
        },
        1 => match f.get_mut(k..) {
            Some(x) if same(x, &mf[k..]) => {
                x[0] = v;
                mf[k] = v;
            }
            x => return Err(format!("mutable values from {} are {:?}, expected {:?}", k, x, &mf[k..])),
        },
        2 => {
            if f.get_mut(n + k).is_some() {
                return Err(format!("a mutable value {} of {}", n + k, n));
            }
            st.refusals += 1;
        }
        _ => {
            let g = bvh_anim::frames::Frame::from(f);
            if g.len() != n || g.is_empty() || !same(g.as_slice(), mf) || !same(g.as_ref(), mf) || !same(std::borrow::Borrow::borrow(&g), mf) || g[&chans[k]].to_bits() != mf[k].to_bits() || !same(&g[..k], &mf[..k]) || g.get(k..n + 1).is_some() {
                return Err(format!("frame {} as a shared one is {:?}, expected {:?}", i, g, mf));
            }
        }
    }
    Ok(())
}

/// Reads frames by the iterators in some order.
fn read_session(w: &mut W, b: &Bvh, m: &Model) -> Result<(), String> {
    let n = m.frames.len();
    match w.draw(7) {
        5 | 6 => mixed(w, b.frames(), &m.frames, &mut |_, _, _| Ok(())),
        0 => {
            let k = if w.chance(1, 10) { far(w, m.nch) } else { w.upto(n + 1) };
            eq_frame(b.frames().nth(k).as_ref().map(|f| f.as_slice()), m.frames.get(k)).map_err(|e| format!("nth({}): {}", k, e))
        }
        1 => {
            let k = if w.chance(1, 10) { far(w, m.nch) } else { w.upto(n + 1) };
            eq_frame(b.frames().nth_back(k).as_ref().map(|f| f.as_slice()), n.checked_sub(k.saturating_add(1)).and_then(|i| m.frames.get(i))).map_err(|e| format!("nth_back({}): {}", k, e))
        }
        2 => {
            let mut it = b.frames();
            let (mut lo, mut hi) = (0, n);
            loop {
                if it.len() != hi - lo {
                    return Err(format!("len {} between {} and {}", it.len(), lo, hi));
                }
                let front = w.chance(1, 2);
                let f = if front { it.next() } else { it.next_back() };
                let e = if lo >= hi {
                    None
                } else if front {
                    lo += 1;
                    Some(&m.frames[lo - 1])
                } else {
                    hi -= 1;
                    Some(&m.frames[hi])
                };
                eq_frame(f.as_ref().map(|f| f.as_slice()), e).map_err(|e| format!("from both ends: {}", e))?;
                if e.is_none() {
                    return Ok(());
                }
            }
        }
        3 => {
            for (i, (f, mf)) in b.frames().rev().zip(m.frames.iter().rev()).enumerate() {
                eq_frame(Some(f.as_slice()), Some(mf)).map_err(|e| format!("reversed {}: {}", i, e))?;
            }
            Ok(())
        }
        _ => {
            // Values by channel and by number.
            for (f, mf) in b.frames().zip(&m.frames).take(8) {
                for j in b.joints() {
                    for ch in j.channels() {
                        let k = ch.motion_index();
                        let v = mf.get(k);
                        if f.get(ch).map(|x| x.to_bits()) != v.map(|x| x.to_bits()) || f.get(k).map(|x| x.to_bits()) != v.map(|x| x.to_bits()) {
                            return Err(format!("value of channel {} is {:?}, expected {:?}", k, f.get(ch), v));
                        }
                    }
                }
                if f.get(m.nch).is_some() {
                    return Err("a value beyond the last channel".into());
                }
            }
            Ok(())
        }
    }
}

/// The joints, which no edit of frames concerns.
fn shape(b: &Bvh, d: &Doc) -> Result<(), String> {
    let three = |a: &[f32; 3], m: &[Num; 3]| (0..3).all(|k| a[k].to_bits() == m[k].val.to_bits());
    let n = b.joints().count();
    if n != d.joints.len() {
        return Err(format!("{} joints, expected {}", n, d.joints.len()));
    }
    let mut at = 0;
    for (i, (j, x)) in b.joints().zip(&d.joints).enumerate() {
        let same = j.name() == &x.name[..]
            && j.index() == i
            && j.parent_index() == x.parent
            && three(j.offset(), &x.offset)
            && match (j.end_site(), &x.end_site) {
                (None, None) => true,
                (Some(a), Some(m)) => three(a, m),
                _ => false,
            }
            && j.channels().len() == x.channels.len()
            && j.channels().iter().zip(&x.channels).enumerate().all(|(k, (a, c))| a.channel_type() == CHAN_T[*c as usize] && a.motion_index() == at + k);
        if !same {
            return Err(format!("joint {} is {:?}, expected {:?} below {:?} with {} channels", i, j, show(&x.name), x.parent, x.channels.len()));
        }
        at += x.channels.len();
    }
    Ok(())
}

pub fn run(w: &mut W) -> Verdict {
    let d = small_doc(w, false);
    let mut b = match load_quietly(w, &d) {
        Some(b) => b,
        None => return Ok(()),
    };
    let mut m = Model::of(&d);
    let mut st = Stats::default();
    let rounds = 1 + w.upto(5);
    let long = w.chance(1, 12);
    let mut ft = *b.frame_time();
    for r in 0..rounds {
        let kind = w.weighted(&[12, 4, 3, 1, 2, 2, 2, 2, 3, 2]);
        w.ev("session", kind as u64, r as u64);
        match kind {
            0 => {
                let ops = if long { w.upto(120) } else { 1 + w.upto(14) };
                let x = no_panic("edit", || cursor_session(w, &mut b, &mut m, ops, &mut st))?;
                ensure!(x.is_ok(), "cursor", "{}", x.unwrap_err());
            }
            1 => {
                let x = no_panic("read", || read_session(w, &b, &m))?;
                ensure!(x.is_ok(), "iterator", "{}", x.unwrap_err());
            }
            2 => {
                let i = if w.chance(1, 16) { far(w, m.nch) } else { w.upto(m.frames.len() + 1) };
                let k = if w.chance(1, 16) { far(w, m.nch) } else { w.upto(m.nch + 1) };
                let v = value(w);
                let back = w.chance(1, 3);
                let x = no_panic("edit", || -> Result<(), String> {
                    let n = m.frames.len();
                    let at = if back { n.checked_sub(i.saturating_add(1)) } else { Some(i) };
                    let f = if back { b.frames_mut().nth_back(i) } else { b.frames_mut().nth(i) };
                    match (f, at.and_then(|i| m.frames.get_mut(i))) {
                        (None, None) => Ok(()),
                        (Some(mut f), Some(mf)) => {
                            if k % 2 == 0 && k < m.nch {
                                // Whole frame through the slice.
                                eq_frame(Some(f.as_slice()), Some(mf))?;
                                for (p, x) in f.as_mut_slice().iter_mut().enumerate() {
                                    *x = v + p as f32;
                                    mf[p] = v + p as f32;
                                }
                                st.mutations += 1;
                                Ok(())
                            } else {
                                set(&mut f, mf, k, v, &mut st)
                            }
                        }
                        (f, mf) => Err(format!("frames_mut gives {:?}, expected {:?}", f.is_some(), mf.is_some())),
                    }
                })?;
                ensure!(x.is_ok(), "frames-mut", "{}", x.unwrap_err());
            }
            3 => {
                let got = no_panic("edit", || b.extract_frames())?;
                let want = m.flat();
                let same = got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| a.to_bits() == b.to_bits());
                ensure!(same, "extract", "extract_frames gave {} values, expected {}", got.len(), want.len());
                m.frames.clear();
                st.mutations += 1;
            }
            4 => {
                // A failed save changes nothing.
                let len = no_panic("save", || b.to_string())?.len();
                let mut sink = SimSink::new(&w.clone(), &WritePolicy::draw(w));
                sink.fail = Some((w.upto(len.saturating_sub(1)), SinkFail::Error(ErrSpec2(ErrSpec::draw(w))), true));
                let r = guard(|| b.write_to(&mut sink));
                if matches!(r, Ok(Err(_))) {
                    st.refusals += 1;
                }
            }
            5 => {
                let before = b.clone();
                let t = no_panic("save", || b.to_string())?;
                match guard(|| bvh_anim::from_bytes(&t[..])) {
                    // Loading back what was saved is another property's business.
                    Ok(Ok(x)) if guard(|| compare(&x, &m).is_ok() && *x.frame_time() == ft && shape(&x, &d).is_ok()).unwrap_or(false) => b = x,
                    _ => {
                        w.probe("reload-skipped");
                        b = before;
                    }
                }
            }
            7 => {
                let mut edits: Vec<(usize, usize, f32)> = Vec::new();
                let nch = m.nch;
                let x = no_panic("edit", || {
                    mixed(w, b.frames_mut(), &m.frames, &mut |w, mut f, i| {
                        let k = w.upto(nch - 1);
                        let v = value(w);
                        f.as_mut_slice()[k] = v;
                        edits.push((i, k, v));
                        Ok(())
                    })
                })?;
                ensure!(x.is_ok(), "iterator", "frames_mut: {}", x.unwrap_err());
                st.mutations += edits.len() as u64;
                for (i, k, v) in edits {
                    m.frames[i][k] = v;
                }
            }
            8 if m.nch > 0 => {
                let i = w.upto(m.frames.len());
                let x = no_panic("edit", || access(w, &mut b, &mut m, i, &mut st))?;
                ensure!(x.is_ok(), "access", "{}", x.unwrap_err());
            }
            8 => {}
            9 => {
                // Anything a duration can be, though not all of it survives a save.
                ft = match w.draw(4) {
                    0 => std::time::Duration::new(w.draw(1 << 40), w.draw(1_000_000_000) as u32),
                    1 => *w.pick(&[std::time::Duration::from_nanos(0), std::time::Duration::MAX, std::time::Duration::from_nanos(1)]),
                    _ => std::time::Duration::from_nanos(w.draw(1_000_000_000)),
                };
                no_panic("edit", || b.set_frame_time(ft))?;
                st.mutations += 1;
            }
            _ => {
                // Edits of a copy stay in the copy.
                let mut copy = b.clone();
                let mut cm = m.clone();
                let x = no_panic("edit", || cursor_session(w, &mut copy, &mut cm, 3, &mut st))?;
                ensure!(x.is_ok(), "cursor", "{}", x.unwrap_err());
                let x = no_panic("read", || compare(&copy, &cm))?;
                ensure!(x.is_ok(), "state", "a copy: {}", x.unwrap_err());
            }
        }
        let x = no_panic("read", || compare(&b, &m))?;
        ensure!(x.is_ok(), "state", "after session {} (kind {}): {}", r, kind, x.unwrap_err());
        let now = no_panic("read", || *b.frame_time())?;
        ensure!(now == ft, "frame-time", "after session {} (kind {}): the frame time is {:?}, expected {:?}", r, kind, now, ft);
        let x = no_panic("read", || shape(&b, &d))?;
        ensure!(x.is_ok(), "joints", "after session {} (kind {}): {}", r, kind, x.unwrap_err());
    }
    if st.mutations >= 2 && st.refusals >= 1 {
        w.mark();
    }
    Ok(())
}
