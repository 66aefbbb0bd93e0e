//! C08: an acknowledged save survives a crash and loads back equal.
use super::Prop;
use crate::disk::*;
use crate::doc::*;
use crate::ensure;
use crate::io::*;
use crate::literals;
use crate::world::*;
use bvh_anim::write::WriteOptions;
use bvh_anim::Bvh;
use std::io::{BufWriter, LineWriter};
use std::sync::Arc;
use std::time::Duration;

pub const PROP: Prop = Prop {
    id: "C08",
    run,
    quick: 100_000,
    thorough: 3_000_000,
    rule: "a run is a client/disk session of 1..3 generations: make or load, edit, save (rewrite or temp+rename), crash at a drawn I/O step or later, restart, load; non-trivial: an acknowledged save was read back after a crash; distinct by hash of the event log",
    real: "bvh_anim loader, writer, cursor, literal macro; std BufWriter/LineWriter/BufReader",
    stub: "the disk, its cache and power supply",
};

fn close(a: f32, b: f32, sf: Option<usize>) -> bool {
    match sf {
        None => a.to_bits() == b.to_bits(),
        Some(p) => {
            let (a, b) = (a as f64, b as f64);
            (a - b).abs() <= 0.5 * 10f64.powi(-(p as i32)) * (1.0 + 1e-9) + a.abs() * 1.2e-7 * 0.51 + 1e-45
        }
    }
}

/// The reloaded document against the model, numbers within what the options keep.
pub fn check_reload(b: &Bvh, d: &Doc, sf: &[Option<usize>; 3]) -> Result<(), String> {
    let n = b.joints().count();
    if n != d.joints.len() {
        return Err(format!("{} joints, expected {}", n, d.joints.len()));
    }
    // With exact offsets and frame time the strict comparison serves.
    if sf[0].is_none() && sf[1].is_none() {
        let mut m = d.clone();
        m.vals.clear();
        m.vtexts.clear();
        if m.ft >= Duration::from_secs(1 << 21) {
            m.ft = *b.frame_time();
        }
        check_skeleton(b, &m)?;
    }
    for (i, (j, m)) in b.joints().zip(&d.joints).enumerate() {
        if j.name() != &m.name[..] || j.parent_index() != m.parent {
            return Err(format!("joint {}: name or parent differs", i));
        }
        if !j.channels().iter().map(|c| c.channel_type()).eq(m.channels.iter().map(|&c| CHAN_T[c as usize])) {
            return Err(format!("joint {}: channels differ", i));
        }
        for k in 0..3 {
            if !close(m.offset[k].val, j.offset()[k], sf[0]) {
                return Err(format!("joint {}: offset {:?}, expected {:?}", i, j.offset(), m.offset));
            }
        }
        match (j.end_site(), &m.end_site) {
            (None, None) => {}
            (Some(e), Some(x)) if (0..3).all(|k| close(x[k].val, e[k], sf[0])) => {}
            (e, x) => return Err(format!("joint {}: end site {:?}, expected {:?}", i, e, x)),
        }
    }
    if let Some(p) = sf[1] {
        let (x, y) = (d.ft.as_secs_f64(), b.frame_time().as_secs_f64());
        if (x - y).abs() > 0.5 * 10f64.powi(-(p as i32)) * (1.0 + 1e-9) + 1.1e-9 + x * 1e-15 {
            return Err(format!("frame time {:?}, expected {:?} to {} decimals", b.frame_time(), d.ft, p));
        }
    } else if d.ft < Duration::from_secs(1 << 21) && *b.frame_time() != d.ft {
        return Err(format!("frame time {:?}, expected {:?}", b.frame_time(), d.ft));
    }
    if b.num_channels() != d.nch || b.frames().len() != d.frames() {
        return Err(format!("{} channels and {} frames, expected {} and {}", b.num_channels(), b.frames().len(), d.nch, d.frames()));
    }
    for (i, f) in b.frames().enumerate() {
        for (c, (x, e)) in f.as_slice().iter().zip(d.frame(i)).enumerate() {
            if !close(*e, *x, sf[2]) {
                return Err(format!("frame {} value {}: {:?}, expected {:?}", i, c, x, e));
            }
        }
    }
    Ok(())
}

fn edit(w: &mut W, b: &mut Bvh, d: &mut Doc) {
    let n = w.upto(3);
    for _ in 0..n {
        match w.draw(5) {
            0 => {
                let ns = match w.draw(3) {
                    0 => Duration::new(0, w.draw(1_000_000_000) as u32),
                    1 => Duration::new(w.draw(1 << 21), w.draw(1_000_000_000) as u32),
                    _ => Duration::new(0, *w.pick(&[0u32, 1, 999_999_999, 33_333_333, 100, 16_666_667])),
                };
                b.set_frame_time(ns);
                d.ft = ns;
            }
            1 if d.nch > 0 => {
                let f: Vec<f32> = (0..d.nch.min(8)).map(|_| gen_num(w, 1).val).collect();
                let f: Vec<f32> = f.iter().cycle().take(d.nch).copied().collect();
                // Appending, which needs nothing of the rest of the vector.
                if b.frame_cursor().move_last().try_insert_frame(&f).is_ok() {
                    d.vals.extend_from_slice(&f);
                }
            }
            2 if d.nch > 0 && d.frames() > 0 => {
                let i = w.upto(d.frames() - 1);
                let mut c = b.frame_cursor();
                for _ in 0..i {
                    c.move_next();
                }
                if c.remove_frame().is_ok() {
                    d.vals.drain(i * d.nch..(i + 1) * d.nch);
                }
            }
            3 if d.nch > 0 && d.frames() > 0 => {
                let i = w.upto(d.frames() - 1);
                let c = w.upto(d.nch - 1);
                let v = gen_num(w, 1).val;
                if let Some(mut f) = b.frames_mut().nth(i) {
                    let _ = f.try_set_motion(c, v);
                }
                d.vals[i * d.nch + c] = v;
            }
            4 if w.chance(1, 3) => {
                let _ = b.extract_frames();
                d.vals.clear();
            }
            _ => {}
        }
        d.nframes = d.frames();
    }
}

fn write_file(w: &mut W, f: SimFile, wrap: usize, b: &Bvh, o: &WriteOptions, short: bool) -> std::io::Result<()> {
    let mut f = f;
    let gone = f.gone.clone();
    let cap = 1 + w.size(9000);
    let done = |r| {
        // The client syncs and is gone: what the save did not push out is lost.
        gone.store(true, std::sync::atomic::Ordering::Relaxed);
        r
    };
    match wrap {
        0 => done(if short { b.write_to(&mut f) } else { o.write(b, &mut f) }),
        1 => {
            let mut x = BufWriter::with_capacity(cap, f);
            done(if short { b.write_to(&mut x) } else { o.write(b, &mut x) })
        }
        _ => {
            let mut x = LineWriter::with_capacity(cap, f);
            done(if short { b.write_to(&mut x) } else { o.write(b, &mut x) })
        }
    }
}

pub fn run(w: &mut W) -> Verdict {
    let sector = *w.pick(&[512usize, 16, 64, 4096]);
    let disk = SimDisk::new(w, sector);
    let gens = 1 + w.upto(2);
    // (model, precision options) known to be durable.
    let mut durable: Option<(Doc, [Option<usize>; 3])> = None;
    let mut cur: Option<(Bvh, Doc)> = None;
    // A torn in-place save has left the file in no known state.
    let mut torn = false;
    for g in 0..gens {
        if cur.is_none() || w.chance(1, 4) {
            cur = if w.chance(1, 10) {
                let i = w.upto(literals::COUNT - 1);
                w.say(|| format!("literal document {}", i));
                w.probe("literal-document");
                match guard(|| literals::literal(i)) {
                    Ok(x) => Some(x),
                    Err(_) => return Ok(()),
                }
            } else {
                let scale = if w.chance(1, 3) { Scale::Any } else { Scale::Small };
                let d = gen_doc(w, scale);
                let t = render(w, &d, &Layout::plain());
                match guard(|| bvh_anim::from_bytes(&t.bytes[..])) {
                    Ok(Ok(b)) => Some((b, d)),
                    _ => {
                        w.probe("setup-load-failed");
                        return Ok(());
                    }
                }
            };
            let (b, d) = cur.as_mut().unwrap();
            // A document that did not load right is another property's business: what counts here
            // is what is in memory now.
            let ok = guard(|| {
                let mut m = d.clone();
                m.nframes = m.frames();
                check_skel_quiet(b, &m) && check_frames(b, m.nch, &m.vals).is_ok()
            });
            if !matches!(ok, Ok(true)) {
                w.probe("setup-load-differs");
                match guard(|| model_of(b)) {
                    Ok(m) if !m.joints.is_empty() => *d = m,
                    _ => return Ok(()),
                }
            }
        }
        let (b, d) = cur.as_mut().unwrap();
        if w.chance(1, 2) {
            let r = guard(|| edit(w, b, d));
            if r.is_err() || !matches!(guard(|| check_frames(b, d.nch, &d.vals).is_ok() && *b.frame_time() == d.ft), Ok(true)) {
                w.probe("setup-edit-differs");
                match guard(|| model_of(b)) {
                    Ok(m) => *d = m,
                    _ => return Ok(()),
                }
            }
            w.probe("edited");
        }
        let (o, sf, short) = draw_options(w, false);
        let atomic = w.chance(1, 2);
        let wrap = w.weighted(&[3, 2, 1]);
        let reach = 1 + 12 * (1u64 << w.upto(5));
        let fuse = if w.chance(1, 2) { Some(w.draw(reach)) } else { None };
        let jitter = if w.chance(1, 2) { Some((w.sub(), 1 + w.size(600))) } else { None };
        let mut sub = w.sub();
        w.say(|| format!("generation {}: {} save with {:?}, crash after {:?} steps", g, if atomic { "atomic" } else { "in-place" }, o, fuse));
        disk.st().fuse = fuse;
        let res = guard(|| -> Result<(), std::io::Error> {
            if atomic {
                let mut f = disk.create("tmp");
                f.pol = jitter.clone();
                write_file(w, f, wrap, b, &o, short)?;
                disk.fsync("tmp");
                disk.rename("tmp", "doc");
                disk.sync_dir();
            } else {
                let mut f = disk.create("doc");
                f.pol = jitter.clone();
                write_file(w, f, wrap, b, &o, short)?;
                disk.fsync("doc");
                disk.sync_dir();
            }
            Ok(())
        });
        let acked = match res {
            Ok(Ok(())) => true,
            Ok(Err(e)) => {
                return violation("save-failed", format!("the disk never failed, yet saving returned {:?}", e));
            }
            Err(Caught::Sim("crash")) => false,
            Err(Caught::Sim(k)) => return violation(k, "while saving"),
            Err(Caught::Lib(m)) => return violation("panic", format!("saving panicked: {}", m)),
        };
        disk.crash(&mut sub);
        if acked {
            w.mark();
        }
        let stored = disk.read("doc");
        let pol = ReadPolicy::draw(w);
        let back = match &stored {
            None => None,
            Some(s) => {
                let r = SimReader::new(w, Arc::new(s.clone()), &pol);
                Some(no_panic("load", || Plug::draw(w).load(r))?)
            }
        };
        let acceptable = |b: &Bvh, m: &Option<(Doc, [Option<usize>; 3])>| -> Result<(), String> {
            match m {
                Some((d, sf)) => check_reload(b, d, sf),
                None => Err("nothing had been saved".into()),
            }
        };
        let now = Some((d.clone(), sf));
        if acked {
            match back {
                None => return violation("lost", "acknowledged save, but no file after the crash (simulator)"),
                Some(Err(e)) => {
                    let s = stored.unwrap();
                    return violation("reload-refused", format!("acknowledged save does not load back: {}; text {:?}", e, String::from_utf8_lossy(&s[..s.len().min(700)])));
                }
                Some(Ok(r)) => {
                    let c = no_panic("inspect", || acceptable(&r, &now))?;
                    ensure!(c.is_ok(), "reload-differs", "acknowledged save loads back different: {}", c.unwrap_err());
                    durable = now;
                    torn = false;
                    cur = if sf.iter().all(|s| s.is_none()) {
                        let (_, d) = cur.take().unwrap();
                        if d.ft < Duration::from_secs(1 << 21) {
                            Some((r, d))
                        } else {
                            None
                        }
                    } else {
                        None
                    };
                }
            }
        } else if atomic {
            // The old or the new document, whole.
            w.probe("unacknowledged");
            match back {
                _ if torn => {}
                None => ensure!(durable.is_none(), "lost", "the file vanished (simulator)"),
                Some(Err(e)) => return violation("reload-refused", format!("a torn atomic save left a file that does not load: {}", e)),
                Some(Ok(r)) => {
                    let c = no_panic("inspect", || acceptable(&r, &now).or_else(|_| acceptable(&r, &durable)))?;
                    ensure!(c.is_ok(), "reload-differs", "neither the old nor the new document: {}", c.unwrap_err());
                    // Which one is now durable is no longer known to the client.
                    return Ok(());
                }
            }
            cur = None;
        } else {
            // A torn in-place save: the client must make do; it starts over.
            w.probe("torn-in-place");
            durable = None;
            torn = true;
            cur = None;
        }
    }
    Ok(())
}

fn check_skel_quiet(b: &Bvh, d: &Doc) -> bool {
    // Children are checked elsewhere; here only what saving depends on.
    b.joints().count() == d.joints.len()
        && *b.frame_time() == d.ft
        && b.num_channels() == d.nch
        && b.joints().zip(&d.joints).all(|(j, m)| {
            j.name() == &m.name[..]
                && j.parent_index() == m.parent
                && (0..3).all(|k| j.offset()[k].to_bits() == m.offset[k].val.to_bits())
                && match (j.end_site(), &m.end_site) {
                    (None, None) => true,
                    (Some(e), Some(x)) => (0..3).all(|k| e[k].to_bits() == x[k].val.to_bits()),
                    _ => false,
                }
        })
}
