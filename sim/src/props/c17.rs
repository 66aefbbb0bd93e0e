//! C17: a saved file is laid out as its options say, down to the byte.
use super::Prop;
use crate::doc::*;
use crate::io::*;
use crate::world::*;
use bvh_anim::write::{IndentStyle, LineTerminator, WriteOptions};

pub const PROP: Prop = Prop {
    id: "C17",
    run,
    quick: 60_000,
    thorough: 2_000_000,
    rule: "a run saves one document 1..4 times, edited in between, under drawn options, wrappers and sink schedules, some of which fail; non-trivial: a short, interrupted or failed write happened; distinct by hash of the event log",
    real: "bvh_anim writer and its options, std BufWriter/LineWriter",
    stub: "the device behind Write",
};

/// What the client asked for, whatever way the options came about.
#[derive(Clone, Debug)]
struct Wish {
    /// None: a tab; otherwise so many spaces.
    indent: Option<usize>,
    windows: bool,
    digits: [Option<usize>; 3],
}

fn wish(w: &mut W) -> Wish {
    let most = w.columns();
    let indent = match w.weighted(&[4, 2, 5, 1]) {
        0 => None,
        1 => Some(0),
        2 => Some(1 + w.upto(8)),
        _ => Some(*w.pick(&[9usize, 12, 13, 16, 31, 32, 33, 63, 64, 65, 100])),
    }
    .map(|n| n.min(most));
    let mut digits = [None; 3];
    for s in digits.iter_mut() {
        if w.chance(1, 3) {
            *s = Some(*w.pick(&[0usize, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 18, 20, 25, 30, 45, 60, 149, 300]));
        }
    }
    Wish { indent, windows: w.chance(1, 2), digits }
}

/// The same wish, told to the library in one of the many ways there are.
fn options(w: &mut W, x: &Wish) -> WriteOptions {
    let indent = match x.indent {
        None if w.chance(1, 2) => IndentStyle::default(),
        None => IndentStyle::Tabs,
        Some(0) if w.chance(1, 2) => IndentStyle::NoIndentation,
        Some(n) => IndentStyle::with_spaces(n),
    };
    let term = match x.windows {
        y if y == cfg!(windows) && w.chance(1, 2) => LineTerminator::default(),
        true => LineTerminator::Windows,
        false => LineTerminator::Unix,
    };
    let mut o = if w.chance(1, 2) { WriteOptions::new() } else { WriteOptions::default() };
    if w.chance(1, 6) {
        // By the fields.
        o.indent = indent;
        o.line_terminator = term;
        o.offset_significant_figures = x.digits[0];
        o.frame_time_significant_figures = x.digits[1];
        o.motion_values_significant_figures = x.digits[2];
        return o;
    }
    let unsure = w.chance(1, 4);
    if unsure {
        // Changing one's mind.
        let y = wish(w);
        o = o.with_offset_significant_figures(y.digits[0]).with_frame_time_significant_figures(y.digits[1]);
        o = o.with_motion_values_significant_figures(y.digits[2]).with_indent(IndentStyle::with_spaces(y.indent.unwrap_or(7)));
        o = o.with_line_terminator(if y.windows { LineTerminator::Windows } else { LineTerminator::Unix });
    }
    let first = w.upto(4);
    let down = w.chance(1, 2);
    // What is wanted anyway need not be asked for, unless something else was.
    let lazy = !unsure && w.chance(1, 3);
    for k in 0..5 {
        let k = if down { (first + 5 - k) % 5 } else { (first + k) % 5 };
        o = match k {
            0 if lazy && x.indent.is_none() => o,
            1 if lazy && x.windows == cfg!(windows) => o,
            2..=4 if lazy && x.digits[k - 2].is_none() => o,
            0 => o.with_indent(indent.clone()),
            1 => o.with_line_terminator(term.clone()),
            2 => o.with_offset_significant_figures(x.digits[0]),
            3 => o.with_frame_time_significant_figures(x.digits[1]),
            _ => o.with_motion_values_significant_figures(x.digits[2]),
        };
    }
    if w.chance(1, 3) {
        o = o.clone();
    }
    o
}

/// The reference writer.
struct Page<'a> {
    x: &'a Wish,
    out: Vec<u8>,
    /// Whether a joint without channels ends its CHANNELS line with a space.
    tail: bool,
}
impl Page<'_> {
    fn line(&mut self, depth: usize, text: &[u8]) {
        for _ in 0..depth {
            match self.x.indent {
                None => self.out.push(b'\t'),
                Some(n) => self.out.extend(std::iter::repeat_n(b' ', n)),
            }
        }
        self.out.extend_from_slice(text);
        self.out.extend_from_slice(if self.x.windows { b"\r\n" } else { b"\n" });
    }
    fn num(v: f32, digits: Option<usize>) -> String {
        match digits {
            None => format!("{}", v),
            Some(n) => format!("{:.*}", n, v),
        }
    }
    fn offset(&mut self, depth: usize, o: &[Num; 3]) {
        let d = self.x.digits[0];
        let t: Vec<String> = o.iter().map(|v| Self::num(v.val, d)).collect();
        self.line(depth, format!("OFFSET {}", t.join(" ")).as_bytes());
    }
    fn page(x: &Wish, d: &Doc, tail: bool) -> Vec<u8> {
        let mut p = Page { x, out: Vec::new(), tail };
        p.line(0, b"HIERARCHY");
        // Every joint's brace stays open until a joint which is not below it.
        let mut open: Vec<usize> = Vec::new();
        for (i, j) in d.joints.iter().enumerate() {
            while open.last().is_some_and(|&k| j.depth <= d.joints[k].depth) {
                let k = open.pop().unwrap();
                p.line(d.joints[k].depth, b"}");
            }
            let mut head = if j.parent.is_none() { b"ROOT ".to_vec() } else { b"JOINT ".to_vec() };
            head.extend_from_slice(&j.name);
            p.line(j.depth, &head);
            p.line(j.depth, b"{");
            open.push(i);
            p.offset(j.depth + 1, &j.offset);
            let mut c = format!("CHANNELS {}", j.channels.len());
            for &k in &j.channels {
                c.push(' ');
                c.push_str(CHAN[k as usize]);
            }
            if j.channels.is_empty() && p.tail {
                c.push(' ');
            }
            p.line(j.depth + 1, c.as_bytes());
            if let Some(e) = &j.end_site {
                p.line(j.depth + 1, b"End Site");
                p.line(j.depth + 1, b"{");
                p.offset(j.depth + 2, e);
                p.line(j.depth + 1, b"}");
            }
        }
        while let Some(k) = open.pop() {
            p.line(d.joints[k].depth, b"}");
        }
        p.line(0, b"MOTION");
        p.line(0, format!("Frames: {}", d.nframes).as_bytes());
        let s = d.ft.as_secs_f64();
        let ft = match x.digits[1] {
            None => format!("{}", s),
            Some(n) => format!("{:.*}", n, s),
        };
        p.line(0, format!("Frame Time: {}", ft).as_bytes());
        for i in 0..d.nframes {
            let t: Vec<String> = d.frame(i).iter().map(|&v| Self::num(v, x.digits[2])).collect();
            p.line(0, t.join(" ").as_bytes());
        }
        p.out
    }
}

/// Where two texts part, told by the line it is on.
fn parting(got: &[u8], want: &[u8]) -> String {
    let k = got.iter().zip(want).take_while(|(a, b)| a == b).count();
    let start = want[..k.min(want.len())].iter().rposition(|&b| b == b'\n').map_or(0, |p| p + 1);
    let cut = |t: &[u8]| {
        let t = &t[start.min(t.len())..];
        let end = t.iter().position(|&b| b == b'\n').map_or(t.len(), |p| p + 1);
        show(&t[..end.min(300)])
    };
    format!(
        "line {} is {:?} where {:?} was asked for ({} and {} bytes in all)",
        want[..start].iter().filter(|&&b| b == b'\n').count(),
        cut(got),
        cut(want),
        got.len(),
        want.len()
    )
}

pub fn run(w: &mut W) -> Verdict {
    let scale = if w.chance(1, 3) { Scale::Any } else { Scale::Small };
    let (_, mut b) = match super::c06::document(w, scale)? {
        Some(x) => x,
        None => return Ok(()),
    };
    if w.chance(1, 12) {
        b = bvh_anim::Bvh::new();
    }
    let n = if b.frames().len() < 50 && b.joints().count() < 100 { 1 + w.upto(3) } else { 1 };
    let x0 = wish(w);
    let mut kept = None;
    for k in 0..n {
        if k > 0 && w.chance(1, 2) && guard(|| super::c06::touch(w, &mut b)).is_err() {
            w.probe("setup-edit-failed");
            return Ok(());
        }
        // The same options serve several saves, or each save has its own.
        let x = if k > 0 && w.chance(1, 2) { wish(w) } else { x0.clone() };
        let mut o = match kept.take() {
            Some((y, o)) if format!("{:?}", y) == format!("{:?}", x) => o,
            _ => options(w, &x),
        };
        let mut x = x;
        let short = w.chance(1, 8);
        if short {
            x = Wish { indent: None, windows: false, digits: [None; 3] };
            o = WriteOptions::default();
        }
        kept = Some((x.clone(), o.clone()));
        let d = match guard(|| model_of(&b)) {
            Ok(d) => d,
            Err(_) => {
                w.probe("setup-read-failed");
                return Ok(());
            }
        };
        let mut want = Page::page(&x, &d, true);
        let pol = WritePolicy::draw(w);
        let plug = SinkPlug::draw(w);
        w.say(|| format!("save {:?} as {:?} via {:?} {:?}", x, o, plug, pol));
        let text = no_panic("serialise", || if short { b.to_string() } else { o.write_to_string(&b) })?;
        if text != want {
            let other = Page::page(&x, &d, false);
            if text != other {
                return violation("text", format!("{:?}: {}", x, parting(&text, &want)));
            }
            want = other;
        }
        let mut sink = SimSink::new(w, &pol);
        let fails = w.chance(1, 4);
        if fails {
            let at = w.upto(want.len() - 1);
            sink.fail = Some((at, SinkFail::Error(ErrSpec2(ErrSpec::draw(w))), true));
        }
        let st = sink.state();
        let res = no_panic("save", || plug.save(&b, &o, short, sink))?;
        if w.any_fault() {
            w.mark();
        }
        let st = st.lock().unwrap();
        let ok = if res.is_ok() && !fails { st.accepted == want } else { want.starts_with(&st.accepted) };
        if !ok {
            return violation("bytes", format!("{:?} (saving returned {:?}): {}", x, res.as_ref().map_err(|e| e.kind()), parting(&st.accepted, &want)));
        }
    }
    Ok(())
}
