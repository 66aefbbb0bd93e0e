//! The model of a BVH document, its generator, its renderer (with a map of every token) and the
//! comparison of a loaded `Bvh` with it. Nothing here uses the library's parser or writer.
use crate::world::*;
use bvh_anim::{Bvh, ChannelType};
use std::time::Duration;

pub const CHAN: [&str; 6] =
    ["Xposition", "Yposition", "Zposition", "Xrotation", "Yrotation", "Zrotation"];
pub const CHAN_T: [ChannelType; 6] = [
    ChannelType::PositionX,
    ChannelType::PositionY,
    ChannelType::PositionZ,
    ChannelType::RotationX,
    ChannelType::RotationY,
    ChannelType::RotationZ,
];

/// Where choices come from: the tape, or a bulk generator seeded from it.
pub enum Src {
    Tape(W),
    Bulk(Rng),
}
impl Draw for Src {
    fn draw(&mut self, n: u64) -> u64 {
        match self {
            Src::Tape(w) => w.draw(n),
            Src::Bulk(r) => r.draw(n),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Num {
    pub text: String,
    pub val: f32,
}
#[derive(Clone, Debug)]
pub struct MJoint {
    pub name: Vec<u8>,
    pub parent: Option<usize>,
    pub depth: usize,
    pub offset: [Num; 3],
    pub channels: Vec<u8>,
    pub end_site: Option<[Num; 3]>,
}
#[derive(Clone, Debug)]
pub struct Doc {
    pub joints: Vec<MJoint>,
    pub nch: usize,
    pub nframes: usize,
    pub ft_text: String,
    pub ft: Duration,
    pub vals: Vec<f32>,
    pub vtexts: Vec<Box<str>>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Scale {
    /// A few hundred bytes.
    Small,
    /// Anything, including the large and odd ones.
    Any,
}

pub fn gen_num<D: Draw>(r: &mut D, style: usize) -> Num {
    let text = loop {
        let t = num_text(r, style);
        match t.parse::<f32>() {
            Ok(v) if v.is_finite() => break t,
            _ => {}
        }
    };
    let val = text.parse::<f32>().unwrap();
    Num { text, val }
}

fn num_text<D: Draw>(r: &mut D, style: usize) -> String {
    if style == 0 {
        // What motion files usually hold.
        let v = r.draw(720_000_001) as i64 - 360_000_000;
        return match r.draw(4) {
            0 => format!("{}", v / 1_000_000),
            1 => format!("{:.2}", v as f64 / 1e6),
            2 => format!("{:.6}", v as f64 / 1e6),
            _ => format!("{:.4}", v as f64 / 1e6),
        };
    }
    let bits = |r: &mut D| {
        let f = f32::from_bits(r.draw(1 << 32) as u32);
        if f.is_finite() {
            f
        } else {
            1.5
        }
    };
    match r.draw(16) {
        0 => format!("{}", r.draw(100)),
        1 => format!("{}", bits(r)),
        2 => format!("{:e}", bits(r)),
        3 => format!("{:E}", bits(r)),
        4 => format!("+{}", bits(r).abs()),
        5 => r.pick(&["0", "-0", "-0.0", "0.0", ".5", "-.25", "5.", "+7.", "007", "-00.50", "1e0",
            "1E5", "1e+05", "1e-05", "+1.5e+2", "0e0", "0.1", "16777217", "16777216", "-33554433"])
            .to_string(),
        6 => {
            // Decimal with many digits.
            let n = 1 + r.upto(35);
            let m = r.upto(20);
            let mut s = String::new();
            if r.chance(1, 2) {
                s.push('-');
            }
            for _ in 0..n.min(30) {
                s.push((b'0' + r.draw(10) as u8) as char);
            }
            s.push('.');
            for _ in 0..m {
                s.push((b'0' + r.draw(10) as u8) as char);
            }
            s
        }
        7 => {
            // The midpoint between two neighbouring floats, sometimes nudged.
            let f = bits(r).abs().max(1e-20).min(1e20);
            let g = f32::from_bits(f.to_bits() + 1);
            let mid = (f as f64 + g as f64) / 2.0;
            let mut s = format!("{}", mid);
            if !s.contains('.') {
                s.push('.');
            }
            if r.chance(1, 2) {
                s.push_str(r.pick(&["0", "1", "00000000001"]));
            }
            s
        }
        8 => r.pick(&["1e-45", "1.4e-45", "1.17549435e-38", "3.4028235e38", "-3.4028234e38",
            "1e-38", "7e-46", "1e-60", "9.9e37"]).to_string(),
        9 => format!("{}", f32::from_bits(r.draw(1 << 23) as u32)),
        10 => format!("{:.*}", r.upto(12), bits(r).abs().min(1e9)),
        11 => format!("{}", r.draw(1 << 40)),
        12 => format!("-{}.{}", r.draw(1000), r.draw(1000)),
        13 => {
            // Far more zeros in front than needed.
            let sign = *r.pick(&["", "-"]);
            let zeros = "0".repeat(r.size(200));
            match r.draw(3) {
                0 => format!("{}{}{}", sign, zeros, r.draw(100_000)),
                1 => format!("{}{}{}.{}", sign, zeros, r.draw(1000), r.draw(1000)),
                _ => format!("{}0.{}{}e{}", sign, zeros, 1 + r.draw(1000), zeros.len()),
            }
        }
        14 => {
            // Far more digits than needed, before or behind the point.
            let digits = |r: &mut D, n: usize| -> String { (0..n).map(|_| (b'0' + r.draw(10) as u8) as char).collect() };
            if r.chance(1, 3) {
                let n = 30 + r.upto(8);
                digits(r, n)
            } else {
                let (n, whole) = (r.size(200), r.draw(100));
                format!("{}.{}", whole, digits(r, n))
            }
        }
        _ => format!("{}e{}", r.draw(1000), r.draw(60) as i64 - 38),
    }
}

fn gen_ft<D: Draw>(r: &mut D) -> (String, Duration) {
    let t = match r.draw(13) {
        11 => {
            // More zeros or digits than a clock has.
            let n = r.size(120);
            match r.draw(3) {
                0 => format!("{}{}.{:03}", "0".repeat(n), r.draw(100), r.draw(1000)),
                1 => format!("0.{:09}{}", r.draw(1_000_000_000), "0".repeat(n)),
                _ => format!("0.0{}", "3".repeat(n)),
            }
        }
        0 | 1 => "0.033333333".to_string(),
        2 => "0.0083333".to_string(),
        3 => r.pick(&["0.0333333", "0.04", "0.016666667", "0.008333", ".0416667", "1", "0", "1.",
            "0.0", "2.5", "1e-3", "3.3333E-2", "+0.02", "00.040", "0.000000001", "0.9999999999"])
            .to_string(),
        4 => format!("{}", r.draw(1000)),
        5 => format!("0.{:09}", r.draw(1_000_000_000)),
        6 => format!("{}.{:09}", r.draw(100_000), r.draw(1_000_000_000)),
        7 => format!("{}", 1.0 / (1.0 + r.draw(240) as f64)),
        8 => format!("{:e}", r.draw(1_000_000) as f64 / 1e7),
        9 => format!("{:.*}", r.upto(15), 1.0 / (1.0 + r.draw(240) as f64)),
        10 => format!("{}.{:06}", r.draw(10), r.draw(1_000_000)),
        _ => format!("0.{:07}", r.draw(10_000_000)),
    };
    let d = Duration::from_secs_f64(t.parse::<f64>().unwrap());
    (t, d)
}

pub fn gen_name<D: Draw>(r: &mut D, long: usize) -> Vec<u8> {
    const PLAIN: &[&str] = &["Hips", "Spine", "LeftUpLeg", "RightFoot", "Head", "J", "neck_01"];
    const ODD: &[&str] = &[
        "mixamorig:Hips", "a:b:c", ":x", "x:", "ROOT", "JOINT", "End", "Site", "OFFSET",
        "CHANNELS", "MOTION", "HIERARCHY", "Frames:", "Frame", "Time:", "Bip01.L.Thigh", "0", "-1.5",
        "3", "Xposition", "#x", "//c", "\"q\"", "腰", "кость", "ñandú", "a\u{a0}b", "x{", "}y", "[k]",
        "joint,1", "LeftHand|LeftHand", "a/b\\c", "EndSite", "jOINT", "é", "x\u{a0}", "\u{3000}",
        "\u{b}v\u{b}", "\u{a0}y", "z\u{85}", "q\u{2028}", "\u{feff}b", "n\0", "\u{1c}", ":",
    ];
    match r.weighted(&[10, 6, 3, 2, 3]) {
        0 => r.pick(PLAIN).as_bytes().to_vec(),
        1 => r.pick(ODD).as_bytes().to_vec(),
        2 => {
            // Around the inline capacity of the name type.
            let n = 20 + r.upto(10);
            (0..n).map(|i| b'a' + (i % 26) as u8).collect()
        }
        3 => {
            // Any bytes but those which end a token.
            let n = 1 + r.upto(12);
            let mut v = Vec::new();
            for _ in 0..n {
                let b = r.draw(256) as u8;
                if !b.is_ascii_whitespace() {
                    v.push(b);
                }
            }
            if v.is_empty() {
                v.push(b'n');
            }
            v
        }
        _ => {
            let n = 1 + r.size(long.max(1)).min(long.max(1));
            let c = *r.pick(&[b'x', b'_', b'Z', b'9']);
            let mut v = vec![c; n];
            v[0] = b'L';
            v
        }
    }
}

/// A document. Which dimension is stressed is itself drawn (swarm style).
pub fn gen_doc(w: &mut W, scale: Scale) -> Doc {
    let dim = match scale {
        Scale::Small => w.weighted(&[48, 0, 0, 8, 8, 0, 16, 0, 16]),
        Scale::Any => w.weighted(&[80, 24, 16, 16, 20, 24, 32, 8, 24, 4, 2, 1, 1]),
    };
    let small = scale == Scale::Small;
    let mut nj = 1 + w.upto(if small { 5 } else { 7 });
    let mut shape = w.weighted(&[6, 2, 2, 2]);
    let mut style = usize::from(w.chance(1, 3));
    let mut long = 40;
    let mut max_ch = 6;
    let mut least_ch = 0;
    let mut nframes = w.upto(if small { 4 } else { 6 });
    let mut bulk = false;
    let mut zero_ch = false;
    match dim {
        1 => {
            nj = 1 + w.size(300);
            bulk = true;
        }
        2 => {
            nj = 1 + w.size(300);
            shape = 1;
            bulk = true;
        }
        3 => {
            long = if small {
                70
            } else if w.chance(1, 8) {
                70_000
            } else {
                5000
            }
        }
        4 => {
            max_ch = if small { 12 } else { 70 };
        }
        5 => {
            nframes = w.size(3000);
            nj = 1 + w.upto(2);
            bulk = true;
        }
        6 => style = 1,
        7 => {
            // Very long motion lines.
            nj = 1 + w.size(512);
            max_ch = 24;
            nframes = 1 + w.upto(2);
            bulk = true;
        }
        8 => {
            if w.chance(1, 3) {
                nj = 1;
            }
            zero_ch = w.chance(1, 2);
            if w.chance(1, 2) {
                nframes = 0;
            }
        }
        9 => {
            // More frames than a 16-bit count holds.
            nframes = 65_530 + w.upto(12);
            nj = 1;
            max_ch = 1;
            bulk = true;
        }
        10 => {
            // Skeletons of thousands of joints, most of them shallow.
            nj = 300 + w.size(5_000);
            shape = *w.pick(&[2, 3]);
            max_ch = 6;
            bulk = true;
        }
        11 => {
            // Joints nested a thousand deep.
            nj = 200 + w.upto(900);
            // One chain, or several which leave it at any depth.
            shape = *w.pick(&[1, 4]);
            max_ch = 3;
            nframes = nframes.min(2);
            bulk = true;
        }
        12 => {
            // More channels than a 16-bit count holds.
            let few = w.chance(1, 2);
            nj = if few { 1 } else { 150 + w.upto(100) };
            least_ch = if few { 65_500 } else { 440 };
            max_ch = least_ch + if few { 2_000 } else { 200 };
            nframes = nframes.min(1);
            bulk = true;
        }
        _ => {}
    }
    let leafless = w.weighted(&[6, 2, 1]); // leaves: all end sites, some, none
    let inner_sites = w.chance(1, 12);
    let mut r = if bulk { Src::Bulk(w.sub()) } else { Src::Tape(w.clone()) };
    let r = &mut r;

    let mut joints: Vec<MJoint> = Vec::with_capacity(nj);
    let mut path: Vec<usize> = Vec::new();
    let mut nch = 0;
    for i in 0..nj {
        let depth = if i == 0 {
            0
        } else {
            let top = joints[i - 1].depth + 1;
            match shape {
                0 => 1 + r.upto(top - 1),
                1 => top,
                2 => 1,
                4 => {
                    if r.chance(1, 120) {
                        1 + r.upto(top - 1)
                    } else {
                        top
                    }
                }
                _ => {
                    if r.chance(1, 6) {
                        1 + r.upto(top - 1)
                    } else {
                        top.min(1 + i % 40)
                    }
                }
            }
        };
        path.truncate(depth);
        let parent = path.last().copied();
        path.push(i);
        let k = if zero_ch {
            0
        } else if least_ch > 0 {
            least_ch + r.upto(max_ch - least_ch)
        } else {
            match r.weighted(&[5, 3, 3]) {
                0 => 3.min(max_ch),
                1 => 6.min(max_ch),
                _ => r.upto(max_ch),
            }
        };
        let channels = if k == 6 && r.chance(2, 3) {
            vec![0, 1, 2, 5, 3, 4]
        } else {
            (0..k).map(|_| r.draw(6) as u8).collect::<Vec<_>>()
        };
        nch += channels.len();
        joints.push(MJoint {
            name: gen_name(r, long),
            parent,
            depth,
            offset: [gen_num(r, style), gen_num(r, style), gen_num(r, style)],
            channels,
            end_site: None,
        });
    }
    for i in 0..nj {
        let leaf = i + 1 >= nj || joints[i + 1].depth <= joints[i].depth;
        let site = if leaf {
            match leafless {
                0 => true,
                1 => r.chance(1, 2),
                _ => false,
            }
        } else {
            inner_sites && r.chance(1, 2)
        };
        if site {
            joints[i].end_site = Some([gen_num(r, style), gen_num(r, style), gen_num(r, style)]);
        }
    }
    w.deep(joints.iter().map(|j| j.depth).sum());
    let (ft_text, ft) = gen_ft(r);
    // Keep the amount of text bounded.
    while nframes > 1 && nframes * nch > 150_000 {
        nframes /= 2;
    }
    let total = nframes * nch;
    let mut vals = Vec::with_capacity(total);
    let mut vtexts = Vec::with_capacity(total);
    {
        let mut q = if total > 60 && !bulk { Src::Bulk(w.sub()) } else { Src::Tape(w.clone()) };
        let q: &mut Src = if bulk { r } else { &mut q };
        for _ in 0..total {
            let n = gen_num(q, style);
            vals.push(n.val);
            vtexts.push(n.text.into_boxed_str());
        }
    }
    w.say(|| {
        format!("document: {} joints, {} channels, {} frames, dimension {}", nj, nch, nframes, dim)
    });
    Doc { joints, nch, nframes, ft_text, ft, vals, vtexts }
}

impl Doc {
    pub fn children(&self, i: usize) -> Vec<usize> {
        (0..self.joints.len()).filter(|&k| self.joints[k].parent == Some(i)).collect()
    }
    pub fn utf8(&self) -> bool {
        self.joints.iter().all(|j| std::str::from_utf8(&j.name).is_ok())
    }
    pub fn frame(&self, i: usize) -> &[f32] {
        &self.vals[i * self.nch..(i + 1) * self.nch]
    }
    /// Frames the library can represent: with no channels there are none.
    pub fn frames(&self) -> usize {
        if self.nch == 0 {
            0
        } else {
            self.vals.len() / self.nch
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum K {
    Hierarchy,
    Root,
    Joint,
    Name,
    Open,
    Close,
    OffsetKw,
    Offset(u8),
    ChannelsKw,
    ChannelCount,
    Channel,
    End,
    Site,
    Motion,
    FramesKw,
    FrameCount,
    FrameKw,
    TimeKw,
    FrameTime,
    /// Position within its line.
    Value(u32),
}
#[derive(Clone, Copy, Debug)]
pub struct Tok {
    pub k: K,
    pub line: u32,
    pub start: u32,
    pub end: u32,
}
pub struct Text {
    pub bytes: Vec<u8>,
    pub toks: Vec<Tok>,
    /// Just after the root's closing brace.
    pub root_close: usize,
    /// Just after the end of that line.
    pub root_close_line: usize,
    pub crlf: bool,
}
impl Text {
    pub fn tok(&self, t: &Tok) -> &[u8] {
        &self.bytes[t.start as usize..t.end as usize]
    }
    pub fn find(&self, k: K) -> Option<&Tok> {
        self.toks.iter().find(|t| t.k == k)
    }
}

#[derive(Clone, Debug)]
pub struct Layout {
    eol: usize,
    indent: usize,
    sep: usize,
    blanks: u64,
    trailing: u64,
    frames_kw: usize,
    wrap: usize,
    final_eol: bool,
    tail_blank: usize,
    lead_blank: usize,
}
impl Layout {
    pub fn plain() -> Layout {
        Layout {
            eol: 0,
            indent: 1,
            sep: 0,
            blanks: 0,
            trailing: 0,
            frames_kw: 0,
            wrap: 0,
            final_eol: true,
            tail_blank: 0,
            lead_blank: 0,
        }
    }
    pub fn draw(w: &mut W) -> Layout {
        Layout {
            eol: w.weighted(&[4, 3, 1]),
            indent: w.weighted(&[3, 2, 2, 1]),
            sep: w.weighted(&[5, 1, 1, 1]),
            blanks: *w.pick(&[0u64, 0, 0, 1, 4, 8]),
            trailing: *w.pick(&[0u64, 0, 0, 2, 8]),
            frames_kw: w.weighted(&[4, 1, 1, 1]),
            wrap: w.weighted(&[10, 1, 1]),
            final_eol: !w.chance(1, 3),
            tail_blank: match w.weighted(&[1600, 399, 1]) {
                0 => 0,
                1 => w.upto(3),
                _ => w.size(70_000),
            },
            lead_blank: match w.weighted(&[1600, 397, 3]) {
                0 => 0,
                1 => w.upto(3),
                // More lines than 16 bits count, at times.
                _ => *w.pick(&[100, 3_000, 33_000, 66_000]) + w.upto(5),
            },
        }
    }
}

struct Out<'a> {
    b: Vec<u8>,
    toks: Vec<Tok>,
    line: u32,
    first: bool,
    l: &'a Layout,
    r: Rng,
}
impl Out<'_> {
    fn eol(&mut self) {
        if self.l.trailing > 0 && self.r.below(16) < self.l.trailing {
            let t: &[u8] = [&b" "[..], b"\t", b"   ", b" \t "][self.r.below(4) as usize];
            self.b.extend_from_slice(t);
        }
        let crlf = match self.l.eol {
            0 => false,
            1 => true,
            _ => self.r.below(2) == 1,
        };
        if crlf {
            self.b.push(b'\r');
        }
        self.b.push(b'\n');
        self.line += 1;
        self.first = true;
    }
    fn maybe_blank(&mut self) {
        if self.l.blanks > 0 {
            while self.r.below(16) < self.l.blanks {
                self.blank();
            }
        }
    }
    fn blank(&mut self) {
        let t: &[u8] = [&b""[..], b"", b"  ", b"\t", b" \t  "][self.r.below(5) as usize];
        self.b.extend_from_slice(t);
        let crlf = match self.l.eol {
            0 => false,
            1 => true,
            _ => self.r.below(2) == 1,
        };
        if crlf {
            self.b.push(b'\r');
        }
        self.b.push(b'\n');
        self.line += 1;
    }
    fn start(&mut self, depth: usize) {
        self.maybe_blank();
        match self.l.indent {
            0 => {}
            1 => self.b.resize(self.b.len() + depth, b'\t'),
            2 => self.b.resize(self.b.len() + 2 * depth, b' '),
            _ => {
                for _ in 0..self.r.below(5) {
                    let c = if self.r.below(2) == 0 { b' ' } else { b'\t' };
                    self.b.push(c);
                }
            }
        }
    }
    fn tok(&mut self, k: K, t: &[u8]) {
        if !self.first {
            let s: &[u8] = match self.l.sep {
                0 => b" ",
                1 => b"\t",
                2 => b"  ",
                _ => [&b" "[..], b"\t", b"   ", b" \t", b"\t\t"][self.r.below(5) as usize],
            };
            self.b.extend_from_slice(s);
        }
        self.first = false;
        let start = self.b.len() as u32;
        self.b.extend_from_slice(t);
        self.toks.push(Tok { k, line: self.line, start, end: self.b.len() as u32 });
    }
    fn glued(&mut self, k: K, t: &[u8]) {
        self.first = true;
        self.tok(k, t);
    }
    fn offset(&mut self, depth: usize, o: &[Num; 3]) {
        self.start(depth);
        self.tok(K::OffsetKw, b"OFFSET");
        for (i, n) in o.iter().enumerate() {
            self.tok(K::Offset(i as u8), n.text.as_bytes());
        }
        self.eol();
    }
    fn word(&mut self, depth: usize, k: K, t: &[u8]) {
        self.start(depth);
        self.tok(k, t);
        self.eol();
    }
}

pub fn render(w: &mut W, d: &Doc, l: &Layout) -> Text {
    let seed = if l.eol == 2 || l.indent == 3 || l.sep == 3 || l.blanks > 0 || l.trailing > 0 || l.lead_blank + l.tail_blank > 0 {
        w.sub()
    } else {
        Rng::new(7)
    };
    let mut o = Out {
        b: Vec::new(),
        toks: Vec::new(),
        line: 0,
        first: true,
        l,
        r: seed,
    };
    for _ in 0..l.lead_blank {
        o.blank();
    }
    o.word(0, K::Hierarchy, b"HIERARCHY");
    let mut root_close = 0;
    let mut root_close_line = 0;
    let n = d.joints.len();
    for (i, j) in d.joints.iter().enumerate() {
        o.start(j.depth);
        if i == 0 {
            o.tok(K::Root, b"ROOT");
        } else {
            o.tok(K::Joint, b"JOINT");
        }
        o.tok(K::Name, &j.name);
        o.eol();
        o.word(j.depth, K::Open, b"{");
        o.offset(j.depth + 1, &j.offset);
        o.start(j.depth + 1);
        o.tok(K::ChannelsKw, b"CHANNELS");
        o.tok(K::ChannelCount, j.channels.len().to_string().as_bytes());
        for &c in &j.channels {
            o.tok(K::Channel, CHAN[c as usize].as_bytes());
        }
        o.eol();
        if let Some(s) = &j.end_site {
            o.start(j.depth + 1);
            o.tok(K::End, b"End");
            o.tok(K::Site, b"Site");
            o.eol();
            o.word(j.depth + 1, K::Open, b"{");
            o.offset(j.depth + 2, s);
            o.word(j.depth + 1, K::Close, b"}");
        }
        let next = if i + 1 < n { d.joints[i + 1].depth as isize } else { 0 };
        let mut k = j.depth as isize;
        while k >= next && (k > 0 || i + 1 == n) {
            o.start(k as usize);
            o.tok(K::Close, b"}");
            if k == 0 {
                root_close = o.b.len();
            }
            o.eol();
            if k == 0 {
                root_close_line = o.b.len();
            }
            k -= 1;
        }
    }
    o.word(0, K::Motion, b"MOTION");
    o.start(0);
    let count = d.nframes.to_string();
    match l.frames_kw {
        0 => {
            o.tok(K::FramesKw, b"Frames:");
            o.tok(K::FrameCount, count.as_bytes());
        }
        1 => {
            o.tok(K::FramesKw, b"Frames:");
            o.glued(K::FrameCount, count.as_bytes());
        }
        2 => {
            o.tok(K::FramesKw, b"Frames");
            o.b.extend_from_slice(b" :");
            o.tok(K::FrameCount, count.as_bytes());
        }
        _ => {
            o.tok(K::FramesKw, b"Frames:");
            o.tok(K::FrameCount, format!("0{}", count).as_bytes());
        }
    }
    o.eol();
    o.start(0);
    o.tok(K::FrameKw, b"Frame");
    o.tok(K::TimeKw, b"Time:");
    o.tok(K::FrameTime, d.ft_text.as_bytes());
    o.eol();
    if d.nch > 0 {
        for f in 0..d.nframes {
            o.start(0);
            let mut pos = 0;
            for c in 0..d.nch {
                if c > 0 && l.wrap > 0 && o.r.below(if l.wrap == 1 { 8 } else { 2 }) == 0 {
                    o.eol();
                    o.start(0);
                    pos = 0;
                }
                let t = d.vtexts[f * d.nch + c].as_bytes();
                o.tok(K::Value(pos), t);
                pos += 1;
            }
            o.eol();
        }
    } else if l.wrap == 0 && l.blanks == 0 && l.tail_blank == 0 {
        // A frame of no values is an empty line.
        for _ in 0..d.nframes {
            o.eol();
        }
    }
    for _ in 0..l.tail_blank {
        o.blank();
    }
    if !l.final_eol {
        let last = o.toks.last().unwrap().end as usize;
        if l.tail_blank == 0 {
            o.b.truncate(last);
        } else {
            while o.b.last() == Some(&b'\n') || o.b.last() == Some(&b'\r') {
                o.b.pop();
            }
        }
        o.b.truncate(o.b.len().max(last));
    }
    Text { bytes: o.b, toks: o.toks, root_close, root_close_line, crlf: l.eol == 1 }
}

/// Document and text in one go.
pub fn gen_text(w: &mut W, scale: Scale) -> (Doc, Text) {
    let d = gen_doc(w, scale);
    let l = Layout::draw(w);
    let t = render(w, &d, &l);
    (d, t)
}

fn bits(a: &[f32]) -> [u32; 3] {
    [a[0].to_bits(), a[1].to_bits(), a[2].to_bits()]
}
pub fn show(b: &[u8]) -> String {
    String::from_utf8_lossy(&b[..b.len().min(80)]).into_owned()
}

/// The structure of a loaded document against the model: everything but motion values.
pub fn check_skeleton(b: &Bvh, d: &Doc) -> Result<(), String> {
    let n = b.joints().count();
    if n != d.joints.len() {
        return Err(format!("{} joints, expected {}", n, d.joints.len()));
    }
    for (i, (j, m)) in b.joints().zip(&d.joints).enumerate() {
        if j.name() != &m.name[..] {
            return Err(format!("joint {}: name {:?}, expected {:?}", i, show(j.name()), show(&m.name)));
        }
        if j.index() != i {
            return Err(format!("joint {}: index() is {}", i, j.index()));
        }
        if j.parent_index() != m.parent || j.parent().map(|p| p.index()) != m.parent {
            return Err(format!("joint {}: parent {:?}, expected {:?}", i, j.parent_index(), m.parent));
        }
        if j.is_root() != (i == 0) || j.is_child() != (i != 0) {
            return Err(format!("joint {}: is_root {}", i, j.is_root()));
        }
        let mo = [m.offset[0].val, m.offset[1].val, m.offset[2].val];
        if bits(j.offset()) != bits(&mo) {
            return Err(format!("joint {}: offset {:?}, expected {:?}", i, j.offset(), mo));
        }
        let me = m.end_site.as_ref().map(|e| [e[0].val, e[1].val, e[2].val]);
        if j.end_site().map(|e| bits(e)) != me.as_ref().map(|e| bits(e)) {
            return Err(format!("joint {}: end site {:?}, expected {:?}", i, j.end_site(), me));
        }
        if j.has_end_site() != me.is_some() {
            return Err(format!("joint {}: has_end_site {}", i, j.has_end_site()));
        }
        if j.channels().len() != m.channels.len() {
            return Err(format!("joint {}: {} channels, expected {}", i, j.channels().len(), m.channels.len()));
        }
        for (k, (c, &mc)) in j.channels().iter().zip(&m.channels).enumerate() {
            if c.channel_type() != CHAN_T[mc as usize] {
                return Err(format!("joint {} channel {}: {}, expected {}", i, k, c.channel_type(), CHAN[mc as usize]));
            }
        }
    }
    let mut next = 0;
    for (i, j) in b.joints().enumerate() {
        for c in j.channels() {
            if c.motion_index() != next {
                return Err(format!("joint {}: motion index {}, expected {}", i, c.motion_index(), next));
            }
            next += 1;
        }
    }
    if b.num_channels() != d.nch {
        return Err(format!("{} channels, expected {}", b.num_channels(), d.nch));
    }
    if *b.frame_time() != d.ft {
        return Err(format!("frame time {:?}, expected {:?}", b.frame_time(), d.ft));
    }
    match b.root_joint() {
        Some(r) if r.index() == 0 && r.name() == &d.joints[0].name[..] => {}
        _ => return Err("root_joint() is not the first joint".into()),
    }
    check_children(b)
}

/// Children of every joint, as listed by the library, against the joints' parents.
pub fn check_children(b: &Bvh) -> Result<(), String> {
    let n = b.joints().count();
    let mut kids: Vec<Vec<usize>> = vec![Vec::new(); n];
    for j in b.joints() {
        if let Some(p) = j.parent_index() {
            if p < n {
                kids[p].push(j.index());
            }
        }
    }
    // Each query may cost a scan: on big skeletons look at every joint with children and some others.
    let step = 1 + n / 200;
    for (i, j) in b.joints().enumerate() {
        if i % step == 0 || (kids[i].len() > 1 && i < 200) || i + 3 > n {
            let mut got: Vec<usize> = Vec::new();
            for c in j.children() {
                got.push(c.index());
                if got.len() > n {
                    break;
                }
            }
            if got != kids[i] {
                return Err(format!(
                    "joint {}: children {:?}.., expected {:?}..",
                    i,
                    &got[..got.len().min(8)],
                    &kids[i][..kids[i].len().min(8)]
                ));
            }
        }
    }
    Ok(())
}

pub fn check_frames(b: &Bvh, nch: usize, vals: &[f32]) -> Result<(), String> {
    let n = if nch == 0 { 0 } else { vals.len() / nch };
    if b.frames().len() != n {
        return Err(format!("{} frames, expected {}", b.frames().len(), n));
    }
    let mut i = 0;
    for f in b.frames() {
        if f.len() != nch {
            return Err(format!("frame {} has {} values, expected {}", i, f.len(), nch));
        }
        for (c, (a, e)) in f.as_slice().iter().zip(&vals[i * nch..]).enumerate() {
            if a.to_bits() != e.to_bits() {
                return Err(format!("frame {} value {}: {:?}, expected {:?}", i, c, a, e));
            }
        }
        i += 1;
    }
    if i != n {
        return Err(format!("iterated {} frames, expected {}", i, n));
    }
    Ok(())
}

pub fn check_doc(b: &Bvh, d: &Doc) -> Result<(), String> {
    check_skeleton(b, d)?;
    check_frames(b, d.nch, &d.vals)
}

/// The model of what is in memory, however it got there.
pub fn model_of(b: &Bvh) -> Doc {
    let num = |v: f32| Num { text: v.to_string(), val: v };
    let three = |o: &[f32; 3]| [num(o[0]), num(o[1]), num(o[2])];
    let mut joints: Vec<MJoint> = Vec::new();
    for j in b.joints() {
        let parent = j.parent_index();
        let depth = parent.and_then(|p| joints.get(p)).map_or(0, |p| p.depth + 1);
        joints.push(MJoint {
            name: j.name().to_vec(),
            parent,
            depth,
            offset: three(j.offset()),
            channels: j
                .channels()
                .iter()
                .map(|c| CHAN_T.iter().position(|&t| t == c.channel_type()).unwrap_or(0) as u8)
                .collect(),
            end_site: j.end_site().map(three),
        });
    }
    let vals: Vec<f32> = b.frames().flat_map(|f| f.as_slice().to_vec()).collect();
    Doc {
        joints,
        nch: b.num_channels(),
        nframes: b.frames().len(),
        ft_text: String::new(),
        ft: *b.frame_time(),
        vtexts: Vec::new(),
        vals,
    }
}

/// Whether two loaded documents are the same, floats by bits (any NaN equals any NaN).
pub fn same(a: &Bvh, b: &Bvh) -> Result<(), String> {
    let eq = |x: f32, y: f32| x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan());
    let eq3 = |x: &[f32; 3], y: &[f32; 3]| (0..3).all(|i| eq(x[i], y[i]));
    if a.joints().count() != b.joints().count() {
        return Err(format!("{} against {} joints", a.joints().count(), b.joints().count()));
    }
    for (x, y) in a.joints().zip(b.joints()) {
        let i = x.index();
        if x.name() != y.name() {
            return Err(format!("joint {}: name {:?} against {:?}", i, show(x.name()), show(y.name())));
        }
        if x.index() != y.index() || x.parent_index() != y.parent_index() {
            return Err(format!("joint {}: parent {:?} against {:?}", i, x.parent_index(), y.parent_index()));
        }
        if !eq3(x.offset(), y.offset()) {
            return Err(format!("joint {}: offset {:?} against {:?}", i, x.offset(), y.offset()));
        }
        match (x.end_site(), y.end_site()) {
            (None, None) => {}
            (Some(p), Some(q)) if eq3(p, q) => {}
            (p, q) => return Err(format!("joint {}: end site {:?} against {:?}", i, p, q)),
        }
        if x.channels() != y.channels() {
            return Err(format!("joint {}: channels differ", i));
        }
    }
    if a.num_channels() != b.num_channels() {
        return Err(format!("{} against {} channels", a.num_channels(), b.num_channels()));
    }
    if a.frames().len() != b.frames().len() {
        return Err(format!("{} against {} frames", a.frames().len(), b.frames().len()));
    }
    for (i, (f, g)) in a.frames().zip(b.frames()).enumerate() {
        if f.len() != g.len() || !f.as_slice().iter().zip(g.as_slice()).all(|(x, y)| eq(*x, *y)) {
            return Err(format!("frame {} differs", i));
        }
    }
    let (s, t) = (*a.frame_time(), *b.frame_time());
    // Beyond this a 64-bit float of seconds does not hold nanoseconds.
    if s != t && (s < Duration::from_secs(1 << 21) || (s.as_secs_f64() - t.as_secs_f64()).abs() > 1e-9 * s.as_secs_f64()) {
        return Err(format!("frame time {:?} against {:?}", s, t));
    }
    Ok(())
}
