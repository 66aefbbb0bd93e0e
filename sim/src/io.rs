//! Simulated readers, sinks and frame sources: the caller-supplied seams of the library.
use crate::world::*;
use bvh_anim::errors::{LoadError, LoadErrorKind, LoadJointsError, LoadMotionError};
use bvh_anim::Bvh;
use std::io::{self, BufRead, BufReader, BufWriter, Cursor, LineWriter, Read, Write};
use std::sync::{Arc, Mutex};

/// Called before every I/O step; lets a scheduler park the caller or nested work run.
pub type Hook = Arc<dyn Fn(&'static str) + Send + Sync>;

#[derive(Debug)]
pub struct SimErr(pub u32);
impl std::fmt::Display for SimErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "simulated device error #{}", self.0)
    }
}
impl std::error::Error for SimErr {}

/// A hard error: how it is made is fixed by two draws, so equal values make equal errors.
#[derive(Clone, Copy, Debug)]
pub struct ErrSpec {
    form: u8,
    which: u8,
    id: u32,
}
const KINDS: [io::ErrorKind; 16] = [
    io::ErrorKind::Other,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::TimedOut,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::ConnectionAborted,
    io::ErrorKind::InvalidData,
    io::ErrorKind::InvalidInput,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::NotFound,
    io::ErrorKind::WriteZero,
    io::ErrorKind::NotConnected,
    io::ErrorKind::AddrInUse,
    io::ErrorKind::OutOfMemory,
    io::ErrorKind::Unsupported,
];
// EIO ENOSPC EAGAIN EPIPE ECONNRESET ETIMEDOUT ESTALE EACCES EFBIG EDQUOT EROFS ENOMEM ENODEV EISDIR EBADF EINVAL
const CODES: [i32; 16] = [5, 28, 11, 32, 104, 110, 116, 13, 27, 122, 30, 12, 19, 21, 9, 22];
impl ErrSpec {
    pub fn draw(w: &mut W) -> ErrSpec {
        ErrSpec { form: w.draw(3) as u8, which: w.draw(16) as u8, id: w.draw(1000) as u32 }
    }
    pub fn make(&self) -> io::Error {
        match self.form {
            0 => io::Error::from_raw_os_error(CODES[self.which as usize]),
            1 => io::Error::from(KINDS[self.which as usize]),
            _ => io::Error::new(KINDS[self.which as usize], SimErr(self.id)),
        }
    }
    pub fn is_storage_full(&self) -> bool {
        self.form == 0 && self.which == 1
    }
    /// Whether `e` is this very error.
    pub fn check(&self, e: &io::Error) -> Result<(), String> {
        let want = self.make();
        if e.kind() != want.kind() {
            return Err(format!("error kind {:?}, expected {:?}", e.kind(), want.kind()));
        }
        if e.raw_os_error() != want.raw_os_error() {
            return Err(format!("OS code {:?}, expected {:?}", e.raw_os_error(), want.raw_os_error()));
        }
        if self.form == 2 && !carries(e, self.id) {
            return Err(format!("error {:?} does not carry the device's own error #{}", e, self.id));
        }
        if self.form != 2 && e.to_string() != want.to_string() {
            return Err(format!("message {:?}, expected {:?}", e.to_string(), want.to_string()));
        }
        Ok(())
    }
}
fn carries(e: &io::Error, id: u32) -> bool {
    let mut cur: Option<&(dyn std::error::Error + 'static)> = match e.get_ref() {
        Some(x) => Some(x),
        None => None,
    };
    while let Some(x) = cur {
        if let Some(s) = x.downcast_ref::<SimErr>() {
            return s.0 == id;
        }
        if let Some(i) = x.downcast_ref::<io::Error>() {
            return carries(i, id);
        }
        cur = x.source();
    }
    false
}

/// Which section an I/O load error is attributed to, and the error.
pub fn load_io_error(e: &LoadError) -> Option<(bool, &io::Error)> {
    match e.kind() {
        LoadErrorKind::Joints(LoadJointsError::Io(i)) => Some((true, i)),
        LoadErrorKind::Motion(LoadMotionError::Io(i)) => Some((false, i)),
        _ => None,
    }
}
/// The I/O error found by walking the source chain.
pub fn chained_io_error(e: &LoadError) -> Option<&io::Error> {
    let mut cur: Option<&(dyn std::error::Error + 'static)> = std::error::Error::source(e);
    while let Some(x) = cur {
        if let Some(i) = x.downcast_ref::<io::Error>() {
            return Some(i);
        }
        cur = x.source();
    }
    None
}

#[derive(Clone, Debug)]
pub struct ReadPolicy {
    mode: usize,
    n: usize,
    intr: u64,
    intr_form: usize,
    seed: u64,
    latency: u64,
}
impl ReadPolicy {
    pub fn calm() -> ReadPolicy {
        ReadPolicy { mode: 0, n: 0, intr: 0, intr_form: 0, seed: 1, latency: 0 }
    }
    pub fn draw(w: &mut W) -> ReadPolicy {
        let mode = w.weighted(&[2, 3, 3, 4, 4]);
        ReadPolicy {
            mode,
            n: if mode == 0 || mode == 4 { 0 } else { 1 + w.size(9000) },
            intr: *w.pick(&[0u64, 0, 1, 4, 12]),
            intr_form: w.upto(2),
            seed: w.draw(1 << 40),
            latency: *w.pick(&[0u64, 1_000, 1_000_000, 400_000_000]),
        }
    }
    pub fn with_interrupts(mut self, intr: u64) -> ReadPolicy {
        self.intr = intr;
        self
    }
}

pub fn interrupted(form: usize) -> io::Error {
    match form {
        0 => io::Error::from_raw_os_error(4),
        1 => io::Error::from(io::ErrorKind::Interrupted),
        _ => io::Error::new(io::ErrorKind::Interrupted, "simulated signal"),
    }
}

pub struct ReadStats {
    pub calls: u64,
    pub interrupts: u64,
    pub errors: u64,
    pub delivered: usize,
}

pub struct SimReader {
    w: W,
    data: Arc<Vec<u8>>,
    pos: usize,
    win: usize,
    r: Rng,
    pol: ReadPolicy,
    in_a_row: u32,
    pub err: Option<(usize, ErrSpec, bool)>,
    pub panic_at: Option<usize>,
    pub hook: Option<Hook>,
    stats: Arc<Mutex<ReadStats>>,
    /// Reader calls allowed beyond 16 per byte and interruption.
    slack: u64,
    /// Visits to the device, as opposed to calls served from its window.
    visits: u64,
}
impl SimReader {
    pub fn new(w: &W, data: Arc<Vec<u8>>, pol: &ReadPolicy) -> SimReader {
        SimReader {
            w: w.clone(),
            data,
            pos: 0,
            win: 0,
            r: Rng::new(pol.seed),
            pol: pol.clone(),
            in_a_row: 0,
            err: None,
            panic_at: None,
            hook: None,
            stats: Arc::new(Mutex::new(ReadStats { calls: 0, interrupts: 0, errors: 0, delivered: 0 })),
            slack: 10_000,
            visits: 0,
        }
    }
    pub fn stats(&self) -> Arc<Mutex<ReadStats>> {
        self.stats.clone()
    }
    fn call(&mut self) {
        if let Some(h) = &self.hook {
            h("read");
        }
        let mut s = self.stats.lock().unwrap();
        s.calls += 1;
        if s.calls > 16 * (self.data.len() as u64 + s.interrupts + s.errors) + self.slack {
            drop(s);
            sim_panic("livelock");
        }
    }
    /// Opens the next window, or fails, as one system call would.
    fn device(&mut self) -> io::Result<()> {
        self.w.tick(1_000 + self.pol.latency.min(1 + self.r.below(self.pol.latency + 1)));
        self.visits += 1;
        if self.visits == TIRED {
            self.pol.intr = 0;
            self.pol.mode = 0;
        }
        if self.pol.intr > 0 && self.in_a_row < 40 && self.r.below(16) < self.pol.intr {
            self.in_a_row += 1;
            self.stats.lock().unwrap().interrupts += 1;
            self.w.fault("read-interrupted");
            return Err(interrupted(self.pol.intr_form));
        }
        self.in_a_row = 0;
        if let Some(p) = self.panic_at {
            if self.pos >= p {
                self.w.fault("reader-panic");
                sim_panic("reader-panic");
            }
        }
        if let Some((at, spec, sticky)) = self.err {
            let mut s = self.stats.lock().unwrap();
            if self.pos >= at && (sticky || s.errors == 0) {
                s.errors += 1;
                drop(s);
                self.w.fault("read-error");
                return Err(spec.make());
            }
        }
        let left = self.data.len() - self.pos;
        let mut k = match self.pol.mode {
            0 => left,
            1 => 1,
            2 => self.pol.n,
            3 => 1 + self.r.below(self.pol.n as u64) as usize,
            _ => {
                // Around the next line end (also between CR and LF).
                let nl = self.data[self.pos..].iter().position(|&b| b == b'\n').unwrap_or(left);
                (nl + self.r.below(3) as usize).max(1)
            }
        }
        .min(left);
        if self.pol.mode == 1 && self.pol.n % 2 == 0 && left > 2000 {
            // Byte by byte only in stretches, to keep big documents affordable.
            if (self.pos / 512) % 4 != 0 {
                k = left.min(512 - self.pos % 512);
            }
        }
        for stop in [self.err.map(|e| e.0), self.panic_at].into_iter().flatten() {
            if stop > self.pos {
                k = k.min(stop - self.pos);
            }
        }
        self.win = self.pos + k;
        if k < left {
            self.w.lock().probes.entry("short-read").and_modify(|c| *c += 1).or_insert(1);
        }
        self.w.ev("read", self.pos as u64, k as u64);
        Ok(())
    }
}
impl Read for SimReader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.call();
        if buf.is_empty() {
            return Ok(0);
        }
        if self.pos == self.win {
            self.device()?;
        }
        let k = (self.win - self.pos).min(buf.len());
        buf[..k].copy_from_slice(&self.data[self.pos..self.pos + k]);
        self.pos += k;
        self.stats.lock().unwrap().delivered = self.pos;
        Ok(k)
    }
}
impl BufRead for SimReader {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        self.call();
        if self.pos == self.win {
            self.device()?;
        }
        let mut s = self.stats.lock().unwrap();
        s.delivered = s.delivered.max(self.win);
        drop(s);
        Ok(&self.data[self.pos..self.win])
    }
    fn consume(&mut self, n: usize) {
        self.pos = (self.pos + n).min(self.win);
    }
}

/// How the client plugs the reader into the library.
#[derive(Clone, Debug)]
pub struct Plug {
    form: usize,
    cap: usize,
}
impl Plug {
    pub fn direct() -> Plug {
        Plug { form: 0, cap: 0 }
    }
    pub fn draw(w: &mut W) -> Plug {
        Plug { form: w.weighted(&[6, 3, 1, 1, 1, 1]), cap: 1 + w.size(9000) }
    }
    pub fn load(&self, r: SimReader) -> Result<Bvh, LoadError> {
        match self.form {
            0 => bvh_anim::from_reader(r),
            1 => Bvh::from_reader(BufReader::with_capacity(self.cap, r)),
            2 => {
                let b: Box<dyn BufRead> = Box::new(r);
                bvh_anim::from_reader(b)
            }
            3 => bvh_anim::from_reader(r.take(u64::MAX)),
            4 => Bvh::from_reader(Cursor::new(Vec::new()).chain(r)),
            _ => {
                let mut r = r;
                Bvh::from_reader(&mut r)
            }
        }
    }
}

/// Loading through entry points that take memory.
pub fn load_memory(form: usize, bytes: &[u8], utf8: bool) -> Result<Bvh, LoadError> {
    use std::convert::TryFrom;
    let form = if !utf8 && form % 9 >= 5 { form % 5 } else { form % 9 };
    match form {
        0 => bvh_anim::from_bytes(bytes),
        1 => Bvh::from_bytes(&bytes.to_vec()),
        2 => Bvh::try_from(bytes),
        3 => bvh_anim::from_reader(bytes),
        4 => Bvh::try_from(bstr::ByteSlice::as_bstr(bytes)),
        5 => bvh_anim::from_str(std::str::from_utf8(bytes).unwrap()),
        6 => std::str::from_utf8(bytes).unwrap().parse::<Bvh>(),
        7 => Bvh::try_from(std::str::from_utf8(bytes).unwrap()),
        _ => Bvh::from_bytes(std::str::from_utf8(bytes).unwrap()),
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum SinkFail {
    /// `write` reports this error.
    Error(ErrSpec2),
    /// `write` accepts nothing.
    Zero,
}
#[derive(Clone, Copy, Debug)]
pub struct ErrSpec2(pub ErrSpec);
impl PartialEq for ErrSpec2 {
    fn eq(&self, _: &Self) -> bool {
        true
    }
}

#[derive(Clone, Debug)]
pub struct WritePolicy {
    mode: usize,
    n: usize,
    intr: u64,
    intr_form: usize,
    seed: u64,
    latency: u64,
}
impl WritePolicy {
    pub fn calm() -> WritePolicy {
        WritePolicy { mode: 0, n: 0, intr: 0, intr_form: 0, seed: 1, latency: 0 }
    }
    pub fn draw(w: &mut W) -> WritePolicy {
        let mode = w.weighted(&[2, 2, 3, 4, 2]);
        WritePolicy {
            mode,
            n: if mode == 0 { 0 } else { 1 + w.size(5000) },
            intr: *w.pick(&[0u64, 0, 1, 4, 12]),
            intr_form: w.upto(2),
            seed: w.draw(1 << 40),
            latency: *w.pick(&[0u64, 1_000, 1_000_000, 400_000_000]),
        }
    }
}

#[derive(Default)]
pub struct SinkState {
    pub accepted: Vec<u8>,
    /// Length accepted at each successful flush.
    pub flushes: Vec<usize>,
    pub flush_fails: u64,
    pub calls: u64,
    pub interrupts: u64,
    pub errors: u64,
    /// The sink accepted bytes after its first failure.
    pub after_fail: bool,
    /// The client is gone: what still arrives is not part of the save.
    pub closed: bool,
}

/// The other end of a save.
pub struct SimSink {
    w: W,
    r: Rng,
    pol: WritePolicy,
    in_a_row: u32,
    pub st: Arc<Mutex<SinkState>>,
    /// Fails when this many bytes have been accepted; sticky or once.
    pub fail: Option<(usize, SinkFail, bool)>,
    /// Every flush (or only the first) fails with this.
    pub flush_fail: Option<(ErrSpec, bool)>,
    pub panic_at: Option<usize>,
    pub hook: Option<Hook>,
    slack: u64,
}
impl SimSink {
    pub fn new(w: &W, pol: &WritePolicy) -> SimSink {
        SimSink {
            w: w.clone(),
            r: Rng::new(pol.seed),
            pol: pol.clone(),
            in_a_row: 0,
            st: Arc::new(Mutex::new(SinkState::default())),
            fail: None,
            flush_fail: None,
            panic_at: None,
            hook: None,
            slack: 10_000,
        }
    }
    pub fn state(&self) -> Arc<Mutex<SinkState>> {
        self.st.clone()
    }
}
/// Calls after which a device no longer dawdles.
const TIRED: u64 = 500_000;

impl Write for SimSink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if let Some(h) = &self.hook {
            h("write");
        }
        let arc = self.st.clone();
        let mut st = arc.lock().unwrap_or_else(|p| p.into_inner());
        if st.closed {
            return Ok(buf.len());
        }
        st.calls += 1;
        // Empty writes are free; everything else is paid for by bytes, interruptions and errors.
        if st.calls > 16 * (st.accepted.len() as u64 + st.interrupts + st.errors + buf.len() as u64) + self.slack * 20 {
            drop(st);
            sim_panic("livelock");
        }
        if buf.is_empty() {
            return Ok(0);
        }
        self.w.tick(1_000 + self.pol.latency.min(1 + self.r.below(self.pol.latency + 1)));
        // After so many calls the device is as good as any, to keep big documents affordable.
        if st.calls == TIRED {
            self.pol.intr = 0;
            self.pol.mode = 0;
        }
        if self.pol.intr > 0 && self.in_a_row < 40 && self.r.below(16) < self.pol.intr {
            self.in_a_row += 1;
            st.interrupts += 1;
            self.w.fault("write-interrupted");
            return Err(interrupted(self.pol.intr_form));
        }
        self.in_a_row = 0;
        let len = st.accepted.len();
        if let Some(p) = self.panic_at {
            if len >= p {
                drop(st);
                self.w.fault("sink-panic");
                sim_panic("sink-panic");
            }
        }
        if let Some((at, f, sticky)) = self.fail {
            if len >= at && (sticky || st.errors == 0) {
                st.errors += 1;
                return match f {
                    SinkFail::Zero => {
                        self.w.fault("write-accepts-nothing");
                        Ok(0)
                    }
                    SinkFail::Error(e) => {
                        self.w.fault(if e.0.is_storage_full() { "disk-full" } else { "write-error" });
                        Err(e.0.make())
                    }
                };
            }
        }
        let mut k = match self.pol.mode {
            0 => buf.len(),
            1 => 1,
            2 => self.pol.n,
            3 => 1 + self.r.below(self.pol.n as u64) as usize,
            _ => buf.len().saturating_sub(1 + self.r.below(3) as usize).max(1),
        }
        .min(buf.len());
        for stop in [self.fail.map(|e| e.0), self.panic_at].into_iter().flatten() {
            if stop > len {
                k = k.min(stop - len);
            }
        }
        if k < buf.len() {
            self.w.fault("short-write");
        }
        if st.errors > 0 {
            st.after_fail = true;
        }
        st.accepted.extend_from_slice(&buf[..k]);
        self.w.ev("write", len as u64, k as u64);
        Ok(k)
    }
    fn flush(&mut self) -> io::Result<()> {
        if let Some(h) = &self.hook {
            h("flush");
        }
        let arc = self.st.clone();
        let mut st = arc.lock().unwrap_or_else(|p| p.into_inner());
        if st.closed {
            return Ok(());
        }
        self.w.tick(5_000);
        if let Some((e, sticky)) = self.flush_fail {
            if sticky || st.flush_fails == 0 {
                st.flush_fails += 1;
                self.w.fault("flush-error");
                return Err(e.make());
            }
        }
        let l = st.accepted.len();
        st.flushes.push(l);
        self.w.ev("flush", l as u64, 0);
        Ok(())
    }
}

/// How the client plugs the sink into the library.
#[derive(Clone, Debug)]
pub struct SinkPlug {
    pub form: usize,
    cap: usize,
}
impl SinkPlug {
    pub fn draw(w: &mut W) -> SinkPlug {
        SinkPlug { form: w.weighted(&[6, 3, 1, 1, 1]), cap: w.size(9000) }
    }
    pub fn direct() -> SinkPlug {
        SinkPlug { form: 0, cap: 0 }
    }
    /// Saves with the options, or (when they are the defaults) by the convenience method.
    pub fn save(&self, b: &Bvh, o: &bvh_anim::write::WriteOptions, short: bool, mut s: SimSink) -> io::Result<()> {
        fn go<X: Write>(b: &Bvh, o: &bvh_anim::write::WriteOptions, short: bool, s: &mut X) -> io::Result<()> {
            if short {
                b.write_to(s)
            } else {
                o.write(b, s)
            }
        }
        match self.form {
            0 => go(b, o, short, &mut s),
            1 => {
                let mut x = BufWriter::with_capacity(self.cap, s);
                let r = go(b, o, short, &mut x);
                // What is still buffered is lost, as in a crash right after the call.
                let _ = x.into_parts();
                r
            }
            2 => {
                let st = s.state();
                let mut x = LineWriter::with_capacity(self.cap.max(1), s);
                let r = go(b, o, short, &mut x);
                st.lock().unwrap_or_else(|p| p.into_inner()).closed = true;
                r
            }
            3 => {
                let mut x: Box<dyn Write> = Box::new(s);
                go(b, o, short, &mut x)
            }
            _ => {
                let mut x = &mut s;
                go(b, o, short, &mut x)
            }
        }
    }
}

/// A frame source for batch insertion.
pub struct SimFrames<'a, F = Vec<f32>> {
    pub frames: &'a [F],
    pub next: usize,
    pub hint: (usize, Option<usize>),
    pub panic_at: Option<usize>,
    pub pulled: Arc<std::sync::atomic::AtomicUsize>,
    pub hook: Option<Hook>,
    pub w: W,
}
impl<'a, F> Iterator for SimFrames<'a, F> {
    type Item = &'a F;
    fn next(&mut self) -> Option<&'a F> {
        if let Some(h) = &self.hook {
            h("frame");
        }
        self.w.tick(1_000);
        if self.panic_at == Some(self.next) {
            self.w.fault("frame-source-panic");
            sim_panic("frame-source-panic");
        }
        let f = self.frames.get(self.next)?;
        self.next += 1;
        self.pulled.store(self.next, std::sync::atomic::Ordering::Relaxed);
        self.w.ev("frame", self.next as u64, 0);
        Some(f)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.hint
    }
}

/// A frame which may refuse to be looked at.
pub struct SimFrame {
    pub v: Vec<f32>,
    pub panics: Option<W>,
}
impl AsRef<[f32]> for SimFrame {
    fn as_ref(&self) -> &[f32] {
        if let Some(w) = &self.panics {
            w.fault("frame-panic");
            sim_panic("frame-source-panic");
        }
        &self.v
    }
}

/// Random write options.
pub fn draw_options(w: &mut W, exact_only: bool) -> (bvh_anim::write::WriteOptions, [Option<usize>; 3], bool) {
    use bvh_anim::write::{IndentStyle, LineTerminator, WriteOptions};
    let short = w.chance(1, 6);
    if short {
        return (WriteOptions::default(), [None; 3], true);
    }
    let mut o = WriteOptions::new();
    o = match w.draw(4) {
        0 => o,
        1 => o.with_indent(IndentStyle::NoIndentation),
        2 => {
            let n = if w.chance(1, 12) { *w.pick(&[5usize, 7, 16, 31, 32, 33, 64]) } else { *w.pick(&[1usize, 2, 3, 4, 6, 8, 13]) };
            o.with_indent(IndentStyle::with_spaces(n.min(w.columns())))
        }
        _ => o.with_indent(IndentStyle::Tabs),
    };
    o = match w.draw(3) {
        0 => o,
        1 => o.with_line_terminator(LineTerminator::Windows),
        _ => o.with_line_terminator(LineTerminator::Unix),
    };
    let mut sf = [None; 3];
    if !exact_only && w.chance(1, 2) {
        for s in sf.iter_mut() {
            if w.chance(1, 2) {
                *s = Some(*w.pick(&[0usize, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 30, 45, 60, 11, 13, 14, 18, 19, 25, 38, 100, 149, 260]));
            }
        }
        o = o
            .with_offset_significant_figures(sf[0])
            .with_frame_time_significant_figures(sf[1])
            .with_motion_values_significant_figures(sf[2]);
    }
    (o, sf, false)
}
