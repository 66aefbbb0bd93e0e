//! The simulated disk: files as byte vectors behind a write-back cache of small sectors, with fsync,
//! rename, crashes that drop or tear unsynced sectors, and the ways stored bytes get damaged.
use crate::world::*;
use std::collections::BTreeMap;
use std::io::{self, Write};
use std::sync::{Arc, Mutex};

#[derive(Clone, Default)]
struct Inode {
    durable: Vec<u8>,
    cache: Vec<u8>,
}
pub struct DiskState {
    sector: usize,
    inodes: Vec<Inode>,
    /// Directory as programs see it, and as it would survive.
    names: BTreeMap<&'static str, usize>,
    durable_names: BTreeMap<&'static str, usize>,
    /// I/O steps until the machine dies.
    pub fuse: Option<u64>,
    pub steps: u64,
    /// Bytes the disk can still take.
    pub space: Option<usize>,
}
#[derive(Clone)]
pub struct SimDisk {
    pub w: W,
    st: Arc<Mutex<DiskState>>,
}
impl SimDisk {
    pub fn new(w: &W, sector: usize) -> SimDisk {
        SimDisk {
            w: w.clone(),
            st: Arc::new(Mutex::new(DiskState {
                sector,
                inodes: Vec::new(),
                names: BTreeMap::new(),
                durable_names: BTreeMap::new(),
                fuse: None,
                steps: 0,
                space: None,
            })),
        }
    }
    pub fn st(&self) -> std::sync::MutexGuard<'_, DiskState> {
        self.st.lock().unwrap_or_else(|p| p.into_inner())
    }
    /// One I/O step; the machine may die here.
    fn step(&self, what: &'static str) {
        let mut s = self.st();
        s.steps += 1;
        self.w.tick(50_000);
        self.w.ev(what, s.steps, 0);
        if let Some(f) = s.fuse {
            if f == 0 {
                drop(s);
                self.w.fault("crash");
                sim_panic("crash");
            }
            s.fuse = Some(f - 1);
        }
    }
    pub fn create(&self, name: &'static str) -> SimFile {
        self.step("create");
        let mut s = self.st();
        let id = match s.names.get(name) {
            Some(&i) => {
                s.inodes[i].cache.clear();
                i
            }
            None => {
                s.inodes.push(Inode::default());
                let i = s.inodes.len() - 1;
                s.names.insert(name, i);
                i
            }
        };
        SimFile { d: self.clone(), id, pol: None, gone: Default::default() }
    }
    pub fn fsync(&self, name: &'static str) {
        self.step("fsync");
        let mut s = self.st();
        if let Some(&i) = s.names.get(name) {
            let c = s.inodes[i].cache.clone();
            s.inodes[i].durable = c;
        }
    }
    pub fn rename(&self, from: &'static str, to: &'static str) {
        self.step("rename");
        let mut s = self.st();
        if let Some(i) = s.names.remove(from) {
            s.names.insert(to, i);
        }
    }
    pub fn sync_dir(&self) {
        self.step("sync-dir");
        let mut s = self.st();
        s.durable_names = s.names.clone();
    }
    pub fn read(&self, name: &'static str) -> Option<Vec<u8>> {
        let s = self.st();
        s.names.get(name).map(|&i| s.inodes[i].cache.clone())
    }
    /// Power goes: unsynced sectors each survive, vanish or tear; unsynced names too.
    pub fn crash(&self, r: &mut Rng) {
        self.w.fault("power-loss");
        let mut s = self.st();
        let sector = s.sector;
        let mut lost = 0;
        let mut torn = 0;
        for n in s.inodes.iter_mut() {
            if n.cache != n.durable {
                let old = n.durable.clone();
                let len = match r.below(3) {
                    0 => old.len(),
                    1 => n.cache.len(),
                    _ => {
                        let a = old.len().min(n.cache.len());
                        let b = old.len().max(n.cache.len());
                        a + r.below((b - a + 1) as u64) as usize
                    }
                };
                let mut v = vec![0u8; len];
                let mut k = 0;
                while k < len {
                    let e = (k + sector).min(len);
                    let cut = match r.below(4) {
                        0 => {
                            lost += 1;
                            k
                        }
                        1 => {
                            torn += 1;
                            k + r.below((e - k + 1) as u64) as usize
                        }
                        _ => e,
                    };
                    for p in k..e {
                        let src = if p < cut { &n.cache } else { &old };
                        v[p] = src.get(p).copied().unwrap_or(0);
                    }
                    k = e;
                }
                n.durable = v.clone();
                n.cache = v;
            }
        }
        if s.names != s.durable_names && r.below(2) == 0 {
            s.durable_names = s.names.clone();
        }
        s.names = s.durable_names.clone();
        s.fuse = None;
        drop(s);
        if lost > 0 {
            self.w.fault_n("lost-sector", lost);
        }
        if torn > 0 {
            self.w.fault_n("torn-sector", torn);
        }
    }
}
pub struct SimFile {
    d: SimDisk,
    id: usize,
    pub pol: Option<(Rng, usize)>,
    /// The client is done; what its buffers still push out on being dropped is ignored.
    pub gone: Arc<std::sync::atomic::AtomicBool>,
}
impl Write for SimFile {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if self.gone.load(std::sync::atomic::Ordering::Relaxed) {
            return Ok(buf.len());
        }
        if buf.is_empty() {
            return Ok(0);
        }
        self.d.step("disk-write");
        let mut k = buf.len();
        if let Some((r, n)) = &mut self.pol {
            if r.below(8) == 0 {
                self.d.w.fault("write-interrupted");
                return Err(io::Error::from_raw_os_error(4));
            }
            k = k.min(1 + r.below(*n as u64) as usize);
            if k < buf.len() {
                self.d.w.fault("short-write");
            }
        }
        let mut s = self.d.st();
        if let Some(sp) = s.space {
            if sp == 0 {
                drop(s);
                self.d.w.fault("disk-full");
                return Err(io::Error::from_raw_os_error(28));
            }
            k = k.min(sp);
            s.space = Some(sp - k);
        }
        let id = self.id;
        s.inodes[id].cache.extend_from_slice(&buf[..k]);
        Ok(k)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// One kind of damage to stored bytes.
pub fn damage(w: &mut W, b: &mut Vec<u8>) {
    let kind = w.weighted(&[4, 2, 2, 4, 4, 3, 3, 3, 2, 3, 3, 4]);
    if b.is_empty() {
        return;
    }
    let n = b.len();
    match kind {
        0 => {
            let i = w.upto(n - 1);
            let bit = w.draw(8);
            b[i] ^= 1 << bit;
            w.fault("bit-rot");
        }
        1 => {
            let i = w.upto(n - 1);
            let v = w.draw(256) as u8;
            b[i] = v;
            w.fault("byte-rot");
        }
        2 => {
            let k = w.upto(n);
            b.truncate(k);
            w.fault("truncated-file");
        }
        3 => {
            with_lines(b, |ls| {
                let i = w.upto(ls.len() - 1);
                ls.remove(i);
            });
            w.fault("lost-line");
        }
        4 => {
            with_lines(b, |ls| {
                let i = w.upto(ls.len() - 1);
                let x = ls[i].clone();
                let j = w.upto(ls.len());
                ls.insert(j, x);
            });
            w.fault("duplicated-line");
        }
        5 => {
            with_lines(b, |ls| {
                let i = w.upto(ls.len() - 1);
                let j = w.upto(ls.len() - 1);
                ls.swap(i, j);
            });
            w.fault("misdirected-lines");
        }
        6 => {
            // A block of lines is written again elsewhere.
            with_lines(b, |ls| {
                let i = w.upto(ls.len() - 1);
                let k = 1 + w.upto((ls.len() - 1 - i).min(8));
                let x: Vec<_> = ls[i..i + k.min(ls.len() - i)].to_vec();
                let j = w.upto(ls.len());
                for (o, l) in x.into_iter().enumerate() {
                    ls.insert(j + o, l);
                }
            });
            w.fault("duplicated-block");
        }
        7 => {
            let sec = *w.pick(&[8usize, 16, 64, 512]);
            let i = w.upto((n - 1) / sec) * sec;
            let e = (i + sec).min(n);
            b.drain(i..e);
            w.fault("lost-sector");
        }
        8 => {
            let sec = *w.pick(&[8usize, 16, 64, 512]);
            let i = w.upto((n - 1) / sec) * sec;
            let e = (i + sec).min(n);
            for x in &mut b[i..e] {
                *x = 0;
            }
            w.fault("zeroed-sector");
        }
        9 => {
            let sec = *w.pick(&[8usize, 16, 64, 512]);
            let i = w.upto((n - 1) / sec) * sec;
            let e = (i + sec).min(n);
            let x = b[i..e].to_vec();
            let j = (w.upto((n - 1) / sec) * sec).min(n);
            let e2 = (j + x.len()).min(n);
            b[j..e2].copy_from_slice(&x[..e2 - j]);
            w.fault("misdirected-sector");
        }
        10 => {
            // Bytes of another file show up in the middle.
            let k = 1 + w.upto(8);
            let i = w.upto(n);
            let pool: &[u8] = b"}{ \n\r\t:-+.eE0123456789JOINTROEndSiteCHANNELS\xff\x00\xc2\xa0";
            let ins: Vec<u8> = (0..k).map(|_| *w.pick(pool)).collect();
            b.splice(i..i, ins);
            w.fault("stray-bytes");
        }
        _ => {
            // A word is overwritten by another word of the format.
            let words: &[&str] = &["{", "}", "JOINT", "ROOT", "End", "Site", "End Site", "OFFSET",
                "CHANNELS", "HIERARCHY", "MOTION", "Frames:", "Frame", "Time:", "Xposition",
                "-1", "0", "1", "18446744073709551615", "9223372036854775808", "4294967296", "1e400",
                "nan", "-nan", "inf", "-inf", "1e-400", "-0.0", "", "\n", "99999999999999999999999"];
            let mut spans = Vec::new();
            let mut i = 0;
            while i < n && spans.len() < 5000 {
                while i < n && b[i].is_ascii_whitespace() {
                    i += 1;
                }
                let s = i;
                while i < n && !b[i].is_ascii_whitespace() {
                    i += 1;
                }
                if i > s {
                    spans.push((s, i));
                }
            }
            if !spans.is_empty() {
                let (s, e) = *w.pick(&spans);
                let x = *w.pick(words);
                b.splice(s..e, x.bytes());
            }
            w.fault("overwritten-word");
        }
    }
}
fn with_lines(b: &mut Vec<u8>, f: impl FnOnce(&mut Vec<Vec<u8>>)) {
    let mut ls: Vec<Vec<u8>> = b.split_inclusive(|&c| c == b'\n').map(|l| l.to_vec()).collect();
    if ls.is_empty() {
        return;
    }
    f(&mut ls);
    *b = ls.concat();
}
