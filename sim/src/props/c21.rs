//! C21: a misplaced or missing structural line is reported as what it is, at its own line.
use super::Prop;
use crate::doc::*;
use crate::ensure;
use crate::io::*;
use crate::world::*;
use bvh_anim::errors::{LoadErrorKind, LoadJointsError, LoadMotionError};
use std::sync::Arc;

pub const PROP: Prop = Prop {
    id: "C21",
    run,
    quick: 250_000,
    thorough: 9_000_000,
    rule: "a run stores one document, lets its hierarchy lose, repeat, exchange, gain or be cut at lines 1..3 times over (each time from the good copy, 1..3 faults), loads it and compares with what a grammar automaton says; non-trivial: the automaton names an error; distinct by hash of the event log",
    real: "bvh_anim loader and error types",
    stub: "the device behind BufRead; the disk",
};

/// What a line is to the grammar.
#[derive(Clone, Copy, Debug, PartialEq)]
enum L {
    Blank,
    Hierarchy,
    Root { named: bool },
    Joint { named: bool },
    Open,
    Close,
    Offset,
    Channels(usize),
    End { site: bool },
    /// The motion section's first line.
    Motion,
    /// Anything else.
    Other,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Want {
    Hierarchy,
    Root,
    Joint,
    EndSite,
    Brace,
    Name,
    Offset,
    Channels,
    /// At the end, of no line.
    MissingRoot,
    Motion,
}

#[derive(Default)]
struct Block {
    end: bool,
    offset: bool,
    channels: bool,
    some_channels: bool,
    kids: bool,
    site: bool,
}

/// The first line the format does not allow, and how it may be called. None if there is no such
/// line, or if something before it is of a kind loaders may well be of two minds about.
fn judge(ls: &[L]) -> Option<(Option<usize>, Vec<Want>)> {
    #[derive(PartialEq)]
    enum At {
        Start,
        AfterHierarchy,
        Header,
        EndHeader,
        Body,
        Done,
    }
    let mut at = At::Start;
    let mut open: Vec<Block> = Vec::new();
    let mut doubt = false;
    for (i, l) in ls.iter().enumerate() {
        let bad = |w: &[Want]| Some((Some(i), w.to_vec()));
        if at == At::Done {
            match l {
                L::Blank => continue,
                L::Motion => return None,
                _ => return if doubt { None } else { bad(&[Want::Motion]) },
            }
        }
        let err = match *l {
            L::Blank => None,
            L::Motion | L::Other => {
                // Lines of no known keyword are comments to this loader.
                None
            }
            L::Hierarchy => {
                if at == At::Start {
                    at = At::AfterHierarchy;
                    None
                } else {
                    Some(vec![Want::Hierarchy])
                }
            }
            L::Root { named } => {
                if at == At::AfterHierarchy {
                    if named {
                        at = At::Header;
                        None
                    } else {
                        Some(vec![Want::Name])
                    }
                } else if named {
                    Some(vec![Want::Root])
                } else {
                    Some(vec![Want::Root, Want::Name])
                }
            }
            L::Open => match at {
                At::Header => {
                    open.push(Block::default());
                    at = At::Body;
                    None
                }
                At::EndHeader => {
                    open.push(Block { end: true, ..Block::default() });
                    at = At::Body;
                    None
                }
                _ => Some(vec![Want::Brace]),
            },
            L::Close => {
                if at == At::Body {
                    let b = open.pop().unwrap();
                    // Blocks without all they should have.
                    if !b.offset || (!b.end && !b.channels) {
                        doubt = true;
                    }
                    if open.is_empty() {
                        at = At::Done;
                    }
                    None
                } else {
                    Some(vec![Want::Brace])
                }
            }
            L::Joint { named } => {
                let ok = at == At::Body && !open.last().unwrap().end;
                if ok {
                    let b = open.last_mut().unwrap();
                    if !named {
                        Some(vec![Want::Name])
                    } else {
                        if b.site || !b.offset || !b.channels {
                            doubt = true;
                        }
                        b.kids = true;
                        at = At::Header;
                        None
                    }
                } else if named {
                    Some(vec![Want::Joint])
                } else {
                    Some(vec![Want::Joint, Want::Name])
                }
            }
            L::End { site } => {
                let ok = site && at == At::Body && {
                    let b = open.last().unwrap();
                    !b.end && !b.kids && !b.site
                };
                if ok {
                    let b = open.last_mut().unwrap();
                    if !b.offset || !b.channels {
                        doubt = true;
                    }
                    b.site = true;
                    at = At::EndHeader;
                    None
                } else {
                    Some(vec![Want::EndSite])
                }
            }
            L::Offset => {
                let ok = at == At::Body && {
                    let b = open.last().unwrap();
                    !b.kids && !b.site
                };
                if ok {
                    let b = open.last_mut().unwrap();
                    // A second one, or one after the channels.
                    if b.offset || b.channels {
                        doubt = true;
                    }
                    b.offset = true;
                    None
                } else {
                    Some(vec![Want::Offset])
                }
            }
            L::Channels(n) => {
                let ok = at == At::Body && {
                    let b = open.last().unwrap();
                    !b.end && !b.kids && !b.site && !b.some_channels
                };
                if ok {
                    let b = open.last_mut().unwrap();
                    if b.channels || !b.offset {
                        doubt = true;
                    }
                    b.channels = true;
                    b.some_channels = n > 0;
                    None
                } else {
                    Some(vec![Want::Channels])
                }
            }
        };
        if let Some(e) = err {
            return if doubt { None } else { bad(&e) };
        }
    }
    if doubt {
        return None;
    }
    if at == At::Done {
        // Cut before the motion section, which is C03's.
        return None;
    }
    Some((None, vec![Want::MissingRoot]))
}

struct Line {
    l: L,
    bytes: Vec<u8>,
}

/// The lines of the hierarchy (and the first of the motion section), and what follows them.
fn lines_of(t: &Text) -> (Vec<Line>, Vec<u8>) {
    let motion = t.find(K::Motion).unwrap().line as usize;
    let mut kinds: Vec<L> = vec![L::Blank; motion + 1];
    for (i, k) in t.toks.iter().enumerate() {
        let line = k.line as usize;
        if line > motion {
            break;
        }
        match k.k {
            K::Hierarchy => kinds[line] = L::Hierarchy,
            K::Root => kinds[line] = L::Root { named: true },
            K::Joint => kinds[line] = L::Joint { named: true },
            K::Open => kinds[line] = L::Open,
            K::Close => kinds[line] = L::Close,
            K::OffsetKw => kinds[line] = L::Offset,
            K::ChannelsKw => {
                let n = t.toks[i + 1..].iter().take_while(|x| matches!(x.k, K::ChannelCount | K::Channel)).filter(|x| x.k == K::Channel).count();
                kinds[line] = L::Channels(n);
            }
            K::End => kinds[line] = L::End { site: true },
            K::Motion => kinds[line] = L::Motion,
            _ => {}
        }
    }
    let mut out = Vec::new();
    let mut pos = 0;
    for l in kinds {
        let e = t.bytes[pos..].iter().position(|&c| c == b'\n').map_or(t.bytes.len(), |p| pos + p + 1);
        out.push(Line { l, bytes: t.bytes[pos..e].to_vec() });
        pos = e;
    }
    (out, t.bytes[pos..].to_vec())
}

fn stray(w: &mut W) -> Line {
    let (l, s): (L, &str) = match w.draw(16) {
        0 => (L::Hierarchy, "HIERARCHY"),
        1 => (L::Root { named: true }, "ROOT stray"),
        2 => (L::Root { named: false }, "ROOT"),
        3 | 4 => (L::Joint { named: true }, "JOINT stray"),
        5 => (L::Joint { named: false }, "JOINT"),
        6 | 7 => (L::Open, "{"),
        8 | 9 => (L::Close, "}"),
        10 => (L::Offset, "OFFSET 1.5 2 -3"),
        11 => (L::Channels(2), "CHANNELS 2 Xrotation Zposition"),
        12 => (L::Channels(0), "CHANNELS 0"),
        13 => (L::End { site: true }, "End Site"),
        14 => (L::End { site: false }, *w.pick(&["End", "End site", "End Sit", "End Sites", "End 1 2 3", "End SITE"])),
        _ => (L::Blank, *w.pick(&["", "  ", "\t"])),
    };
    let mut bytes = Vec::new();
    bytes.resize(w.upto(3), b'\t');
    bytes.extend_from_slice(s.as_bytes());
    bytes.extend_from_slice(if w.chance(1, 4) { b"\r\n" } else { b"\n" });
    Line { l, bytes }
}

pub fn run(w: &mut W) -> Verdict {
    let scale = if w.chance(1, 12) { Scale::Any } else { Scale::Small };
    let (_, t) = gen_text(w, scale);
    let n = if t.bytes.len() < 5_000 { 1 + w.upto(2) } else { 1 };
    for _ in 0..n {
        let (mut ls, mut tail) = lines_of(&t);
        let faults = 1 + w.weighted(&[6, 2, 1]);
        for _ in 0..faults {
            if ls.len() < 3 {
                break;
            }
            let h = ls.len() - 1;
            let i = w.upto(h - 1);
            match w.weighted(&[6, 5, 2, 2, 2, 2, 1]) {
                0 => {
                    let x = stray(w);
                    ls.insert(w.upto(h), x);
                    w.fault("stray-line");
                }
                1 => {
                    ls.remove(i);
                    w.fault("lost-line");
                }
                2 => {
                    let to = w.upto(h);
                    let x = Line { l: ls[i].l, bytes: ls[i].bytes.clone() };
                    ls.insert(to, x);
                    w.fault("repeated-line");
                }
                3 => {
                    let j = w.upto(h - 1);
                    ls.swap(i, j);
                    w.fault("exchanged-lines");
                }
                4 => {
                    let x = ls.remove(i);
                    let to = w.upto(h - 1);
                    ls.insert(to, x);
                    w.fault("moved-line");
                }
                5 => {
                    // A header loses its second word.
                    let at = |x: &Line| matches!(x.l, L::Root { .. } | L::Joint { .. } | L::End { .. });
                    let heads: Vec<usize> = (0..h).filter(|&k| at(&ls[k])).collect();
                    if !heads.is_empty() {
                        let x = &mut ls[*w.pick(&heads)];
                        let (l, s) = match x.l {
                            L::Root { .. } => (L::Root { named: false }, "ROOT"),
                            L::Joint { .. } => (L::Joint { named: false }, "JOINT"),
                            _ => (L::End { site: false }, "End"),
                        };
                        *x = Line { l, bytes: [s.as_bytes(), w.pick(&[&b"\n"[..], b" \n", b"\r\n", b"\t\r\n"])].concat() };
                        w.fault("lost-word");
                    }
                }
                _ => {
                    // Nothing of the rest was stored.
                    ls.truncate(i);
                    tail.clear();
                    w.fault("lost-tail");
                }
            }
        }
        let mut b = Vec::new();
        for l in &ls {
            b.extend_from_slice(&l.bytes);
        }
        b.extend_from_slice(&tail);
        let kinds: Vec<L> = ls.iter().map(|l| l.l).collect();
        let (line, want) = match judge(&kinds) {
            Some(x) => x,
            None => {
                w.probe("no-fault-to-name");
                continue;
            }
        };
        w.mark();
        w.say(|| format!("expecting {:?} at {:?} of {:?}", want, line, String::from_utf8_lossy(&b[..b.len().min(900)])));
        let what = || match line {
            Some(k) => format!("line {} {:?} should be reported as {:?}", k, String::from_utf8_lossy(&ls[k].bytes[..ls[k].bytes.len().min(60)]), want),
            None => format!("the end of a hierarchy of {} lines should be reported as {:?}", ls.len(), want),
        };
        let r = SimReader::new(&w.clone(), Arc::new(b), &ReadPolicy::draw(w));
        let plug = Plug::draw(w);
        let e = match guard(|| plug.load(r)) {
            Ok(Ok(_)) => return violation("loaded", format!("{}: loaded all the same", what())),
            Ok(Err(e)) => e,
            Err(Caught::Lib(m)) => return violation("panic", format!("{}: panicked: {}", what(), m)),
            Err(Caught::Sim(s)) => return violation(s, what()),
        };
        let shown = format!("{:?}", e);
        use LoadErrorKind::{Joints, Motion};
        let got = match e.kind() {
            Joints(LoadJointsError::UnexpectedHierarchySection { .. }) => Want::Hierarchy,
            Joints(LoadJointsError::UnexpectedRootSection { .. }) => Want::Root,
            Joints(LoadJointsError::UnexpectedJointSection { .. }) => Want::Joint,
            Joints(LoadJointsError::UnexpectedEndSiteSection { .. }) => Want::EndSite,
            Joints(LoadJointsError::UnexpectedBrace { .. }) => Want::Brace,
            Joints(LoadJointsError::MissingJointName { .. }) => Want::Name,
            Joints(LoadJointsError::UnexpectedOffsetSection { .. }) => Want::Offset,
            Joints(LoadJointsError::UnexpectedChannelsSection { .. }) => Want::Channels,
            Joints(LoadJointsError::MissingRoot) => Want::MissingRoot,
            Motion(LoadMotionError::MissingMotionSection { .. }) => Want::Motion,
            k => return violation("kind", format!("{}: reported as {:?}", what(), k)),
        };
        ensure!(want.contains(&got), "kind", "{}: reported as {}", what(), shown);
        ensure!(e.line() == line, "line", "{}: reported at {:?}: {}", what(), e.line(), shown);
        w.probe(match got {
            Want::Hierarchy => "hierarchy",
            Want::Root => "root",
            Want::Joint => "joint",
            Want::EndSite => "end-site",
            Want::Brace => "brace",
            Want::Name => "name",
            Want::Offset => "offset",
            Want::Channels => "channels",
            Want::MissingRoot => "missing-root",
            Want::Motion => "motion",
        });
    }
    Ok(())
}
