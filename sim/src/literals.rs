//! Documents made by the `bvh!` macro, each with the model parsed from the macro's own tokens.
#![allow(float_literal_f32_fallback)]
use crate::doc::*;
use bvh_anim::Bvh;
use std::time::Duration;
#[cfg(feature = "lits")]
use {crate::lits, bvh_anim::bvh};

#[cfg(feature = "lits")]
pub use crate::lits::bare;
#[cfg(not(feature = "lits"))]
pub fn bare(_: usize) -> (Bvh, u64) {
    unreachable!()
}

#[cfg(feature = "lits")]
macro_rules! lit {
    ($($t:tt)*) => { (bvh! { $($t)* }, stringify!($($t)*)) };
}

fn num(s: &str) -> Num {
    Num { text: s.to_string(), val: s.parse().unwrap() }
}

fn model(src: &str) -> Doc {
    let spaced = src.replace('{', " { ").replace('}', " } ").replace(':', " ").replace("- ", "-");
    let t: Vec<&str> = spaced.split_whitespace().collect();
    let mut i = 0;
    let mut joints: Vec<MJoint> = Vec::new();
    let mut path: Vec<usize> = Vec::new();
    let mut site = false;
    let mut nch = 0;
    loop {
        match t[i] {
            "HIERARCHY" | "{" => i += 1,
            "ROOT" | "JOINT" => {
                joints.push(MJoint {
                    name: t[i + 1].as_bytes().to_vec(),
                    parent: path.last().copied(),
                    depth: path.len(),
                    offset: [num("0"), num("0"), num("0")],
                    channels: vec![],
                    end_site: None,
                });
                path.push(joints.len() - 1);
                i += 2;
            }
            "End" => {
                site = true;
                i += 2;
            }
            "}" => {
                if site {
                    site = false;
                } else {
                    path.pop();
                }
                i += 1;
            }
            "OFFSET" => {
                let o = [num(t[i + 1]), num(t[i + 2]), num(t[i + 3])];
                let j = *path.last().unwrap();
                if site {
                    joints[j].end_site = Some(o);
                } else {
                    joints[j].offset = o;
                }
                i += 4;
            }
            "CHANNELS" => {
                let k: usize = t[i + 1].parse().unwrap();
                let j = *path.last().unwrap();
                for x in 0..k {
                    let c = CHAN.iter().position(|c| *c == t[i + 2 + x]).unwrap() as u8;
                    joints[j].channels.push(c);
                }
                nch += k;
                i += 2 + k;
            }
            "MOTION" => break,
            other => panic!("literal token {}", other),
        }
    }
    let nframes: usize = t[i + 2].parse().unwrap();
    let ft_text = t[i + 5].to_string();
    let ft = Duration::from_secs_f64(ft_text.parse().unwrap());
    let vtexts: Vec<Box<str>> = t[i + 6..].iter().map(|s| s.to_string().into_boxed_str()).collect();
    let vals = vtexts.iter().map(|s| s.parse().unwrap()).collect();
    Doc { joints, nch, nframes, ft_text, ft, vals, vtexts }
}

/// Whether this build has literals at all: they are left out when they do not compile.
pub const THERE: bool = cfg!(feature = "lits");

#[cfg(feature = "lits")]
pub const COUNT: usize = 7 + lits::COUNT;
#[cfg(not(feature = "lits"))]
pub const COUNT: usize = 1;

#[cfg(not(feature = "lits"))]
pub fn literal(_: usize) -> (Bvh, Doc) {
    panic!("literals do not compile")
}

#[cfg(feature = "lits")]
pub fn literal(i: usize) -> (Bvh, Doc) {
    if i >= 7 {
        let (b, s) = lits::literal(i - 7);
        return (b, model(s));
    }
    let (b, s) = match i {
        0 => lit! {
            HIERARCHY
            ROOT Base
            {
                OFFSET 0.0 0.5 -1.25
                CHANNELS 6 Xposition Yposition Zposition Zrotation Xrotation Yrotation
                JOINT Middle1
                {
                    OFFSET 0.0 0.0 15.0
                    CHANNELS 3 Zrotation Xrotation Yrotation
                    JOINT Tip1
                    {
                        OFFSET 0.0 0.0 30.0
                        CHANNELS 3 Zrotation Xrotation Yrotation
                        End Site
                        {
                            OFFSET 0.0 0.0 45.0
                        }
                    }
                }
                JOINT Middle2
                {
                    OFFSET 0.0 15.0 0.0
                    CHANNELS 3 Zrotation Xrotation Yrotation
                    JOINT Tip2
                    {
                        OFFSET 0.0 30.0 0.0
                        CHANNELS 3 Zrotation Xrotation Yrotation
                        End Site
                        {
                            OFFSET 0.0 45.0 0.0
                        }
                    }
                }
            }
            MOTION
            Frames: 2
            Frame Time: 0.033333333333
            0.0 1.0 2.0 3.0 4.0 5.0 6.0 7.0 8.0 9.0 10.0 11.0 12.0 13.0 14.0 15.0 16.0 17.0
            -0.5 1.0 2.0 3.0 4.0 5.0 6.0 7.0 8.0 9.0 10.0 11.0 12.0 13.0 14.0 15.0 16.0 17.125
        },
        1 => lit! {
            HIERARCHY
            ROOT Hips
            {
                OFFSET 1.0 2.0 3.0
                CHANNELS 3 Xposition Yposition Zposition
                End Site
                {
                    OFFSET 4.0 5.0 6.0
                }
            }
            MOTION
            Frames: 1
            Frame Time: 0.033333333
            0.1 0.2 0.3
        },
        2 => lit! {
            HIERARCHY
            ROOT Only
            {
                OFFSET 0.0 0.0 0.0
                CHANNELS 0
            }
            MOTION
            Frames: 0
            Frame Time: 1.0
        },
        3 => lit! {
            HIERARCHY
            ROOT A
            {
                OFFSET 0.0 0.0 0.0
                CHANNELS 1 Xposition
                JOINT B
                {
                    OFFSET 1.0 1.0 1.0
                    CHANNELS 2 Xrotation Zrotation
                }
                JOINT C
                {
                    OFFSET 2.0 2.0 2.0
                    CHANNELS 1 Yrotation
                    JOINT D
                    {
                        OFFSET 3.0 3.0 3.0
                        CHANNELS 1 Yposition
                        End Site
                        {
                            OFFSET 0.0 0.0 0.0
                        }
                    }
                    JOINT E
                    {
                        OFFSET 4.0 4.0 4.0
                        CHANNELS 0
                    }
                }
                JOINT F
                {
                    OFFSET 5.0 5.0 5.0
                    CHANNELS 1 Zposition
                    End Site
                    {
                        OFFSET 6.0 6.0 6.0
                    }
                }
            }
            MOTION
            Frames: 3
            Frame Time: 0.5
            1.0 2.0 3.0 4.0 5.0 6.0
            7.0 8.0 9.0 10.0 11.0 12.0
            13.0 14.0 15.0 16.0 17.0 18.0
        },
        4 => lit! {
            HIERARCHY
            ROOT Wide
            {
                OFFSET 0.0 0.0 0.0
                CHANNELS 9 Xposition Yposition Zposition Zrotation Xrotation Yrotation Xposition Yposition Zposition
                End Site
                {
                    OFFSET 0.0 0.0 1.0
                }
            }
            MOTION
            Frames: 1
            Frame Time: 0.25
            1.0 2.0 3.0 4.0 5.0 6.0 7.0 8.0 9.0
        },
        5 => lit! {
            HIERARCHY
            ROOT A
            {
                OFFSET 0.0 0.0 0.0
                CHANNELS 1 Xposition
                JOINT B
                {
                    OFFSET 0.0 1.0 0.0
                    CHANNELS 0
                    JOINT C
                    {
                        OFFSET 0.0 1.0 0.0
                        CHANNELS 0
                        JOINT D
                        {
                            OFFSET 0.0 1.0 0.0
                            CHANNELS 0
                        }
                    }
                }
                JOINT E
                {
                    OFFSET 0.0 1.0 0.0
                    CHANNELS 1 Zrotation
                }
            }
            MOTION
            Frames: 2
            Frame Time: 0.001
            1.5 2.5
            3.5 4.5
        },
        _ => lit! {
            HIERARCHY
            ROOT Eight
            {
                OFFSET -1.5 0.0 0.25
                CHANNELS 8 Xposition Yposition Zposition Zrotation Xrotation Yrotation Zposition Yposition
                JOINT X
                {
                    OFFSET 0.0 0.0 0.0
                    CHANNELS 6 Xrotation Yrotation Zrotation Xposition Yposition Zposition
                    End Site
                    {
                        OFFSET 0.5 0.5 0.5
                    }
                }
            }
            MOTION
            Frames: 0
            Frame Time: 0.04
        },
    };
    (b, model(s))
}
