#!/usr/bin/env python3
"""Writes sim/src/lits.rs: literal documents for the bvh! macro, drawn once and for all."""
import os, random
R = random.Random(20261119)
CH = ["Xposition", "Yposition", "Zposition", "Xrotation", "Yrotation", "Zrotation"]
NAMES = ["Hips", "End", "Site", "JOINT", "ROOT", "OFFSET", "CHANNELS", "MOTION", "HIERARCHY", "Frames", "Frame", "Time", "_x1", "fn", "mod",
         "Left_Toe_Base_of_the_Skeleton_of_a_very_large_animal", "ÅngStröm", "a", "Z9", "builder", "bvh", "joint", "Xposition", "Chest", "Neck", "head", "HEAD"]
def num():
    k = R.randrange(12)
    if k == 0: return R.choice(["0.0", "-0.0", "1.0", "-1.0", "0.5"])
    if k == 1: return R.choice(["3.4028235e38", "-3.4028235e38", "1e-45", "1.17549435e-38", "1e-3", "-2.5E4", "16777217.0", "0.1", "0.30000001", "33554433.0", "8388609.5"])
    if k < 5: return "%.6f" % R.uniform(-360, 360)
    if k < 7: return "%.3f" % R.uniform(-1, 1)
    if k < 8: return "%.12f" % R.uniform(-1e3, 1e3)
    return "%.1f" % R.randrange(-500, 500)
def joint(out, depth, left, shape):
    """A joint's inside, at most `left` joints below it; returns how many there were."""
    n = shape["ch"]()
    ind = "    " * depth
    out.append(ind + "OFFSET %s %s %s" % (num(), num(), num()))
    cs = [R.choice(CH) for _ in range(n)]
    if R.random() < 0.4 and n <= 6: cs = R.sample(CH, n)
    out.append((ind + "CHANNELS %d %s" % (n, " ".join(cs))).rstrip())
    shape["total"] += n
    used = 0
    kids = 0 if depth >= shape["deep"] or left <= 0 else shape["kids"]()
    for _ in range(kids):
        if used >= left: break
        out.append(ind + "JOINT " + R.choice(NAMES)); out.append(ind + "{")
        used += 1 + joint(out, depth + 1, left - used - 1, shape)
        out.append(ind + "}")
    if used == 0 and R.random() < 0.8:
        out.append(ind + "End Site"); out.append(ind + "{")
        out.append(ind + "    OFFSET %s %s %s" % (num(), num(), num())); out.append(ind + "}")
    return used
def doc(i):
    out = ["HIERARCHY", "ROOT " + R.choice(NAMES), "{"]
    k = i % 8
    shape = {"total": 0, "deep": 2 + R.randrange(7), "kids": lambda: R.choice([1, 1, 2, 2, 3]), "ch": lambda: R.choice([0, 1, 2, 3, 3, 3, 6])}
    most = R.randrange(1, 9)
    if k == 0: shape["deep"], shape["kids"], most = 12, lambda: 1, 10          # a chain
    if k == 1: shape["deep"], shape["kids"], most = 2, lambda: 9, 8            # a star
    if k == 2: shape["ch"] = lambda: R.randrange(10)
    if k == 3: most = 0
    if i < 10: shape["ch"] = lambda: i
    if k == 4: shape["deep"], most = 6, 16
    joint(out, 1, most, shape)
    out += ["}", "MOTION"]
    n = R.choice([0, 1, 2, 3, 5]) if shape["total"] else 0
    if n * shape["total"] > 90: n = 1
    out.append("Frames: %d" % n)
    out.append("Frame Time: " + R.choice(["0.033333333333", "0.016666667", "1", "0.0", "0.5", "1e-9", "0.000000001499", "2.5", "86400.25", "0.0083333333", "12"]))
    for _ in range(n): out.append(" ".join(num() for _ in range(shape["total"])))
    return out
def main():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    N = 48
    s = "// Written by tools/gen_literals.py.\nuse bvh_anim::{bvh, Bvh};\nmacro_rules! lit {\n    ($($t:tt)*) => { (bvh! { $($t)* }, stringify!($($t)*)) };\n}\npub const COUNT: usize = %d;\n" % N
    for i in range(N):
        s += "#[inline(never)]\nfn lit%d() -> (Bvh, &'static str) {\n    lit! {\n" % i + "".join("        " + l + "\n" for l in doc(i)) + "    }\n}\n"
    s += "pub fn literal(i: usize) -> (Bvh, &'static str) {\n    [" + ", ".join("lit%d" % i for i in range(N)) + "][i]()\n}\n"
    s += """/// Literals without a skeleton, each with its frame time in nanoseconds.
pub fn bare(i: usize) -> (Bvh, u64) {
    match i {
        0 => (bvh! {}, 0),
        1 => (bvh! { HIERARCHY MOTION }, 0),
        2 => (bvh! { HIERARCHY MOTION Frames: 0 }, 0),
        3 => (bvh! { HIERARCHY MOTION Frames: 0 Frame Time: 0.25 }, 250_000_000),
        _ => (bvh! { HIERARCHY MOTION Frames: 0 Frame Time: 2 }, 2_000_000_000),
    }
}
"""
    open(os.path.join(here, "sim/src/lits.rs"), "w").write(s)
main()
