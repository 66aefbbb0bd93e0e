pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c15;
pub mod c17;
pub mod c18;
pub mod c19;
pub mod c20;
pub mod c21;
pub mod c22;
pub mod c23;
pub mod c24;

use crate::world::*;

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&mut W) -> Verdict,
    /// Run counts per tier.
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
}

pub const ALL: &[Prop] = &[
    c01::PROP, c02::PROP, c03::PROP, c04::PROP, c05::PROP, c06::PROP, c07::PROP, c08::PROP,
    c09::PROP, c10::PROP, c11::PROP, c12::PROP, c13::PROP, c15::PROP, c17::PROP, c18::PROP,
    c19::PROP, c20::PROP, c21::PROP, c22::PROP, c23::PROP, c24::PROP,
];
