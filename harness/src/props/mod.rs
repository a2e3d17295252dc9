use crate::case::Spec;
pub mod numgen;
pub mod c02;
pub mod c03;
pub mod geogen;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod meshgen;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c21;
pub mod c18;
pub mod c19;
pub mod c20;
pub mod c24;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c01;
pub mod c17;
pub mod c23;
pub mod c25;
pub mod c26;
pub mod c27;
pub mod c28;
pub mod c29;
pub mod c30;
pub mod c31;
pub mod c22;

pub fn all() -> &'static [Spec] {
    static S: &[Spec] = &[c02::SPEC, c03::SPEC, c04::SPEC, c05::SPEC, c06::SPEC, c07::SPEC, c08::SPEC, c09::SPEC, c10::SPEC, c11::SPEC, c12::SPEC, c21::SPEC, c18::SPEC, c19::SPEC, c20::SPEC, c24::SPEC, c13::SPEC, c14::SPEC, c15::SPEC, c16::SPEC, c01::SPEC, c17::SPEC, c23::SPEC, c25::SPEC, c26::SPEC, c27::SPEC, c28::SPEC, c29::SPEC, c30::SPEC, c31::SPEC, c22::SPEC];
    S
}
