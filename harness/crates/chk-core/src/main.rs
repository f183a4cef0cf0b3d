//! Checks of analyzer-core.
mod c01;
mod docs;
mod expr;
mod lexing;
mod peg;
mod pre;
mod text;

fn main() { pbt::main(vec![c01::c01(), c01::c02(), peg::c22(), peg::c23(), lexing::c11(), lexing::c12(), lexing::c13(), pre::c14(), pre::c15(), pre::c16(), pre::c17(), pre::c18()]) }
