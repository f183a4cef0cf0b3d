//! Checks of the p4analyzer program, as a process.
mod lsif;
mod options;
mod proc;
mod serve;

fn main() { pbt::main(vec![serve::c28(), options::c29(), lsif::c31()]) }
