//! Checks of analyzer-host and analyzer-abstractions.
mod docs;
mod exec;
mod index;
mod life;
mod meter;
mod pool;
mod rpc;
mod session;
mod trace;

fn main() { pbt::main(vec![rpc::c03(), rpc::c04(), pool::c20(), life::c05(), life::c06(), life::c19(), docs::c08(), docs::c09(), index::c07(), index::c10(), trace::c24()]) }
