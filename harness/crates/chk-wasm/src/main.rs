//! C30: the WebAssembly server, built natively with a stand-in for JavaScript.
#[path = "../../chk-host/src/exec.rs"]
mod exec;
mod glue;
#[allow(dead_code)]
#[path = "../../chk-host/src/session.rs"]
mod session;

fn main() { pbt::main(vec![glue::c30()]) }
