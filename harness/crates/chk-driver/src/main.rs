//! Checks of p4-analyzer: the native file system and the drivers.
mod buffers;
mod ends;
mod frames;
mod fs;

use pbt::{Property, Target};

fn c27() -> Property {
	Property {
		id: "C27",
		targets: vec![
			Target { name: "buffers", quick: 60_000, thorough: 2_000_000, rule: "messages are delivered, and a delivery was due while an operation was carried out", run: buffers::case },
			Target { name: "driver", quick: 2_400, thorough: 40_000, rule: "at least one message passes the driver", run: ends::driver },
			Target { name: "console", quick: 1_200, thorough: 40_000, rule: "at least one message passes the driver", run: ends::console },
		],
		pinned: vec![],
		assumptions: vec![
			"sequentially consistent memory; in 'buffers', threads may be interleaved before and after each operation on a lock, and sleeping takes any amount of time",
			"one thread uses the buffers at a time, next to the driver's own two; no more than usize::MAX messages are released",
			"in 'driver' and 'console' the interleaving is up to the operating system",
		],
	}
}

fn main() {
	if std::env::var_os(ends::CHILD).is_some() {
		return ends::console_child();
	}
	pbt::main(vec![fs::property(), c27()])
}
