//! The source of choices.
#[derive(Clone)]
pub struct Rng(u64, u64);

impl Rng {
	pub fn new(seed: u64) -> Self {
		let mut s = Self(seed ^ 0x9e3779b97f4a7c15, seed.rotate_left(32) ^ 0xd1b54a32d192ed03);
		for _ in 0..4 {
			s.next();
		}
		s
	}

	pub fn next(&mut self) -> u64 {
		// splitmix64 over a 128 bit state
		self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
		let mut z = self.0 ^ self.1.rotate_left(17);
		z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
		z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
		z ^= z >> 31;
		self.1 = self.1.wrapping_mul(0x5851f42d4c957f2d).wrapping_add(z | 1);
		z
	}
}

pub struct Src {
	prefix: Vec<u64>,
	rng: Option<Rng>,
	/// The choices actually made, each within its bound.
	pub tape: Vec<u64>,
	log: Option<std::fs::File>,
}

impl Src {
	pub fn random(seed: u64) -> Self { Self { prefix: vec![], rng: Some(Rng::new(seed)), tape: vec![], log: None } }

	/// Choices come from `tape`; past its end they are all 0.
	pub fn replay(tape: &[u64]) -> Self { Self { prefix: tape.to_vec(), rng: None, tape: vec![], log: None } }

	/// Choices come from `tape`, and past its end from `seed`.
	pub fn resume(tape: &[u64], seed: u64) -> Self {
		Self { prefix: tape.to_vec(), rng: Some(Rng::new(seed)), tape: vec![], log: None }
	}

	pub fn log_to(mut self, path: &str) -> Self {
		self.log = Some(std::fs::File::create(path).unwrap());
		self
	}

	/// A number in `0..n`; shrinks to 0.
	pub fn below(&mut self, n: u64) -> u64 {
		let n = n.max(1);
		let i = self.tape.len();
		let v = match (self.prefix.get(i), &mut self.rng) {
			(Some(v), _) => (*v).min(n - 1),
			(None, Some(r)) => ((r.next() as u128 * n as u128) >> 64) as u64,
			(None, None) => 0,
		};
		self.tape.push(v);
		if let Some(f) = &mut self.log {
			use std::io::Write;
			let _ = f.write_all(format!("{v}\n").as_bytes());
		}
		v
	}

	pub fn usize(&mut self, n: usize) -> usize { self.below(n as u64) as usize }

	/// A number in `lo..=hi`; shrinks to `lo`.
	pub fn range(&mut self, lo: u64, hi: u64) -> u64 { lo + self.below(hi - lo + 1) }

	pub fn bool(&mut self) -> bool { self.below(2) == 1 }

	/// True with probability num/den; shrinks to false.
	pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) >= den - num }

	pub fn u64(&mut self) -> u64 { self.below(u64::MAX) }

	pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T { &items[self.usize(items.len())] }

	/// Index chosen with the given weights; shrinks towards 0.
	pub fn weighted(&mut self, weights: &[u64]) -> usize {
		let mut v = self.below(weights.iter().sum());
		for (i, w) in weights.iter().enumerate() {
			if v < *w {
				return i;
			}
			v -= w;
		}
		weights.len() - 1
	}

	/// A list with `0..=max` elements whose typical length is itself random.  Each element is preceded by its own
	/// "one more" choice, so that the shrinker can delete elements.
	pub fn list<T>(&mut self, max: usize, mut f: impl FnMut(&mut Src) -> T) -> Vec<T> {
		let mean = *[2u64, 4, 8, 16, 32].get(self.usize(5)).unwrap();
		let mean = mean.min(max as u64 + 1);
		let mut out = vec![];
		while out.len() < max && self.below(mean + 1) != 0 {
			out.push(f(self));
		}
		out
	}

	/// Like `list` with at least one element.
	pub fn list1<T>(&mut self, max: usize, mut f: impl FnMut(&mut Src) -> T) -> Vec<T> {
		let first = f(self);
		let mut rest = self.list(max - 1, f);
		rest.insert(0, first);
		rest
	}

	/// A string of `0..=max` characters from `alphabet`.
	pub fn string(&mut self, max: usize, alphabet: &[char]) -> String {
		self.list(max, |s| *s.pick(alphabet)).into_iter().collect()
	}

	/// Interesting integers: small, near powers of two, extreme.
	pub fn int(&mut self) -> i64 {
		match self.weighted(&[6, 3, 2, 1]) {
			0 => self.below(10) as i64,
			1 => self.below(1000) as i64,
			2 => {
				let p = self.below(63);
				let d = self.below(3) as i64 - 1;
				(1i64 << p).wrapping_add(d)
			}
			_ => i64::MAX - self.below(3) as i64,
		}
	}
}
