//! Shortens and lowers a failing tape while the failure keeps its signature.
pub fn shrink(tape: &[u64], budget: usize, mut fails: impl FnMut(&[u64]) -> Option<Vec<u64>>) -> Vec<u64> {
	let mut best = tape.to_vec();
	let mut left = budget;
	// Ok(true): improved
	let mut attempt = |cand: &[u64], best: &mut Vec<u64>, left: &mut usize| -> bool {
		if *left == 0 || cand == &best[..] {
			return false;
		}
		*left -= 1;
		if let Some(used) = fails(cand) {
			if (used.len(), &used) < (best.len(), best) {
				*best = used;
				return true;
			}
		}
		false
	};
	loop {
		let before = best.clone();
		let mut k = (best.len() / 2).max(1);
		while k >= 1 {
			let mut i = best.len();
			while i >= k {
				let at = i - k;
				let mut cand = best.clone();
				cand.drain(at..(at + k).min(best.len()));
				if !attempt(&cand, &mut best, &mut left) {
					i -= 1.max(k / 2);
				} else {
					i = i.min(best.len());
				}
			}
			k = if k > 8 { k / 2 } else { k - 1 };
		}
		for i in (0..best.len()).rev() {
			if i >= best.len() || best[i] == 0 {
				continue;
			}
			let mut cand = best.clone();
			cand[i] = 0;
			if attempt(&cand, &mut best, &mut left) {
				continue;
			}
			let (mut lo, mut hi) = (0, best[i]);
			while lo + 1 < hi {
				let mid = lo + (hi - lo) / 2;
				let mut cand = best.clone();
				if i >= cand.len() {
					break;
				}
				cand[i] = mid;
				if attempt(&cand, &mut best, &mut left) {
					hi = mid;
				} else {
					lo = mid;
				}
			}
			// lower this one while deleting what follows it (a shorter list)
			for k in 1..4usize {
				if i < best.len() && best[i] > 0 && i + k < best.len() {
					let mut cand = best.clone();
					cand[i] -= 1;
					cand.drain(i + 1..i + 1 + k);
					attempt(&cand, &mut best, &mut left);
				}
			}
		}
		if best == before || left == 0 {
			return best;
		}
	}
}
