//! The only source of randomness of a run.
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
	pub fn new(seed: u64) -> Self {
		Rng(seed ^ 0x9e37_79b9_7f4a_7c15)
	}
	pub fn next(&mut self) -> u64 {
		self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
		let mut z = self.0;
		z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
		z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
		z ^ (z >> 31)
	}
	pub fn below(&mut self, n: u64) -> u64 {
		if n == 0 {
			0
		} else {
			self.next() % n
		}
	}
	pub fn idx(&mut self, n: usize) -> usize {
		self.below(n as u64) as usize
	}
	pub fn range(&mut self, a: u64, b: u64) -> u64 {
		a + self.below(b - a + 1)
	}
	/// true in `pct` percent of the cases
	pub fn pct(&mut self, pct: u64) -> bool {
		self.below(100) < pct
	}
	pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
		&v[self.idx(v.len())]
	}
	pub fn bytes(&mut self, n: usize) -> Vec<u8> {
		(0..n).map(|_| self.next() as u8).collect()
	}
	pub fn shuffle<T>(&mut self, v: &mut [T]) {
		for i in (1..v.len()).rev() {
			v.swap(i, self.idx(i + 1));
		}
	}
}
