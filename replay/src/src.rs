//! A recorded source of choices: every generated case is a function of these bytes, so a failing
//! case is replayed exactly from them and can be shrunk by editing them.

pub struct Src {
	pub data: Vec<u8>,
	pub pos: usize,
	rng: Option<u64>,
	/// No payload with anything to stuff (for the properties that have nothing to do with stuffing).
	pub plain: bool,
}

impl Src {
	pub fn random(seed: u64) -> Self {
		Self { data: Vec::new(), pos: 0, rng: Some(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03), plain: false }
	}
	pub fn replay(data: Vec<u8>) -> Self {
		Self { data, pos: 0, rng: None, plain: false }
	}
	fn next_random(state: &mut u64) -> u64 {
		*state = state.wrapping_add(0x9E3779B97F4A7C15);
		let mut z = *state;
		z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
		z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
		z ^ (z >> 31)
	}
	pub fn u8(&mut self) -> u8 {
		if self.pos >= self.data.len() {
			let v = match &mut self.rng {
				Some(s) => Self::next_random(s) as u8,
				None => 0,
			};
			self.data.push(v);
		}
		self.pos += 1;
		self.data[self.pos - 1]
	}
	pub fn u16(&mut self) -> u16 {
		u16::from_le_bytes([self.u8(), self.u8()])
	}
	pub fn u32(&mut self) -> u32 {
		u32::from_le_bytes([self.u8(), self.u8(), self.u8(), self.u8()])
	}
	/// A number of any width, also with the sign bit of a narrower type.
	pub fn wide32(&mut self) -> u32 {
		let v = self.u32();
		match self.u8() % 8 {
			0 => v & 0x7F,
			1 => v & 0xFF,
			2 => v & 0x7FFF,
			3 => v & 0xFFFF,
			4 => v | 0xFFFF_8000,
			5 => v & 0x7FFF_FFFF,
			_ => v,
		}
	}
	pub fn u128(&mut self) -> u128 {
		let mut r = 0u128;
		for i in 0..16 {
			r |= (self.byte() as u128) << (8 * i);
		}
		r
	}
	/// A number in 0..n.
	pub fn below(&mut self, n: usize) -> usize {
		if n <= 1 {
			0
		} else if n <= 256 {
			self.u8() as usize % n
		} else {
			self.u32() as usize % n
		}
	}
	pub fn chance(&mut self, one_in: usize) -> bool {
		self.below(one_in) == one_in - 1
	}
	/// A byte, biased to the ones with a meaning in the protocol.
	pub fn byte(&mut self) -> u8 {
		let b = self.special();
		if self.plain && b == 0xFD {
			0x3D
		} else {
			b
		}
	}
	fn special(&mut self) -> u8 {
		match self.u8() % 8 {
			0 | 1 => 0xFF,
			2 => 0xFD,
			3 => [0x00, 0x55, 0xFE, 0x01][self.below(4)],
			_ => self.u8(),
		}
	}
	/// An arbitrary payload with many (partial) stuffing and header patterns.
	pub fn payload(&mut self, max: usize) -> Vec<u8> {
		let max = match self.u8() % 16 {
			0 => 0,
			1..=9 => max.min(12),
			10..=14 => max.min(150),
			_ => max,
		};
		let len = self.below(max + 1);
		self.payload_exact(len)
	}
	pub fn payload_exact(&mut self, len: usize) -> Vec<u8> {
		let mut out = Vec::with_capacity(len + 8);
		// Long payloads are expanded from a short recorded pattern.
		if len > 600 {
			let pattern = self.payload_exact(64);
			let mut x = self.u32() | 1;
			while out.len() < len {
				x = x.wrapping_mul(1664525).wrapping_add(1013904223);
				if x >> 28 == 0 {
					out.push((x >> 8) as u8);
				}
				out.push(pattern[(x >> 16) as usize % 64]);
			}
			out.truncate(len);
			return out;
		}
		while out.len() < len {
			match self.u8() % 16 {
				0 | 1 => out.extend([0xFF, 0xFF, 0xFD]),
				2 => out.extend([0xFF, 0xFF, 0xFD, 0xFD]),
				3 => out.extend([0xFF, 0xFF, 0xFF, 0xFD]),
				4 => out.extend([0xFF, 0xFF, 0xFD, 0x00]),
				5..=8 => out.push(self.byte()),
				_ => out.push(self.u8()),
			}
		}
		out.truncate(len);
		if self.plain {
			out.iter_mut().filter(|b| **b == 0xFD).for_each(|b| *b = 0x3D);
		}
		out
	}
	pub fn id(&mut self) -> u8 {
		match self.u8() % 8 {
			0 => 0xFE,
			1 => 0xFF,
			2 => 0,
			3 => 0xFC,
			4 => 1,
			_ => self.u8(),
		}
	}
	pub fn instr(&mut self) -> u8 {
		if self.chance(4) {
			self.byte()
		} else {
			[1, 2, 3, 4, 5, 6, 8, 0x10, 0x82, 0x83, 0x92, 0x93, 0x55][self.below(13)]
		}
	}
	pub fn addr(&mut self) -> u16 {
		u16::from_le_bytes([self.byte(), self.byte()])
	}
}
