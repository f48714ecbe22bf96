//! Executable reference, written from the DYNAMIXEL Protocol 2.0 manual and the property
//! statements only (bitwise CRC, window based stuffing, whole-stream parser).  Never calls the crate.

pub const PREFIX: [u8; 4] = [0xFF, 0xFF, 0xFD, 0x00];
pub const STATUS: u8 = 0x55;

pub fn crc(init: u16, data: &[u8]) -> u16 {
	let mut c = init;
	for b in data {
		c ^= (*b as u16) << 8;
		for _ in 0..8 {
			c = if c & 0x8000 != 0 { (c << 1) ^ 0x8005 } else { c << 1 };
		}
	}
	c
}

pub fn stuff(s: &[u8]) -> Vec<u8> {
	let mut out = Vec::with_capacity(s.len());
	for i in 0..s.len() {
		out.push(s[i]);
		if i >= 2 && s[i - 2..=i] == [0xFF, 0xFF, 0xFD] {
			out.push(0xFD);
		}
	}
	out
}

pub fn unstuff(s: &[u8]) -> Vec<u8> {
	let mut out = Vec::with_capacity(s.len());
	for i in 0..s.len() {
		if !(i >= 3 && s[i - 3..=i] == [0xFF, 0xFF, 0xFD, 0xFD]) {
			out.push(s[i]);
		}
	}
	out
}

/// Wire image of a packet, given the raw (already stuffed) body: instruction .. parameters.
pub fn frame_raw(id: u8, body: &[u8]) -> Vec<u8> {
	let len = body.len() + 2;
	let mut out = vec![0xFF, 0xFF, 0xFD, 0x00, id, len as u8, (len >> 8) as u8];
	out.extend(body);
	let c = crc(0, &out);
	out.push(c as u8);
	out.push((c >> 8) as u8);
	out
}

/// Wire image of a packet; None if the length field can not represent it.
pub fn frame(id: u8, instruction: u8, params: &[u8]) -> Option<Vec<u8>> {
	let mut body = vec![instruction];
	body.extend(params);
	let body = stuff(&body);
	if body.len() + 2 > 0xFFFF {
		None
	} else {
		Some(frame_raw(id, &body))
	}
}

pub fn status_frame(id: u8, error: u8, params: &[u8]) -> Option<Vec<u8>> {
	let mut p = vec![error];
	p.extend(params);
	frame(id, STATUS, &p)
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Rx {
	/// Unstuffed body: instruction ID followed by the parameters (with error field for status).
	Frame { id: u8, body: Vec<u8> },
	/// Length field that no packet can have.
	TooShort(usize),
	/// A packet that can not fit in the read buffer.
	TooLong(usize),
	BadCrc { message: u16, computed: u16 },
	/// A status packet without an error field.
	NoErrorField,
}

/// First position at which a header starts or may still start when more data arrives.
pub fn find_header(s: &[u8]) -> usize {
	(0..s.len())
		.find(|&i| {
			let n = (s.len() - i).min(4);
			s[i..i + n] == PREFIX[..n]
		})
		.unwrap_or(s.len())
}

/// What a receiver with a buffer of `cap` bytes has to report for the complete byte stream `s`.
/// Returns the report and the number of bytes of `s` it accounts for, or None if more data is needed.
pub fn parse(s: &[u8], cap: usize) -> Option<(Rx, usize)> {
	let g = find_header(s);
	let s = &s[g..];
	if s.len() <= 7 {
		return None;
	}
	let len = s[5] as usize | (s[6] as usize) << 8;
	if len < 3 {
		return Some((Rx::TooShort(len), g + 7));
	}
	if 7 + len > cap {
		return Some((Rx::TooLong(7 + len), g + 7));
	}
	if s.len() < 7 + len {
		return None;
	}
	let end = 7 + len - 2;
	let message = s[end] as u16 | (s[end + 1] as u16) << 8;
	let computed = crc(0, &s[..end]);
	let used = g + 7 + len;
	if message != computed {
		return Some((Rx::BadCrc { message, computed }, used));
	}
	let body = unstuff(&s[7..end]);
	if body[0] == STATUS && body.len() < 2 {
		return Some((Rx::NoErrorField, used));
	}
	Some((Rx::Frame { id: s[4], body }, used))
}

/// ceil(bytes * 10 / baud seconds) in nanoseconds; a baud rate of 0 counts as 1.
pub fn transfer_nanos(bytes: u64, baud: u32) -> u128 {
	let n = bytes as u128 * 10 * 1_000_000_000;
	n.div_ceil(baud.max(1) as u128)
}
