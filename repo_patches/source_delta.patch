From a8fc19644a2c4ae475cca27a197ba43f3bd2f9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:36 +0000
Subject: [PATCH 01/18] fix: byte stuffing of patterns preceded by an extra
 0xFF

[FF, FF, FF, FD] was not stuffed and [FF, FF, FF, FD, FD] was not unstuffed,
so messages could contain the header prefix and did not survive a round trip.
---
 src/bus/bytestuff.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/bus/bytestuff.rs b/src/bus/bytestuff.rs
index 3033ff3..7e7764c 100644
--- a/src/bus/bytestuff.rs
+++ b/src/bus/bytestuff.rs
@@ -7,6 +7,17 @@ use crate::error::BufferTooSmallError;
 /// The unstuffed pattern is this with the last byte removed.
 pub const PATTERN: [u8; 4] = [0xFF, 0xFF, 0xFD, 0xFD];
 
+/// Get the number of bytes of [`PATTERN`] that are matched after a byte that does not continue a match of `state` bytes.
+///
+/// The mismatching byte can still be part of a new match: `[0xFF, 0xFF, 0xFF]` ends with the first two bytes of the pattern.
+fn restart_match(state: usize, byte: u8) -> usize {
+	match (state, byte) {
+		(2, 0xFF) => 2,
+		(_, 0xFF) => 1,
+		_ => 0,
+	}
+}
+
 /// Remove bit-stuffing in-place.
 ///
 /// All patterns of `[0xFF, 0xFF, 0xFD, 0xFD]` will be replaced with `[0xFF, 0xFF, 0xFD]`.
@@ -19,7 +30,7 @@ pub fn unstuff_inplace(data: &mut [u8]) -> usize {
 		if data[i] == PATTERN[state] {
 			state += 1;
 		} else {
-			state = 0;
+			state = restart_match(state, data[i]);
 		}
 		if state == 4 {
 			state = 0;
@@ -40,7 +51,7 @@ pub fn stuffing_required(data: &[u8]) -> usize {
 		if byte == PATTERN[state] {
 			state += 1;
 		} else {
-			state = 0;
+			state = restart_match(state, byte);
 		}
 		if state == PATTERN.len() - 1 {
 			state = 0;
-- 
2.43.0


From ed681b5df77a6f738f2970e5951459bf616fe541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:36 +0000
Subject: [PATCH 02/18] fix: report an error when the stuffed message and
 checksum do not fit

The checksum was written past the end of the write buffer if stuffing used up the space for it (panic),
and the length field overflowed for messages with a body of more than 65533 bytes.
---
 src/bus/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/bus/mod.rs b/src/bus/mod.rs
index 19eec2b..d4ef9ef 100644
--- a/src/bus/mod.rs
+++ b/src/bus/mod.rs
@@ -192,8 +192,11 @@ where
 	{
 		let buffer = self.write_buffer.as_mut();
 
+		// The length field limits the size of a message, even if the buffer is larger.
+		let max_message_len = buffer.len().min(HEADER_SIZE + usize::from(u16::MAX));
+
 		// Check if the buffer can hold the unstuffed message.
-		crate::error::BufferTooSmallError::check(InstructionPacket::message_len(parameter_count), buffer.len())?;
+		crate::error::BufferTooSmallError::check(InstructionPacket::message_len(parameter_count), max_message_len)?;
 
 		// Add the header, with a placeholder for the length field.
 		buffer[4] = packet_id;
@@ -205,7 +208,8 @@ where
 		// Perform bitstuffing on the body.
 		// The header never needs stuffing.
 		// However, strictly following the spec, the instruction ID might need stuffing.
-		let stuffed_body_len = bytestuff::stuff_inplace(&mut buffer[HEADER_SIZE..], 1 + parameter_count)?;
+		// Leave room for the checksum.
+		let stuffed_body_len = bytestuff::stuff_inplace(&mut buffer[HEADER_SIZE..max_message_len - 2], 1 + parameter_count)?;
 
 		endian::write_u16_le(&mut buffer[5..], stuffed_body_len as u16 + 2);
 
-- 
2.43.0


From 958f1e39caf3436408cae396a3523a7c490207dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:36 +0000
Subject: [PATCH 03/18] fix: overflow for impossibly large parameter counts

Writing a message with close to usize::MAX parameters panicked instead of reporting that the buffer is too small.
---
 src/bus/packet.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bus/packet.rs b/src/bus/packet.rs
index 63df41a..e6958b8 100644
--- a/src/bus/packet.rs
+++ b/src/bus/packet.rs
@@ -86,7 +86,7 @@ impl<'a> StatusPacket<'a> {
 
 	/// Calculate the size of a (unstuffed) status message with the given number of parameters.
 	pub(crate) const fn message_len(parameters: usize) -> usize {
-		super::HEADER_SIZE + 2 + parameters + 2
+		(super::HEADER_SIZE + 2 + 2).saturating_add(parameters)
 	}
 }
 
@@ -116,7 +116,7 @@ impl<'a> InstructionPacket<'a> {
 
 	/// Calculate the size of a (unstuffed) instruction message with the given number of parameters.
 	pub(crate) const fn message_len(parameters: usize) -> usize {
-		super::HEADER_SIZE + 1 + parameters + 2
+		(super::HEADER_SIZE + 1 + 2).saturating_add(parameters)
 	}
 }
 
-- 
2.43.0


From 8e2ea7e7910ba79cc654da0c392aae7e3adbc10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:36 +0000
Subject: [PATCH 04/18] fix: panic on received packets with a length field
 below 3

Such a packet does not even have an instruction ID and a checksum.
---
 src/bus/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/bus/mod.rs b/src/bus/mod.rs
index d4ef9ef..ad2b2fa 100644
--- a/src/bus/mod.rs
+++ b/src/bus/mod.rs
@@ -246,6 +246,16 @@ where
 				let read_buffer = &self.read_buffer.as_mut()[..self.read_len];
 				let body_len = endian::read_u16_le(&read_buffer[5..]) as usize;
 
+				// The body has atleast an instruction ID and the checksum.
+				if body_len < 3 {
+					self.consume_read_bytes(HEADER_SIZE);
+					return Err(crate::InvalidMessage::InvalidParameterCount(crate::InvalidParameterCount {
+						actual: body_len,
+						expected: crate::ExpectedCount::Min(3),
+					})
+					.into());
+				}
+
 				// Check if the read buffer is large enough for the entire message.
 				crate::error::BufferTooSmallError::check(HEADER_SIZE + body_len, self.read_buffer.as_mut().len()).inspect_err(|_| {
 					self.consume_read_bytes(HEADER_SIZE);
-- 
2.43.0


From 1c0efa7b9534a61a0366f37f4cfd34831bbee75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:36 +0000
Subject: [PATCH 05/18] fix: panic on received status packets without an error
 field

The count includes the instruction ID, so the existing check never triggered.
---
 src/bus/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bus/mod.rs b/src/bus/mod.rs
index ad2b2fa..2cc0719 100644
--- a/src/bus/mod.rs
+++ b/src/bus/mod.rs
@@ -300,8 +300,8 @@ where
 		let data = &self.read_buffer.as_ref()[..HEADER_SIZE + parameter_count];
 		let packet = packet::Packet { data };
 
-		// Ensure that status packets have an error field (included in parameter_count here).
-		if packet.instruction_id() == crate::instructions::instruction_id::STATUS && parameter_count < 1 {
+		// Ensure that status packets have an error field (the instruction ID and the error field are included in parameter_count here).
+		if packet.instruction_id() == crate::instructions::instruction_id::STATUS && parameter_count < 2 {
 			return Err(crate::InvalidMessage::InvalidParameterCount(crate::InvalidParameterCount {
 				actual: 0,
 				expected: crate::ExpectedCount::Min(1),
-- 
2.43.0


From 056ac80ab287aa834ba62ccb0b2970aaf9592ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:36 +0000
Subject: [PATCH 06/18] fix: Device::read_owned() reported bulk writes as bulk
 reads

---
 src/device.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/device.rs b/src/device.rs
index 19f18d3..a18d8e5 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -373,7 +373,7 @@ impl<'a> TryFrom<InstructionPacket<'a>> for Instruction<alloc::vec::Vec<u8>> {
 			Instructions::BulkRead { parameters } => Instructions::BulkRead {
 				parameters: parameters.to_owned(),
 			},
-			Instructions::BulkWrite { parameters } => Instructions::BulkRead {
+			Instructions::BulkWrite { parameters } => Instructions::BulkWrite {
 				parameters: parameters.to_owned(),
 			},
 			Instructions::Unknown { instruction, parameters } => Instructions::Unknown {
-- 
2.43.0


From 88cbd1018abba6487e5bb87d70a2795f8f882dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:36 +0000
Subject: [PATCH 07/18] fix: Client::sync_write() used a size of 1 for all
 types

---
 src/instructions/sync_write.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instructions/sync_write.rs b/src/instructions/sync_write.rs
index 6fe40c2..8f6a967 100644
--- a/src/instructions/sync_write.rs
+++ b/src/instructions/sync_write.rs
@@ -80,7 +80,7 @@ where
 		T: crate::bus::Data,
 	{
 		let data = data.into_iter();
-		let count = core::mem::size_of::<u8>();
+		let count = usize::from(T::ENCODED_SIZE);
 		let motors = data.len();
 		let stride = 1 + count;
 		let parameter_count = 4 + motors * stride;
-- 
2.43.0


From bef548eefa4074586dff3ef8cfaa11ba2e188e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:36 +0000
Subject: [PATCH 08/18] fix: Client::reg_write() used a size of 1 for all types

---
 src/instructions/reg_write.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instructions/reg_write.rs b/src/instructions/reg_write.rs
index f6c4b09..c9146a4 100644
--- a/src/instructions/reg_write.rs
+++ b/src/instructions/reg_write.rs
@@ -36,7 +36,7 @@ where
 	/// You may specify [`crate::instructions::packet_id::BROADCAST`] as motor ID.
 	/// If you do, none of the devices will reply with a response, and this function will not wait for any.
 	pub fn reg_write<T: Data>(&mut self, motor_id: u8, address: u16, value: &T) -> Result<Response<()>, TransferError<SerialPort::Error>> {
-		self.write_instruction(motor_id, instruction_id::REG_WRITE, 2 + 1, |buffer| {
+		self.write_instruction(motor_id, instruction_id::REG_WRITE, 2 + T::ENCODED_SIZE as usize, |buffer| {
 			write_u16_le(&mut buffer[0..], address);
 			value.encode(&mut buffer[2..])
 		})?;
-- 
2.43.0


From 36b08eb94304ce2358c109b9e29b43d1623a60f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:36 +0000
Subject: [PATCH 09/18] fix: decoding an array from a buffer of the wrong size

It panicked if the buffer was too small and ignored data if it was too big.
---
 src/bus/data.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bus/data.rs b/src/bus/data.rs
index 4875a70..f0bebb5 100644
--- a/src/bus/data.rs
+++ b/src/bus/data.rs
@@ -95,6 +95,7 @@ impl<T: Data, const N: usize> Data for [T; N] {
 
 	fn decode(buffer: &[u8]) -> Result<Self, crate::InvalidMessage> {
 		let encoded_size = T::ENCODED_SIZE as usize;
+		crate::InvalidParameterCount::check(buffer.len(), encoded_size * N)?;
 		let mut output = ArrayInitializer::new();
 		for i in 0..N {
 			let value = T::decode(&buffer[i * encoded_size..][..encoded_size])?;
-- 
2.43.0


From e7986eb2834df8c73d55c3e12d33f8901251a960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:36 +0000
Subject: [PATCH 10/18] fix: double drop of the elements of decoded arrays

---
 src/bus/data.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bus/data.rs b/src/bus/data.rs
index f0bebb5..4f02cb8 100644
--- a/src/bus/data.rs
+++ b/src/bus/data.rs
@@ -142,9 +142,11 @@ impl<T: Sized, const N: usize> ArrayInitializer<T, N> {
 	/// You must ensure you called `push()` exactly `N` times before calling this function.
 	pub unsafe fn finish(self) -> [T; N] {
 		debug_assert!(self.initialized == N);
+		// Do not run our `Drop` impl: the elements are moved out.
+		let this = core::mem::ManuallyDrop::new(self);
 		// SAFETY: The caller must guarantee that `self.data` is fully initialized,
 		// if they did, reading it as `[T; N]` is sound.
-		core::ptr::read(self.data.as_ptr().cast())
+		core::ptr::read(this.data.as_ptr().cast())
 	}
 }
 
-- 
2.43.0


From 063fc25f3d936e59b3becfd74fc32adf7bc4950d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:37 +0000
Subject: [PATCH 11/18] fix: option byte of the clear error instruction

0x01 is the option to clear the revolution counter.
The option to clear errors is 0x02, which is also what Device decodes as Clear::Errors.
---
 src/instructions/clear.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instructions/clear.rs b/src/instructions/clear.rs
index 05201fe..fb22ca1 100644
--- a/src/instructions/clear.rs
+++ b/src/instructions/clear.rs
@@ -7,7 +7,7 @@ const CLEAR_REVOLUTION_COUNT: [u8; 5] = [0x01, 0x44, 0x58, 0x4C, 0x22];
 /// The parameters for the CLEAR command to clear the error state.
 ///
 /// This is only supported on some motors.
-const CLEAR_ERROR: [u8; 5] = [0x01, 0x45, 0x52, 0x43, 0x4C];
+const CLEAR_ERROR: [u8; 5] = [0x02, 0x45, 0x52, 0x43, 0x4C];
 
 impl<SerialPort, Buffer> Client<SerialPort, Buffer>
 where
-- 
2.43.0


From 9cbffe04ba8347e8eef389ea95731d4d1ca9decd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:37 +0000
Subject: [PATCH 12/18] fix: panic if a motor ID is used more than once in a
 bulk write, as documented

---
 src/instructions/bulk_write.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/instructions/bulk_write.rs b/src/instructions/bulk_write.rs
index f3bec14..9cbe87e 100644
--- a/src/instructions/bulk_write.rs
+++ b/src/instructions/bulk_write.rs
@@ -56,8 +56,13 @@ where
 
 		let writes = writes.into_iter();
 		let mut parameter_count = 0;
-		for write in writes.clone() {
+		for (i, write) in writes.clone().enumerate() {
 			let write = write.borrow();
+			for (j, other) in writes.clone().take(i).enumerate() {
+				if other.borrow().motor_id == write.motor_id {
+					panic!("bulk_write: motor ID {} used multiple times at index {} and {}", write.motor_id, j, i);
+				}
+			}
 			let data = write.data.as_ref();
 			if data.len() > u16::MAX.into() {
 				panic!(
-- 
2.43.0


From 925c3784fffc9077edfeddd17ec3f49bcb7a2743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:37 +0000
Subject: [PATCH 13/18] fix: check the packet ID of responses without data

A response from a different motor was accepted for write, reg_write, action, factory_reset, reboot and clear.
---
 src/instructions/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/instructions/mod.rs b/src/instructions/mod.rs
index cd1d4cd..dd7bc8c 100644
--- a/src/instructions/mod.rs
+++ b/src/instructions/mod.rs
@@ -118,6 +118,8 @@ where
 			data: (),
 		})
 	} else {
-		Ok(client.read_status_response(0)?.try_into()?)
+		let response = client.read_status_response(0)?;
+		crate::InvalidPacketId::check(response.packet_id(), motor_id)?;
+		Ok(response.try_into()?)
 	}
 }
-- 
2.43.0


From eecaad4dc71ecf01b5370a7f181d47e7fa29ee35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:37 +0000
Subject: [PATCH 14/18] fix: infinite loop when dropping a Scan while the
 serial port keeps failing

---
 src/instructions/ping.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/instructions/ping.rs b/src/instructions/ping.rs
index 106db49..5119e76 100644
--- a/src/instructions/ping.rs
+++ b/src/instructions/ping.rs
@@ -115,7 +115,12 @@ where
 	Buffer: AsRef<[u8]> + AsMut<[u8]>,
 {
 	fn drop(&mut self) {
-		while self.next().is_some() {}
+		// Stop on I/O errors: if they persist, there will never be a timeout.
+		while let Some(response) = self.next() {
+			if let Err(ReadError::Io(_)) = response {
+				break;
+			}
+		}
 	}
 }
 
-- 
2.43.0


From 7c169d96b47ab63bde872509e838f28e307d3f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:30 +0000
Subject: [PATCH 15/18] fix: overflow for sync writes to impossibly many motors

The parameter count of a sync write from a huge ExactSizeIterator overflowed instead of being reported as too large for the buffer.
---
 src/instructions/sync_write.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/instructions/sync_write.rs b/src/instructions/sync_write.rs
index 8f6a967..ab76fd3 100644
--- a/src/instructions/sync_write.rs
+++ b/src/instructions/sync_write.rs
@@ -53,7 +53,7 @@ where
 		let data = data.into_iter();
 		let motors = data.len();
 		let stride = 1 + usize::from(count);
-		let parameter_count = 4 + motors * stride;
+		let parameter_count = motors.saturating_mul(stride).saturating_add(4);
 		self.write_instruction(packet_id::BROADCAST, instruction_id::SYNC_WRITE, parameter_count, |buffer| {
 			write_u16_le(&mut buffer[0..], address);
 			write_u16_le(&mut buffer[2..], count);
@@ -83,7 +83,7 @@ where
 		let count = usize::from(T::ENCODED_SIZE);
 		let motors = data.len();
 		let stride = 1 + count;
-		let parameter_count = 4 + motors * stride;
+		let parameter_count = motors.saturating_mul(stride).saturating_add(4);
 		self.write_instruction(packet_id::BROADCAST, instruction_id::SYNC_WRITE, parameter_count, |buffer| {
 			write_u16_le(&mut buffer[0..], address);
 			write_u16_le(&mut buffer[2..], count as u16);
-- 
2.43.0


From f89af0639447cd75c70d7965fc31a896bd949dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:19 +0000
Subject: [PATCH 16/18] fix: Do not hang when dropping a scan with a read
 buffer too small for any packet

---
 src/instructions/ping.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/instructions/ping.rs b/src/instructions/ping.rs
index 5119e76..b5fdbb2 100644
--- a/src/instructions/ping.rs
+++ b/src/instructions/ping.rs
@@ -115,10 +115,13 @@ where
 	Buffer: AsRef<[u8]> + AsMut<[u8]>,
 {
 	fn drop(&mut self) {
-		// Stop on I/O errors: if they persist, there will never be a timeout.
 		while let Some(response) = self.next() {
-			if let Err(ReadError::Io(_)) = response {
-				break;
+			match response {
+				// Stop on I/O errors: if they persist, there will never be a timeout.
+				Err(ReadError::Io(_)) => break,
+				// Stop if the read buffer is too small for any packet: nothing will ever be read.
+				Err(ReadError::BufferFull(e)) if e.total_size < crate::bus::InstructionPacket::message_len(0) => break,
+				_ => (),
 			}
 		}
 	}
-- 
2.43.0


From f17f1b5d17e808cce86c6c707d70fbc81200b3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:52 +0000
Subject: [PATCH 17/18] fix: Do not divide by zero at a baud rate of zero

---
 src/bus/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bus/mod.rs b/src/bus/mod.rs
index 2cc0719..d882a8c 100644
--- a/src/bus/mod.rs
+++ b/src/bus/mod.rs
@@ -355,7 +355,8 @@ fn find_header(buffer: &[u8]) -> usize {
 ///
 /// The size must include any headers and footers of the message.
 pub(crate) fn message_transfer_time(message_size: u32, baud_rate: u32) -> Duration {
-	let baud_rate = u64::from(baud_rate);
+	// Some serial ports accept a baud rate of 0: treat it as the lowest possible one.
+	let baud_rate = u64::from(baud_rate.max(1));
 	let bits = u64::from(message_size) * 10; // each byte is 1 start bit, 8 data bits and 1 stop bit.
 	let secs = bits / baud_rate;
 	let subsec_bits = bits % baud_rate;
-- 
2.43.0


From d845564519ff37b87d9d5cab6161d208064d123a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:09 +0000
Subject: [PATCH 18/18] fix: End a scan of the command line tool when the
 serial port keeps failing

---
 dynamixel2-cli/src/bin/dynamixel2/main.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dynamixel2-cli/src/bin/dynamixel2/main.rs b/dynamixel2-cli/src/bin/dynamixel2/main.rs
index 2b94453..302617d 100644
--- a/dynamixel2-cli/src/bin/dynamixel2/main.rs
+++ b/dynamixel2-cli/src/bin/dynamixel2/main.rs
@@ -33,7 +33,13 @@ fn do_main(options: Options) -> Result<(), ()> {
 					for s in scan {
 						match s {
 							Ok(r) => log_ping_response(&r, start.elapsed()),
-							Err(e) => log::error!("Error pinging motor: {}", e),
+							Err(e) => {
+								log::error!("Error pinging motor: {}", e);
+								// If the serial port keeps failing, the scan never ends.
+								if let dynamixel2::ReadError::Io(_) = e {
+									return Err(());
+								}
+							},
 						}
 					}
 				},
-- 
2.43.0

