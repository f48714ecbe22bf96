// bus/endian.rs

## fn bus::endian::write_u8_le
props C12
requires [C05]
    old(buffer)@.len() >= 1,
ensures [C12 C13]
    final(buffer)@ == old(buffer)@.update(0, value),

## fn bus::endian::read_u8_le
props C14
requires [C05]
    buffer@.len() >= 1,
ensures [C14]
    r == buffer@[0],

## fn bus::endian::write_u16_le
props C01
requires [C05]
    old(buffer)@.len() >= 2,
ensures [C01 C12 C13]
    final(buffer)@ == crate::frame::le16(value) + old(buffer)@.skip(2),
    final(buffer)@.len() == old(buffer)@.len(),
begin
    proof { crate::frame::le16_round(value); }
end
    proof { assert(buffer@ =~= crate::frame::le16(value) + old(buffer)@.skip(2)); }

## fn bus::endian::read_u16_le
props C04
requires [C05]
    buffer@.len() >= 2,
ensures [C04 C14]
    r == crate::frame::get16(buffer@, 0),
begin
    proof { crate::frame::get16_forms(buffer@, 0); }

// bus/packet.rs

## impl bus::packet::Packet
begin
    /// What the reader of packets guarantees.
    pub open spec fn ok(self) -> bool {
        self.data@.len() >= 8 && (self.data@[7] == 0x55 ==> self.data@.len() >= 9)
    }

## fn bus::packet::Packet::packet_id
props C04
requires [C05]
    self.data@.len() >= 8,
ensures [C04]
    r == self.data@[4],

## fn bus::packet::Packet::instruction_id
props C04
requires [C05]
    self.data@.len() >= 8,
ensures [C04]
    r == self.data@[7],

## fn bus::packet::Packet::as_status
props C09
requires [C05]
    self.ok(),
ensures [C09]
    r.is_some() <==> self.data@[7] == 0x55,
    r.is_some() ==> r->0.d() == self.data@,

## fn bus::packet::Packet::as_instruction
props C09
requires [C05]
    self.ok(),
ensures [C09]
    r.is_some() <==> self.data@[7] != 0x55,
    r.is_some() ==> r->0.d() == self.data@,

## struct bus::packet::StatusPacket
attr private

## impl bus::packet::StatusPacket
begin
    /// The header and the contents of the packet.
    pub closed spec fn d(self) -> Seq<u8> { self.packet.data@ }
    #[verifier::type_invariant]
    pub closed spec fn inv(self) -> bool { self.packet.data@.len() >= 9 && self.packet.data@[7] == 0x55 }
    pub proof fn valid(tracked &self)
        ensures self.d().len() >= 9, self.d()[7] == 0x55,
    { use_type_invariant(self); }

## fn bus::packet::StatusPacket::error
props C10
ensures [C10]
    r == self.d()[8],
begin
    proof { self.valid(); }

## fn bus::packet::StatusPacket::error_number
props C10
ensures [C10]
    r == self.d()[8] & 0x7f,
begin
    proof { crate::frame::error_bits(self.d()[8]); }

## fn bus::packet::StatusPacket::alert
props C10
ensures [C10]
    r == (self.d()[8] & 0x80 != 0),
begin
    proof { crate::frame::error_bits(self.d()[8]); }

## fn bus::packet::StatusPacket::packet_id
props C11
ensures [C11 C04]
    r == self.d()[4],
begin
    proof { self.valid(); }

## fn bus::packet::StatusPacket::instruction_id
props C09
ensures [C09 C04]
    r == self.d()[7],
begin
    proof { self.valid(); }

## fn bus::packet::StatusPacket::parameters
props C04
ensures [C04 C11]
    r@ == self.d().skip(9),
    self.d().len() == r@.len() + 9,
begin
    proof { self.valid(); }

## fn bus::packet::StatusPacket::message_len
props C19
ensures [C19 C08]
    r == if 11 + parameters <= usize::MAX { 11 + parameters } else { usize::MAX as int },

## struct bus::packet::InstructionPacket
attr private

## impl bus::packet::InstructionPacket
begin
    /// The header and the contents of the packet.
    pub closed spec fn d(self) -> Seq<u8> { self.packet.data@ }
    #[verifier::type_invariant]
    pub closed spec fn inv(self) -> bool { self.packet.data@.len() >= 8 && self.packet.data@[7] != 0x55 }
    pub proof fn valid(tracked &self)
        ensures self.d().len() >= 8, self.d()[7] != 0x55,
    { use_type_invariant(self); }

## fn bus::packet::InstructionPacket::packet_id
props C14
ensures [C14]
    r == self.d()[4],
begin
    proof { self.valid(); }

## fn bus::packet::InstructionPacket::instruction_id
props C14
ensures [C14]
    r == self.d()[7],
begin
    proof { self.valid(); }

## fn bus::packet::InstructionPacket::parameters
props C14
ensures [C14]
    r@ == self.d().skip(8),
    self.d().len() == r@.len() + 8,
begin
    proof { self.valid(); }

## fn bus::packet::InstructionPacket::message_len
props C08
ensures [C08]
    r == if 10 + parameters <= usize::MAX { 10 + parameters } else { usize::MAX as int },
