// instructions/*.rs, response.rs: instructions for one motor
## fn response::<Response<()> as TryFrom<StatusPacket<'a>>>::try_from
props C11
ensures [C10 C11 C15]
    match r {
        Ok(a) => status_packet.d().len() == 9 && crate::talk::sender(status_packet.d(), a),
        Err(e) => status_packet.d().len() != 9 && e == (crate::InvalidParameterCount {
            actual: (status_packet.d().len() - 9) as usize, expected: crate::ExpectedCount::Exact(0) }),
    },

## fn response::<Response<&'a[u8]> as From<StatusPacket<'a>>>::from
props C10
ensures [C10 C11]
    crate::talk::sender(status_packet.d(), r),
    r.data@ == status_packet.d().skip(9),

## fn instructions::ping::<Response<Ping> as TryFrom<StatusPacket<'a>>>::try_from
props C11
ensures [C10 C11 C16]
    match r {
        Ok(a) => status_packet.d().len() == 12 && crate::talk::sender(status_packet.d(), a)
            && a.data.model == crate::frame::get16(status_packet.d(), 9) && a.data.firmware == status_packet.d()[11],
        Err(e) => status_packet.d().len() != 12 && e == (crate::InvalidParameterCount {
            actual: (status_packet.d().len() - 9) as usize, expected: crate::ExpectedCount::Exact(3) }),
    },

## fn instructions::read_response_if_not_broadcast
props C15 C11
requires [C05]
    old(client).wf(),
ensures [C10 C11 C15 C19 C20 C22]
    final(client).wf(),
    crate::talk::acknowledged(old(client).v(), final(client).v(), motor_id, r),

## fn instructions::ping::Client::ping
props C11 C12
requires [C05]
    old(self).wf(),
ensures [C09 C10 C11 C12 C19 C20 C22]
    final(self).wf(),
    crate::talk::pings(old(self).v(), final(self).v(), motor_id, r),
closure 0 (b: &mut [u8]) -> (r: Result<(), crate::error::BufferTooSmallError>)
    ensures
        r is Ok,
        old($0)@.len() == 0 ==> final($0)@ =~= seq![],

## fn instructions::action::Client::action
props C12 C15
requires [C05]
    old(self).wf(),
ensures [C10 C11 C12 C15 C19 C20 C22]
    final(self).wf(),
    crate::talk::commands(old(self).v(), final(self).v(), motor_id, crate::frame::instruction_body(0x05, seq![]), r),
try 0
    proof { assert(crate::frame::sends(old(self).v(), self.v(), motor_id, crate::frame::instruction_body(0x05, seq![]), Err(vx_e))); }
call write_instruction 0 after
    proof { assert(crate::frame::sends(old(self).v(), self.v(), motor_id, crate::frame::instruction_body(0x05, seq![]), Ok(()))); }
closure 0 (b: &mut [u8]) -> (r: Result<(), crate::error::BufferTooSmallError>)
    ensures
        r is Ok,
        old($0)@.len() == 0 ==> final($0)@ =~= seq![],

## fn instructions::action::Client::broadcast_action
props C12 C15
requires [C05]
    old(self).wf(),
ensures [C12 C15 C20 C22]
    final(self).wf(),
    crate::frame::sends(old(self).v(), final(self).v(), 0xFE, crate::frame::instruction_body(0x05, seq![]), r),
closure 0 (b: &mut [u8]) -> (r: Result<(), crate::error::BufferTooSmallError>)
    ensures
        r is Ok,
        old($0)@.len() == 0 ==> final($0)@ =~= seq![],

## fn instructions::reboot::Client::reboot
props C12 C15
requires [C05]
    old(self).wf(),
ensures [C10 C11 C12 C15 C19 C20 C22]
    final(self).wf(),
    crate::talk::commands(old(self).v(), final(self).v(), motor_id, crate::frame::instruction_body(0x08, seq![]), r),
try 0
    proof { assert(crate::frame::sends(old(self).v(), self.v(), motor_id, crate::frame::instruction_body(0x08, seq![]), Err(vx_e))); }
call write_instruction 0 after
    proof { assert(crate::frame::sends(old(self).v(), self.v(), motor_id, crate::frame::instruction_body(0x08, seq![]), Ok(()))); }
closure 0 (b: &mut [u8]) -> (r: Result<(), crate::error::BufferTooSmallError>)
    ensures
        r is Ok,
        old($0)@.len() == 0 ==> final($0)@ =~= seq![],

## fn instructions::reboot::Client::broadcast_reboot
props C12 C15
requires [C05]
    old(self).wf(),
ensures [C12 C15 C20 C22]
    final(self).wf(),
    crate::frame::sends(old(self).v(), final(self).v(), 0xFE, crate::frame::instruction_body(0x08, seq![]), r),
closure 0 (b: &mut [u8]) -> (r: Result<(), crate::error::BufferTooSmallError>)
    ensures
        r is Ok,
        old($0)@.len() == 0 ==> final($0)@ =~= seq![],

## fn instructions::factory_reset::Client::factory_reset
props C12 C15
requires [C05]
    old(self).wf(),
ensures [C10 C11 C12 C15 C19 C20 C22]
    final(self).wf(),
    crate::talk::commands(old(self).v(), final(self).v(), motor_id, crate::frame::instruction_body(0x06, seq![crate::talk::reset_kind(kind)]), r),
try 0
    proof { assert(crate::frame::sends(old(self).v(), self.v(), motor_id, crate::frame::instruction_body(0x06, seq![crate::talk::reset_kind(kind)]), Err(vx_e))); }
call write_instruction 0 after
    proof { assert(crate::frame::sends(old(self).v(), self.v(), motor_id, crate::frame::instruction_body(0x06, seq![crate::talk::reset_kind(kind)]), Ok(()))); }
closure 0 (b: &mut [u8]) -> (r: Result<(), crate::error::BufferTooSmallError>)
    requires
        old($0)@.len() == 1,
    ensures
        r is Ok,
        final($0)@ =~= seq![crate::talk::reset_kind(kind)],

## fn instructions::factory_reset::Client::broadcast_factory_reset
props C12 C15
requires [C05]
    old(self).wf(),
ensures [C12 C15 C20 C22]
    final(self).wf(),
    crate::frame::sends(old(self).v(), final(self).v(), 0xFE, crate::frame::instruction_body(0x06, seq![crate::talk::reset_kind(kind)]), r),
closure 0 (b: &mut [u8]) -> (r: Result<(), crate::error::BufferTooSmallError>)
    requires
        old($0)@.len() == 1,
    ensures
        r is Ok,
        final($0)@ =~= seq![crate::talk::reset_kind(kind)],

## fn instructions::clear::Client::clear_revolution_counter
props C12 C15
requires [C05]
    old(self).wf(),
ensures [C10 C11 C12 C15 C19 C20 C22]
    final(self).wf(),
    crate::talk::commands(old(self).v(), final(self).v(), motor_id, crate::frame::instruction_body(0x10, seq![0x01u8, 0x44, 0x58, 0x4C, 0x22]), r),
try 0
    proof { assert(crate::frame::sends(old(self).v(), self.v(), motor_id, crate::frame::instruction_body(0x10, seq![0x01u8, 0x44, 0x58, 0x4C, 0x22]), Err(vx_e))); }
call write_instruction 0 after
    proof { assert(crate::frame::sends(old(self).v(), self.v(), motor_id, crate::frame::instruction_body(0x10, seq![0x01u8, 0x44, 0x58, 0x4C, 0x22]), Ok(()))); }

## fn instructions::clear::Client::broadcast_clear_revolution_counter
props C12 C15
requires [C05]
    old(self).wf(),
ensures [C12 C15 C20 C22]
    final(self).wf(),
    crate::frame::sends(old(self).v(), final(self).v(), 0xFE, crate::frame::instruction_body(0x10, seq![0x01u8, 0x44, 0x58, 0x4C, 0x22]), r),

## fn instructions::clear::Client::clear_error
props C12 C15
requires [C05]
    old(self).wf(),
ensures [C10 C11 C12 C15 C19 C20 C22]
    final(self).wf(),
    crate::talk::commands(old(self).v(), final(self).v(), motor_id, crate::frame::instruction_body(0x10, seq![0x02u8, 0x45, 0x52, 0x43, 0x4C]), r),
try 0
    proof { assert(crate::frame::sends(old(self).v(), self.v(), motor_id, crate::frame::instruction_body(0x10, seq![0x02u8, 0x45, 0x52, 0x43, 0x4C]), Err(vx_e))); }
call write_instruction 0 after
    proof { assert(crate::frame::sends(old(self).v(), self.v(), motor_id, crate::frame::instruction_body(0x10, seq![0x02u8, 0x45, 0x52, 0x43, 0x4C]), Ok(()))); }

## fn instructions::clear::Client::broadcast_clear_error
props C12 C15
requires [C05]
    old(self).wf(),
ensures [C12 C15 C20 C22]
    final(self).wf(),
    crate::frame::sends(old(self).v(), final(self).v(), 0xFE, crate::frame::instruction_body(0x10, seq![0x02u8, 0x45, 0x52, 0x43, 0x4C]), r),

## fn instructions::clear::clear_revolution_count_parameters
props C12
requires [C05]
    old(buffer)@.len() == 5,
ensures [C12]
    r is Ok,
    final(buffer)@ =~= seq![0x01u8, 0x44, 0x58, 0x4C, 0x22],

## fn instructions::clear::clear_error_parameters
props C12
requires [C05]
    old(buffer)@.len() == 5,
ensures [C12]
    r is Ok,
    final(buffer)@ =~= seq![0x02u8, 0x45, 0x52, 0x43, 0x4C],

## fn instructions::write::Client::write
props C12 C15 C17
requires [C05]
    old(self).wf(),
ensures [C10 C11 C12 C15 C17 C19 C20 C22]
    final(self).wf(),
    crate::talk::commands_value(old(self).v(), final(self).v(), motor_id, 0x03, crate::frame::le16(address), *data, r),
closure 0 (b: &mut [u8]) -> (r: Result<(), crate::error::BufferTooSmallError>)
    requires
        old($0)@.len() == 2 + T::ENCODED_SIZE,
    ensures
        r is Ok ==> final($0)@ == crate::frame::le16(address) + data.encoded(),
        r is Err ==> !T::total(),
call encode 0 after
    proof {
        assert(buffer@.subrange(2, buffer@.len() as int).take(T::ENCODED_SIZE as int) =~= buffer@.skip(2));
        assert(buffer@ =~= crate::frame::le16(address) + buffer@.skip(2));
    }
try 1
    proof { assert(crate::talk::sends_value(old(self).v(), self.v(), motor_id, 0x03, crate::frame::le16(address), *data, Err(vx_e))); }
call write_instruction 0 after
    proof { assert(crate::talk::sends_value(old(self).v(), self.v(), motor_id, 0x03, crate::frame::le16(address), *data, Ok(()))); }

## fn instructions::write::Client::write_bytes
begin
    proof { crate::vx::slice_bound(data); }
props C12 C15
requires [C05]
    old(self).wf(),
ensures [C10 C11 C12 C15 C19 C20 C22]
    final(self).wf(),
    crate::talk::commands(old(self).v(), final(self).v(), motor_id, crate::frame::instruction_body(0x03, crate::frame::le16(address) + data@), r),
try 0
    proof { assert(crate::frame::sends(old(self).v(), self.v(), motor_id, crate::frame::instruction_body(0x03, crate::frame::le16(address) + data@), Err(vx_e))); }
call write_instruction 0 after
    proof { assert(crate::frame::sends(old(self).v(), self.v(), motor_id, crate::frame::instruction_body(0x03, crate::frame::le16(address) + data@), Ok(()))); }
closure 0 (b: &mut [u8]) -> (r: Result<(), crate::error::BufferTooSmallError>)
    requires
        old($0)@.len() == 2 + data@.len(),
    ensures
        r is Ok,
        final($0)@ =~= crate::frame::le16(address) + data@,

## fn instructions::reg_write::Client::reg_write
props C12 C15 C17
requires [C05]
    old(self).wf(),
ensures [C10 C11 C12 C15 C17 C19 C20 C22]
    final(self).wf(),
    crate::talk::commands_value(old(self).v(), final(self).v(), motor_id, 0x04, crate::frame::le16(address), *value, r),
closure 0 (b: &mut [u8]) -> (r: Result<(), crate::error::BufferTooSmallError>)
    requires
        old($0)@.len() == 2 + T::ENCODED_SIZE,
    ensures
        r is Ok ==> final($0)@ == crate::frame::le16(address) + value.encoded(),
        r is Err ==> !T::total(),
call encode 0 after
    proof {
        assert(buffer@.subrange(2, buffer@.len() as int).take(T::ENCODED_SIZE as int) =~= buffer@.skip(2));
        assert(buffer@ =~= crate::frame::le16(address) + buffer@.skip(2));
    }
try 0
    proof { assert(crate::talk::sends_value(old(self).v(), self.v(), motor_id, 0x04, crate::frame::le16(address), *value, Err(vx_e))); }
call write_instruction 0 after
    proof { assert(crate::talk::sends_value(old(self).v(), self.v(), motor_id, 0x04, crate::frame::le16(address), *value, Ok(()))); }

## fn instructions::reg_write::Client::reg_write_bytes
begin
    proof { crate::vx::slice_bound(data); }
props C12 C15
requires [C05]
    old(self).wf(),
ensures [C10 C11 C12 C15 C19 C20 C22]
    final(self).wf(),
    crate::talk::commands(old(self).v(), final(self).v(), motor_id, crate::frame::instruction_body(0x04, crate::frame::le16(address) + data@), r),
try 0
    proof { assert(crate::frame::sends(old(self).v(), self.v(), motor_id, crate::frame::instruction_body(0x04, crate::frame::le16(address) + data@), Err(vx_e))); }
call write_instruction 0 after
    proof { assert(crate::frame::sends(old(self).v(), self.v(), motor_id, crate::frame::instruction_body(0x04, crate::frame::le16(address) + data@), Ok(()))); }
closure 0 (b: &mut [u8]) -> (r: Result<(), crate::error::BufferTooSmallError>)
    requires
        old($0)@.len() == 2 + data@.len(),
    ensures
        r is Ok,
        final($0)@ =~= crate::frame::le16(address) + data@,

## fn instructions::read::Client::read_raw
props C11 C12
requires [C05]
    old(self).wf(),
ensures [C09 C10 C11 C12 C19 C20 C22]
    final(self).wf(),
    crate::talk::asks(old(self).v(), final(self).v(), motor_id, crate::talk::read_body(address, count), count as int, crate::talk::status_data(r)),
closure 0 (b: &mut [u8]) -> (r: Result<(), crate::error::BufferTooSmallError>)
    requires
        old($0)@.len() == 4,
    ensures
        r is Ok,
        final($0)@ =~= crate::frame::le16(address) + crate::frame::le16(count),

## fn instructions::read::Client::read_bytes
props C10 C11
requires [C05]
    old(self).wf(),
ensures [C10 C11 C12]
    final(self).wf(),
    crate::talk::asks_bytes(old(self).v(), final(self).v(), motor_id, address, count, r),

## fn instructions::read::Client::read
props C10 C11 C17
requires [C05]
    old(self).wf(),
ensures [C10 C11 C12 C17]
    final(self).wf(),
    crate::talk::asks_value(old(self).v(), final(self).v(), motor_id, address, r),
