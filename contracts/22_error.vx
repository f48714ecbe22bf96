// error.rs

## fn error::MotorError::error_number
props C10
ensures [C10]
    r == self.raw & 0x7f,
begin
    proof { crate::frame::error_bits(self.raw); }

## fn error::MotorError::alert
props C10
ensures [C10]
    r == (self.raw & 0x80 != 0),
begin
    proof { crate::frame::error_bits(self.raw); }

## fn error::MotorError::check
props C10
ensures [C10]
    r.is_ok() <==> raw & 0x7f == 0,
    r.is_err() ==> r->Err_0.raw == raw,
begin
    proof { crate::frame::error_bits(raw); }

## fn error::BufferTooSmallError::check
props C08
ensures [C08 C17]
    r.is_ok() <==> required_size <= total_size,
    r.is_err() ==> r->Err_0 == (crate::BufferTooSmallError { required_size, total_size }),

## fn error::InvalidHeaderPrefix::check
props C05
requires [C05]
    actual@.len() >= 4,
ensures
    r.is_ok() <==> actual@ == expected@,
    r.is_err() ==> r->Err_0.expected == expected && r->Err_0.actual@ == actual@.take(4),

## fn error::InvalidPacketId::check
props C11
ensures [C11 C16]
    r.is_ok() <==> actual == expected,
    r.is_err() ==> r->Err_0 == (crate::InvalidPacketId { actual, expected: Some(expected) }),

## fn error::InvalidPacketId::check_ignore_broadcast
props C11
ensures [C11]
    r.is_ok() <==> (actual == expected || expected == 0xFE),
    r.is_err() ==> r->Err_0 == (crate::InvalidPacketId { actual, expected: Some(expected) }),

## fn error::InvalidInstruction::check
props C09
ensures [C09]
    r.is_ok() <==> actual == expected,
    r.is_err() ==> r->Err_0 == (crate::InvalidInstruction { actual, expected }),

## fn error::InvalidParameterCount::check
props C11
ensures [C11 C14 C16 C17]
    r.is_ok() <==> actual == expected,
    r.is_err() ==> r->Err_0 == (crate::InvalidParameterCount { actual, expected: crate::ExpectedCount::Exact(expected) }),

## fn error::InvalidParameterCount::check_max
props C14
ensures [C14]
    r.is_ok() <==> actual <= max,
    r.is_err() ==> r->Err_0 == (crate::InvalidParameterCount { actual, expected: crate::ExpectedCount::Max(max) }),

## fn error::InvalidParameterCount::check_min
props C14
ensures [C14]
    r.is_ok() <==> actual >= min,
    r.is_err() ==> r->Err_0 == (crate::InvalidParameterCount { actual, expected: crate::ExpectedCount::Min(min) }),
