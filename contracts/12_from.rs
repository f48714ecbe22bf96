// The conversions between error types that the crate defines, as values.
pub mod from_specs {
use vstd::prelude::*;
use vstd::std_specs::convert::*;
use crate::*;
use crate::bus::{StatusPacket, InstructionPacket};

impl<E> FromSpecImpl<WriteError<E>> for TransferError<E> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: WriteError<E>) -> Self { TransferError::WriteError(v) }
}

impl<E> FromSpecImpl<ReadError<E>> for TransferError<E> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: ReadError<E>) -> Self { TransferError::ReadError(v) }
}

impl<E> FromSpecImpl<InvalidMessage> for TransferError<E> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: InvalidMessage) -> Self { TransferError::ReadError(ReadError::InvalidMessage(v)) }
}

impl<E> FromSpecImpl<MotorError> for TransferError<E> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: MotorError) -> Self { TransferError::ReadError(ReadError::MotorError(v)) }
}

impl<E> FromSpecImpl<MotorError> for ReadError<E> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: MotorError) -> Self { ReadError::MotorError(v) }
}

impl<E> FromSpecImpl<InvalidMessage> for ReadError<E> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: InvalidMessage) -> Self { ReadError::InvalidMessage(v) }
}

impl<E> FromSpecImpl<BufferTooSmallError> for ReadError<E> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: BufferTooSmallError) -> Self { ReadError::BufferFull(v) }
}

impl<E> FromSpecImpl<BufferTooSmallError> for WriteError<E> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: BufferTooSmallError) -> Self { WriteError::BufferTooSmall(v) }
}

impl<E> FromSpecImpl<InvalidHeaderPrefix> for TransferError<E> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: InvalidHeaderPrefix) -> Self { TransferError::ReadError(ReadError::InvalidMessage(InvalidMessage::InvalidHeaderPrefix(v))) }
}

impl<E> FromSpecImpl<InvalidHeaderPrefix> for ReadError<E> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: InvalidHeaderPrefix) -> Self { ReadError::InvalidMessage(InvalidMessage::InvalidHeaderPrefix(v)) }
}

impl FromSpecImpl<InvalidHeaderPrefix> for InvalidMessage {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: InvalidHeaderPrefix) -> Self { InvalidMessage::InvalidHeaderPrefix(v) }
}

impl<E> FromSpecImpl<InvalidChecksum> for TransferError<E> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: InvalidChecksum) -> Self { TransferError::ReadError(ReadError::InvalidMessage(InvalidMessage::InvalidChecksum(v))) }
}

impl<E> FromSpecImpl<InvalidChecksum> for ReadError<E> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: InvalidChecksum) -> Self { ReadError::InvalidMessage(InvalidMessage::InvalidChecksum(v)) }
}

impl FromSpecImpl<InvalidChecksum> for InvalidMessage {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: InvalidChecksum) -> Self { InvalidMessage::InvalidChecksum(v) }
}

impl<E> FromSpecImpl<InvalidPacketId> for TransferError<E> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: InvalidPacketId) -> Self { TransferError::ReadError(ReadError::InvalidMessage(InvalidMessage::InvalidPacketId(v))) }
}

impl<E> FromSpecImpl<InvalidPacketId> for ReadError<E> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: InvalidPacketId) -> Self { ReadError::InvalidMessage(InvalidMessage::InvalidPacketId(v)) }
}

impl FromSpecImpl<InvalidPacketId> for InvalidMessage {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: InvalidPacketId) -> Self { InvalidMessage::InvalidPacketId(v) }
}

impl<E> FromSpecImpl<InvalidInstruction> for TransferError<E> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: InvalidInstruction) -> Self { TransferError::ReadError(ReadError::InvalidMessage(InvalidMessage::InvalidInstruction(v))) }
}

impl<E> FromSpecImpl<InvalidInstruction> for ReadError<E> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: InvalidInstruction) -> Self { ReadError::InvalidMessage(InvalidMessage::InvalidInstruction(v)) }
}

impl FromSpecImpl<InvalidInstruction> for InvalidMessage {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: InvalidInstruction) -> Self { InvalidMessage::InvalidInstruction(v) }
}

impl<E> FromSpecImpl<InvalidParameterCount> for TransferError<E> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: InvalidParameterCount) -> Self { TransferError::ReadError(ReadError::InvalidMessage(InvalidMessage::InvalidParameterCount(v))) }
}

impl<E> FromSpecImpl<InvalidParameterCount> for ReadError<E> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: InvalidParameterCount) -> Self { ReadError::InvalidMessage(InvalidMessage::InvalidParameterCount(v)) }
}

impl FromSpecImpl<InvalidParameterCount> for InvalidMessage {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: InvalidParameterCount) -> Self { InvalidMessage::InvalidParameterCount(v) }
}

// Conversions of packets: no function gives a slice, so that these have contracts of their own instead.

impl<'a> TryFromSpecImpl<StatusPacket<'a>> for Response<()> {
    open spec fn obeys_try_from_spec() -> bool { false }
    uninterp spec fn try_from_spec(v: StatusPacket<'a>) -> Result<Self, InvalidParameterCount>;
}

impl<'a> TryFromSpecImpl<StatusPacket<'a>> for Response<crate::instructions::Ping> {
    open spec fn obeys_try_from_spec() -> bool { false }
    uninterp spec fn try_from_spec(v: StatusPacket<'a>) -> Result<Self, InvalidParameterCount>;
}

impl<'a> FromSpecImpl<StatusPacket<'a>> for Response<&'a [u8]> {
    open spec fn obeys_from_spec() -> bool { false }
    uninterp spec fn from_spec(v: StatusPacket<'a>) -> Self;
}

impl<'a> TryFromSpecImpl<InstructionPacket<'a>> for crate::device::Instruction<&'a [u8]> {
    open spec fn obeys_try_from_spec() -> bool { false }
    uninterp spec fn try_from_spec(v: InstructionPacket<'a>) -> Result<Self, InvalidParameterCount>;
}

impl<'a> TryFromSpecImpl<InstructionPacket<'a>> for crate::device::Instruction<Vec<u8>> {
    open spec fn obeys_try_from_spec() -> bool { false }
    uninterp spec fn try_from_spec(v: InstructionPacket<'a>) -> Result<Self, InvalidParameterCount>;
}
}
