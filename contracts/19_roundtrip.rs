// What a client sends is what a device decodes: C14 as lemmas.
pub mod roundtrip {
use vstd::prelude::*;
use crate::vx::*;
use crate::frame::*;
use crate::stream::*;
use crate::dev::*;
use crate::device::*;
use crate::*;

/// A device that receives the message for this instruction delivers it with this meaning, and nothing else.
pub open spec fn understood(id: u8, instruction: u8, p: Seq<u8>, i: Instructions<Seq<u8>>) -> bool {
    let d = packet(id, instruction_body(instruction, p));
    forall|r: Result<(u8, Instructions<Seq<u8>>), InvalidParameterCount>| decodes(d, r) <==> r == Ok::<(u8, Instructions<Seq<u8>>), InvalidParameterCount>((id, i))
}

pub proof fn understands(id: u8, instruction: u8, p: Seq<u8>)
    requires
        instruction != 0x55,
        enough(p.len() as int, expects(instruction)),
        p.len() > 0 ==> instruction != 0x01 && instruction != 0x05 && instruction != 0x08,
    ensures understood(id, instruction, p, meaning(instruction, p)), proper(instruction_body(instruction, p)),
{
    let body = instruction_body(instruction, p);
    let d = packet(id, body);
    assert(d[4] == id && d[7] == instruction && d.len() == 8 + p.len());
    assert(d.skip(8) =~= p);
}

/// The message of a client in what a device received: decoding gives what the client meant.
pub proof fn delivered(id: u8, instruction: u8, p: Seq<u8>, x: Seq<u8>, cap: int)
    requires
        instruction != 0x55,
        enough(p.len() as int, expects(instruction)),
        p.len() > 0 ==> instruction != 0x01 && instruction != 0x05 && instruction != 0x08,
        fits(cap, instruction_body(instruction, p)),
    ensures
        ({
            let body = instruction_body(instruction, p);
            &&& parse(frame(id, body) + x, cap) == Some(Found { used: frame_len(body), item: Item::Packet(packet(id, body)) })
            &&& packet(id, body)[7] != 0x55
            &&& understood(id, instruction, p, meaning(instruction, p))
        }),
{
    let body = instruction_body(instruction, p);
    understands(id, instruction, p);
    parse_frame(id, body, x, cap);
    assert(packet(id, body)[7] == instruction);
}

// ---------------------------------------------------------------- every instruction of the client

pub proof fn ping_means(id: u8)
    ensures understood(id, 0x01, seq![], Instructions::Ping),
{ understands(id, 0x01, seq![]); }

pub proof fn action_means(id: u8)
    ensures understood(id, 0x05, seq![], Instructions::Action),
{ understands(id, 0x05, seq![]); }

pub proof fn reboot_means(id: u8)
    ensures understood(id, 0x08, seq![], Instructions::Reboot),
{ understands(id, 0x08, seq![]); }

pub proof fn read_means(id: u8, address: u16, count: u16)
    ensures understood(id, 0x02, le16(address) + le16(count), Instructions::Read { address, length: count }),
{
    let p = le16(address) + le16(count);
    le16_round(address);
    le16_round(count);
    assert(p[0] == le16(address)[0] && p[1] == le16(address)[1] && p[2] == le16(count)[0] && p[3] == le16(count)[1]);
    understands(id, 0x02, p);
}

pub proof fn write_means(id: u8, address: u16, data: Seq<u8>)
    ensures
        understood(id, 0x03, le16(address) + data, Instructions::Write { address, parameters: data }),
        understood(id, 0x04, le16(address) + data, Instructions::RegWrite { address, parameters: data }),
{
    let p = le16(address) + data;
    le16_round(address);
    assert(p[0] == le16(address)[0] && p[1] == le16(address)[1]);
    assert(p.skip(2) =~= data);
    understands(id, 0x03, p);
    understands(id, 0x04, p);
}

pub open spec fn same_reset(kind: crate::instructions::FactoryResetKind) -> crate::device::FactoryReset {
    match kind {
        crate::instructions::FactoryResetKind::ResetAll => crate::device::FactoryReset::All,
        crate::instructions::FactoryResetKind::KeepId => crate::device::FactoryReset::ExceptId,
        crate::instructions::FactoryResetKind::KeepIdAndBaudRate => crate::device::FactoryReset::ExceptIdBaudRate,
    }
}

pub proof fn reset_means(id: u8, kind: crate::instructions::FactoryResetKind)
    ensures understood(id, 0x06, seq![crate::talk::reset_kind(kind)], Instructions::FactoryReset(same_reset(kind))),
{ understands(id, 0x06, seq![crate::talk::reset_kind(kind)]); }

pub proof fn clear_means(id: u8)
    ensures
        understood(id, 0x10, seq![0x01u8, 0x44, 0x58, 0x4C, 0x22], Instructions::Clear(crate::device::Clear::MultiTurns)),
        understood(id, 0x10, seq![0x02u8, 0x45, 0x52, 0x43, 0x4C], Instructions::Clear(crate::device::Clear::Errors)),
{
    understands(id, 0x10, seq![0x01u8, 0x44, 0x58, 0x4C, 0x22]);
    understands(id, 0x10, seq![0x02u8, 0x45, 0x52, 0x43, 0x4C]);
}

pub proof fn sync_means(id: u8, address: u16, count: u16, more: Seq<u8>)
    ensures
        understood(id, 0x82, le16(address) + le16(count) + more, Instructions::SyncRead { address, length: count, ids: more }),
        understood(id, 0x83, le16(address) + le16(count) + more, Instructions::SyncWrite { address, length: count, parameters: more }),
{
    let p = le16(address) + le16(count) + more;
    le16_round(address);
    le16_round(count);
    assert(p[0] == le16(address)[0] && p[1] == le16(address)[1] && p[2] == le16(count)[0] && p[3] == le16(count)[1]);
    assert(p.skip(4) =~= more);
    understands(id, 0x82, p);
    understands(id, 0x83, p);
}

pub proof fn bulk_means(id: u8, p: Seq<u8>)
    ensures
        understood(id, 0x92, p, Instructions::BulkRead { parameters: p }),
        understood(id, 0x93, p, Instructions::BulkWrite { parameters: p }),
{
    understands(id, 0x92, p);
    understands(id, 0x93, p);
}
}
