// instructions/ping.rs: scans

## fn instructions::ping::Client::scan
props C16
requires [C05]
    old(self).wf(),
ensures [C12 C16 C20 C22]
    match r {
        Ok(s) => s.client.wf() && crate::frame::sends(old(self).v(), s.client.v(), 0xFE, crate::frame::instruction_body(0x01, seq![]), Ok(())),
        Err(e) => final(self).wf() && crate::frame::sends(old(self).v(), final(self).v(), 0xFE, crate::frame::instruction_body(0x01, seq![]), Err(e)),
    },
closure 0 (b: &mut [u8]) -> (r: Result<(), crate::error::BufferTooSmallError>)
    ensures
        r is Ok,
        old($0)@.len() == 0 ==> final($0)@ =~= seq![],

## fn instructions::ping::Scan::next_response
props C16 C19
requires [C05]
    old(self).client.wf(),
ensures [C09 C10 C11 C16 C19 C20 C22]
    final(self).client.wf(),
    crate::multi::scans_one(old(self).client.v(), final(self).client.v(), r),
ensures [C05 C16]
    r is Ok || !(r->Err_0 is Io) && old(self).client.v().rcap >= 10 ==> crate::frame::progress(old(self).client.left(), final(self).client.left()),
begin
    proof { crate::talk::time_bounds(14, self.client.v().baud as int); }
let timeout 0 after
    proof { assert(timeout.ns() == crate::talk::scan_ns(self.client.v().baud)); }

## fn instructions::ping::Scan::scan_next
props C16
requires [C05]
    old(self).client.wf(),
ensures [C10 C16 C19 C20 C22]
    final(self).client.wf(),
    crate::multi::scans::<SerialPort>(old(self).client.v(), final(self).client.v(), r),
ensures [C05 C16]
    r is Some && (r->Some_0 is Ok || !(r->Some_0->Err_0 is Io) && old(self).client.v().rcap >= 10) ==> crate::frame::progress(old(self).client.left(), final(self).client.left()),

## fn instructions::ping::Scan@Iterator::next
props C16
requires [C05]
    old(self).client.wf(),
ensures [C10 C16 C19 C20 C22]
    final(self).client.wf(),
    crate::multi::scans::<SerialPort>(old(self).client.v(), final(self).client.v(), r),
ensures [C05 C16]
    r is Some && (r->Some_0 is Ok || !(r->Some_0->Err_0 is Io) && old(self).client.v().rcap >= 10) ==> crate::frame::progress(old(self).client.left(), final(self).client.left()),

## fn instructions::ping::Scan@Drop::drop
props C16
requires [C05]
    old(self).client.wf(),
ensures [C16]
    crate::multi::scan_ends(old(self).client.v(), final(self).client.v()),
begin
    let ghost mut vx_k: nat = 0;
loop 0
    invariant_except_break
        self.client.wf(),
        crate::multi::scan_steps(old(self).client.v(), self.client.v(), vx_k),
    ensures
        crate::multi::scan_ends(old(self).client.v(), self.client.v()),
    decreases
        self.client.left().reads, self.client.left().pending,
loop 0 end
    proof { vx_k = vx_k + 1; }
