// Protocol 2.0 frames, what a reader finds in received bytes, and the effects of the bus.
pub mod frame {
use vstd::prelude::*;
use crate::vx::Event;
use crate::stuffing::*;
use crate::crc::crc;
use crate::*;

// ---------------------------------------------------------------- numbers on the wire

pub open spec fn le16(v: u16) -> Seq<u8> { seq![(v & 0xff) as u8, (v >> 8) as u8] }

pub open spec fn get16(s: Seq<u8>, i: int) -> u16 { (s[i] as u16) | ((s[i + 1] as u16) << 8) }

/// The bits of an error field, written in other ways.
pub proof fn error_bits(x: u8)
    ensures
        x & !0x80u8 == x & 0x7f,
        x & 0x7f == x % 128,
        x & 0x7f == x - (x & 0x80),
        (x & 0x80 != 0) == (x >= 128),
        (x & 0x80 != 0) == (x & 0x80 == 0x80),
        x >> 7 == x / 128,
        (x >> 7 == 1) == (x & 0x80 != 0),
        (x >> 7) & 1 == x >> 7,
        (x << 1 == 0) == (x & 0x7f == 0),
        (x << 1) >> 1 == x & 0x7f,
{
    assert(x & !0x80u8 == x & 0x7f) by (bit_vector);
    assert(x & 0x7f == x % 128) by (bit_vector);
    assert(x & 0x7f == x - (x & 0x80)) by (bit_vector);
    assert((x & 0x80 != 0) == (x >= 128)) by (bit_vector);
    assert((x & 0x80 != 0) == (x & 0x80 == 0x80)) by (bit_vector);
    assert(x >> 7 == x / 128) by (bit_vector);
    assert((x >> 7 == 1) == (x & 0x80 != 0)) by (bit_vector);
    assert((x >> 7) & 1 == x >> 7) by (bit_vector);
    assert((x << 1 == 0) == (x & 0x7f == 0)) by (bit_vector);
    assert((x << 1) >> 1 == x & 0x7f) by (bit_vector);
}

/// Two bytes together, written in other ways.
pub proof fn get16_forms(s: Seq<u8>, i: int)
    ensures
        get16(s, i) == s[i] + 256 * s[i + 1],
        get16(s, i) == (s[i + 1] as u16) << 8 | (s[i] as u16),
        get16(s, i) == (s[i] as u16) ^ ((s[i + 1] as u16) << 8),
        (s[i + 1] as u16) << 8 == 256 * s[i + 1],
{
    let (a, b) = (s[i] as u16, s[i + 1] as u16);
    assert(a < 256 && b < 256 ==> a | b << 8 == add(a, mul(256, b)) && b << 8 == mul(256, b)) by (bit_vector);
    assert(a | b << 8 == b << 8 | a) by (bit_vector);
    assert(a < 256 && b < 256 ==> a | b << 8 == a ^ (b << 8)) by (bit_vector);
}

pub proof fn le16_round(v: u16)
    ensures
        (v >> 8) == v / 256,
        (v & 0xff) == v % 256,
        ((v & 0xff) as u8) == (v as u8),
        get16(le16(v), 0) == v,
        ((v >> 8) & 0xff) as u8 == (v >> 8) as u8,
        v as int == (v & 0xff) as u8 + 256 * ((v >> 8) as u8),
{
    assert((((v & 0xff) as u8) as u16) | (((v >> 8) as u8) as u16) << 8 == v) by (bit_vector);
    assert(((v >> 8) & 0xff) as u8 == (v >> 8) as u8) by (bit_vector);
    assert((v >> 8) == v / 256) by (bit_vector);
    assert((v & 0xff) == v % 256) by (bit_vector);
    assert(((v & 0xff) as u8) == (v as u8)) by (bit_vector);
    assert(v == ((v & 0xff) as u8) as u16 + 256u16 * (((v >> 8) as u8) as u16)) by (bit_vector);
}

/// Reading back is exact in the other direction, too.
pub proof fn get16_round(s: Seq<u8>, i: int)
    requires 0 <= i, i + 1 < s.len(),
    ensures
        le16(get16(s, i)) == s.subrange(i, i + 2),
        get16(s, i) as int == s[i] + 256 * s[i + 1],
{
    let (a, b) = (s[i], s[i + 1]);
    assert((((a as u16) | ((b as u16) << 8)) & 0xff) as u8 == a) by (bit_vector);
    assert((((a as u16) | ((b as u16) << 8)) >> 8) as u8 == b) by (bit_vector);
    assert(((a as u16) | ((b as u16) << 8)) == (a as u16) + 256u16 * (b as u16)) by (bit_vector);
    assert(le16(get16(s, i)) =~= s.subrange(i, i + 2));
}

// ---------------------------------------------------------------- frames

pub open spec fn prefix() -> Seq<u8> { seq![0xFFu8, 0xFF, 0xFD, 0x00] }

pub open spec fn instruction_body(instruction: u8, params: Seq<u8>) -> Seq<u8> { seq![instruction] + params }

pub open spec fn status_body(error: u8, params: Seq<u8>) -> Seq<u8> { seq![0x55u8, error] + params }

/// Everything before the CRC.
pub open spec fn head(id: u8, body: Seq<u8>) -> Seq<u8> {
    prefix() + seq![id] + le16((stuff(body).len() + 2) as u16) + stuff(body)
}

/// The message for an instruction (or status) with these contents.
pub open spec fn frame(id: u8, body: Seq<u8>) -> Seq<u8> {
    head(id, body) + le16(crc(0, head(id, body)))
}

pub open spec fn frame_len(body: Seq<u8>) -> int { 9 + stuff(body).len() as int }

/// The message fits in the write buffer and its length in the length field.
pub open spec fn fits(wcap: int, body: Seq<u8>) -> bool {
    frame_len(body) <= wcap && stuff(body).len() + 2 <= 0xFFFF
}

// ---------------------------------------------------------------- received bytes

/// A header prefix may start at `i`: no received byte says otherwise.
pub open spec fn header_at(t: Seq<u8>, i: int) -> bool {
    forall|j: int| 0 <= j < 4 && i + j < t.len() ==> #[trigger] prefix()[j] == t[i + j]
}

pub open spec fn find_from(t: Seq<u8>, i: int) -> int
    decreases t.len() - i,
{
    if i >= t.len() { t.len() as int } else if header_at(t, i) { i } else { find_from(t, i + 1) }
}

/// Where the first (possibly incomplete) header starts.
pub open spec fn find(t: Seq<u8>) -> int { find_from(t, 0) }

/// Without the garbage at the start.
pub open spec fn clean(t: Seq<u8>) -> Seq<u8> { t.skip(find(t)) }

pub enum Item {
    /// An intact packet: its header and its contents without byte stuffing.
    Packet(Seq<u8>),
    /// The length field is less than that of any packet.
    Short(int),
    /// The message of this length does not fit in the read buffer.
    TooLong(int),
    /// The CRC in the message and the one of the message.
    BadCrc(u16, u16),
    /// An intact status packet without error field.
    NoError,
}

pub struct Found {
    /// The bytes up to the end of the item.
    pub used: int,
    pub item: Item,
}

/// What starts at the start of `u`, which is free of garbage; None if more bytes are needed.
pub open spec fn parse_clean(u: Seq<u8>, cap: int) -> Option<Found> {
    if u.len() <= 7 { None } else {
        let n = get16(u, 5) as int;
        if n < 3 { Some(Found { used: 7, item: Item::Short(n) }) }
        else if 7 + n > cap { Some(Found { used: 7, item: Item::TooLong(7 + n) }) }
        else if u.len() < 7 + n { None }
        else {
            let stored = get16(u, 5 + n);
            let computed = crc(0, u.take(5 + n));
            let data = u.take(7) + unstuff(u.subrange(7, 5 + n));
            Some(Found {
                used: 7 + n,
                item: if stored != computed { Item::BadCrc(stored, computed) }
                    else if data[7] == 0x55 && data.len() < 9 { Item::NoError }
                    else { Item::Packet(data) },
            })
        }
    }
}

/// The first item in received bytes.
pub open spec fn parse(t: Seq<u8>, cap: int) -> Option<Found> {
    match parse_clean(clean(t), cap) {
        None => None,
        Some(f) => Some(Found { used: find(t) + f.used, item: f.item }),
    }
}

// ---------------------------------------------------------------- the bus

pub ghost struct BusV<E, I> {
    pub trace: Seq<Event<E, I>>,
    /// Received and not yet used.
    pub pending: Seq<u8>,
    pub baud: u32,
    pub rcap: int,
    pub wcap: int,
}

impl<E, I> BusV<E, I> {
    /// After these events of a write: everything received before is gone.
    pub open spec fn after_write(self, events: Seq<Event<E, I>>) -> Self {
        BusV { trace: self.trace + events, pending: seq![], ..self }
    }
}

/// The bus after the events of a write.
pub proof fn written<E, I>(o: BusV<E, I>, n: BusV<E, I>, ev: Seq<Event<E, I>>)
    requires
        same_bus(o, n), n.pending.len() == 0, 1 <= ev.len() <= 2,
        n.trace == if ev.len() == 1 { o.trace.push(ev[0]) } else { o.trace.push(ev[0]).push(ev[1]) },
    ensures n == o.after_write(ev),
{
    assert(n.pending =~= seq![]);
    assert(n.trace =~= o.trace + ev);
}

/// The effect of sending one message.
pub open spec fn sends<E, I>(o: BusV<E, I>, n: BusV<E, I>, id: u8, body: Seq<u8>, r: Result<(), WriteError<E>>) -> bool {
    match r {
        Ok(()) => fits(o.wcap, body)
            && n == o.after_write(seq![Event::Discard(Ok(())), Event::Write(frame(id, body), Ok(()))]),
        Err(WriteError::BufferTooSmall(_)) => !fits(o.wcap, body) && n == o,
        Err(WriteError::DiscardBuffer(e)) => fits(o.wcap, body)
            && n == o.after_write(seq![Event::Discard(Err(e))]),
        Err(WriteError::Write(e)) => fits(o.wcap, body)
            && n == o.after_write(seq![Event::Discard(Ok(())), Event::Write(frame(id, body), Err(e))]),
    }
}

/// The encode function can put these bytes in a buffer of length `n`.
#[verifier::prophetic]
pub open spec fn encodes<F: FnOnce(&mut [u8]) -> Result<(), BufferTooSmallError>>(f: F, n: int, p: Seq<u8>) -> bool {
    exists|b: &mut [u8]| b@.len() == n && f.ensures((b,), Ok(())) && final(b)@ =~= p
}

/// The encode function can report this error for a buffer of length `n`.
pub open spec fn refuses<F: FnOnce(&mut [u8]) -> Result<(), BufferTooSmallError>>(f: F, n: int, e: BufferTooSmallError) -> bool {
    exists|b: &mut [u8]| b@.len() == n && f.ensures((b,), Err(e))
}

/// The encode function accepts every buffer of length `n`.
pub open spec fn accepts<F: FnOnce(&mut [u8]) -> Result<(), BufferTooSmallError>>(f: F, n: int) -> bool {
    forall|b: &mut [u8]| b@.len() == n ==> #[trigger] f.requires((b,))
}

/// The effect of sending one message with parameters from an encode function.
/// `start`: the contents before the parameters.
#[verifier::prophetic]
pub open spec fn sends_encoded<E, I, F: FnOnce(&mut [u8]) -> Result<(), BufferTooSmallError>>(
    o: BusV<E, I>, n: BusV<E, I>, id: u8, start: Seq<u8>, f: F, count: int, r: Result<(), WriteError<E>>,
) -> bool {
    ||| exists|p: Seq<u8>| encodes(f, count, p) && p.len() == count && #[trigger] sends(o, n, id, start + p, r)
    ||| r is Err && r->Err_0 is BufferTooSmall && n == o && refuses(f, count, r->Err_0->BufferTooSmall_0)
    ||| r is Err && r->Err_0 is BufferTooSmall && n == o
        && never_fits(o.wcap, start, count)
}

/// No contents with so many parameters fit.
pub open spec fn never_fits(wcap: int, start: Seq<u8>, count: int) -> bool {
    forall|p: Seq<u8>| p.len() == count ==> !#[trigger] fits(wcap, start + p)
}

/// What is too long even without byte stuffing does not fit.
pub proof fn too_long(wcap: int, start: Seq<u8>, count: int)
    requires 9 + start.len() + count > wcap || start.len() + count + 2 > 0xFFFF,
    ensures never_fits(wcap, start, count),
{
    assert forall|p: Seq<u8>| p.len() == count implies !#[trigger] fits(wcap, start + p) by {
        stuff_len(start + p);
    }
}

/// Call an encode function: what it put in the buffer is something it can put there.
pub fn call_encode<F: FnOnce(&mut [u8]) -> Result<(), BufferTooSmallError>>(f: F, b: &mut [u8]) -> (r: Result<(), BufferTooSmallError>)
    requires
        accepts(f, old(b)@.len() as int),
    ensures
        final(b)@.len() == old(b)@.len(),
        r is Ok ==> encodes(f, old(b)@.len() as int, final(b)@),
        r is Err ==> refuses(f, old(b)@.len() as int, r->Err_0),
{
    let n = b.len();
    let c = &mut b[0..n];
    proof { assert(c@.len() == n); }
    let r = f(c);
    proof {
        assert(b@ =~= b@.subrange(0, n as int));
        if r is Ok {
            let u: () = r->Ok_0;
            assert(u == ());
            assert(r == Ok::<(), BufferTooSmallError>(()));
            assert(exists|x: &mut [u8]| x@.len() == n && f.ensures((x,), r) && final(x)@ =~= b@);
        }
    }
    r
}

/// An encode function that puts `first` in the buffer and leaves the rest to another one.
#[verifier::prophetic]
pub open spec fn encodes_after<F: FnOnce(&mut [u8]) -> Result<(), BufferTooSmallError>, G: FnOnce(&mut [u8]) -> Result<(), BufferTooSmallError>>(
    f: F, g: G, first: u8, count: int,
) -> bool {
    &&& forall|b: &mut [u8]| b@.len() == count + 1 && #[trigger] f.ensures((b,), Ok(()))
        ==> final(b)@.len() == count + 1 && final(b)@[0] == first && encodes(g, count, final(b)@.skip(1))
    &&& forall|b: &mut [u8], e: BufferTooSmallError| b@.len() == count + 1 && #[trigger] f.ensures((b,), Err(e)) ==> refuses(g, count, e)
}

pub proof fn too_long_after(wcap: int, start: Seq<u8>, start2: Seq<u8>, first: u8, count: int)
    requires never_fits(wcap, start, count + 1), start2 == start.push(first),
    ensures never_fits(wcap, start2, count),
{
    assert forall|p: Seq<u8>| p.len() == count implies !#[trigger] fits(wcap, start2 + p) by {
        let q = seq![first] + p;
        assert(!fits(wcap, start + q));
        assert(start + q =~= start2 + p);
    }
}

pub proof fn sends_after<E, I, F: FnOnce(&mut [u8]) -> Result<(), BufferTooSmallError>, G: FnOnce(&mut [u8]) -> Result<(), BufferTooSmallError>>(
    o: BusV<E, I>, n: BusV<E, I>, id: u8, f: F, g: G, first: u8, count: int, r: Result<(), WriteError<E>>,
)
    requires
        0 <= count,
        sends_encoded(o, n, id, seq![0x55u8], f, count + 1, r),
        encodes_after(f, g, first, count),
    ensures
        sends_encoded(o, n, id, seq![0x55u8, first], g, count, r),
{
    if exists|p: Seq<u8>| encodes(f, count + 1, p) && p.len() == count + 1 && #[trigger] sends(o, n, id, seq![0x55u8] + p, r) {
        let p = choose|p: Seq<u8>| encodes(f, count + 1, p) && p.len() == count + 1 && #[trigger] sends(o, n, id, seq![0x55u8] + p, r);
        assert(encodes(g, count, p.skip(1)) && p[0] == first);
        assert(seq![0x55u8] + p =~= seq![0x55u8, first] + p.skip(1));
    }
    if never_fits(o.wcap, seq![0x55u8], count + 1) {
        assert(seq![0x55u8, first] =~= seq![0x55u8].push(first));
        too_long_after(o.wcap, seq![0x55u8], seq![0x55u8, first], first, count);
    }
}

/// All these events are successful reads with this deadline.
pub open spec fn good_reads<E, I>(ev: Seq<Event<E, I>>, d: I) -> bool {
    forall|i: int| 0 <= i < ev.len() ==> #[trigger] ev[i] is Read && ev[i]->Read_0 == d && ev[i]->Read_1 is Ok
}

/// The bytes of the reads.
pub open spec fn received<E, I>(ev: Seq<Event<E, I>>) -> Seq<u8>
    decreases ev.len(),
{
    if ev.len() == 0 { seq![] } else {
        received(ev.drop_last()) + match ev.last() {
            Event::Read(_, Ok(x)) => x,
            _ => seq![],
        }
    }
}

/// Nothing complete was received before the last of these reads.
pub open spec fn waits<E, I>(o: BusV<E, I>, ev: Seq<Event<E, I>>) -> bool {
    forall|k: int| 0 <= k < ev.len() ==> parse(o.pending + received(#[trigger] ev.take(k)), o.rcap) is None
}

/// Nothing but the pending bytes and the trace changed.
pub open spec fn same_bus<E, I>(o: BusV<E, I>, n: BusV<E, I>) -> bool {
    n.baud == o.baud && n.rcap == o.rcap && n.wcap == o.wcap
}

/// The answer for an item.
pub open spec fn item_result<E>(item: Item, rcap: int) -> Result<Seq<u8>, ReadError<E>> {
    match item {
        Item::Packet(data) => Ok(data),
        Item::Short(n) => short_error(n as usize),
        Item::TooLong(n) => full_error(n, rcap),
        Item::BadCrc(message, computed) => crc_error(message, computed),
        Item::NoError => no_error_error(),
    }
}

/// The effect of receiving one packet or error with these events.
pub open spec fn receives<E, I>(o: BusV<E, I>, n: BusV<E, I>, d: I, ev: Seq<Event<E, I>>, r: Result<Seq<u8>, ReadError<E>>) -> bool {
    let t = o.pending + received(ev);
    let f = parse(t, o.rcap);
    &&& same_bus(o, n)
    &&& n.trace == o.trace + ev
    &&& waits(o, ev)
    &&& match r {
        Err(ReadError::Io(e)) => o.rcap >= 10 && ev.len() > 0 && good_reads(ev.drop_last(), d)
            && ev.last() == Event::<E, I>::Read(d, Err(e)) && clean(n.pending) == clean(t),
        _ => good_reads(ev, d) && if o.rcap < 10 {
            ev.len() == 0 && n == o && r == full_error::<E>(10, o.rcap)
        } else {
            f is Some && r == item_result::<E>(f->0.item, o.rcap) && n.pending == t.skip(f->0.used)
        },
    }
}

/// The effect of receiving one packet or error.
pub open spec fn bus_read<E, I>(o: BusV<E, I>, n: BusV<E, I>, d: I, r: Result<Seq<u8>, ReadError<E>>) -> bool {
    exists|ev: Seq<Event<E, I>>| #[trigger] receives(o, n, d, ev, r)
}

/// The answer of `read_packet_deadline` with the contents of the packet.
pub open spec fn read_result<'a, E>(r: Result<crate::bus::Packet<'a>, ReadError<E>>) -> Result<Seq<u8>, ReadError<E>> {
    match r {
        Ok(p) => Ok(p.data@),
        Err(e) => Err(e),
    }
}

pub open spec fn short_error<E>(n: usize) -> Result<Seq<u8>, ReadError<E>> {
    Err(ReadError::InvalidMessage(InvalidMessage::InvalidParameterCount(InvalidParameterCount { actual: n, expected: ExpectedCount::Min(3) })))
}

pub open spec fn no_error_error<E>() -> Result<Seq<u8>, ReadError<E>> {
    Err(ReadError::InvalidMessage(InvalidMessage::InvalidParameterCount(InvalidParameterCount { actual: 0, expected: ExpectedCount::Min(1) })))
}

pub open spec fn full_error<E>(n: int, cap: int) -> Result<Seq<u8>, ReadError<E>> {
    Err(ReadError::BufferFull(BufferTooSmallError { required_size: n as usize, total_size: cap as usize }))
}

pub open spec fn crc_error<E>(message: u16, computed: u16) -> Result<Seq<u8>, ReadError<E>> {
    Err(ReadError::InvalidMessage(InvalidMessage::InvalidChecksum(InvalidChecksum { message, computed })))
}

// ---------------------------------------------------------------- reading, step by step

/// These events happened since the start of reading, and nothing complete was received.
pub open spec fn reading_with<E, I>(o: BusV<E, I>, now: BusV<E, I>, d: I, ev: Seq<Event<E, I>>) -> bool {
    &&& o.rcap >= 10
    &&& good_reads(ev, d)
    &&& waits(o, ev)
    &&& same_bus(o, now)
    &&& now.trace == o.trace + ev
    &&& clean(now.pending) == clean(o.pending + received(ev))
}

pub open spec fn reading<E, I>(o: BusV<E, I>, now: BusV<E, I>, d: I) -> bool {
    exists|ev: Seq<Event<E, I>>| #[trigger] reading_with(o, now, d, ev)
}

pub open spec fn no_garbage(u: Seq<u8>) -> bool { find(u) == 0 }

pub proof fn read_too_small<E, I>(o: BusV<E, I>, d: I)
    requires o.rcap < 10,
    ensures bus_read(o, o, d, full_error(10, o.rcap)),
{
    let ev = Seq::<Event<E, I>>::empty();
    assert(o.trace + ev =~= o.trace);
    assert(receives(o, o, d, ev, full_error(10, o.rcap)));
}

pub proof fn read_start<E, I>(o: BusV<E, I>, d: I)
    requires o.rcap >= 10,
    ensures reading(o, o, d),
{
    let ev = Seq::<Event<E, I>>::empty();
    assert(o.trace + ev =~= o.trace);
    assert(o.pending + received(ev) =~= o.pending);
    assert(reading_with(o, o, d, ev));
}

/// The garbage is removed.
pub proof fn read_clean<E, I>(o: BusV<E, I>, before: BusV<E, I>, now: BusV<E, I>, d: I)
    requires reading(o, before, d), same_bus(before, now), now.trace == before.trace, now.pending == clean(before.pending),
    ensures reading(o, now, d), no_garbage(now.pending),
{
    let ev = choose|ev: Seq<Event<E, I>>| #[trigger] reading_with(o, before, d, ev);
    find_append(before.pending, seq![]);
    assert(reading_with(o, now, d, ev));
}

/// The first item is complete and removed.
pub proof fn read_item<E, I>(o: BusV<E, I>, now: BusV<E, I>, n: BusV<E, I>, d: I, r: Result<Seq<u8>, ReadError<E>>)
    requires
        reading(o, now, d), no_garbage(now.pending), same_bus(now, n), n.trace == now.trace,
        parse_clean(now.pending, o.rcap) is Some,
        n.pending == now.pending.skip(parse_clean(now.pending, o.rcap)->0.used),
        r == item_result::<E>(parse_clean(now.pending, o.rcap)->0.item, o.rcap),
    ensures bus_read(o, n, d, r),
{
    let ev = choose|ev: Seq<Event<E, I>>| #[trigger] reading_with(o, now, d, ev);
    let t = o.pending + received(ev);
    find_bounds(t, 0);
    assert(now.pending.skip(0) =~= now.pending);
    assert(now.pending == clean(t));
    let f = parse(t, o.rcap);
    assert(now.pending.skip(f->0.used - find(t)) =~= t.skip(f->0.used));
    assert(receives(o, n, d, ev, r));
}

/// One more read, which fails.
pub proof fn read_failed<E, I>(o: BusV<E, I>, now: BusV<E, I>, n: BusV<E, I>, d: I, e: E)
    requires
        reading(o, now, d), no_garbage(now.pending), parse_clean(now.pending, o.rcap) is None,
        same_bus(now, n), n.pending == now.pending, n.trace == now.trace.push(Event::Read(d, Err(e))),
    ensures bus_read(o, n, d, Err(ReadError::Io(e))),
{
    let ev = choose|ev: Seq<Event<E, I>>| #[trigger] reading_with(o, now, d, ev);
    let t = o.pending + received(ev);
    find_bounds(t, 0);
    assert(now.pending.skip(0) =~= now.pending);
    assert(now.pending == clean(t));
    assert(parse(t, o.rcap) is None);
    let ev2 = ev.push(Event::<E, I>::Read(d, Err(e)));
    assert(ev2.drop_last() =~= ev);
    assert(received(ev2) =~= received(ev));
    assert forall|k: int| 0 <= k < ev2.len() implies parse(o.pending + received(#[trigger] ev2.take(k)), o.rcap) is None by {
        assert(ev2.take(k) =~= ev.take(k));
        if k == ev.len() { assert(ev.take(k) =~= ev); }
    }
    assert(now.trace.push(Event::Read(d, Err(e))) =~= o.trace + ev2);
    assert(receives(o, n, d, ev2, Err(ReadError::Io(e))));
}

/// One more read, which gives `x`.
pub proof fn read_more<E, I>(o: BusV<E, I>, now: BusV<E, I>, n: BusV<E, I>, d: I, x: Seq<u8>)
    requires
        reading(o, now, d), no_garbage(now.pending), parse_clean(now.pending, o.rcap) is None,
        same_bus(now, n), n.pending == now.pending + x, n.trace == now.trace.push(Event::Read(d, Ok(x))),
    ensures reading(o, n, d),
{
    let ev = choose|ev: Seq<Event<E, I>>| #[trigger] reading_with(o, now, d, ev);
    let t = o.pending + received(ev);
    find_bounds(t, 0);
    assert(now.pending.skip(0) =~= now.pending);
    assert(now.pending == clean(t));
    assert(parse(t, o.rcap) is None);
    let ev2 = ev.push(Event::<E, I>::Read(d, Ok(x)));
    assert(ev2.drop_last() =~= ev);
    assert(o.pending + received(ev2) =~= t + x);
    assert forall|k: int| 0 <= k < ev2.len() implies parse(o.pending + received(#[trigger] ev2.take(k)), o.rcap) is None by {
        assert(ev2.take(k) =~= ev.take(k));
        if k == ev.len() { assert(ev.take(k) =~= ev); }
    }
    find_append(t, x);
    assert(n.trace =~= o.trace + ev2);
    assert(reading_with(o, n, d, ev2));
}

// ---------------------------------------------------------------- lemmas about received bytes

pub proof fn find_bounds(t: Seq<u8>, i: int)
    requires 0 <= i <= t.len(),
    ensures
        i <= find_from(t, i) <= t.len(),
        forall|j: int| i <= j < find_from(t, i) ==> !#[trigger] header_at(t, j),
        header_at(t, find_from(t, i)),
    decreases t.len() - i,
{
    if i < t.len() && !header_at(t, i) { find_bounds(t, i + 1); }
}

/// The first possible header is the one found.
pub proof fn find_is(t: Seq<u8>, k: int)
    requires 0 <= k <= t.len(), forall|j: int| 0 <= j < k ==> !#[trigger] header_at(t, j), k == t.len() || header_at(t, k),
    ensures find(t) == k,
{
    find_bounds(t, 0);
    if find(t) < k { assert(!header_at(t, find(t))); }
    if k < find(t) { assert(!header_at(t, k)); }
}

/// What is garbage stays garbage when more bytes arrive.
pub proof fn find_append(t: Seq<u8>, x: Seq<u8>)
    ensures
        find(t + x) == find(t) + find(clean(t) + x),
        clean(t + x) == clean(clean(t) + x),
        find(clean(t)) == 0,
        clean(clean(t)) == clean(t),
{
    find_bounds(t, 0);
    let f = find(t);
    let u = clean(t);
    let g = find(u + x);
    find_bounds(u + x, 0);
    assert((t + x).skip(f) =~= u + x);
    assert forall|j: int| 0 <= j < f + g implies !#[trigger] header_at(t + x, j) by {
        if j < f {
            assert(!header_at(t, j));
            let k = choose|k: int| 0 <= k < 4 && j + k < t.len() && #[trigger] prefix()[k] != t[j + k];
            assert((t + x)[j + k] == t[j + k]);
        } else {
            assert(!header_at(u + x, j - f));
            let k = choose|k: int| 0 <= k < 4 && j - f + k < (u + x).len() && #[trigger] prefix()[k] != (u + x)[j - f + k];
            assert((t + x)[j + k] == (u + x)[j - f + k]);
        }
    }
    assert(header_at(t + x, f + g)) by {
        assert(header_at(u + x, g));
        assert forall|k: int| 0 <= k < 4 && f + g + k < (t + x).len() implies #[trigger] prefix()[k] == (t + x)[f + g + k] by {
            assert((t + x)[f + g + k] == (u + x)[g + k]);
        }
    }
    find_is(t + x, f + g);
    assert(clean(t + x) =~= clean(u + x));
    assert(header_at(u, 0)) by {
        assert(header_at(t, f));
        assert forall|k: int| 0 <= k < 4 && k < u.len() implies #[trigger] prefix()[k] == u[k] by {
            assert(u[k] == t[f + k]);
        }
    }
    find_is(u, 0);
    assert(u.skip(0) =~= u);
}

/// A header at `i`, as a comparison with a part of the prefix.
pub proof fn header_slice(t: Seq<u8>, i: int, p: Seq<u8>)
    requires
        0 <= i < t.len(),
        p.len() == if t.len() - i < 4 { t.len() - i } else { 4 },
        p == prefix().take(p.len() as int),
    ensures
        header_at(t, i) <==> forall|k: int| 0 <= k < p.len() ==> #[trigger] p[k] == t.subrange(i, t.len() as int)[k],
{
    let u = t.subrange(i, t.len() as int);
    if header_at(t, i) {
        assert forall|k: int| 0 <= k < p.len() implies #[trigger] p[k] == u[k] by { assert(prefix()[k] == t[i + k]); }
    }
    if forall|k: int| 0 <= k < p.len() ==> #[trigger] p[k] == u[k] {
        assert forall|j: int| 0 <= j < 4 && i + j < t.len() implies #[trigger] prefix()[j] == t[i + j] by { assert(p[j] == u[j]); }
    }
}

// ---------------------------------------------------------------- time

/// The time for so many bytes of ten bits each, rounded up.
pub open spec fn transfer_ns(size: int, rate: int) -> int {
    let baud = if rate == 0 { 1 } else { rate };
    (size * 10_000_000_000 + baud - 1) / baud
}

pub proof fn transfer_time(size: int, baud: int)
    requires 0 <= size <= u32::MAX, 0 < baud <= u32::MAX,
    ensures
        0 <= (size * 10) / baud <= size * 10,
        0 <= (size * 10) % baud < baud,
        ((size * 10) % baud) * 1_000_000_000 + baud - 1 <= u64::MAX,
        0 <= (((size * 10) % baud) * 1_000_000_000 + baud - 1) / baud <= 1_000_000_000,
        ((size * 10) / baud) * 1_000_000_000 + (((size * 10) % baud) * 1_000_000_000 + baud - 1) / baud == transfer_ns(size, baud),
{
    let (q, m) = ((size * 10) / baud, (size * 10) % baud);
    let x = m * 1_000_000_000 + baud - 1;
    assert(q * baud + m == size * 10 && 0 <= m < baud && 0 <= q <= size * 10) by (nonlinear_arith)
        requires q == (size * 10) / baud, m == (size * 10) % baud, baud > 0, size >= 0;
    assert(size * 10_000_000_000 + baud - 1 == (q * 1_000_000_000) * baud + x) by (nonlinear_arith)
        requires q * baud + m == size * 10, x == m * 1_000_000_000 + baud - 1;
    assert(((q * 1_000_000_000) * baud + x) / baud == q * 1_000_000_000 + x / baud) by (nonlinear_arith)
        requires baud > 0;
    assert(0 <= x / baud <= 1_000_000_000) by (nonlinear_arith)
        requires 0 <= x < 1_000_000_001 * baud, baud > 0;
}

// ---------------------------------------------------------------- termination

/// A port answers only so many reads with data before it reports an error (`SerialPort::patience`).
pub struct Left {
    pub reads: nat,
    pub pending: nat,
}

/// There is less left to be received. There is no infinite descent, so every loop with progress ends.
pub open spec fn progress(old: Left, new: Left) -> bool {
    new.reads < old.reads || new.reads == old.reads && new.pending < old.pending
}

// ---------------------------------------------------------------- the bus as seen from outside

impl<SerialPort: crate::SerialPort, Buffer: crate::vx::ByteBuf> crate::bus::Bus<SerialPort, Buffer> {
    pub open spec fn v(&self) -> crate::frame::BusV<SerialPort::Error, SerialPort::Instant> {
        crate::frame::BusV {
            trace: self.serial_port.trace(),
            pending: self.read_buffer.bytes().subrange(self.used_bytes as int, self.read_len as int),
            baud: self.baud_rate,
            rcap: self.read_buffer.bytes().len() as int,
            wcap: self.write_buffer.bytes().len() as int,
        }
    }
    /// What is left to be received: see `progress`.
    pub open spec fn left(&self) -> crate::frame::Left {
        crate::frame::Left { reads: self.serial_port.patience(), pending: (self.read_len - self.used_bytes) as nat }
    }
    pub open spec fn wf(&self) -> bool {
        &&& self.used_bytes <= self.read_len <= self.read_buffer.bytes().len() <= isize::MAX
        &&& 10 <= self.write_buffer.bytes().len() <= isize::MAX
        &&& self.write_buffer.bytes().take(4) == crate::frame::prefix()
    }
}
}
