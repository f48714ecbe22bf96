// Requests to many motors: what they send and the responses they wait for.
pub mod multi {
use vstd::prelude::*;
use crate::vx::*;
use crate::frame::*;
use crate::talk::*;
use crate::*;
use crate::instructions::bulk_read::BulkReadBytes;
use crate::instructions::sync_read::{SyncRead, SyncReadBytes};
use crate::instructions::{BulkReadData, BulkWriteData, SyncWriteData};

/// A multi-motor read: the bus, and the motors and sizes of the responses to come.
pub ghost struct MultiV<E, I> { pub bus: BusV<E, I>, pub left: Seq<(u8, u16)> }

/// The effect of waiting for the response of this motor, with so many parameters.
pub open spec fn expects_bytes<T, E, I>(o: BusV<E, I>, n: BusV<E, I>, id: u8, count: u16, r: Result<Response<T>, ReadError<E>>) -> bool {
    exists|x: Result<Seq<u8>, ReadError<E>>| #[trigger] awaits(o, n, status_ns(count as int, o.baud), x) && bytes_answer(sized(from_motor(x, id), count as int), r)
}

pub open spec fn expects_borrow<T, E, I>(o: BusV<E, I>, n: BusV<E, I>, id: u8, count: u16, r: Result<Response<&T>, ReadError<E>>) -> bool {
    exists|x: Result<Seq<u8>, ReadError<E>>| #[trigger] awaits(o, n, status_ns(count as int, o.baud), x) && borrow_answer(sized(from_motor(x, id), count as int), r)
}

pub open spec fn expects_value<T: crate::bus::data::Data, E, I>(o: BusV<E, I>, n: BusV<E, I>, id: u8, count: u16, r: Result<Response<T>, ReadError<E>>) -> bool {
    exists|x: Result<Seq<u8>, ReadError<E>>| #[trigger] awaits(o, n, status_ns(count as int, o.baud), x) && value_answer(sized(from_motor(x, id), count as int), r)
}

/// The effect of waiting for one response to a scan.
pub open spec fn scans_one<E, I>(o: BusV<E, I>, n: BusV<E, I>, r: Result<Response<crate::instructions::Ping>, ReadError<E>>) -> bool {
    exists|x: Result<Seq<u8>, ReadError<E>>| #[trigger] awaits(o, n, scan_ns(o.baud), x) && ping_answer(sized(x, 3), r)
}

pub open spec fn io_error<T, E>(r: Result<T, ReadError<E>>) -> bool { r is Err && r->Err_0 is Io }

/// The read buffer can not hold any packet.
pub open spec fn hopeless<T, E>(r: Result<T, ReadError<E>>) -> bool {
    r is Err && r->Err_0 is BufferFull && r->Err_0->BufferFull_0.total_size < 10
}

/// The effect of asking for one more response to a scan: time-outs end it.
pub open spec fn scans<P: crate::SerialPort>(
    o: BusV<P::Error, P::Instant>, n: BusV<P::Error, P::Instant>, r: Option<Result<Response<crate::instructions::Ping>, ReadError<P::Error>>>,
) -> bool {
    match r {
        Some(x) => scans_one(o, n, x) && !(io_error(x) && timeout_error(x->Err_0->Io_0)),
        None => exists|x: Result<Response<crate::instructions::Ping>, ReadError<P::Error>>|
            #[trigger] scans_one(o, n, x) && io_error(x) && timeout_error(x->Err_0->Io_0),
    }
}

/// The effect of waiting for so many responses to a scan.
pub open spec fn scan_steps<E, I>(o: BusV<E, I>, n: BusV<E, I>, k: nat) -> bool
    decreases k,
{
    if k == 0 { n == o } else {
        exists|m: BusV<E, I>, x: Result<Response<crate::instructions::Ping>, ReadError<E>>|
            scan_steps(o, m, (k - 1) as nat) && #[trigger] scans_one(m, n, x) && !io_error(x) && !hopeless(x)
    }
}

/// The effect of waiting for responses until a time-out or I/O error (or not at all, if the read buffer can not hold any).
pub open spec fn scan_ends<E, I>(o: BusV<E, I>, n: BusV<E, I>) -> bool {
    exists|k: nat, m: BusV<E, I>, x: Result<Response<crate::instructions::Ping>, ReadError<E>>|
        #[trigger] scan_steps(o, m, k) && #[trigger] scans_one(m, n, x) && (io_error(x) || hopeless(x))
}

/// The effect of waiting for one packet for each of these motors.
pub open spec fn clears<E, I>(o: BusV<E, I>, n: BusV<E, I>, left: Seq<(u8, u16)>) -> bool
    decreases left.len(),
{
    if left.len() == 0 { n == o } else {
        exists|m: BusV<E, I>, x: Result<Seq<u8>, ReadError<E>>|
            clears(o, m, left.drop_last()) && #[trigger] awaits(m, n, status_ns(left.last().1 as int, m.baud), x)
    }
}

pub proof fn clears_one<E, I>(o: BusV<E, I>, m: BusV<E, I>, n: BusV<E, I>, left: Seq<(u8, u16)>, k: int, x: Result<Seq<u8>, ReadError<E>>)
    requires
        0 <= k < left.len(),
        clears(o, m, left.take(k)),
        awaits(m, n, status_ns(left[k].1 as int, m.baud), x),
    ensures
        clears(o, n, left.take(k + 1)),
{
    assert(left.take(k + 1).drop_last() =~= left.take(k));
    assert(left.take(k + 1).last() == left[k]);
}

/// The motors, each with a response of this size.
pub open spec fn each(ids: Seq<u8>, count: u16) -> Seq<(u8, u16)> { Seq::new(ids.len(), |i: int| (ids[i], count)) }

pub open spec fn targets(reads: Seq<BulkReadData>) -> Seq<(u8, u16)> { Seq::new(reads.len(), |i: int| (reads[i].motor_id, reads[i].count)) }

pub open spec fn both(a: bool, b: bool) -> bool { a && b }

/// No motor occurs twice.
pub open spec fn distinct(left: Seq<(u8, u16)>) -> bool { distinct_up_to(left, left.len() as int) }

/// The first `k` do not occur again.
pub open spec fn distinct_up_to(left: Seq<(u8, u16)>, k: int) -> bool {
    forall|a: int, b: int| 0 <= a < k && a < b < left.len() ==> (#[trigger] left[a]).0 != (#[trigger] left[b]).0
}

/// The language limits the size of a slice to isize::MAX bytes; every element has a u8 and two u16.
pub axiom fn reads_bound(s: &[BulkReadData])
    ensures 5 * s@.len() <= isize::MAX;

/// The parameters of a bulk read.
pub open spec fn bulk_read_params(reads: Seq<BulkReadData>) -> Seq<u8>
    decreases reads.len(),
{
    if reads.len() == 0 { seq![] } else {
        bulk_read_params(reads.drop_last()) + (seq![reads.last().motor_id] + le16(reads.last().address) + le16(reads.last().count))
    }
}

pub proof fn bulk_read_step(reads: Seq<BulkReadData>, k: int)
    requires 0 <= k < reads.len(),
    ensures
        bulk_read_params(reads.take(k)).len() == 5 * k,
        bulk_read_params(reads.take(k + 1)) == bulk_read_params(reads.take(k)) + (seq![reads[k].motor_id] + le16(reads[k].address) + le16(reads[k].count)),
    decreases k,
{
    assert(reads.take(k + 1).drop_last() =~= reads.take(k));
    if k > 0 { bulk_read_step(reads, k - 1); }
}

pub proof fn bulk_read_len(reads: Seq<BulkReadData>)
    ensures bulk_read_params(reads).len() == 5 * reads.len(),
    decreases reads.len(),
{
    if reads.len() > 0 { bulk_read_len(reads.drop_last()); }
}

pub open spec fn sync_read_body(address: u16, count: u16, ids: Seq<u8>) -> Seq<u8> {
    instruction_body(0x82, le16(address) + le16(count) + ids)
}

// ---------------------------------------------------------------- writes

/// What these things refer to.
pub open spec fn refs<X, D: RefTo<X>>(items: Seq<D>) -> Seq<X> { Seq::new(items.len(), |i: int| items[i].target()) }

/// Every motor gets so many bytes.
pub open spec fn sync_sized<B: ByteSrc>(items: Seq<SyncWriteData<B>>, count: u16) -> bool {
    forall|i: int| 0 <= i < items.len() ==> (#[trigger] items[i]).data.bytes().len() == count
}

pub open spec fn sync_params<B: ByteSrc>(items: Seq<SyncWriteData<B>>) -> Seq<u8>
    decreases items.len(),
{
    if items.len() == 0 { seq![] } else { sync_params(items.drop_last()) + (seq![items.last().motor_id] + items.last().data.bytes()) }
}

pub open spec fn sync_write_body<B: ByteSrc>(address: u16, count: u16, items: Seq<SyncWriteData<B>>) -> Seq<u8> {
    instruction_body(0x83, le16(address) + le16(count) + sync_params(items))
}

/// The effect of a sync write of bytes. Data of another length is not accepted.
pub open spec fn sync_sends<B: ByteSrc, E, I>(o: BusV<E, I>, n: BusV<E, I>, address: u16, count: u16, items: Seq<SyncWriteData<B>>, r: Result<(), WriteError<E>>) -> bool {
    if sync_sized(items, count) { sends(o, n, 0xFE, sync_write_body(address, count, items), r) } else {
        unsent(o, n, r) && never_fits(o.wcap, seq![0x83u8], 4 + items.len() * (1 + count))
    }
}

/// Nothing was sent because the buffer is too small.
pub open spec fn unsent<E, I>(o: BusV<E, I>, n: BusV<E, I>, r: Result<(), WriteError<E>>) -> bool {
    r is Err && r->Err_0 is BufferTooSmall && n == o
}

pub proof fn sync_len<B: ByteSrc>(items: Seq<SyncWriteData<B>>, count: u16)
    ensures sync_sized(items, count) ==> sync_params(items).len() == items.len() * (1 + count),
    decreases items.len(),
{
    if items.len() > 0 {
        sync_len(items.drop_last(), count);
        let k = items.len() as int;
        let c = 1 + count as int;
        assert((k - 1) * c + c == k * c) by (nonlinear_arith);
        if sync_sized(items, count) {
            assert(forall|i: int| 0 <= i < items.len() - 1 ==> items.drop_last()[i] == items[i]);
            assert(sync_sized(items.drop_last(), count));
            assert(items.last() == items[k - 1]);
        }
    }
}

/// Too many motors do not fit.
pub proof fn sync_unsent<B: ByteSrc>(wcap: int, address: u16, count: u16, items: Seq<SyncWriteData<B>>)
    ensures
        never_fits(wcap, seq![0x83u8], usize::MAX as int),
        4 + items.len() * (1 + count) > usize::MAX ==> never_fits(wcap, seq![0x83u8], 4 + items.len() * (1 + count))
            && (sync_sized(items, count) ==> !fits(wcap, sync_write_body(address, count, items))),
{
    too_long(wcap, seq![0x83u8], usize::MAX as int);
    let n = 4 + items.len() * (1 + count);
    if n > usize::MAX {
        too_long(wcap, seq![0x83u8], n);
        sync_len(items, count);
        assert(seq![0x83u8] + (le16(address) + le16(count) + sync_params(items)) == sync_write_body(address, count, items));
    }
}

pub open spec fn sync_value_params<T: crate::bus::data::Data>(items: Seq<SyncWriteData<T>>) -> Seq<u8>
    decreases items.len(),
{
    if items.len() == 0 { seq![] } else { sync_value_params(items.drop_last()) + (seq![items.last().motor_id] + items.last().data.encoded()) }
}

/// The effect of a sync write of values. Only values of types of the user may refuse to be encoded.
pub open spec fn sync_sends_values<T: crate::bus::data::Data, E, I>(o: BusV<E, I>, n: BusV<E, I>, address: u16, items: Seq<SyncWriteData<T>>, r: Result<(), WriteError<E>>) -> bool {
    ||| sends(o, n, 0xFE, instruction_body(0x83, le16(address) + le16(T::ENCODED_SIZE) + sync_value_params(items)), r)
    ||| unsent(o, n, r) && (!T::total() || never_fits(o.wcap, seq![0x83u8], 4 + items.len() * (1 + T::ENCODED_SIZE)))
}

/// More bytes than the address space has do not fit.
pub proof fn never_so_long(wcap: int, start: Seq<u8>, n: int)
    ensures
        never_fits(wcap, start, usize::MAX as int),
        n > usize::MAX ==> never_fits(wcap, start, n),
{
    too_long(wcap, start, usize::MAX as int);
    if n > usize::MAX { too_long(wcap, start, n); }
}

/// Where the data of motor `k` begins and ends.
pub proof fn stride_bounds(k: int, n: int, stride: int)
    requires 0 <= k < n, 0 <= stride,
    ensures 0 <= k * stride, (k + 1) * stride == k * stride + stride, (k + 1) * stride <= n * stride,
{
    assert(0 <= k * stride && (k + 1) * stride == k * stride + stride && (k + 1) * stride <= n * stride) by (nonlinear_arith)
        requires 0 <= k < n, 0 <= stride;
}

pub proof fn sync_step<B: ByteSrc>(items: Seq<SyncWriteData<B>>, k: int, count: u16)
    requires 0 <= k < items.len(), sync_sized(items.take(k), count),
    ensures
        sync_params(items.take(k)).len() == k * (1 + count),
        sync_params(items.take(k + 1)) == sync_params(items.take(k)) + (seq![items[k].motor_id] + items[k].data.bytes()),
        items[k].data.bytes().len() == count ==> sync_sized(items.take(k + 1), count),
        items[k].data.bytes().len() != count ==> !sync_sized(items, count),
{
    assert(items.take(k + 1).drop_last() =~= items.take(k));
    sync_len(items.take(k), count);
    if items[k].data.bytes().len() == count {
        assert forall|i: int| 0 <= i < k + 1 implies (#[trigger] items.take(k + 1)[i]).data.bytes().len() == count by {
            if i < k { assert(items.take(k)[i] == items.take(k + 1)[i]); }
        }
    }
}

/// What the documentation of bulk writes asks for.
pub open spec fn bulk_ok<D: ByteSrc>(items: Seq<BulkWriteData<D>>) -> bool {
    &&& forall|i: int| 0 <= i < items.len() ==> (#[trigger] items[i]).data.bytes().len() <= 0xFFFF
    &&& forall|a: int, b: int| 0 <= a < b < items.len() ==> (#[trigger] items[a]).motor_id != (#[trigger] items[b]).motor_id
}

pub open spec fn bulk_entry<D: ByteSrc>(x: BulkWriteData<D>) -> Seq<u8> {
    seq![x.motor_id] + le16(x.address) + le16(x.data.bytes().len() as u16) + x.data.bytes()
}

pub open spec fn bulk_params<D: ByteSrc>(items: Seq<BulkWriteData<D>>) -> Seq<u8>
    decreases items.len(),
{
    if items.len() == 0 { seq![] } else { bulk_params(items.drop_last()) + bulk_entry(items.last()) }
}

/// So many different numbers are not below `m`.
pub proof fn pigeonhole(s: Seq<int>, m: int)
    requires
        0 <= m,
        forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] s[i] < m,
        forall|a: int, b: int| 0 <= a < b < s.len() ==> #[trigger] s[a] != #[trigger] s[b],
    ensures s.len() <= m,
    decreases m,
{
    if s.len() > 0 {
        if exists|k: int| 0 <= k < s.len() && s[k] == m - 1 {
            let k = choose|k: int| 0 <= k < s.len() && s[k] == m - 1;
            let t = s.remove(k);
            assert forall|i: int| 0 <= i < t.len() implies 0 <= #[trigger] t[i] < m - 1 by {
                assert(t[i] == if i < k { s[i] } else { s[i + 1] });
            }
            assert forall|a: int, b: int| 0 <= a < b < t.len() implies #[trigger] t[a] != #[trigger] t[b] by {
                assert(t[a] == if a < k { s[a] } else { s[a + 1] });
                assert(t[b] == if b < k { s[b] } else { s[b + 1] });
            }
            pigeonhole(t, m - 1);
        } else {
            assert(0 <= s[0] < m);
            pigeonhole(s, m - 1);
        }
    }
}

/// At most 256 motors, so many bytes.
pub proof fn bulk_len<D: ByteSrc>(items: Seq<BulkWriteData<D>>)
    requires bulk_ok(items),
    ensures items.len() <= 256, bulk_params(items).len() <= items.len() * 0x10004,
    decreases items.len(),
{
    let ids = Seq::new(items.len(), |i: int| items[i].motor_id as int);
    pigeonhole(ids, 256);
    if items.len() > 0 {
        let d = items.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]).data.bytes().len() <= 0xFFFF by { assert(d[i] == items[i]); }
        assert forall|a: int, b: int| 0 <= a < b < d.len() implies (#[trigger] d[a]).motor_id != (#[trigger] d[b]).motor_id by {
            assert(d[a] == items[a] && d[b] == items[b]);
        }
        bulk_len(d);
        assert(items.last() == items[items.len() - 1]);
    }
}

pub proof fn bulk_step<D: ByteSrc>(items: Seq<BulkWriteData<D>>, k: int)
    requires 0 <= k < items.len(), bulk_ok(items.take(k)),
    ensures
        k <= 256,
        bulk_params(items.take(k)).len() <= k * 0x10004,
        bulk_params(items.take(k + 1)) == bulk_params(items.take(k)) + bulk_entry(items[k]),
        items[k].data.bytes().len() > 0xFFFF ==> !bulk_ok(items),
        forall|b: int| 0 <= b < k && (#[trigger] items[b]).motor_id == items[k].motor_id ==> !bulk_ok(items),
        items[k].data.bytes().len() <= 0xFFFF && (forall|b: int| 0 <= b < k ==> (#[trigger] items[b]).motor_id != items[k].motor_id)
            ==> bulk_ok(items.take(k + 1)),
{
    bulk_len(items.take(k));
    assert(items.take(k + 1).drop_last() =~= items.take(k));
    if items[k].data.bytes().len() <= 0xFFFF && (forall|b: int| 0 <= b < k ==> (#[trigger] items[b]).motor_id != items[k].motor_id) {
        let d = items.take(k + 1);
        assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]).data.bytes().len() <= 0xFFFF by {
            if i < k { assert(items.take(k)[i] == items[i]); }
        }
        assert forall|a: int, b: int| 0 <= a < b < d.len() implies (#[trigger] d[a]).motor_id != (#[trigger] d[b]).motor_id by {
            assert(d[a] == items[a] && d[b] == items[b]);
            if b < k { assert(items.take(k)[a] == items[a] && items.take(k)[b] == items[b]); }
        }
    }
}

pub proof fn bulk_mono<D: ByteSrc>(items: Seq<BulkWriteData<D>>, k: int)
    requires 0 <= k <= items.len(),
    ensures bulk_params(items.take(k)).len() <= bulk_params(items).len(),
    decreases items.len(),
{
    if k < items.len() {
        bulk_mono(items.drop_last(), k);
        assert(items.drop_last().take(k) =~= items.take(k));
    } else {
        assert(items.take(k) =~= items);
    }
}

pub proof fn bulk_step_full<D: ByteSrc>(items: Seq<BulkWriteData<D>>, k: int)
    requires 0 <= k < items.len(), bulk_ok(items),
    ensures
        items[k].data.bytes().len() <= 0xFFFF,
        bulk_params(items.take(k + 1)) == bulk_params(items.take(k)) + bulk_entry(items[k]),
        bulk_params(items.take(k + 1)).len() <= bulk_params(items).len(),
{
    assert(items.take(k + 1).drop_last() =~= items.take(k));
    bulk_mono(items, k + 1);
}

impl<'a, T, SerialPort: crate::SerialPort, Buffer: ByteBuf> SyncReadBytes<'a, T, SerialPort, Buffer> {
    pub open spec fn v(&self) -> MultiV<SerialPort::Error, SerialPort::Instant> {
        MultiV { bus: self.client.v(), left: each(self.motor_ids@, self.count).skip(self.index as int) }
    }
    pub open spec fn wf(&self) -> bool { self.client.wf() && self.index <= self.motor_ids@.len() }
}

impl<'a, T: crate::bus::data::Data, SerialPort: crate::SerialPort, Buffer: ByteBuf> SyncRead<'a, T, SerialPort, Buffer> {
    pub open spec fn v(&self) -> MultiV<SerialPort::Error, SerialPort::Instant> {
        MultiV { bus: self.client.v(), left: each(self.motor_ids@, T::ENCODED_SIZE).skip(self.index as int) }
    }
    pub open spec fn wf(&self) -> bool { self.client.wf() && self.index <= self.motor_ids@.len() }
}

impl<'a, T, SerialPort: crate::SerialPort, Buffer: ByteBuf> BulkReadBytes<'a, T, SerialPort, Buffer> {
    pub open spec fn v(&self) -> MultiV<SerialPort::Error, SerialPort::Instant> {
        MultiV { bus: self.client.v(), left: targets(self.bulk_read_data@).skip(self.index as int) }
    }
    pub open spec fn wf(&self) -> bool { self.client.wf() && self.index <= self.bulk_read_data@.len() }
}
}
