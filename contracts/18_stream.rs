// What the contracts of the reader mean for whole byte streams: C04, C06 and C07 as lemmas.
pub mod stream {
use vstd::prelude::*;
use crate::vx::*;
use crate::frame::*;
use crate::stuffing::*;
use crate::crc::crc;
use crate::*;

/// All complete packets and errors in these bytes, in order.
pub open spec fn items(s: Seq<u8>, cap: int) -> Seq<Item>
    decreases s.len(),
{
    match parse(s, cap) {
        Some(f) => if 0 < f.used <= s.len() { seq![f.item] + items(s.skip(f.used), cap) } else { seq![] },
        None => seq![],
    }
}

/// The bytes that remain after the last of them.
pub open spec fn rest(s: Seq<u8>, cap: int) -> Seq<u8>
    decreases s.len(),
{
    match parse(s, cap) {
        Some(f) => if 0 < f.used <= s.len() { rest(s.skip(f.used), cap) } else { s },
        None => s,
    }
}

pub proof fn parse_used(s: Seq<u8>, cap: int)
    requires parse(s, cap) is Some,
    ensures 7 <= parse(s, cap)->0.used <= s.len(), 8 <= clean(s).len(),
{
    find_bounds(s, 0);
}

/// A complete item does not depend on what arrives after it.
pub proof fn parse_append(s: Seq<u8>, x: Seq<u8>, cap: int)
    requires parse(s, cap) is Some,
    ensures parse(s + x, cap) == parse(s, cap),
{
    find_append(s, x);
    find_bounds(s, 0);
    let u = clean(s);
    let n = get16(u, 5) as int;
    assert(header_at(u, 0)) by { find_bounds(u, 0); }
    assert(header_at(u + x, 0)) by {
        assert forall|j: int| 0 <= j < 4 && 0 + j < (u + x).len() implies #[trigger] prefix()[j] == (u + x)[0 + j] by {
            assert(prefix()[j] == u[0 + j]);
        }
    }
    find_is(u + x, 0);
    assert(clean(s + x) =~= u + x);
    assert(get16(u + x, 5) == n);
    if n >= 3 && 7 + n <= cap {
        assert((u + x).take(5 + n) =~= u.take(5 + n));
        assert((u + x).take(7) =~= u.take(7));
        assert((u + x).subrange(7, 5 + n) =~= u.subrange(7, 5 + n));
        assert(get16(u + x, 5 + n) == get16(u, 5 + n));
    }
}

/// Garbage that was removed does not matter.
pub proof fn items_clean(s: Seq<u8>, x: Seq<u8>, cap: int)
    ensures items(clean(s) + x, cap) == items(s + x, cap),
{
    let (a, b) = (clean(s) + x, s + x);
    find_append(s, x);
    find_bounds(a, 0);
    find_bounds(b, 0);
    assert(parse_clean(clean(a), cap) == parse_clean(clean(b), cap));
    if parse(b, cap) is Some {
        parse_used(a, cap);
        parse_used(b, cap);
        assert(a.skip(parse(a, cap)->0.used) =~= b.skip(parse(b, cap)->0.used)) by {
            find_bounds(s, 0);
            let u = parse(b, cap)->0.used - find(b);
            assert(a.skip(find(a) + u) =~= clean(a).skip(u));
            assert(b.skip(find(b) + u) =~= clean(b).skip(u));
        }
    }
}

/// The same garbage, other garbage, or none.
pub proof fn items_same(s: Seq<u8>, t: Seq<u8>, x: Seq<u8>, cap: int)
    requires clean(s) == clean(t),
    ensures items(s + x, cap) == items(t + x, cap),
{
    items_clean(s, x, cap);
    items_clean(t, x, cap);
}

/// One more item at the start.
pub proof fn items_first(s: Seq<u8>, x: Seq<u8>, cap: int)
    requires parse(s, cap) is Some,
    ensures items(s + x, cap) == seq![parse(s, cap)->0.item] + items(s.skip(parse(s, cap)->0.used) + x, cap),
{
    parse_append(s, x, cap);
    parse_used(s, cap);
    let k = parse(s, cap)->0.used;
    assert((s + x).skip(k) =~= s.skip(k) + x);
}

/// It does not matter whether bytes arrive together or one part after the other.
pub proof fn items_append(s: Seq<u8>, x: Seq<u8>, cap: int)
    ensures items(s + x, cap) == items(s, cap) + items(rest(s, cap) + x, cap),
    decreases s.len(),
{
    match parse(s, cap) {
        Some(f) => {
            parse_used(s, cap);
            items_first(s, x, cap);
            items_append(s.skip(f.used), x, cap);
            assert(items(s + x, cap) =~= items(s, cap) + items(rest(s, cap) + x, cap));
        }
        None => { assert(items(s + x, cap) =~= items(s, cap) + items(rest(s, cap) + x, cap)); }
    }
}

// ---------------------------------------------------------------- histories of a reader

/// These answers of the reader, one after the other, which received these bytes meanwhile.
pub open spec fn history<E, I>(o: BusV<E, I>, n: BusV<E, I>, rs: Seq<Result<Seq<u8>, ReadError<E>>>, x: Seq<u8>) -> bool
    decreases rs.len(),
{
    if rs.len() == 0 { n == o && x.len() == 0 }
    else {
        exists|m: BusV<E, I>, d: I, ev: Seq<Event<E, I>>, y: Seq<u8>|
            history(o, m, rs.drop_last(), y) && #[trigger] receives(m, n, d, ev, rs.last()) && x == #[trigger] (y + received(ev))
    }
}

/// The answers without I/O errors (among these, time-outs).
pub open spec fn reports<E>(rs: Seq<Result<Seq<u8>, ReadError<E>>>) -> Seq<Result<Seq<u8>, ReadError<E>>>
    decreases rs.len(),
{
    if rs.len() == 0 { seq![] }
    else if rs.last() is Err && rs.last()->Err_0 is Io { reports(rs.drop_last()) }
    else { reports(rs.drop_last()).push(rs.last()) }
}

pub open spec fn results<E>(x: Seq<Item>, cap: int) -> Seq<Result<Seq<u8>, ReadError<E>>> {
    Seq::new(x.len(), |i: int| item_result(x[i], cap))
}

/// One answer of the reader, with what arrives later.
pub proof fn reported_one<E, I>(m: BusV<E, I>, n: BusV<E, I>, d: I, ev: Seq<Event<E, I>>, r: Result<Seq<u8>, ReadError<E>>, z: Seq<u8>)
    requires receives(m, n, d, ev, r), m.rcap >= 10,
    ensures
        n.rcap == m.rcap,
        results::<E>(items(m.pending + received(ev) + z, m.rcap), m.rcap)
            == (if r is Err && r->Err_0 is Io { seq![] } else { seq![r] }) + results::<E>(items(n.pending + z, m.rcap), m.rcap),
{
    let cap = m.rcap;
    let t = m.pending + received(ev);
    let later = results::<E>(items(n.pending + z, cap), cap);
    if r is Err && r->Err_0 is Io {
        items_same(n.pending, t, z, cap);
        assert(seq![] + later =~= later);
    } else {
        let f = parse(t, cap)->0;
        items_first(t, z, cap);
        assert(results::<E>(items(t + z, cap), cap) =~= seq![item_result::<E>(f.item, cap)] + later);
    }
}

/// What is reported, and what is left to report, is what the bytes contain:
/// however they are split over reads, and whichever reads fail in between. `z`: what arrives later.
pub proof fn reported<E, I>(o: BusV<E, I>, n: BusV<E, I>, rs: Seq<Result<Seq<u8>, ReadError<E>>>, x: Seq<u8>, z: Seq<u8>)
    requires history(o, n, rs, x), o.rcap >= 10,
    ensures
        n.rcap == o.rcap,
        results::<E>(items(o.pending + x + z, o.rcap), o.rcap) == reports(rs) + results::<E>(items(n.pending + z, o.rcap), o.rcap),
    decreases rs.len(),
{
    hide(receives);
    hide(items);
    hide(results);
    let cap = o.rcap;
    let later = results::<E>(items(n.pending + z, cap), cap);
    if rs.len() == 0 {
        assert(o.pending + x =~= o.pending);
        assert(reports(rs) + later =~= later);
    } else {
        let (m, d, ev, y) = choose|m: BusV<E, I>, d: I, ev: Seq<Event<E, I>>, y: Seq<u8>|
            history(o, m, rs.drop_last(), y) && #[trigger] receives(m, n, d, ev, rs.last()) && x == #[trigger] (y + received(ev));
        let w = received(ev) + z;
        reported(o, m, rs.drop_last(), y, w);
        reported_one(m, n, d, ev, rs.last(), z);
        assert(o.pending + x + z =~= o.pending + y + w);
        assert(m.pending + w =~= m.pending + received(ev) + z);
        let before = reports(rs.drop_last());
        if rs.last() is Err && rs.last()->Err_0 is Io {
            assert(seq![] + later =~= later);
        } else {
            assert(before + (seq![rs.last()] + later) =~= reports(rs) + later);
        }
    }
}

/// Two readers that start alike and receive the same bytes report the same, one of them perhaps further.
pub proof fn reports_agree<E, I>(
    o: BusV<E, I>, n1: BusV<E, I>, rs1: Seq<Result<Seq<u8>, ReadError<E>>>, n2: BusV<E, I>, rs2: Seq<Result<Seq<u8>, ReadError<E>>>, x: Seq<u8>,
)
    requires history(o, n1, rs1, x), history(o, n2, rs2, x), o.rcap >= 10, reports(rs1).len() <= reports(rs2).len(),
    ensures reports(rs1) == reports(rs2).take(reports(rs1).len() as int),
{
    hide(items);
    hide(history);
    reported(o, n1, rs1, x, seq![]);
    reported(o, n2, rs2, x, seq![]);
    let all = results::<E>(items(o.pending + x + seq![], o.rcap), o.rcap);
    assert forall|i: int| 0 <= i < reports(rs1).len() implies reports(rs1)[i] == reports(rs2)[i] by {
        assert(reports(rs1)[i] == all[i] && reports(rs2)[i] == all[i]);
    }
    assert(reports(rs1) =~= reports(rs2).take(reports(rs1).len() as int));
}

// ---------------------------------------------------------------- intact packets

/// The packet with these contents, as it is delivered.
pub open spec fn packet(id: u8, body: Seq<u8>) -> Seq<u8> {
    prefix() + seq![id] + le16((stuff(body).len() + 2) as u16) + body
}

/// Not a status packet without error field, and not empty.
pub open spec fn proper(body: Seq<u8>) -> bool { body.len() >= 1 && (body[0] == 0x55 ==> body.len() >= 2) }

pub proof fn frame_parts(id: u8, body: Seq<u8>, c: u16, x: Seq<u8>)
    requires body.len() >= 1, stuff(body).len() + 2 <= 0xFFFF,
    ensures
        ({
            let n = (stuff(body).len() + 2) as int;
            let t = head(id, body) + le16(c) + x;
            &&& t.len() == 7 + n + x.len()
            &&& n >= 3
            &&& find(t) == 0 && clean(t) == t
            &&& get16(t, 5) == n
            &&& t.take(5 + n) == head(id, body)
            &&& t.take(7) == prefix() + seq![id] + le16(n as u16)
            &&& t.subrange(7, 5 + n) == stuff(body)
            &&& get16(t, 5 + n) == c
            &&& t.skip(7 + n) == x
            &&& t.skip(7) == stuff(body) + le16(c) + x
        }),
{
    let n = (stuff(body).len() + 2) as int;
    let h = head(id, body);
    let t = h + le16(c) + x;
    stuff_len(body);
    le16_round(n as u16);
    le16_round(c);
    assert(h.len() == 5 + n);
    assert forall|j: int| 0 <= j < 4 && 0 + j < t.len() implies #[trigger] prefix()[j] == t[0 + j] by {}
    assert(header_at(t, 0));
    find_is(t, 0);
    assert(clean(t) =~= t);
    assert(t[5] == le16(n as u16)[0] && t[6] == le16(n as u16)[1]);
    assert(t[5 + n] == le16(c)[0] && t[6 + n] == le16(c)[1]);
    assert(t.take(5 + n) =~= h);
    assert(t.take(7) =~= prefix() + seq![id] + le16(n as u16));
    assert(t.subrange(7, 5 + n) =~= stuff(body));
    assert(t.skip(7 + n) =~= x);
    assert(t.skip(7) =~= stuff(body) + le16(c) + x);
}

/// A message that was sent is received, exactly and as a whole.
pub proof fn parse_frame(id: u8, body: Seq<u8>, x: Seq<u8>, cap: int)
    requires proper(body), stuff(body).len() + 2 <= 0xFFFF, frame_len(body) <= cap,
    ensures
        parse(frame(id, body) + x, cap) == Some(Found { used: frame_len(body), item: Item::Packet(packet(id, body)) }),
        items(frame(id, body) + x, cap) == seq![Item::Packet(packet(id, body))] + items(x, cap),
        frame(id, body).len() == frame_len(body),
{
    let c = crc(0, head(id, body));
    let t = head(id, body) + le16(c) + x;
    frame_parts(id, body, c, x);
    unstuff_stuff(body);
    assert(frame(id, body) + x =~= t);
    assert(packet(id, body)[7] == body[0]);
}

/// A packet with a wrong CRC is one error and nothing else.
pub proof fn parse_bad_crc(id: u8, body: Seq<u8>, c: u16, x: Seq<u8>, cap: int)
    requires body.len() >= 1, stuff(body).len() + 2 <= 0xFFFF, frame_len(body) <= cap, c != crc(0, head(id, body)),
    ensures items(head(id, body) + le16(c) + x, cap) == seq![Item::BadCrc(c, crc(0, head(id, body)))] + items(x, cap),
{
    frame_parts(id, body, c, x);
}

/// A status packet without error field is one error and nothing else.
pub proof fn parse_no_error(id: u8, x: Seq<u8>, cap: int)
    requires cap >= 10,
    ensures items(frame(id, seq![0x55u8]) + x, cap) == seq![Item::NoError] + items(x, cap),
{
    let body = seq![0x55u8];
    assert(stuff(body) =~= body) by {
        assert(body.drop_last() =~= seq![]);
        assert(stuff(body.drop_last()) =~= seq![]);
    }
    let c = crc(0, head(id, body));
    frame_parts(id, body, c, x);
    unstuff_stuff(body);
    assert(frame(id, body) + x =~= head(id, body) + le16(c) + x);
    assert(packet(id, body)[7] == body[0]);
}

// ---------------------------------------------------------------- noise

/// Bytes in front of which no header can start.
pub open spec fn noise(g: Seq<u8>, t: Seq<u8>) -> bool {
    forall|i: int| 0 <= i < g.len() ==> !#[trigger] header_at(g + t, i)
}

/// They are skipped, and nothing else.
pub proof fn items_noise(g: Seq<u8>, t: Seq<u8>, cap: int)
    requires noise(g, t),
    ensures items(g + t, cap) == items(t, cap),
{
    find_bounds(t, 0);
    let f = find(t);
    assert forall|j: int| 0 <= j < g.len() + f implies !#[trigger] header_at(g + t, j) by {
        if j >= g.len() {
            assert(!header_at(t, j - g.len()));
            let k = choose|k: int| 0 <= k < 4 && j - g.len() + k < t.len() && #[trigger] prefix()[k] != t[j - g.len() + k];
            assert((g + t)[j + k] == t[j - g.len() + k]);
        }
    }
    if f < t.len() {
        assert(header_at(t, f));
        assert(header_at(g + t, g.len() + f)) by {
            assert forall|k: int| 0 <= k < 4 && g.len() + f + k < (g + t).len() implies #[trigger] prefix()[k] == (g + t)[g.len() + f + k] by {
                assert(t[f + k] == (g + t)[g.len() + f + k]);
            }
        }
    }
    find_is(g + t, g.len() + f);
    assert((g + t).skip(g.len() + f) =~= t.skip(f));
    let e = Seq::<u8>::empty();
    assert(g + t + e =~= g + t);
    assert(t + e =~= t);
    items_same(g + t, t, e, cap);
}

/// What follows the length of a message that is too long is noise, unless its end looks like a header.
pub proof fn remainder_is_noise(body: Seq<u8>, c: u16, x: Seq<u8>)
    requires !(ends2(stuff(body)) && c == 0x00FD), x.len() >= 2, x[0] == 0xFF, x[1] == 0xFF,
    ensures noise(stuff(body) + le16(c), x),
{
    let b = stuff(body);
    let g = b + le16(c);
    let t = g + x;
    stuff_is_stuffed(body);
    le16_round(c);
    assert forall|i: int| 0 <= i < g.len() implies !#[trigger] header_at(t, i) by {
        if header_at(t, i) {
            assert(prefix()[0] == t[i + 0]);
            assert(prefix()[1] == t[i + 1]);
            if i + 2 < b.len() {
                assert(prefix()[2] == t[i + 2]);
                assert(b[i] == t[i] && b[i + 1] == t[i + 1] && b[i + 2] == t[i + 2]);
                assert(b[i + 3] == 0xFD && t[i + 3] == 0xFD);
                assert(prefix()[3] == t[i + 3]);
            } else if i + 2 == b.len() {
                assert(b[i] == t[i] && b[i + 1] == t[i + 1]);
                assert(prefix()[2] == t[i + 2] && prefix()[3] == t[i + 3]);
                assert(t[i + 2] == le16(c)[0] && t[i + 3] == le16(c)[1]);
                assert((c & 0xff) as u8 == 0xFD && (c >> 8) as u8 == 0 ==> c == 0xFD) by (bit_vector);
            } else if i + 1 == b.len() {
                assert(prefix()[3] == t[i + 3]);
                assert(t[i + 3] == x[0]);
            } else if i == b.len() {
                assert(prefix()[2] == t[i + 2]);
                assert(t[i + 2] == x[0]);
            } else {
                assert(i == b.len() + 1);
                assert(prefix()[2] == t[i + 2]);
                assert(t[i + 2] == x[1]);
            }
        }
    }
}

/// A message that is too long is one error; the packets after it are received.
pub proof fn parse_too_long(id: u8, body: Seq<u8>, c: u16, x: Seq<u8>, cap: int)
    requires
        body.len() >= 1, stuff(body).len() + 2 <= 0xFFFF, frame_len(body) > cap,
        !(ends2(stuff(body)) && c == 0x00FD), x.len() >= 2, x[0] == 0xFF, x[1] == 0xFF,
    ensures items(head(id, body) + le16(c) + x, cap) == seq![Item::TooLong(frame_len(body))] + items(x, cap),
{
    frame_parts(id, body, c, x);
    remainder_is_noise(body, c, x);
    items_noise(stuff(body) + le16(c), x, cap);
}

/// A message with an impossible length is one error.
pub proof fn parse_short(id: u8, n: u16, x: Seq<u8>, cap: int)
    requires n < 3, x.len() >= 1,
    ensures items(prefix() + seq![id] + le16(n) + x, cap) == seq![Item::Short(n as int)] + items(x, cap),
{
    let t = prefix() + seq![id] + le16(n) + x;
    le16_round(n);
    assert forall|j: int| 0 <= j < 4 && 0 + j < t.len() implies #[trigger] prefix()[j] == t[0 + j] by {}
    assert(header_at(t, 0));
    find_is(t, 0);
    assert(clean(t) =~= t);
    assert(t[5] == le16(n)[0] && t[6] == le16(n)[1]);
    assert(t.skip(7) =~= x);
}
}
