// Byte stuffing as Protocol 2.0 defines it.
pub mod stuffing {
use vstd::prelude::*;

pub open spec fn ends1(s: Seq<u8>) -> bool { s.len() >= 1 && s[s.len() - 1] == 0xFF }
pub open spec fn ends2(s: Seq<u8>) -> bool { s.len() >= 2 && s[s.len() - 2] == 0xFF && s[s.len() - 1] == 0xFF }
/// `s` ends with FF FF FD.
pub open spec fn ends3(s: Seq<u8>) -> bool {
    s.len() >= 3 && s[s.len() - 3] == 0xFF && s[s.len() - 2] == 0xFF && s[s.len() - 1] == 0xFD
}

/// Insert FD after every FF FF FD.
pub open spec fn stuff(s: Seq<u8>) -> Seq<u8>
    decreases s.len(),
{
    if s.len() == 0 { seq![] }
    else if ends3(s) { stuff(s.drop_last()).push(s.last()).push(0xFD) }
    else { stuff(s.drop_last()).push(s.last()) }
}

/// How often FF FF FD occurs.
pub open spec fn count(s: Seq<u8>) -> nat
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { count(s.drop_last()) + if ends3(s) { 1nat } else { 0nat } }
}

/// Drop every FD that follows FF FF FD.
pub open spec fn unstuff(t: Seq<u8>) -> Seq<u8>
    decreases t.len(),
{
    if t.len() == 0 { seq![] }
    else if t.last() == 0xFD && ends3(t.drop_last()) { unstuff(t.drop_last()) }
    else { unstuff(t.drop_last()).push(t.last()) }
}

/// FF FF FD occurs only with FD behind it.
pub open spec fn stuffed(t: Seq<u8>) -> bool {
    forall|i: int| 0 <= i && i + 2 < t.len() && t[i] == 0xFF && t[i + 1] == 0xFF && #[trigger] t[i + 2] == 0xFD
        ==> i + 3 < t.len() && t[i + 3] == 0xFD
}

pub proof fn stuff_len(s: Seq<u8>)
    ensures
        stuff(s).len() == s.len() + count(s),
        count(s) <= s.len(),
        s.len() > 0 ==> stuff(s).len() > 0 && stuff(s)[0] == s[0],
    decreases s.len(),
{
    if s.len() > 0 {
        stuff_len(s.drop_last());
        if s.len() == 1 { assert(!ends3(s)); assert(s.drop_last() =~= seq![]); assert(stuff(s.drop_last()) =~= seq![]); }
    }
}

pub proof fn unstuff_len(t: Seq<u8>)
    ensures
        unstuff(t).len() <= t.len(),
        t.len() > 0 ==> unstuff(t).len() > 0 && unstuff(t)[0] == t[0],
    decreases t.len(),
{
    if t.len() > 0 {
        unstuff_len(t.drop_last());
        if t.len() == 1 { assert(t.drop_last() =~= seq![]); assert(unstuff(t.drop_last()) =~= seq![]); }
    }
}

/// How the end of the stuffed data relates to the end of the data.
proof fn tails(s: Seq<u8>)
    ensures
        ends1(stuff(s)) == ends1(s),
        ends2(stuff(s)) == ends2(s),
        !ends3(stuff(s)),
    decreases s.len(),
{
    if s.len() > 0 {
        tails(s.drop_last());
        stuff_len(s.drop_last());
        if s.len() == 1 { assert(s.drop_last() =~= seq![]); }
        if s.len() >= 2 {
            let p = s.drop_last();
            stuff_len(p.drop_last());
        }
    }
}

pub proof fn stuff_is_stuffed(s: Seq<u8>)
    ensures stuffed(stuff(s)), !ends3(stuff(s)),
    decreases s.len(),
{
    tails(s);
    if s.len() > 0 {
        stuff_is_stuffed(s.drop_last());
        tails(s.drop_last());
    }
}

/// Removing the stuffing gives back the data.
pub proof fn unstuff_stuff(s: Seq<u8>)
    ensures unstuff(stuff(s)) == s,
    decreases s.len(),
{
    if s.len() == 0 {
        assert(unstuff(stuff(s)) =~= s);
    } else {
        let p = stuff(s.drop_last());
        unstuff_stuff(s.drop_last());
        tails(s.drop_last());
        let q = p.push(s.last());
        assert(q.drop_last() =~= p);
        assert(unstuff(q) == unstuff(p).push(s.last()));
        assert(unstuff(q) =~= s);
        if ends3(s) {
            assert(stuff(s) == q.push(0xFD));
            assert(stuff(s).drop_last() =~= q);
            assert(ends2(s.drop_last()));
            assert(ends3(q));
        }
    }
}

/// The stuffed form of a prefix is a prefix of the stuffed form.
pub proof fn stuff_prefix(s: Seq<u8>, k: int)
    requires 0 <= k <= s.len(),
    ensures
        stuff(s.take(k)).len() <= stuff(s).len(),
        stuff(s).take(stuff(s.take(k)).len() as int) == stuff(s.take(k)),
        count(s.take(k)) <= count(s),
    decreases s.len(),
{
    if k == s.len() {
        assert(s.take(k) =~= s);
        assert(stuff(s).take(stuff(s).len() as int) =~= stuff(s));
    } else {
        stuff_prefix(s.drop_last(), k);
        assert(s.drop_last().take(k) =~= s.take(k));
        let n = stuff(s.take(k)).len() as int;
        assert(stuff(s).take(n) =~= stuff(s.drop_last()).take(n));
    }
}

pub proof fn stuff_none(s: Seq<u8>)
    requires count(s) == 0,
    ensures stuff(s) == s,
    decreases s.len(),
{
    if s.len() > 0 {
        stuff_none(s.drop_last());
        assert(s.drop_last().push(s.last()) =~= s);
    } else {
        assert(stuff(s) =~= s);
    }
}

/// One step of the stuffing from the end: the prefix of length `k` ends with FF FF FD, or not.
pub proof fn stuff_step(s: Seq<u8>, k: int)
    requires 1 <= k <= s.len(),
    ensures
        !ends3(s.take(k)) ==> stuff(s.take(k)) == stuff(s.take(k - 1)).push(s[k - 1])
            && count(s.take(k)) == count(s.take(k - 1)),
        ends3(s.take(k)) ==> k >= 3 && stuff(s.take(k)) == stuff(s.take(k - 3)) + seq![0xFFu8, 0xFF, 0xFD, 0xFD]
            && count(s.take(k)) == count(s.take(k - 3)) + 1,
{
    let p = s.take(k);
    assert(p.drop_last() =~= s.take(k - 1));
    if ends3(p) {
        assert(s.take(k - 1).drop_last() =~= s.take(k - 2));
        assert(s.take(k - 2).drop_last() =~= s.take(k - 3));
        assert(!ends3(s.take(k - 1)));
        assert(!ends3(s.take(k - 2)));
        assert(stuff(s.take(k - 2)) == stuff(s.take(k - 3)).push(0xFF));
        assert(stuff(s.take(k - 1)) == stuff(s.take(k - 2)).push(0xFF));
        assert(stuff(p) == stuff(s.take(k - 1)).push(0xFD).push(0xFD));
        assert(count(p) == count(s.take(k - 1)) + 1);
        assert(count(s.take(k - 1)) == count(s.take(k - 2)));
        assert(count(s.take(k - 2)) == count(s.take(k - 3)));
        assert(stuff(p) =~= stuff(s.take(k - 3)) + seq![0xFFu8, 0xFF, 0xFD, 0xFD]);
    }
}

/// The state of stuffing in place from the end: `k` bytes are still to be moved.
pub open spec fn moving(a: Seq<u8>, b: Seq<u8>, k: int) -> bool {
    &&& 0 <= k <= a.len()
    &&& stuff(a).len() <= b.len()
    &&& forall|j: int| 0 <= j < k ==> #[trigger] b[j] == a[j]
    &&& forall|j: int| stuff(a.take(k)).len() <= j < stuff(a).len() ==> #[trigger] b[j] == stuff(a)[j]
}

pub proof fn moving_start(a: Seq<u8>, b: Seq<u8>)
    requires a.len() <= stuff(a).len() <= b.len(), b.take(a.len() as int) == a,
    ensures moving(a, b, a.len() as int),
{
    assert(a.take(a.len() as int) =~= a);
    assert forall|j: int| 0 <= j < a.len() implies #[trigger] b[j] == a[j] by {
        assert(b.take(a.len() as int)[j] == a[j]);
    }
}

/// What the bytes before `k` say.
pub proof fn moving_look(a: Seq<u8>, b: Seq<u8>, k: int)
    requires moving(a, b, k), 1 <= k,
    ensures
        k < 3 ==> !ends3(a.take(k)),
        k >= 3 ==> ends3(a.take(k)) == (b[k - 3] == 0xFF && b[k - 2] == 0xFF && b[k - 1] == 0xFD),
        ends3(a.take(k)) ==> count(a.take(k)) == count(a.take(k - 3)) + 1,
        !ends3(a.take(k)) ==> count(a.take(k)) == count(a.take(k - 1)),
        stuff(a.take(k)).len() == k + count(a.take(k)),
        stuff(a.take(k)).len() <= stuff(a).len(),
{
    stuff_step(a, k);
    stuff_len(a.take(k));
    stuff_prefix(a, k);
}

pub proof fn moving_copy(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, k: int)
    requires
        moving(a, b, k), 1 <= k, !ends3(a.take(k)),
        c == b.update(k - 1 + count(a.take(k)), b[k - 1]),
    ensures moving(a, c, k - 1),
{
    stuff_step(a, k);
    stuff_len(a.take(k));
    stuff_len(a.take(k - 1));
    stuff_prefix(a, k);
    let w = k - 1 + count(a.take(k));
    assert(stuff(a)[w] == stuff(a).take(w + 1)[w]);
}

pub proof fn moving_pattern(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, k: int)
    requires
        moving(a, b, k), 3 <= k, ends3(a.take(k)),
        c.len() == b.len(),
        ({ let w = k - 4 + count(a.take(k));
            &&& c[w] == 0xFF && c[w + 1] == 0xFF && c[w + 2] == 0xFD && c[w + 3] == 0xFD
            &&& forall|j: int| 0 <= j < w || w + 4 <= j < b.len() ==> c[j] == b[j] }),
    ensures moving(a, c, k - 3),
{
    stuff_step(a, k);
    stuff_len(a.take(k));
    stuff_len(a.take(k - 3));
    stuff_prefix(a, k);
    let w = k - 4 + count(a.take(k));
    let st = stuff(a).take(w + 4);
    assert(stuff(a)[w] == st[w] && stuff(a)[w + 1] == st[w + 1] && stuff(a)[w + 2] == st[w + 2] && stuff(a)[w + 3] == st[w + 3]);
}

pub proof fn moving_done(a: Seq<u8>, b: Seq<u8>, k: int)
    requires moving(a, b, k), count(a.take(k)) == 0,
    ensures b.take(stuff(a).len() as int) == stuff(a),
{
    stuff_none(a.take(k));
    stuff_prefix(a, k);
    assert forall|j: int| 0 <= j < stuff(a).len() implies b[j] == stuff(a)[j] by {
        if j < k { assert(stuff(a).take(k)[j] == a.take(k)[j]); }
    }
    assert(b.take(stuff(a).len() as int) =~= stuff(a));
}

/// Matching with restarts sees exactly the pattern: `state` bytes of FF FF FD match the end of `s`.
pub open spec fn matched(s: Seq<u8>, state: int) -> bool {
    &&& state == 3 <==> ends3(s)
    &&& state == 2 <==> ends2(s)
    &&& state == 1 <==> ends1(s) && !ends2(s)
    &&& 0 <= state <= 3
}

/// The same, starting over after a full match.
pub open spec fn matched_restart(s: Seq<u8>, state: int) -> bool {
    &&& state == 2 <==> ends2(s)
    &&& state == 1 <==> ends1(s) && !ends2(s)
    &&& 0 <= state <= 2
}
}
