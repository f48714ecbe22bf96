// bus/bytestuff.rs

## fn bus::bytestuff::restart_match
props C02
ensures [C02]
    byte == 0xFF && state == 2 ==> r == 2,
    byte == 0xFF && state != 2 ==> r == 1,
    byte != 0xFF ==> r == 0,

## fn bus::bytestuff::unstuff_inplace
props C02
ensures [C02 C04]
    final(data)@.len() == old(data)@.len(),
    r == crate::stuffing::unstuff(old(data)@).len(),
    r <= final(data)@.len(),
    final(data)@.take(r as int) == crate::stuffing::unstuff(old(data)@),
loop 0
    invariant
        vx_i0 <= vx_end0,
        vx_end0 == data@.len(),
        data@.len() == old(data)@.len(),
        deleted <= vx_i0,
        vx_i0 - deleted == crate::stuffing::unstuff(old(data)@.take(vx_i0 as int)).len(),
        data@.take(vx_i0 - deleted) == crate::stuffing::unstuff(old(data)@.take(vx_i0 as int)),
        forall|j: int| vx_i0 <= j < data@.len() ==> data@[j] == old(data)@[j],
        crate::stuffing::matched(old(data)@.take(vx_i0 as int), state as int),
    decreases vx_end0 - vx_i0,
loop 0 before
    proof {
        assert(old(data)@.take(0) =~= seq![]);
        assert(data@.take(0) =~= seq![]);
    }
loop 0 begin
    let ghost vx_before = data@;
    proof {
        let t = old(data)@.take(vx_i0 + 1);
        assert(t.drop_last() =~= old(data)@.take(vx_i0 as int));
        assert(t.last() == data@[vx_i0 as int]);
    }
loop 0 end
    proof {
        assert(data@.take(vx_i0 - deleted) =~= crate::stuffing::unstuff(old(data)@.take(vx_i0 as int)));
    }
loop 0 after
    proof { assert(old(data)@.take(old(data)@.len() as int) =~= old(data)@); }

## fn bus::bytestuff::stuffing_required
props C02
ensures [C02 C08]
    r == crate::stuffing::count(data@),
    r <= data@.len(),
loop 0
    invariant
        vx_i0 <= vx_s0@.len(),
        vx_s0@ == data@,
        count == crate::stuffing::count(data@.take(vx_i0 as int)),
        count <= vx_i0,
        crate::stuffing::matched_restart(data@.take(vx_i0 as int), state as int),
    decreases vx_s0.len() - vx_i0,
loop 0 before
    proof { assert(data@.take(0) =~= seq![]); }
loop 0 begin
    proof { assert(data@.take(vx_i0 + 1).drop_last() =~= data@.take(vx_i0 as int)); }
loop 0 after
    proof { assert(data@.take(data@.len() as int) =~= data@); }

## fn bus::bytestuff::stuff_inplace
props C02
requires [C05]
    len <= old(buffer)@.len(),
    2 * len <= usize::MAX,
ensures [C02 C01 C08]
    final(buffer)@.len() == old(buffer)@.len(),
    r.is_ok() <==> crate::stuffing::stuff(old(buffer)@.take(len as int)).len() <= old(buffer)@.len(),
    r.is_ok() ==> r->Ok_0 == crate::stuffing::stuff(old(buffer)@.take(len as int)).len()
        && final(buffer)@ == crate::stuffing::stuff(old(buffer)@.take(len as int)) + old(buffer)@.skip(r->Ok_0 as int),
ensures [C08]
    r.is_err() ==> final(buffer)@ == old(buffer)@
        && r->Err_0.required_size == crate::stuffing::stuff(old(buffer)@.take(len as int)).len()
        && r->Err_0.total_size == old(buffer)@.len(),
begin
    let ghost a = old(buffer)@.take(len as int);
    let ghost n = crate::stuffing::stuff(a).len() as int;
    proof {
        crate::stuffing::stuff_len(a);
        if crate::stuffing::count(a) == 0 { crate::stuffing::stuff_none(a); }
        assert(a + old(buffer)@.skip(len as int) =~= old(buffer)@);
    }
loop 0 before
    proof {
        assert(a.take(a.len() as int) =~= a);
        crate::stuffing::moving_start(a, buffer@);
    }
loop 0
    invariant
        n <= buffer@.len(),
        n == len + stuffing_required,
        n <= usize::MAX,
        n == crate::stuffing::stuff(a).len(),
        len == a.len(),
        buffer@.len() == old(buffer)@.len(),
        read <= len,
        stuffing_applied <= stuffing_required,
        crate::stuffing::count(a.take(len - read)) == stuffing_required - stuffing_applied,
        crate::stuffing::moving(a, buffer@, len - read),
        forall|j: int| n <= j < buffer@.len() ==> buffer@[j] == old(buffer)@[j],
    decreases len - read,
loop 0 begin
    let ghost k = len - read;
    let ghost before = buffer@;
    proof {
        crate::stuffing::moving_look(a, buffer@, k);
        if k >= 3 {
            let w = buffer@.subrange(k - 3, buffer@.len() as int).subrange(0, 3);
            let p = PATTERN@.subrange(0, 3);
            assert(crate::stuffing::ends3(a.take(k)) ==> w =~= p);
            assert(w == p ==> w[0] == p[0] && w[1] == p[1] && w[2] == p[2]);
        }
    }
loop 0 end
    proof {
        if crate::stuffing::ends3(a.take(k)) {
            let w = k - 4 + crate::stuffing::count(a.take(k));
            let p = buffer@.subrange(w, buffer@.len() as int).subrange(0, 4);
            assert(p[0] == PATTERN@[0] && p[1] == PATTERN@[1] && p[2] == PATTERN@[2] && p[3] == PATTERN@[3]);
            assert(p[0] == buffer@[w] && p[1] == buffer@[w + 1] && p[2] == buffer@[w + 2] && p[3] == buffer@[w + 3]);
            crate::stuffing::moving_pattern(a, before, buffer@, k);
        } else {
            assert(buffer@ =~= before.update(k - 1 + crate::stuffing::count(a.take(k)), before[k - 1]));
            crate::stuffing::moving_copy(a, before, buffer@, k);
        }
    }
loop 0 after
    proof {
        assert(a.take(0) =~= seq![]);
        crate::stuffing::moving_done(a, buffer@, len - read);
        assert(buffer@ =~= crate::stuffing::stuff(a) + old(buffer)@.skip(n));
    }
