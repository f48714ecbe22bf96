// bus/data.rs

## trait bus::data::Data
begin
    /// The encoded form of a value.
    spec fn encoded(&self) -> Seq<u8>;
    /// Every value can be encoded and every sequence of the right size decoded.
    spec fn total() -> bool;

## fn bus::data::Data::encode
ensures [C17]
    r is Ok ==> Self::ENCODED_SIZE <= old(buffer)@.len()
        && final(buffer)@.take(Self::ENCODED_SIZE as int) == self.encoded()
        && final(buffer)@.skip(Self::ENCODED_SIZE as int) == old(buffer)@.skip(Self::ENCODED_SIZE as int),
    old(buffer)@.len() < Self::ENCODED_SIZE ==> r is Err,
    Self::total() && Self::ENCODED_SIZE <= old(buffer)@.len() ==> r is Ok,

## fn bus::data::Data::decode
ensures [C17]
    r is Ok ==> buffer@.len() == Self::ENCODED_SIZE && r->Ok_0.encoded() == buffer@,
    buffer@.len() != Self::ENCODED_SIZE ==> r is Err,
    buffer@.len() != Self::ENCODED_SIZE && Self::total() ==> r == Err::<Self, crate::InvalidMessage>(
        crate::InvalidMessage::InvalidParameterCount(crate::InvalidParameterCount { actual: buffer@.len() as usize, expected: crate::ExpectedCount::Exact(Self::ENCODED_SIZE as usize) })),
    buffer@.len() == Self::ENCODED_SIZE && Self::total() ==> r is Ok,

## impl bus::data::<u8 as Data>
begin
    open spec fn encoded(&self) -> Seq<u8> { crate::vx::le_seq(self.unsigned(), 1) }
    open spec fn total() -> bool { true }

## fn bus::data::<u8 as Data>::encode
props C17
end
    proof {
        if vx_result is Ok {
            assert(buffer@.take(1) =~= self.encoded());
            assert(buffer@.skip(1) =~= old(buffer)@.skip(1));
        }
    }

## fn bus::data::<u8 as Data>::decode
props C17
end
    proof { assert(buffer@.subrange(0, 1) =~= buffer@); }

## const bus::data::<u8 as Data>::ENCODED_SIZE
props C17
begin
    1
ensures [C17]
    r == 1,

## impl bus::data::<u16 as Data>
begin
    open spec fn encoded(&self) -> Seq<u8> { crate::vx::le_seq(self.unsigned(), 2) }
    open spec fn total() -> bool { true }

## fn bus::data::<u16 as Data>::encode
props C17
end
    proof {
        if vx_result is Ok {
            assert(buffer@.take(2) =~= self.encoded());
            assert(buffer@.skip(2) =~= old(buffer)@.skip(2));
        }
    }

## fn bus::data::<u16 as Data>::decode
props C17
end
    proof { assert(buffer@.subrange(0, 2) =~= buffer@); }

## const bus::data::<u16 as Data>::ENCODED_SIZE
props C17
begin
    2
ensures [C17]
    r == 2,

## impl bus::data::<u32 as Data>
begin
    open spec fn encoded(&self) -> Seq<u8> { crate::vx::le_seq(self.unsigned(), 4) }
    open spec fn total() -> bool { true }

## fn bus::data::<u32 as Data>::encode
props C17
end
    proof {
        if vx_result is Ok {
            assert(buffer@.take(4) =~= self.encoded());
            assert(buffer@.skip(4) =~= old(buffer)@.skip(4));
        }
    }

## fn bus::data::<u32 as Data>::decode
props C17
end
    proof { assert(buffer@.subrange(0, 4) =~= buffer@); }

## const bus::data::<u32 as Data>::ENCODED_SIZE
props C17
begin
    4
ensures [C17]
    r == 4,

## impl bus::data::<u64 as Data>
begin
    open spec fn encoded(&self) -> Seq<u8> { crate::vx::le_seq(self.unsigned(), 8) }
    open spec fn total() -> bool { true }

## fn bus::data::<u64 as Data>::encode
props C17
end
    proof {
        if vx_result is Ok {
            assert(buffer@.take(8) =~= self.encoded());
            assert(buffer@.skip(8) =~= old(buffer)@.skip(8));
        }
    }

## fn bus::data::<u64 as Data>::decode
props C17
end
    proof { assert(buffer@.subrange(0, 8) =~= buffer@); }

## const bus::data::<u64 as Data>::ENCODED_SIZE
props C17
begin
    8
ensures [C17]
    r == 8,

## impl bus::data::<u128 as Data>
begin
    open spec fn encoded(&self) -> Seq<u8> { crate::vx::le_seq(self.unsigned(), 16) }
    open spec fn total() -> bool { true }

## fn bus::data::<u128 as Data>::encode
props C17
end
    proof {
        if vx_result is Ok {
            assert(buffer@.take(16) =~= self.encoded());
            assert(buffer@.skip(16) =~= old(buffer)@.skip(16));
        }
    }

## fn bus::data::<u128 as Data>::decode
props C17
end
    proof { assert(buffer@.subrange(0, 16) =~= buffer@); }

## const bus::data::<u128 as Data>::ENCODED_SIZE
props C17
begin
    16
ensures [C17]
    r == 16,

## impl bus::data::<i8 as Data>
begin
    open spec fn encoded(&self) -> Seq<u8> { crate::vx::le_seq(self.unsigned(), 1) }
    open spec fn total() -> bool { true }

## fn bus::data::<i8 as Data>::encode
props C17
end
    proof {
        if vx_result is Ok {
            assert(buffer@.take(1) =~= self.encoded());
            assert(buffer@.skip(1) =~= old(buffer)@.skip(1));
        }
    }

## fn bus::data::<i8 as Data>::decode
props C17
end
    proof { assert(buffer@.subrange(0, 1) =~= buffer@); }

## const bus::data::<i8 as Data>::ENCODED_SIZE
props C17
begin
    1
ensures [C17]
    r == 1,

## impl bus::data::<i16 as Data>
begin
    open spec fn encoded(&self) -> Seq<u8> { crate::vx::le_seq(self.unsigned(), 2) }
    open spec fn total() -> bool { true }

## fn bus::data::<i16 as Data>::encode
props C17
end
    proof {
        if vx_result is Ok {
            assert(buffer@.take(2) =~= self.encoded());
            assert(buffer@.skip(2) =~= old(buffer)@.skip(2));
        }
    }

## fn bus::data::<i16 as Data>::decode
props C17
end
    proof { assert(buffer@.subrange(0, 2) =~= buffer@); }

## const bus::data::<i16 as Data>::ENCODED_SIZE
props C17
begin
    2
ensures [C17]
    r == 2,

## impl bus::data::<i32 as Data>
begin
    open spec fn encoded(&self) -> Seq<u8> { crate::vx::le_seq(self.unsigned(), 4) }
    open spec fn total() -> bool { true }

## fn bus::data::<i32 as Data>::encode
props C17
end
    proof {
        if vx_result is Ok {
            assert(buffer@.take(4) =~= self.encoded());
            assert(buffer@.skip(4) =~= old(buffer)@.skip(4));
        }
    }

## fn bus::data::<i32 as Data>::decode
props C17
end
    proof { assert(buffer@.subrange(0, 4) =~= buffer@); }

## const bus::data::<i32 as Data>::ENCODED_SIZE
props C17
begin
    4
ensures [C17]
    r == 4,

## impl bus::data::<i64 as Data>
begin
    open spec fn encoded(&self) -> Seq<u8> { crate::vx::le_seq(self.unsigned(), 8) }
    open spec fn total() -> bool { true }

## fn bus::data::<i64 as Data>::encode
props C17
end
    proof {
        if vx_result is Ok {
            assert(buffer@.take(8) =~= self.encoded());
            assert(buffer@.skip(8) =~= old(buffer)@.skip(8));
        }
    }

## fn bus::data::<i64 as Data>::decode
props C17
end
    proof { assert(buffer@.subrange(0, 8) =~= buffer@); }

## const bus::data::<i64 as Data>::ENCODED_SIZE
props C17
begin
    8
ensures [C17]
    r == 8,

## impl bus::data::<i128 as Data>
begin
    open spec fn encoded(&self) -> Seq<u8> { crate::vx::le_seq(self.unsigned(), 16) }
    open spec fn total() -> bool { true }

## fn bus::data::<i128 as Data>::encode
props C17
end
    proof {
        if vx_result is Ok {
            assert(buffer@.take(16) =~= self.encoded());
            assert(buffer@.skip(16) =~= old(buffer)@.skip(16));
        }
    }

## fn bus::data::<i128 as Data>::decode
props C17
end
    proof { assert(buffer@.subrange(0, 16) =~= buffer@); }

## const bus::data::<i128 as Data>::ENCODED_SIZE
props C17
begin
    16
ensures [C17]
    r == 16,

## impl bus::data::<[T;N] as Data>
begin
    open spec fn encoded(&self) -> Seq<u8> { crate::data_spec::flat(self@) }
    open spec fn total() -> bool { T::total() }

## const bus::data::<[T;N] as Data>::ENCODED_SIZE
props C17
attr verifier::external_body
requires
    T::ENCODED_SIZE * N <= u16::MAX,
    N <= u16::MAX,
ensures [C17]
    r == T::ENCODED_SIZE * N,

## fn bus::data::<[T;N] as Data>::encode
props C17
begin
    proof { crate::data_spec::array_size::<T, N>(); }
loop 0
    invariant
        vx_i0 <= vx_s0@.len(),
        vx_s0@ == self@,
        encoded_size == T::ENCODED_SIZE,
        Self::ENCODED_SIZE == T::ENCODED_SIZE * N,
        Self::ENCODED_SIZE <= buffer@.len(),
        buffer@.len() == old(buffer)@.len(),
        crate::data_spec::flat(self@.take(vx_i0 as int)).len() == vx_i0 * encoded_size,
        buffer@.take(vx_i0 * encoded_size) == crate::data_spec::flat(self@.take(vx_i0 as int)),
        buffer@.skip(Self::ENCODED_SIZE as int) == old(buffer)@.skip(Self::ENCODED_SIZE as int),
    decreases N - vx_i0,
loop 0 before
    proof {
        assert(self@.take(0) =~= seq![]);
        assert(buffer@.take(0) =~= seq![]);
    }
loop 0 begin
    proof { crate::data_spec::slot(vx_i0 as int, N as int, encoded_size as int); }
    let ghost vx_before = buffer@;
loop 0 end
    proof {
        assert(self@.take(vx_i0 as int).drop_last() =~= self@.take(vx_i0 - 1));
        assert(buffer@.take(vx_i0 * encoded_size) =~= crate::data_spec::flat(self@.take(vx_i0 as int)));
        assert(buffer@.skip(Self::ENCODED_SIZE as int) =~= vx_before.skip(Self::ENCODED_SIZE as int));
    }
loop 0 after
    proof {
        assert(self@.take(N as int) =~= self@);
        crate::data_spec::all_slots(vx_i0 as int, N as int, encoded_size as int);
    }

## fn bus::data::<[T;N] as Data>::decode
props C17 C18
begin
    proof { crate::data_spec::array_size::<T, N>(); }
loop 0 [C18]
    invariant
        output.wf(),
loop 0
        vx_i0 <= vx_end0,
        vx_end0 == N,
        encoded_size == T::ENCODED_SIZE,
        Self::ENCODED_SIZE == T::ENCODED_SIZE * N,
        Self::ENCODED_SIZE == buffer@.len(),
        output.items().len() == vx_i0,
        crate::data_spec::flat(output.items()) == buffer@.take(vx_i0 * encoded_size),
    decreases vx_end0 - vx_i0,
loop 0 before
    proof { assert(buffer@.take(0) =~= seq![]); }
loop 0 begin
    proof { crate::data_spec::slot(vx_i0 as int, N as int, encoded_size as int); }
    let ghost vx_before = output.items();
loop 0 end
    proof {
        assert(output.items().drop_last() =~= vx_before);
        assert(buffer@.take(vx_i0 * encoded_size) =~= crate::data_spec::flat(output.items()));
    }
try 1 [C18]
    // Dropping needs this.
    assert(output.wf());
loop 0 after
    proof {
        assert(buffer@.take(buffer@.len() as int) =~= buffer@);
        crate::data_spec::all_slots(vx_i0 as int, N as int, encoded_size as int);
    }

## fn bus::data::to_u16
props C17
requires [C17]
    input <= u16::MAX,
ensures [C17]
    r == input,

## impl bus::data::ArrayInitializer
begin
    /// The elements that are there.
    pub open spec fn items(&self) -> Seq<T> { Seq::new(self.initialized as nat, |i: int| self.data@[i].val()->0) }

    /// Exactly the first `initialized` slots hold an element.
    pub open spec fn wf(&self) -> bool {
        &&& self.initialized <= N
        &&& forall|i: int| 0 <= i < N ==> ((#[trigger] self.data@[i]).val() is Some <==> i < self.initialized)
    }

## struct bus::data::ArrayInitializer
attr verifier::reject_recursive_types(T)

## fn bus::data::ArrayInitializer::new
props C18
ensures [C18]
    r.wf(),
    r.items() =~= Seq::<T>::empty(),

## fn bus::data::ArrayInitializer::push
props C18
requires [C18]
    old(self).wf(),
    old(self).items().len() < N,
ensures [C18]
    final(self).wf(),
    final(self).items() =~= old(self).items().push(value),

## fn bus::data::ArrayInitializer::finish
props C18
requires [C18]
    self.wf(),
    self.items().len() == N,
ensures [C18]
    r@ =~= self.items(),

## fn bus::data::ArrayInitializer@Drop::drop
props C18
requires
    old(self).wf(),
ensures [C18]
    forall|i: int| 0 <= i < N ==> (#[trigger] final(self).data@[i]).val() is None,
    final(self).wf(),
loop 0
    invariant
        vx_i0 <= vx_s0@.len(),
        vx_s0@.len() == vx_live,
        forall|j: int| 0 <= j < vx_i0 ==> (#[trigger] vx_s0@[j]).val() is None,
        forall|j: int| vx_i0 <= j < vx_s0@.len() ==> (#[trigger] vx_s0@[j]).val() is Some,
    decreases vx_live - vx_i0,
begin
    let ghost vx_live = self.initialized;

## fn bus::data::decode_status_packet
props C10 C11
ensures [C10 C11]
    crate::data_spec::typed_response(status_packet.d(), r),

## fn bus::data::decode_status_packet_bytes
props C10 C11
ensures [C10 C11]
    crate::data_spec::bytes_response(status_packet.d(), r),

## fn bus::data::decode_status_packet_bytes_borrow
props C10 C11
ensures [C10 C11]
    crate::data_spec::borrow_response(status_packet.d(), r),
