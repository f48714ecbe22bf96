// Assumed contracts of the standard library's clock and errors, and of the crate serial2.
pub mod vxs {
use vstd::prelude::*;
use vstd::std_specs::convert::*;
use vstd::std_specs::ops::*;
pub use crate::vx::Duration;
use crate::vx::Event;

/// The time that the clock shows during a function that reads it, in nanoseconds: any value.
pub uninterp spec fn clock() -> int;

/// `std::time::Instant`.
#[derive(Clone, Copy)]
pub struct Instant { pub at: u128 }

impl Instant {
    pub uninterp spec fn latest() -> u128;

    #[verifier::external_body]
    pub fn now() -> (r: Self)
        ensures r.at == clock(), r.at <= Self::latest(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn checked_duration_since(&self, earlier: Self) -> (r: Option<Duration>)
        ensures
            r is Some <==> self.at >= earlier.at,
            r is Some ==> r->0.ns() == self.at - earlier.at,
    { unimplemented!() }

    #[verifier::external_body]
    pub fn saturating_duration_since(&self, earlier: Self) -> (r: Duration)
        ensures r.ns() == if self.at >= earlier.at { self.at - earlier.at } else { 0 },
    { unimplemented!() }

    #[verifier::external_body]
    pub fn duration_since(&self, earlier: Self) -> (r: Duration)
        ensures r.ns() == if self.at >= earlier.at { self.at - earlier.at } else { 0 },
    { unimplemented!() }

    #[verifier::external_body]
    pub fn elapsed(&self) -> (r: Duration)
        ensures r.ns() == if clock() >= self.at { clock() - self.at } else { 0 },
    { unimplemented!() }

    #[verifier::external_body]
    pub fn checked_add(&self, d: Duration) -> (r: Option<Self>)
        ensures
            r is Some <==> self.at + d.ns() <= Self::latest(),
            r is Some ==> r->0.at == self.at + d.ns(),
    { unimplemented!() }
}

impl Instant {
    #[verifier::external_body]
    pub fn checked_sub(&self, d: Duration) -> (r: Option<Self>)
        ensures
            r is Some ==> r->0.at == self.at - d.ns(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn max(self, other: Self) -> (r: Self)
        ensures r == if other.at >= self.at { other } else { self },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn min(self, other: Self) -> (r: Self)
        ensures r == if other.at < self.at { other } else { self },
    { unimplemented!() }
}

/// `self - earlier`: zero when it is later.
impl core::ops::Sub<Instant> for Instant {
    type Output = Duration;
    #[verifier::external_body]
    fn sub(self, earlier: Instant) -> Duration { unimplemented!() }
}
impl SubSpecImpl<Instant> for Instant {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, earlier: Instant) -> bool { true }
    open spec fn sub_spec(self, earlier: Instant) -> Duration {
        Duration::of_ns(if self.at >= earlier.at { self.at - earlier.at } else { 0 })
    }
}

/// The standard library panics on overflow.
impl core::ops::Add<Duration> for Instant {
    type Output = Instant;
    #[verifier::external_body]
    fn add(self, d: Duration) -> Instant { unimplemented!() }
}
impl AddSpecImpl<Duration> for Instant {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, d: Duration) -> bool { self.at + d.ns() <= Instant::latest() }
    open spec fn add_spec(self, d: Duration) -> Instant { Instant { at: (self.at + d.ns()) as u128 } }
}

impl vstd::std_specs::cmp::PartialEqSpecImpl for Instant {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Instant) -> bool { self.at == other.at }
}
impl PartialEq for Instant {
    #[verifier::external_body]
    fn eq(&self, other: &Instant) -> bool { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Instant {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &Instant) -> Option<core::cmp::Ordering> {
        if self.at < other.at { Some(core::cmp::Ordering::Less) }
        else if self.at == other.at { Some(core::cmp::Ordering::Equal) }
        else { Some(core::cmp::Ordering::Greater) }
    }
}
impl PartialOrd for Instant {
    #[verifier::external_body]
    fn partial_cmp(&self, other: &Instant) -> Option<core::cmp::Ordering> { unimplemented!() }
}

pub mod io {
    use vstd::prelude::*;
    use vstd::std_specs::convert::*;

    /// `std::io::ErrorKind`.
    #[derive(Clone, Copy)]
    pub enum ErrorKind {
        NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, ConnectionAborted, NotConnected, AddrInUse,
        AddrNotAvailable, BrokenPipe, AlreadyExists, WouldBlock, InvalidInput, InvalidData, TimedOut, WriteZero,
        Interrupted, Unsupported, UnexpectedEof, OutOfMemory, Other,
    }

    impl vstd::std_specs::cmp::PartialEqSpecImpl for ErrorKind {
        open spec fn obeys_eq_spec() -> bool { true }
        open spec fn eq_spec(&self, other: &ErrorKind) -> bool { *self == *other }
    }
    impl PartialEq for ErrorKind {
        #[verifier::external_body]
        fn eq(&self, other: &ErrorKind) -> bool { unimplemented!() }
    }

    /// `std::io::Error`.
    #[verifier::external_body]
    pub struct Error { x: u8 }

    impl Error {
        pub uninterp spec fn of_kind(k: ErrorKind) -> Error;
        pub uninterp spec fn kind_of(&self) -> ErrorKind;

        #[verifier::external_body]
        pub fn kind(&self) -> (r: ErrorKind)
            ensures r == self.kind_of(),
        { unimplemented!() }
    }

    pub broadcast axiom fn error_kind(k: ErrorKind)
        ensures (#[trigger] Error::of_kind(k)).kind_of() == k;

    impl From<ErrorKind> for Error {
        #[verifier::external_body]
        fn from(k: ErrorKind) -> Error { unimplemented!() }
    }
    impl FromSpecImpl<ErrorKind> for Error {
        open spec fn obeys_from_spec() -> bool { true }
        open spec fn from_spec(k: ErrorKind) -> Error { Error::of_kind(k) }
    }

    pub type Result<T> = core::result::Result<T, Error>;
}

/// `AsRef<std::path::Path>`.
pub trait AsPath {}

pub mod serial2 {
    use vstd::prelude::*;
    use crate::vx::{Duration, Event};
    use super::{io, AsPath, Instant};

    /// A call of the operating system for data: the longest time that it blocks, in nanoseconds, and the answer.
    pub struct OsRead {
        pub blocks: int,
        pub answer: Result<Seq<u8>, io::Error>,
    }

    /// What the operating system sees of a port.
    pub struct Os {
        pub read_timeout: int,
        pub reads: Seq<OsRead>,
        pub written: Seq<(Seq<u8>, Result<(), io::Error>)>,
        pub discards: Seq<Result<(), io::Error>>,
        pub rate: u32,
    }

    /// What a read says that it got.
    pub open spec fn answer(r: Result<usize, io::Error>, buffer: Seq<u8>) -> Result<Seq<u8>, io::Error> {
        match r { Ok(n) => Ok(buffer.take(n as int)), Err(e) => Err(e) }
    }

    /// A time-out without a call that could block.
    pub open spec fn too_late(o: Os, n: Os, r: Result<Seq<u8>, io::Error>) -> bool {
        r is Err && r->Err_0.kind_of() == io::ErrorKind::TimedOut && n == o
    }

    /// One read that blocks at most `ns` and gives `r`, or none if setting the time-out fails.
    pub open spec fn read_once(o: Os, n: Os, ns: int, r: Result<Seq<u8>, io::Error>) -> bool {
        ||| r is Err && n == o
        ||| n == (Os { read_timeout: ns, reads: o.reads.push(OsRead { blocks: ns, answer: r }), ..o })
    }

    /// `serial2::Settings`.
    #[verifier::external_body]
    pub struct Settings { x: u8 }

    impl Settings {
        pub uninterp spec fn rate(&self) -> u32;

        #[verifier::external_body]
        pub fn get_baud_rate(&self) -> (r: io::Result<u32>)
            ensures r is Ok ==> r->Ok_0 == self.rate(),
        { unimplemented!() }

        #[verifier::external_body]
        pub fn set_baud_rate(&mut self, baud_rate: u32) -> (r: io::Result<()>)
            ensures r is Ok ==> final(self).rate() == baud_rate,
        { unimplemented!() }
    }

    /// `serial2::SerialPort`.
    #[verifier::external_body]
    pub struct SerialPort { x: u8 }

    impl SerialPort {
        pub uninterp spec fn os(&self) -> Os;
        /// The events of the crate's trait, see `impl SerialPort for SerialPort` below.
        pub uninterp spec fn events(&self) -> Seq<Event<io::Error, Instant>>;
        /// How many more reads succeed, before one reports an error: only so much data arrives until a deadline.
        pub uninterp spec fn lasts(&self) -> nat;

        #[verifier::external_body]
        pub fn open<P: AsPath>(path: P, baud_rate: u32) -> (r: io::Result<SerialPort>)
            ensures r is Ok ==> r->Ok_0.os().rate == baud_rate,
        { unimplemented!() }

        #[verifier::external_body]
        pub fn get_configuration(&self) -> (r: io::Result<Settings>)
            ensures r is Ok ==> r->Ok_0.rate() == self.os().rate,
        { unimplemented!() }

        #[verifier::external_body]
        pub fn set_configuration(&mut self, settings: &Settings) -> (r: io::Result<()>)
            ensures
                final(self).events() == old(self).events(),
                r is Ok ==> final(self).os() == (Os { rate: settings.rate(), ..old(self).os() }),
                r is Err ==> final(self).os() == (Os { rate: final(self).os().rate, ..old(self).os() }),
        { unimplemented!() }

        #[verifier::external_body]
        pub fn set_read_timeout(&mut self, timeout: Duration) -> (r: io::Result<()>)
            ensures
                final(self).events() == old(self).events(),
                final(self).lasts() == old(self).lasts(),
                r is Ok ==> final(self).os() == (Os { read_timeout: timeout.ns(), ..old(self).os() }),
                r is Err ==> final(self).os() == old(self).os(),
        { unimplemented!() }

        #[verifier::external_body]
        pub fn read(&mut self, buffer: &mut [u8]) -> (r: io::Result<usize>)
            ensures
                final(self).events() == old(self).events(),
                r is Ok ==> r->Ok_0 <= old(buffer)@.len() && final(self).lasts() < old(self).lasts(),
                final(buffer)@.len() == old(buffer)@.len(),
                final(self).os() == (Os { reads: old(self).os().reads.push(OsRead {
                    blocks: old(self).os().read_timeout,
                    answer: answer(r, final(buffer)@) }), ..old(self).os() }),
        { unimplemented!() }

        #[verifier::external_body]
        pub fn write_all(&mut self, buffer: &[u8]) -> (r: io::Result<()>)
            ensures
                final(self).events() == old(self).events(),
                final(self).os() == (Os { written: old(self).os().written.push((buffer@, r)), ..old(self).os() }),
        { unimplemented!() }

        #[verifier::external_body]
        pub fn discard_input_buffer(&mut self) -> (r: io::Result<()>)
            ensures
                final(self).events() == old(self).events(),
                final(self).os() == (Os { discards: old(self).os().discards.push(r), ..old(self).os() }),
        { unimplemented!() }

        /// Ghost only: the event list of the trait records a call.
        #[verifier::external_body]
        pub fn record(&mut self, event: Ghost<Event<io::Error, Instant>>)
            ensures
                final(self).events() == old(self).events().push(event@),
                final(self).os() == old(self).os(),
                final(self).lasts() == old(self).lasts(),
        { unimplemented!() }
    }

    /// What the two notions of the trait mean for this port.
    pub axiom fn deadline_means(ns: int, d: Instant)
        requires d.at == super::clock() + ns,
        ensures crate::vx::deadline_for(ns, d);

    pub axiom fn timeout_means(e: io::Error)
        ensures crate::vx::timeout_error(e) == (e.kind_of() == io::ErrorKind::TimedOut);

    /// The crate's implementation of its trait for this port: `port_read` and the others are the extracted functions
    /// of src/serial_port/serial2.rs; the wrapper only records the event.
    impl crate::serial_port::SerialPort for SerialPort {
        type Error = io::Error;
        type Instant = Instant;

        open spec fn trace(&self) -> Seq<Event<io::Error, Instant>> { self.events() }
        open spec fn rate(&self) -> u32 { self.os().rate }
        open spec fn patience(&self) -> nat { self.lasts() }

        fn baud_rate(&self) -> Result<u32, io::Error> { self.port_baud_rate() }

        fn set_baud_rate(&mut self, baud_rate: u32) -> Result<(), io::Error> {
            let r = self.port_set_baud_rate(baud_rate);
            self.record(Ghost(Event::SetBaud(baud_rate, r)));
            r
        }

        fn discard_input_buffer(&mut self) -> Result<(), io::Error> {
            let r = self.port_discard_input_buffer();
            self.record(Ghost(Event::Discard(r)));
            r
        }

        fn read(&mut self, buffer: &mut [u8], deadline: &Instant) -> Result<usize, io::Error> {
            let r = self.port_read(buffer, deadline);
            self.record(Ghost(Event::Read(*deadline, answer(r, buffer@))));
            r
        }

        fn write_all(&mut self, buffer: &[u8]) -> Result<(), io::Error> {
            let r = self.port_write_all(buffer);
            self.record(Ghost(Event::Write(buffer@, r)));
            r
        }

        fn make_deadline(&self, timeout: Duration) -> Instant {
            assume(super::clock() + timeout.ns() <= Instant::latest());
            let r = self.port_make_deadline(timeout);
            proof { deadline_means(timeout.ns(), r); }
            r
        }

        fn is_timeout_error(error: &io::Error) -> bool {
            let r = Self::port_is_timeout_error(error);
            proof { timeout_means(*error); }
            r
        }
    }
}
}
