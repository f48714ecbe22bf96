// Interface of the command line tool: what it takes from the standard library, from clap and from the library.
pub mod vxcli {
use vstd::prelude::*;
use crate::cli::options::{Command, MotorId, Options};
use crate::bus::data::Data;
use crate::vxs::io;
use crate::vxs::serial2::SerialPort;

pub use crate::bus;

// ---------------------------------------------------------------- texts

/// ASCII letters as lower case.
pub open spec fn lower(c: char) -> char {
    if 'A' <= c <= 'Z' { ((c as u32) + 32) as u8 as char } else { c }
}

pub open spec fn same_but_case(a: Seq<char>, b: Seq<char>) -> bool {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> lower(#[trigger] a[i]) == lower(b[i])
}

pub assume_specification[ str::eq_ignore_ascii_case ](a: &str, b: &str) -> (r: bool)
    ensures r == same_but_case(a@, b@);

pub open spec fn digits(s: Seq<char>) -> bool {
    s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> '0' <= #[trigger] s[i] <= '9'
}

pub open spec fn value(s: Seq<char>) -> int
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { 10 * value(s.drop_last()) + (s.last() as int - '0' as int) }
}

/// The number that a text of decimal digits, perhaps after `+`, means.
pub open spec fn decimal(s: Seq<char>) -> Option<int> {
    let d = if s.len() > 0 && s[0] == '+' { s.skip(1) } else { s };
    if digits(d) { Some(value(d)) } else { None }
}

/// `str::parse` for unsigned numbers.
pub trait Number: Sized {
    spec fn as_int(&self) -> int;
    spec fn limit() -> int;
}
impl Number for u8 {
    open spec fn as_int(&self) -> int { *self as int }
    open spec fn limit() -> int { u8::MAX as int }
}
impl Number for u16 {
    open spec fn as_int(&self) -> int { *self as int }
    open spec fn limit() -> int { u16::MAX as int }
}
impl Number for u32 {
    open spec fn as_int(&self) -> int { *self as int }
    open spec fn limit() -> int { u32::MAX as int }
}
impl Number for u64 {
    open spec fn as_int(&self) -> int { *self as int }
    open spec fn limit() -> int { u64::MAX as int }
}

#[verifier::external_body]
pub fn parse<T: Number>(s: &str) -> (r: Result<T, ()>)
    ensures
        r is Ok <==> decimal(s@) is Some && decimal(s@)->0 <= T::limit(),
        r is Ok ==> r->Ok_0.as_int() == decimal(s@)->0,
{ unimplemented!() }

/// What a motor ID on the command line means.
pub open spec fn meaning(s: Seq<char>) -> Option<MotorId> {
    if same_but_case(s, "broadcast"@) {
        Some(MotorId::Broadcast)
    } else {
        match decimal(s) {
            Some(n) => if n == 254 { Some(MotorId::Broadcast) } else if n <= 255 { Some(MotorId::Id(n as u8)) } else { None },
            None => None,
        }
    }
}

impl MotorId {
    /// Made from a text: 254 is never an ID.
    pub open spec fn given(self) -> bool { self != MotorId::Id(254) }
    pub open spec fn number(self) -> u8 {
        match self { MotorId::Id(n) => n, MotorId::Broadcast => 254 }
    }
}

impl Command {
    pub open spec fn motor(&self) -> Option<MotorId> {
        match *self {
            Command::Ping { motor_id } => Some(motor_id),
            Command::Reboot { motor_id } => Some(motor_id),
            Command::Read8 { motor_id, .. } => Some(motor_id),
            Command::Read16 { motor_id, .. } => Some(motor_id),
            Command::Read32 { motor_id, .. } => Some(motor_id),
            Command::Read { motor_id, .. } => Some(motor_id),
            Command::Write8 { motor_id, .. } => Some(motor_id),
            Command::Write16 { motor_id, .. } => Some(motor_id),
            Command::Write32 { motor_id, .. } => Some(motor_id),
            Command::Write { motor_id, .. } => Some(motor_id),
            _ => None,
        }
    }
    pub open spec fn is_read(&self) -> bool {
        self is Read8 || self is Read16 || self is Read32 || self is Read
    }
    pub open spec fn is_write(&self) -> bool {
        self is Write8 || self is Write16 || self is Write32 || self is Write
    }
    pub open spec fn address(&self) -> u16 {
        match *self {
            Command::Read8 { address, .. } => address,
            Command::Read16 { address, .. } => address,
            Command::Read32 { address, .. } => address,
            Command::Read { address, .. } => address,
            Command::Write8 { address, .. } => address,
            Command::Write16 { address, .. } => address,
            Command::Write32 { address, .. } => address,
            Command::Write { address, .. } => address,
            _ => 0,
        }
    }
}

// ---------------------------------------------------------------- the library, for the command that was given

/// The options of this run of the tool.
pub uninterp spec fn options() -> Options;

pub open spec fn command() -> Command { options().command }

/// The instruction of the command was carried out, in this run of the tool.
pub uninterp spec fn performed() -> bool;

/// `dynamixel2::Client`: its functions with what the tool must respect when it calls them.
#[verifier::external_body]
pub struct Client { x: u8 }

pub type TransferError = crate::TransferError<io::Error>;
pub type WriteError = crate::WriteError<io::Error>;

/// What a serial port is opened with.
pub trait PathLike {
    spec fn path(&self) -> path::PathBuf;
}
impl PathLike for &path::PathBuf {
    open spec fn path(&self) -> path::PathBuf { **self }
}
impl PathLike for path::PathBuf {
    open spec fn path(&self) -> path::PathBuf { *self }
}

/// The types of values that are read and written, with their size as stated in C22.
pub trait Register: crate::bus::data::Data {
    spec fn width() -> int;
}
impl Register for u8 { open spec fn width() -> int { 1 } }
impl Register for i8 { open spec fn width() -> int { 1 } }
impl Register for u16 { open spec fn width() -> int { 2 } }
impl Register for i16 { open spec fn width() -> int { 2 } }
impl Register for u32 { open spec fn width() -> int { 4 } }
impl Register for i32 { open spec fn width() -> int { 4 } }

/// The size of the values that the command reads or writes.
pub open spec fn width(c: Command) -> int {
    match c {
        Command::Read8 { .. } | Command::Write8 { .. } => 1,
        Command::Read16 { .. } | Command::Write16 { .. } => 2,
        Command::Read32 { .. } | Command::Write32 { .. } => 4,
        _ => 0,
    }
}

pub open spec fn is_value_of(bytes: Seq<u8>, c: Command) -> bool {
    match c {
        Command::Write8 { motor_id, address, value } => bytes == value.encoded(),
        Command::Write16 { motor_id, address, value } => bytes == value.encoded(),
        Command::Write32 { motor_id, address, value } => bytes == value.encoded(),
        _ => false,
    }
}

impl Client {
    /// Something was sent with this client.
    pub uninterp spec fn used(&self) -> bool;

    #[verifier::external_body]
    pub fn open<P: PathLike>(path: P, baud_rate: u32) -> (r: io::Result<Client>)
        requires path.path() == options().serial_port, baud_rate == options().baud_rate,
        ensures r is Ok ==> !r->Ok_0.used(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn ping(&mut self, motor_id: u8) -> (r: Result<crate::Response<crate::instructions::Ping>, TransferError>)
        requires
            !old(self).used(),
            command() == (Command::Ping { motor_id: MotorId::Id(motor_id) }),
        ensures final(self).used(), r is Ok ==> performed(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn scan(&mut self) -> (r: Result<Scan, WriteError>)
        requires
            !old(self).used(),
            command() == (Command::Ping { motor_id: MotorId::Broadcast }),
        ensures final(self).used(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn reboot(&mut self, motor_id: u8) -> (r: Result<crate::Response<()>, TransferError>)
        requires
            !old(self).used(),
            command() is Reboot, command().motor()->0.number() == motor_id,
        ensures final(self).used(), r is Ok ==> performed(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn read<T: Register>(&mut self, motor_id: u8, address: u16) -> (r: Result<crate::Response<T>, TransferError>)
        requires
            !old(self).used(),
            motor_id != 254,
            command() is Read8 || command() is Read16 || command() is Read32,
            command().motor() == Some(MotorId::Id(motor_id)), command().address() == address,
            T::width() == width(command()),
        ensures final(self).used(), r is Ok ==> performed(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn read_bytes<T>(&mut self, motor_id: u8, address: u16, length: u16) -> (r: Result<crate::Response<T>, TransferError>)
        requires
            !old(self).used(),
            motor_id != 254,
            command() == (Command::Read { motor_id: MotorId::Id(motor_id), address, count: length }),
        ensures final(self).used(), r is Ok ==> performed(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn write<T: Register>(&mut self, motor_id: u8, address: u16, value: &T) -> (r: Result<crate::Response<()>, TransferError>)
        requires
            !old(self).used(),
            command().is_write(), command().motor()->0.number() == motor_id, command().address() == address,
            T::width() == width(command()),
            is_value_of(value.encoded(), command()),
        ensures final(self).used(), r is Ok ==> performed(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn write_bytes(&mut self, motor_id: u8, address: u16, data: &Vec<u8>) -> (r: Result<crate::Response<()>, TransferError>)
        requires
            !old(self).used(),
            command() == (Command::Write { motor_id: command().motor()->0, address, data: *data }), command().motor()->0.number() == motor_id,
        ensures final(self).used(), r is Ok ==> performed(),
    { unimplemented!() }
}

#[verifier::external_body]
pub struct Scan { x: u8 }

impl Scan {
    /// What is left to be received; it decreases with everything but I/O errors, which may go on for ever.
    pub uninterp spec fn left(&self) -> nat;

    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Result<crate::Response<crate::instructions::Ping>, crate::ReadError<io::Error>>>)
        ensures
            // A time-out ends the scan.
            r is None ==> performed(),
            r is Some && !(r->Some_0 is Err && r->Some_0->Err_0 is Io) ==> final(self).left() < old(self).left(),
    { unimplemented!() }
}

// ---------------------------------------------------------------- other things

pub mod logging {
    use vstd::prelude::*;
    #[verifier::external_body]
    pub fn init(root: &str, verbosity: i8) { unimplemented!() }
}

pub mod clap_complete {
    use vstd::prelude::*;
    #[verifier::external_body]
    #[derive(Clone, Copy)]
    pub struct Shell { x: u8 }
}

pub mod path {
    use vstd::prelude::*;
    #[verifier::external_body]
    pub struct PathBuf { x: u8 }
    #[verifier::external_body]
    pub struct Path { x: u8 }
    impl PathBuf {
        #[verifier::external_body]
        pub fn display(&self) -> () { unimplemented!() }
    }
}

#[verifier::external_body]
pub fn as_deref(x: &Option<path::PathBuf>) -> Option<&path::Path> { unimplemented!() }
}
