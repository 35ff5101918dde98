/// `format!("{}", error)`
pub trait DisplayShim { spec fn shown(&self) -> Seq<char>; }
impl DisplayShim for io::Error { open spec fn shown(&self) -> Seq<char> { self.text() } }
impl<'a> DisplayShim for &'a io::Error { open spec fn shown(&self) -> Seq<char> { self.text() } }
#[verifier::external_body]
pub fn fmt_display<T: DisplayShim>(x: &T) -> (r: String)
    ensures r@ == x.shown()
{ unimplemented!() }
#[verifier::external_body]
pub fn fmt_concat(a: &str, b: &String) -> (r: String)
    ensures r@ == a@ + b@
{ unimplemented!() }

/// the kinds the format can name travel unchanged, any other as `Other`
pub open spec fn wire_kind(k: io::ErrorKind) -> io::ErrorKind {
    match k { io::ErrorKind::Newer(_) => io::ErrorKind::Other, k => k }
}
pub open spec fn same_error(a: io::Error, b: io::Error) -> bool {
    match a.spec_code() {
        Some(c) => b.spec_code() == Some(c) && b.spec_kind() == io::os_kind(c) && b.text() == io::os_text(c),
        None => b.spec_code() is None && b.spec_kind() == wire_kind(a.spec_kind()) && b.text() == a.text(),
    }
}
//@ src src/core/msg/content/reply/io/mod.rs
//@ keep
//@ subst format!("{}", error) => fmt_display(&error)
//@ subst format!("{}{}", prefix, args.description) => fmt_concat(prefix, &args.description)
//@ item SerErrorKind
//@ item IoErrorArgs
pub open spec fn ser_kind(k: io::ErrorKind) -> SerErrorKind {
    match k {
        io::ErrorKind::NotFound => SerErrorKind::NotFound,
        io::ErrorKind::PermissionDenied => SerErrorKind::PermissionDenied,
        io::ErrorKind::ConnectionRefused => SerErrorKind::ConnectionRefused,
        io::ErrorKind::ConnectionReset => SerErrorKind::ConnectionReset,
        io::ErrorKind::ConnectionAborted => SerErrorKind::ConnectionAborted,
        io::ErrorKind::NotConnected => SerErrorKind::NotConnected,
        io::ErrorKind::AddrInUse => SerErrorKind::AddrInUse,
        io::ErrorKind::AddrNotAvailable => SerErrorKind::AddrNotAvailable,
        io::ErrorKind::BrokenPipe => SerErrorKind::BrokenPipe,
        io::ErrorKind::AlreadyExists => SerErrorKind::AlreadyExists,
        io::ErrorKind::WouldBlock => SerErrorKind::WouldBlock,
        io::ErrorKind::InvalidInput => SerErrorKind::InvalidInput,
        io::ErrorKind::InvalidData => SerErrorKind::InvalidData,
        io::ErrorKind::TimedOut => SerErrorKind::TimedOut,
        io::ErrorKind::WriteZero => SerErrorKind::WriteZero,
        io::ErrorKind::Interrupted => SerErrorKind::Interrupted,
        io::ErrorKind::Other => SerErrorKind::Other,
        io::ErrorKind::UnexpectedEof => SerErrorKind::UnexpectedEof,
        io::ErrorKind::Newer(_) => SerErrorKind::NonExhaustive,
    }
}
pub open spec fn std_kind(k: SerErrorKind) -> io::ErrorKind {
    match k {
        SerErrorKind::NotFound => io::ErrorKind::NotFound,
        SerErrorKind::PermissionDenied => io::ErrorKind::PermissionDenied,
        SerErrorKind::ConnectionRefused => io::ErrorKind::ConnectionRefused,
        SerErrorKind::ConnectionReset => io::ErrorKind::ConnectionReset,
        SerErrorKind::ConnectionAborted => io::ErrorKind::ConnectionAborted,
        SerErrorKind::NotConnected => io::ErrorKind::NotConnected,
        SerErrorKind::AddrInUse => io::ErrorKind::AddrInUse,
        SerErrorKind::AddrNotAvailable => io::ErrorKind::AddrNotAvailable,
        SerErrorKind::BrokenPipe => io::ErrorKind::BrokenPipe,
        SerErrorKind::AlreadyExists => io::ErrorKind::AlreadyExists,
        SerErrorKind::WouldBlock => io::ErrorKind::WouldBlock,
        SerErrorKind::InvalidInput => io::ErrorKind::InvalidInput,
        SerErrorKind::InvalidData => io::ErrorKind::InvalidData,
        SerErrorKind::TimedOut => io::ErrorKind::TimedOut,
        SerErrorKind::WriteZero => io::ErrorKind::WriteZero,
        SerErrorKind::Interrupted => io::ErrorKind::Interrupted,
        SerErrorKind::Other => io::ErrorKind::Other,
        SerErrorKind::UnexpectedEof => io::ErrorKind::UnexpectedEof,
        SerErrorKind::NonExhaustive => io::ErrorKind::Other,
    }
}
impl vstd::std_specs::convert::FromSpecImpl<io::ErrorKind> for SerErrorKind {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: io::ErrorKind) -> Self { ser_kind(v) }
}
impl vstd::std_specs::convert::FromSpecImpl<SerErrorKind> for io::ErrorKind {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: SerErrorKind) -> Self { std_kind(v) }
}
impl vstd::std_specs::convert::FromSpecImpl<io::Error> for IoErrorArgs {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: io::Error) -> Self { arbitrary() }
}
//@ impl From<io::ErrorKind> for SerErrorKind
//@ fn from
//@ ret r
    ensures r == ser_kind(error_kind), // [C17]
//@ end
//@ endimpl
//@ impl From<SerErrorKind> for io::ErrorKind
//@ fn from
//@ ret r
    ensures r == std_kind(ser_error_kind), // [C17]
//@ end
//@ endimpl
pub open spec fn describes(a: IoErrorArgs, e: io::Error) -> bool {
    a.description@ == e.text() && a.os_code == e.spec_code() && a.error_kind == ser_kind(e.spec_kind())
}
pub open spec fn described_by(e: io::Error, a: IoErrorArgs) -> bool {
    match a.os_code {
        Some(c) => e.spec_code() == Some(c) && e.spec_kind() == io::os_kind(c) && e.text() == io::os_text(c),
        None => e.spec_code() is None && e.spec_kind() == std_kind(a.error_kind) && e.text() == a.description@,
    }
}
//@ impl From<io::Error> for IoErrorArgs
//@ fn from
//@ ret r
    ensures describes(r, error), // [C17]
//@ end
//@ endimpl
//@ impl Into<io::Error> for IoErrorArgs as impl IoErrorArgs
//@ fn into
//@ ret r
    ensures described_by(r, self), // [C17]
//@ end
//@ endimpl
//@ impl IoErrorArgs
//@ fn from_error_with_prefix
//@ ret r
    ensures
        r.description@ == prefix@ + error.text(), // [C17]
        r.os_code == error.spec_code(), // [C17]
        r.error_kind == ser_kind(error.spec_kind()), // [C17]
//@ end
//@ endimpl
//@ unsubst
