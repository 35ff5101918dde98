// ---- std::io errors, as assumed contracts ---------------------------------------
pub mod io {
    use super::*;
    verus! {
    /// the kinds std had when the format was designed, and any it gained since
    #[derive(Clone, Copy)]
    pub enum ErrorKind {
        NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, ConnectionAborted,
        NotConnected, AddrInUse, AddrNotAvailable, BrokenPipe, AlreadyExists, WouldBlock,
        InvalidInput, InvalidData, TimedOut, WriteZero, Interrupted, Other, UnexpectedEof,
        Newer(u8),
    }
    impl vstd::std_specs::cmp::PartialEqSpecImpl for ErrorKind {
        open spec fn obeys_eq_spec() -> bool { true }
        open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
    }
    impl PartialEq for ErrorKind {
        #[verifier::external_body]
        fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() }
    }
    pub type Result<T> = core::result::Result<T, Error>;
    pub trait ErrText { spec fn err_text(&self) -> Seq<char>; }
    impl ErrText for String { open spec fn err_text(&self) -> Seq<char> { self@ } }
    impl<'a> ErrText for &'a str { open spec fn err_text(&self) -> Seq<char> { self@ } }
    #[verifier::external_body]
    pub struct Error { _p: () }
    pub uninterp spec fn os_kind(code: i32) -> ErrorKind;
    pub uninterp spec fn os_text(code: i32) -> Seq<char>;
    impl Error {
        pub uninterp spec fn spec_kind(&self) -> ErrorKind;
        pub uninterp spec fn spec_code(&self) -> Option<i32>;
        pub uninterp spec fn text(&self) -> Seq<char>;
        #[verifier::external_body]
        pub fn new<E: ErrText>(kind: ErrorKind, e: E) -> (r: Self)
            ensures r.spec_kind() == kind, r.spec_code() is None, r.text() == e.err_text()
        { unimplemented!() }
        #[verifier::external_body]
        pub fn from(kind: ErrorKind) -> (r: Self)
            ensures r.spec_kind() == kind, r.spec_code() is None
        { unimplemented!() }
        #[verifier::external_body]
        pub fn from_raw_os_error(code: i32) -> (r: Self)
            ensures r.spec_code() == Some(code), r.spec_kind() == os_kind(code), r.text() == os_text(code)
        { unimplemented!() }
        #[verifier::external_body]
        pub fn kind(&self) -> (r: ErrorKind) ensures r == self.spec_kind() { unimplemented!() }
        #[verifier::external_body]
        pub fn raw_os_error(&self) -> (r: Option<i32>) ensures r == self.spec_code() { unimplemented!() }
    }
    }
}
