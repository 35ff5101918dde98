// ---- utils/serializers/error_kind.rs: the hand-kept serializer of error kinds ----
pub mod serde {
    use super::*;
    verus! {
    /// what reached the format is `index` and `variant` (the rest is serde's)
    pub trait Serializer: Sized {
        type Ok;
        type Error;
        spec fn emitted(self, index: u32, variant: Seq<char>, r: Result<Self::Ok, Self::Error>) -> bool;
        fn serialize_unit_variant(self, name: &'static str, index: u32, variant: &'static str) -> (r: Result<Self::Ok, Self::Error>)
            ensures self.emitted(index, variant@, r);
    }
    pub mod export { pub use core::result::Result::{self, Ok, Err}; }
    pub mod de {
        use super::super::*;
        verus! {
        pub enum Unexpected { Unsigned(u64) }
        pub trait Error: Sized {
            fn invalid_value(unexp: Unexpected, exp: &&'static str) -> Self;
            fn unknown_variant(variant: &str, expected: &'static [&'static str]) -> Self;
        }
        pub trait VariantAccess: Sized {
            type Error;
            fn unit_variant(self) -> Result<(), Self::Error>;
        }
        pub trait EnumAccess: Sized {
            type Error;
            type Variant: VariantAccess<Error = Self::Error>;
            spec fn names<V>(self, v: V) -> bool;
            fn variant<V>(self) -> (r: Result<(V, Self::Variant), Self::Error>)
                ensures r matches Ok(p) ==> self.names::<V>(p.0);
        }
        }
    }
    }
}
pub open spec fn kind_index(k: io::ErrorKind) -> u32 {
    match k {
        io::ErrorKind::NotFound => 0,
        io::ErrorKind::PermissionDenied => 1,
        io::ErrorKind::ConnectionRefused => 2,
        io::ErrorKind::ConnectionReset => 3,
        io::ErrorKind::ConnectionAborted => 4,
        io::ErrorKind::NotConnected => 5,
        io::ErrorKind::AddrInUse => 6,
        io::ErrorKind::AddrNotAvailable => 7,
        io::ErrorKind::BrokenPipe => 8,
        io::ErrorKind::AlreadyExists => 9,
        io::ErrorKind::WouldBlock => 10,
        io::ErrorKind::InvalidInput => 11,
        io::ErrorKind::InvalidData => 12,
        io::ErrorKind::TimedOut => 13,
        io::ErrorKind::WriteZero => 14,
        io::ErrorKind::Interrupted => 15,
        io::ErrorKind::Other => 16,
        io::ErrorKind::UnexpectedEof => 17,
        io::ErrorKind::Newer(_) => 16,
    }
}
pub open spec fn kind_name(k: io::ErrorKind) -> &'static str {
    match k {
        io::ErrorKind::NotFound => "NotFound",
        io::ErrorKind::PermissionDenied => "PermissionDenied",
        io::ErrorKind::ConnectionRefused => "ConnectionRefused",
        io::ErrorKind::ConnectionReset => "ConnectionReset",
        io::ErrorKind::ConnectionAborted => "ConnectionAborted",
        io::ErrorKind::NotConnected => "NotConnected",
        io::ErrorKind::AddrInUse => "AddrInUse",
        io::ErrorKind::AddrNotAvailable => "AddrNotAvailable",
        io::ErrorKind::BrokenPipe => "BrokenPipe",
        io::ErrorKind::AlreadyExists => "AlreadyExists",
        io::ErrorKind::WouldBlock => "WouldBlock",
        io::ErrorKind::InvalidInput => "InvalidInput",
        io::ErrorKind::InvalidData => "InvalidData",
        io::ErrorKind::TimedOut => "TimedOut",
        io::ErrorKind::WriteZero => "WriteZero",
        io::ErrorKind::Interrupted => "Interrupted",
        io::ErrorKind::Other => "Other",
        io::ErrorKind::UnexpectedEof => "UnexpectedEof",
        io::ErrorKind::Newer(_) => "Other",
    }
}
//@ src src/utils/serializers/error_kind.rs
//@ fn serialize
//@ ret r
    ensures serializer.emitted(kind_index(*kind), kind_name(*kind)@, r), // [C17]
//@ end
//@ unsubst
//@ src src/utils/serializers/error_kind.rs in deserialize
//@ keep
//@ item Field
pub struct FieldVisitor;
#[verifier::external_body] pub fn variants() -> &'static [&'static str] { unimplemented!() }
pub open spec fn field_at(n: u64) -> Option<Field> {
        if n == 0 { Some(Field::field0) }
        else if n == 1 { Some(Field::field1) }
        else if n == 2 { Some(Field::field2) }
        else if n == 3 { Some(Field::field3) }
        else if n == 4 { Some(Field::field4) }
        else if n == 5 { Some(Field::field5) }
        else if n == 6 { Some(Field::field6) }
        else if n == 7 { Some(Field::field7) }
        else if n == 8 { Some(Field::field8) }
        else if n == 9 { Some(Field::field9) }
        else if n == 10 { Some(Field::field10) }
        else if n == 11 { Some(Field::field11) }
        else if n == 12 { Some(Field::field12) }
        else if n == 13 { Some(Field::field13) }
        else if n == 14 { Some(Field::field14) }
        else if n == 15 { Some(Field::field15) }
        else if n == 16 { Some(Field::field16) }
        else if n == 17 { Some(Field::field17) }
        else { None }
}
pub open spec fn field_named(s: &str) -> Option<Field> {
        if s == "NotFound" { Some(Field::field0) }
        else if s == "PermissionDenied" { Some(Field::field1) }
        else if s == "ConnectionRefused" { Some(Field::field2) }
        else if s == "ConnectionReset" { Some(Field::field3) }
        else if s == "ConnectionAborted" { Some(Field::field4) }
        else if s == "NotConnected" { Some(Field::field5) }
        else if s == "AddrInUse" { Some(Field::field6) }
        else if s == "AddrNotAvailable" { Some(Field::field7) }
        else if s == "BrokenPipe" { Some(Field::field8) }
        else if s == "AlreadyExists" { Some(Field::field9) }
        else if s == "WouldBlock" { Some(Field::field10) }
        else if s == "InvalidInput" { Some(Field::field11) }
        else if s == "InvalidData" { Some(Field::field12) }
        else if s == "TimedOut" { Some(Field::field13) }
        else if s == "WriteZero" { Some(Field::field14) }
        else if s == "Interrupted" { Some(Field::field15) }
        else if s == "Other" { Some(Field::field16) }
        else if s == "UnexpectedEof" { Some(Field::field17) }
        else { None }
}
pub open spec fn field_kind(f: Field) -> io::ErrorKind {
    match f {
        Field::field0 => io::ErrorKind::NotFound,
        Field::field1 => io::ErrorKind::PermissionDenied,
        Field::field2 => io::ErrorKind::ConnectionRefused,
        Field::field3 => io::ErrorKind::ConnectionReset,
        Field::field4 => io::ErrorKind::ConnectionAborted,
        Field::field5 => io::ErrorKind::NotConnected,
        Field::field6 => io::ErrorKind::AddrInUse,
        Field::field7 => io::ErrorKind::AddrNotAvailable,
        Field::field8 => io::ErrorKind::BrokenPipe,
        Field::field9 => io::ErrorKind::AlreadyExists,
        Field::field10 => io::ErrorKind::WouldBlock,
        Field::field11 => io::ErrorKind::InvalidInput,
        Field::field12 => io::ErrorKind::InvalidData,
        Field::field13 => io::ErrorKind::TimedOut,
        Field::field14 => io::ErrorKind::WriteZero,
        Field::field15 => io::ErrorKind::Interrupted,
        Field::field16 => io::ErrorKind::Other,
        Field::field17 => io::ErrorKind::UnexpectedEof,
    }
}
//@ impl serde::de::Visitor<'de> for FieldVisitor as impl FieldVisitor
//@ subst Self::Value => Field
//@ subst VARIANTS => variants()
//@ fn visit_u64
//@ ret r
    ensures match field_at(value) { Some(f) => r == Ok::<Field, E>(f), None => r.is_err() }, // [C17]
//@ end
//@ fn visit_str
//@ ret r
    ensures match field_named(value) { Some(f) => r == Ok::<Field, E>(f), None => r.is_err() }, // [C17]
//@ end
//@ endimpl
//@ unsubst
pub struct Visitor;
pub open spec fn names_kind<A: serde::de::EnumAccess>(data: A, k: io::ErrorKind) -> bool {
    exists|f: Field| #[trigger] data.names::<Field>(f) && field_kind(f) == k
}
//@ impl serde::de::Visitor<'de> for Visitor<'de> as impl Visitor
//@ subst Self::Value => io::ErrorKind
//@ subst EnumAccess<'de> => EnumAccess
//@ fn visit_enum
//@ ret r
    ensures r matches Ok(k) ==> names_kind(data, k), // [C17]
//@ end
//@ endimpl
//@ unsubst
/// C17: index and name written for a kind are read back as that kind
pub proof fn theorem_kind_round_trip(k: io::ErrorKind)
    ensures
        field_at(kind_index(k) as u64) matches Some(f) && field_kind(f) == wire_kind(k),
        field_named(kind_name(k)) matches Some(f) && field_kind(f) == wire_kind(k),
{
    reveal_strlit("NotFound");
    reveal_strlit("PermissionDenied");
    reveal_strlit("ConnectionRefused");
    reveal_strlit("ConnectionReset");
    reveal_strlit("ConnectionAborted");
    reveal_strlit("NotConnected");
    reveal_strlit("AddrInUse");
    reveal_strlit("AddrNotAvailable");
    reveal_strlit("BrokenPipe");
    reveal_strlit("AlreadyExists");
    reveal_strlit("WouldBlock");
    reveal_strlit("InvalidInput");
    reveal_strlit("InvalidData");
    reveal_strlit("TimedOut");
    reveal_strlit("WriteZero");
    reveal_strlit("Interrupted");
    reveal_strlit("Other");
    reveal_strlit("UnexpectedEof");
    // pairwise different: length, or a telling character
    assert("NotFound"@.len() != "PermissionDenied"@.len() && "NotFound"@.len() != "ConnectionRefused"@.len() && "NotFound"@.len() != "ConnectionReset"@.len() && "NotFound"@.len() != "ConnectionAborted"@.len() && "NotFound"@.len() != "NotConnected"@.len() && "NotFound"@.len() != "AddrInUse"@.len() && "NotFound"@.len() != "AddrNotAvailable"@.len() && "NotFound"@.len() != "BrokenPipe"@.len() && "NotFound"@.len() != "AlreadyExists"@.len() && "NotFound"@.len() != "WouldBlock"@.len() && "NotFound"@.len() != "InvalidInput"@.len() && "NotFound"@.len() != "InvalidData"@.len() && "NotFound"@[0] != "TimedOut"@[0] && "NotFound"@.len() != "WriteZero"@.len() && "NotFound"@.len() != "Interrupted"@.len() && "NotFound"@.len() != "Other"@.len() && "NotFound"@.len() != "UnexpectedEof"@.len());
    assert("PermissionDenied"@.len() != "NotFound"@.len() && "PermissionDenied"@.len() != "ConnectionRefused"@.len() && "PermissionDenied"@.len() != "ConnectionReset"@.len() && "PermissionDenied"@.len() != "ConnectionAborted"@.len() && "PermissionDenied"@.len() != "NotConnected"@.len() && "PermissionDenied"@.len() != "AddrInUse"@.len() && "PermissionDenied"@[0] != "AddrNotAvailable"@[0] && "PermissionDenied"@.len() != "BrokenPipe"@.len() && "PermissionDenied"@.len() != "AlreadyExists"@.len() && "PermissionDenied"@.len() != "WouldBlock"@.len() && "PermissionDenied"@.len() != "InvalidInput"@.len() && "PermissionDenied"@.len() != "InvalidData"@.len() && "PermissionDenied"@.len() != "TimedOut"@.len() && "PermissionDenied"@.len() != "WriteZero"@.len() && "PermissionDenied"@.len() != "Interrupted"@.len() && "PermissionDenied"@.len() != "Other"@.len() && "PermissionDenied"@.len() != "UnexpectedEof"@.len());
    assert("ConnectionRefused"@.len() != "NotFound"@.len() && "ConnectionRefused"@.len() != "PermissionDenied"@.len() && "ConnectionRefused"@.len() != "ConnectionReset"@.len() && "ConnectionRefused"@[10] != "ConnectionAborted"@[10] && "ConnectionRefused"@.len() != "NotConnected"@.len() && "ConnectionRefused"@.len() != "AddrInUse"@.len() && "ConnectionRefused"@.len() != "AddrNotAvailable"@.len() && "ConnectionRefused"@.len() != "BrokenPipe"@.len() && "ConnectionRefused"@.len() != "AlreadyExists"@.len() && "ConnectionRefused"@.len() != "WouldBlock"@.len() && "ConnectionRefused"@.len() != "InvalidInput"@.len() && "ConnectionRefused"@.len() != "InvalidData"@.len() && "ConnectionRefused"@.len() != "TimedOut"@.len() && "ConnectionRefused"@.len() != "WriteZero"@.len() && "ConnectionRefused"@.len() != "Interrupted"@.len() && "ConnectionRefused"@.len() != "Other"@.len() && "ConnectionRefused"@.len() != "UnexpectedEof"@.len());
    assert("ConnectionReset"@.len() != "NotFound"@.len() && "ConnectionReset"@.len() != "PermissionDenied"@.len() && "ConnectionReset"@.len() != "ConnectionRefused"@.len() && "ConnectionReset"@.len() != "ConnectionAborted"@.len() && "ConnectionReset"@.len() != "NotConnected"@.len() && "ConnectionReset"@.len() != "AddrInUse"@.len() && "ConnectionReset"@.len() != "AddrNotAvailable"@.len() && "ConnectionReset"@.len() != "BrokenPipe"@.len() && "ConnectionReset"@.len() != "AlreadyExists"@.len() && "ConnectionReset"@.len() != "WouldBlock"@.len() && "ConnectionReset"@.len() != "InvalidInput"@.len() && "ConnectionReset"@.len() != "InvalidData"@.len() && "ConnectionReset"@.len() != "TimedOut"@.len() && "ConnectionReset"@.len() != "WriteZero"@.len() && "ConnectionReset"@.len() != "Interrupted"@.len() && "ConnectionReset"@.len() != "Other"@.len() && "ConnectionReset"@.len() != "UnexpectedEof"@.len());
    assert("ConnectionAborted"@.len() != "NotFound"@.len() && "ConnectionAborted"@.len() != "PermissionDenied"@.len() && "ConnectionAborted"@[10] != "ConnectionRefused"@[10] && "ConnectionAborted"@.len() != "ConnectionReset"@.len() && "ConnectionAborted"@.len() != "NotConnected"@.len() && "ConnectionAborted"@.len() != "AddrInUse"@.len() && "ConnectionAborted"@.len() != "AddrNotAvailable"@.len() && "ConnectionAborted"@.len() != "BrokenPipe"@.len() && "ConnectionAborted"@.len() != "AlreadyExists"@.len() && "ConnectionAborted"@.len() != "WouldBlock"@.len() && "ConnectionAborted"@.len() != "InvalidInput"@.len() && "ConnectionAborted"@.len() != "InvalidData"@.len() && "ConnectionAborted"@.len() != "TimedOut"@.len() && "ConnectionAborted"@.len() != "WriteZero"@.len() && "ConnectionAborted"@.len() != "Interrupted"@.len() && "ConnectionAborted"@.len() != "Other"@.len() && "ConnectionAborted"@.len() != "UnexpectedEof"@.len());
    assert("NotConnected"@.len() != "NotFound"@.len() && "NotConnected"@.len() != "PermissionDenied"@.len() && "NotConnected"@.len() != "ConnectionRefused"@.len() && "NotConnected"@.len() != "ConnectionReset"@.len() && "NotConnected"@.len() != "ConnectionAborted"@.len() && "NotConnected"@.len() != "AddrInUse"@.len() && "NotConnected"@.len() != "AddrNotAvailable"@.len() && "NotConnected"@.len() != "BrokenPipe"@.len() && "NotConnected"@.len() != "AlreadyExists"@.len() && "NotConnected"@.len() != "WouldBlock"@.len() && "NotConnected"@[0] != "InvalidInput"@[0] && "NotConnected"@.len() != "InvalidData"@.len() && "NotConnected"@.len() != "TimedOut"@.len() && "NotConnected"@.len() != "WriteZero"@.len() && "NotConnected"@.len() != "Interrupted"@.len() && "NotConnected"@.len() != "Other"@.len() && "NotConnected"@.len() != "UnexpectedEof"@.len());
    assert("AddrInUse"@.len() != "NotFound"@.len() && "AddrInUse"@.len() != "PermissionDenied"@.len() && "AddrInUse"@.len() != "ConnectionRefused"@.len() && "AddrInUse"@.len() != "ConnectionReset"@.len() && "AddrInUse"@.len() != "ConnectionAborted"@.len() && "AddrInUse"@.len() != "NotConnected"@.len() && "AddrInUse"@.len() != "AddrNotAvailable"@.len() && "AddrInUse"@.len() != "BrokenPipe"@.len() && "AddrInUse"@.len() != "AlreadyExists"@.len() && "AddrInUse"@.len() != "WouldBlock"@.len() && "AddrInUse"@.len() != "InvalidInput"@.len() && "AddrInUse"@.len() != "InvalidData"@.len() && "AddrInUse"@.len() != "TimedOut"@.len() && "AddrInUse"@[0] != "WriteZero"@[0] && "AddrInUse"@.len() != "Interrupted"@.len() && "AddrInUse"@.len() != "Other"@.len() && "AddrInUse"@.len() != "UnexpectedEof"@.len());
    assert("AddrNotAvailable"@.len() != "NotFound"@.len() && "AddrNotAvailable"@[0] != "PermissionDenied"@[0] && "AddrNotAvailable"@.len() != "ConnectionRefused"@.len() && "AddrNotAvailable"@.len() != "ConnectionReset"@.len() && "AddrNotAvailable"@.len() != "ConnectionAborted"@.len() && "AddrNotAvailable"@.len() != "NotConnected"@.len() && "AddrNotAvailable"@.len() != "AddrInUse"@.len() && "AddrNotAvailable"@.len() != "BrokenPipe"@.len() && "AddrNotAvailable"@.len() != "AlreadyExists"@.len() && "AddrNotAvailable"@.len() != "WouldBlock"@.len() && "AddrNotAvailable"@.len() != "InvalidInput"@.len() && "AddrNotAvailable"@.len() != "InvalidData"@.len() && "AddrNotAvailable"@.len() != "TimedOut"@.len() && "AddrNotAvailable"@.len() != "WriteZero"@.len() && "AddrNotAvailable"@.len() != "Interrupted"@.len() && "AddrNotAvailable"@.len() != "Other"@.len() && "AddrNotAvailable"@.len() != "UnexpectedEof"@.len());
    assert("BrokenPipe"@.len() != "NotFound"@.len() && "BrokenPipe"@.len() != "PermissionDenied"@.len() && "BrokenPipe"@.len() != "ConnectionRefused"@.len() && "BrokenPipe"@.len() != "ConnectionReset"@.len() && "BrokenPipe"@.len() != "ConnectionAborted"@.len() && "BrokenPipe"@.len() != "NotConnected"@.len() && "BrokenPipe"@.len() != "AddrInUse"@.len() && "BrokenPipe"@.len() != "AddrNotAvailable"@.len() && "BrokenPipe"@.len() != "AlreadyExists"@.len() && "BrokenPipe"@[0] != "WouldBlock"@[0] && "BrokenPipe"@.len() != "InvalidInput"@.len() && "BrokenPipe"@.len() != "InvalidData"@.len() && "BrokenPipe"@.len() != "TimedOut"@.len() && "BrokenPipe"@.len() != "WriteZero"@.len() && "BrokenPipe"@.len() != "Interrupted"@.len() && "BrokenPipe"@.len() != "Other"@.len() && "BrokenPipe"@.len() != "UnexpectedEof"@.len());
    assert("AlreadyExists"@.len() != "NotFound"@.len() && "AlreadyExists"@.len() != "PermissionDenied"@.len() && "AlreadyExists"@.len() != "ConnectionRefused"@.len() && "AlreadyExists"@.len() != "ConnectionReset"@.len() && "AlreadyExists"@.len() != "ConnectionAborted"@.len() && "AlreadyExists"@.len() != "NotConnected"@.len() && "AlreadyExists"@.len() != "AddrInUse"@.len() && "AlreadyExists"@.len() != "AddrNotAvailable"@.len() && "AlreadyExists"@.len() != "BrokenPipe"@.len() && "AlreadyExists"@.len() != "WouldBlock"@.len() && "AlreadyExists"@.len() != "InvalidInput"@.len() && "AlreadyExists"@.len() != "InvalidData"@.len() && "AlreadyExists"@.len() != "TimedOut"@.len() && "AlreadyExists"@.len() != "WriteZero"@.len() && "AlreadyExists"@.len() != "Interrupted"@.len() && "AlreadyExists"@.len() != "Other"@.len() && "AlreadyExists"@[0] != "UnexpectedEof"@[0]);
    assert("WouldBlock"@.len() != "NotFound"@.len() && "WouldBlock"@.len() != "PermissionDenied"@.len() && "WouldBlock"@.len() != "ConnectionRefused"@.len() && "WouldBlock"@.len() != "ConnectionReset"@.len() && "WouldBlock"@.len() != "ConnectionAborted"@.len() && "WouldBlock"@.len() != "NotConnected"@.len() && "WouldBlock"@.len() != "AddrInUse"@.len() && "WouldBlock"@.len() != "AddrNotAvailable"@.len() && "WouldBlock"@[0] != "BrokenPipe"@[0] && "WouldBlock"@.len() != "AlreadyExists"@.len() && "WouldBlock"@.len() != "InvalidInput"@.len() && "WouldBlock"@.len() != "InvalidData"@.len() && "WouldBlock"@.len() != "TimedOut"@.len() && "WouldBlock"@.len() != "WriteZero"@.len() && "WouldBlock"@.len() != "Interrupted"@.len() && "WouldBlock"@.len() != "Other"@.len() && "WouldBlock"@.len() != "UnexpectedEof"@.len());
    assert("InvalidInput"@.len() != "NotFound"@.len() && "InvalidInput"@.len() != "PermissionDenied"@.len() && "InvalidInput"@.len() != "ConnectionRefused"@.len() && "InvalidInput"@.len() != "ConnectionReset"@.len() && "InvalidInput"@.len() != "ConnectionAborted"@.len() && "InvalidInput"@[0] != "NotConnected"@[0] && "InvalidInput"@.len() != "AddrInUse"@.len() && "InvalidInput"@.len() != "AddrNotAvailable"@.len() && "InvalidInput"@.len() != "BrokenPipe"@.len() && "InvalidInput"@.len() != "AlreadyExists"@.len() && "InvalidInput"@.len() != "WouldBlock"@.len() && "InvalidInput"@.len() != "InvalidData"@.len() && "InvalidInput"@.len() != "TimedOut"@.len() && "InvalidInput"@.len() != "WriteZero"@.len() && "InvalidInput"@.len() != "Interrupted"@.len() && "InvalidInput"@.len() != "Other"@.len() && "InvalidInput"@.len() != "UnexpectedEof"@.len());
    assert("InvalidData"@.len() != "NotFound"@.len() && "InvalidData"@.len() != "PermissionDenied"@.len() && "InvalidData"@.len() != "ConnectionRefused"@.len() && "InvalidData"@.len() != "ConnectionReset"@.len() && "InvalidData"@.len() != "ConnectionAborted"@.len() && "InvalidData"@.len() != "NotConnected"@.len() && "InvalidData"@.len() != "AddrInUse"@.len() && "InvalidData"@.len() != "AddrNotAvailable"@.len() && "InvalidData"@.len() != "BrokenPipe"@.len() && "InvalidData"@.len() != "AlreadyExists"@.len() && "InvalidData"@.len() != "WouldBlock"@.len() && "InvalidData"@.len() != "InvalidInput"@.len() && "InvalidData"@.len() != "TimedOut"@.len() && "InvalidData"@.len() != "WriteZero"@.len() && "InvalidData"@[2] != "Interrupted"@[2] && "InvalidData"@.len() != "Other"@.len() && "InvalidData"@.len() != "UnexpectedEof"@.len());
    assert("TimedOut"@[0] != "NotFound"@[0] && "TimedOut"@.len() != "PermissionDenied"@.len() && "TimedOut"@.len() != "ConnectionRefused"@.len() && "TimedOut"@.len() != "ConnectionReset"@.len() && "TimedOut"@.len() != "ConnectionAborted"@.len() && "TimedOut"@.len() != "NotConnected"@.len() && "TimedOut"@.len() != "AddrInUse"@.len() && "TimedOut"@.len() != "AddrNotAvailable"@.len() && "TimedOut"@.len() != "BrokenPipe"@.len() && "TimedOut"@.len() != "AlreadyExists"@.len() && "TimedOut"@.len() != "WouldBlock"@.len() && "TimedOut"@.len() != "InvalidInput"@.len() && "TimedOut"@.len() != "InvalidData"@.len() && "TimedOut"@.len() != "WriteZero"@.len() && "TimedOut"@.len() != "Interrupted"@.len() && "TimedOut"@.len() != "Other"@.len() && "TimedOut"@.len() != "UnexpectedEof"@.len());
    assert("WriteZero"@.len() != "NotFound"@.len() && "WriteZero"@.len() != "PermissionDenied"@.len() && "WriteZero"@.len() != "ConnectionRefused"@.len() && "WriteZero"@.len() != "ConnectionReset"@.len() && "WriteZero"@.len() != "ConnectionAborted"@.len() && "WriteZero"@.len() != "NotConnected"@.len() && "WriteZero"@[0] != "AddrInUse"@[0] && "WriteZero"@.len() != "AddrNotAvailable"@.len() && "WriteZero"@.len() != "BrokenPipe"@.len() && "WriteZero"@.len() != "AlreadyExists"@.len() && "WriteZero"@.len() != "WouldBlock"@.len() && "WriteZero"@.len() != "InvalidInput"@.len() && "WriteZero"@.len() != "InvalidData"@.len() && "WriteZero"@.len() != "TimedOut"@.len() && "WriteZero"@.len() != "Interrupted"@.len() && "WriteZero"@.len() != "Other"@.len() && "WriteZero"@.len() != "UnexpectedEof"@.len());
    assert("Interrupted"@.len() != "NotFound"@.len() && "Interrupted"@.len() != "PermissionDenied"@.len() && "Interrupted"@.len() != "ConnectionRefused"@.len() && "Interrupted"@.len() != "ConnectionReset"@.len() && "Interrupted"@.len() != "ConnectionAborted"@.len() && "Interrupted"@.len() != "NotConnected"@.len() && "Interrupted"@.len() != "AddrInUse"@.len() && "Interrupted"@.len() != "AddrNotAvailable"@.len() && "Interrupted"@.len() != "BrokenPipe"@.len() && "Interrupted"@.len() != "AlreadyExists"@.len() && "Interrupted"@.len() != "WouldBlock"@.len() && "Interrupted"@.len() != "InvalidInput"@.len() && "Interrupted"@[2] != "InvalidData"@[2] && "Interrupted"@.len() != "TimedOut"@.len() && "Interrupted"@.len() != "WriteZero"@.len() && "Interrupted"@.len() != "Other"@.len() && "Interrupted"@.len() != "UnexpectedEof"@.len());
    assert("Other"@.len() != "NotFound"@.len() && "Other"@.len() != "PermissionDenied"@.len() && "Other"@.len() != "ConnectionRefused"@.len() && "Other"@.len() != "ConnectionReset"@.len() && "Other"@.len() != "ConnectionAborted"@.len() && "Other"@.len() != "NotConnected"@.len() && "Other"@.len() != "AddrInUse"@.len() && "Other"@.len() != "AddrNotAvailable"@.len() && "Other"@.len() != "BrokenPipe"@.len() && "Other"@.len() != "AlreadyExists"@.len() && "Other"@.len() != "WouldBlock"@.len() && "Other"@.len() != "InvalidInput"@.len() && "Other"@.len() != "InvalidData"@.len() && "Other"@.len() != "TimedOut"@.len() && "Other"@.len() != "WriteZero"@.len() && "Other"@.len() != "Interrupted"@.len() && "Other"@.len() != "UnexpectedEof"@.len());
    assert("UnexpectedEof"@.len() != "NotFound"@.len() && "UnexpectedEof"@.len() != "PermissionDenied"@.len() && "UnexpectedEof"@.len() != "ConnectionRefused"@.len() && "UnexpectedEof"@.len() != "ConnectionReset"@.len() && "UnexpectedEof"@.len() != "ConnectionAborted"@.len() && "UnexpectedEof"@.len() != "NotConnected"@.len() && "UnexpectedEof"@.len() != "AddrInUse"@.len() && "UnexpectedEof"@.len() != "AddrNotAvailable"@.len() && "UnexpectedEof"@.len() != "BrokenPipe"@.len() && "UnexpectedEof"@[0] != "AlreadyExists"@[0] && "UnexpectedEof"@.len() != "WouldBlock"@.len() && "UnexpectedEof"@.len() != "InvalidInput"@.len() && "UnexpectedEof"@.len() != "InvalidData"@.len() && "UnexpectedEof"@.len() != "TimedOut"@.len() && "UnexpectedEof"@.len() != "WriteZero"@.len() && "UnexpectedEof"@.len() != "Interrupted"@.len() && "UnexpectedEof"@.len() != "Other"@.len());
}
