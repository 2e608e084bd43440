//@ cfg all-features debug public
#![allow(unused, non_snake_case, unused_parens, unused_braces)]
use vstd::prelude::*;
verus! {

mod owned {
use super::*;
// ===== what is used ==================================================================================

/// An owned copy holds the same: `self == r` by the derived comparison, which does not look at who owns what.
pub trait ToBoundedStatic {
    type Static;
    spec fn held(&self, r: Self::Static) -> bool;
    fn to_static(&self) -> (r: Self::Static)
        ensures self.held(r);
}
pub trait IntoBoundedStatic: Sized {
    type Static;
    spec fn holds(self, r: Self::Static) -> bool;
    fn into_static(self) -> (r: Self::Static)
        ensures self.holds(r);
}
mod chrono {
    use super::*;
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct DateTime<T>(T);
    pub struct FixedOffset(u8);
    #[verifier::external_body]
    pub struct NaiveDate(u8);
    impl Clone for DateTime<FixedOffset> {
        #[verifier::external_body]
        fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    }
    impl Clone for NaiveDate {
        #[verifier::external_body]
        fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    }
}
use chrono::FixedOffset;

//@ file imap-types/src/datetime.rs
//@ struct DateTime
//@ struct NaiveDate
// derived
impl Clone for DateTime { fn clone(&self) -> (r: Self) ensures r == *self { DateTime(self.0.clone()) } }
impl Clone for NaiveDate { fn clone(&self) -> (r: Self) ensures r == *self { NaiveDate(self.0.clone()) } }
//@ impl IntoBoundedStatic for DateTime {
    open spec fn holds(self, r: Self::Static) -> bool { self == r }
//@ fn into_static -> r
//@ endfn
//@ endimpl
//@ impl ToBoundedStatic for DateTime {
    open spec fn held(&self, r: Self::Static) -> bool { *self == r }
//@ fn to_static -> r
//@ endfn
//@ endimpl
//@ impl IntoBoundedStatic for NaiveDate {
    open spec fn holds(self, r: Self::Static) -> bool { self == r }
//@ fn into_static -> r
//@ endfn
//@ endimpl
//@ impl ToBoundedStatic for NaiveDate {
    open spec fn held(&self, r: Self::Static) -> bool { *self == r }
//@ fn to_static -> r
//@ endfn
//@ endimpl

// ===== imap_types::{ToStatic, IntoStatic} ============================================================

pub trait ToStatic {
    type Static;
    spec fn kept(&self, r: Self::Static) -> bool;
    fn to_static(&self) -> (r: Self::Static)
        ensures self.kept(r);
}
pub trait IntoStatic: Sized {
    type Static;
    spec fn keeps(self, r: Self::Static) -> bool;
    fn into_static(self) -> (r: Self::Static)
        ensures self.keeps(r);
}
//@ file imap-types/src/lib.rs
//@ impl ToStatic for T {
    open spec fn kept(&self, r: Self::Static) -> bool { self.held(r) }
//@ fn to_static -> r
//@ endfn
//@ endimpl
//@ impl IntoStatic for T {
    open spec fn keeps(self, r: Self::Static) -> bool { self.holds(r) }
//@ fn into_static -> r
//@ endfn
//@ endimpl

/// A tag, of which only the text counts.
#[verifier::external_body]
pub struct Tag<'a>(&'a u8);
impl<'a> View for Tag<'a> { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
// derived
impl<'a> IntoBoundedStatic for Tag<'a> {
    type Static = Tag<'static>;
    open spec fn holds(self, r: Tag<'static>) -> bool { self@ == r@ }
    #[verifier::external_body]
    fn into_static(self) -> Tag<'static> { unimplemented!() }
}
//@ file imap-types/src/core.rs
//@ enum LiteralMode #[derive(Clone, Copy)]

}
mod decode {
use super::owned::{IntoStatic, Tag, LiteralMode};
use super::*;
// ===== the decoders' errors ==========================================================================

//@ file imap-codec/src/codec/decode.rs
//@ items GreetingDecodeError CommandDecodeError AuthenticateDataDecodeError ResponseDecodeError IdleDoneDecodeError
//@ impl IntoStatic for GreetingDecodeError {
    open spec fn keeps(self, r: Self::Static) -> bool { self == r }
//@ fn into_static -> r
//@ endfn
//@ endimpl
//@ impl IntoStatic for CommandDecodeError<'_> {
    open spec fn keeps(self, r: Self::Static) -> bool {
        match self {
            CommandDecodeError::Incomplete => r is Incomplete,
            CommandDecodeError::LiteralFound { tag, length, mode } => r matches CommandDecodeError::LiteralFound { tag: t, length: l, mode: m } && t@ == tag@ && l == length && m == mode,
            CommandDecodeError::Failed => r is Failed,
        }
    }
//@ fn into_static -> r
//@ endfn
//@ endimpl
//@ impl IntoStatic for AuthenticateDataDecodeError {
    open spec fn keeps(self, r: Self::Static) -> bool { self == r }
//@ fn into_static -> r
//@ endfn
//@ endimpl
//@ impl IntoStatic for ResponseDecodeError {
    open spec fn keeps(self, r: Self::Static) -> bool { self == r }
//@ fn into_static -> r
//@ endfn
//@ endimpl
//@ impl IntoStatic for IdleDoneDecodeError {
    open spec fn keeps(self, r: Self::Static) -> bool { self == r }
//@ fn into_static -> r
//@ endfn
//@ endimpl

// ===== owned decoding ================================================================================

/// A decoder, of whose `decode` nothing is known: `decoded` is what it gives.
pub trait VxDecoder<M, E> {
    spec fn decoded(&self, input: Seq<u8>) -> Result<(Seq<u8>, M), E>;
    fn decode<'a>(&self, input: &'a [u8]) -> (r: Result<(&'a [u8], M), E>)
        ensures
            r matches Ok((rest, m)) ==> self.decoded(input@) == Ok::<(Seq<u8>, M), E>((rest@, m)),
            r matches Err(e) ==> self.decoded(input@) == Err::<(Seq<u8>, M), E>(e);
}
//@ fn decode_static -> r
//@ sig fn decode_static<'a, M: IntoStatic, E: IntoStatic, D: VxDecoder<M, E>>(vx_self: &D, input: &'a [u8]) -> (r: Result<(&'a [u8], M::Static), E::Static>)
//@ path self=>vx_self
    ensures
        match vx_self.decoded(input@) {
            Ok((rest, m)) => r matches Ok((vx_rest, vx_m)) && vx_rest@ == rest && m.keeps(vx_m),
            Err(e) => r matches Err(vx_e) && e.keeps(vx_e),
        },
//@ endfn
// every other owned copy is made by bounded_static's derive, and owned decoding is nowhere done otherwise
//@ onlyimpls ToBoundedStatic DateTime NaiveDate
//@ onlyimpls IntoBoundedStatic DateTime NaiveDate
//@ onlyimpls ToStatic T
//@ onlyimpls IntoStatic T GreetingDecodeError CommandDecodeError AuthenticateDataDecodeError ResponseDecodeError IdleDoneDecodeError
//@ onlyimpls PartialEq
//@ onlyfn decode_static
}
}
fn main() {}
