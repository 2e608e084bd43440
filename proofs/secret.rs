//@ cfg lift public
#![allow(unused, non_snake_case, unused_parens, unused_braces)]
use vstd::prelude::*;
verus! {

// ===== what is used ==================================================================================

#[verifier::external_body]
struct Formatter<'a>(&'a u8);
impl<'a> Formatter<'a> {
    #[verifier::external_body]
    fn write_str(&mut self, s: &str) -> std::fmt::Result { unimplemented!() }
    #[verifier::external_body]
    fn pad(&mut self, s: &str) -> std::fmt::Result { unimplemented!() }
    #[verifier::external_body]
    fn write_char(&mut self, c: char) -> std::fmt::Result { unimplemented!() }
    #[verifier::external_body]
    fn write_all(&mut self, s: &[u8]) -> std::fmt::Result { unimplemented!() }
    #[verifier::external_body]
    fn alternate(&self) -> bool { unimplemented!() }
    #[verifier::external_body]
    fn vx_debug<D: Debug + ?Sized>(&mut self, d: &D) -> std::fmt::Result
        requires d.open(),
    { unimplemented!() }
    /// Only texts and numbers.
    #[verifier::external_body]
    fn vx_put<D: Debug + ?Sized>(&mut self, d: &D) -> std::fmt::Result
        requires d.open(),
    { unimplemented!() }
}
/// `T: Debug` gives generic code no other way to learn anything of a value than to print it.
trait Debug {
    /// May be printed in a release build. Nothing is known of it for the type of a secret's content.
    spec fn open(&self) -> bool;
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result
        requires self.open(),
    ;
}
impl Debug for str {
    spec fn open(&self) -> bool { true }
    #[verifier::external_body]
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result { unimplemented!() }
}
impl<T: Debug + ?Sized> Debug for &T {
    spec fn open(&self) -> bool { (*self).open() }
    #[verifier::external_body]
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result { unimplemented!() }
}

/// Literals.
spec fn safe(s: Seq<u8>) -> bool { true }
spec fn safe_rec(s: Seq<u8>) -> bool { true }
proof fn lemma_safe_rec(s: Seq<u8>) { }

// ===== the code ======================================================================================

//@ file imap-types/src/secret.rs
//@ struct Secret
//@ impl Secret<T> {
//@ fn new -> r
    ensures r.0 == inner,
//@ endfn
//@ fn declassify -> r
    ensures *r == self.0,
//@ endfn
//@ endimpl
//@ impl Debug for Secret<T> {
    /// Whatever the content is.
    spec fn open(&self) -> bool { true }
//@ fn fmt
//@ endfn
//@ endimpl
//@ secrets Secret imap-types/src/secret.rs imap-types/src/command.rs imap-types/src/auth.rs imap-types/src/response.rs imap-types/src/core.rs imap-codec/src/fragmentizer.rs imap-codec/src/codec/decode.rs imap-codec/src/codec/encode.rs imap-codec/src/codec.rs
//@ literals
}
fn main() {}
